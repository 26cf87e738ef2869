// Package conf checks the program: that it does what its configuration says.
package conf

import (
	"crypto"
	"crypto/tls"
	"encoding/base64"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"net"
	"net/http"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/kit"
	"verif/props/wire"
)

const patience = wire.Patience

// A side is the program or the reference. Each has an address for its
// listeners, and upstream servers of its own at another one.
type side int

const (
	program side = iota
	model
)

var (
	ownIP = [2]string{wire.Near(0), wire.Near(1)}
	upIP  = [2]string{wire.Near(2), wire.Near(3)}
)

// Certificates.
var (
	ipCert = sync.OnceValue(func() wire.Files {
		return wire.Issue(append(append([]string{"one.test", "two.test"}, ownIP[:]...), upIP[:]...), false)
	})
	nameCert   = sync.OnceValue(func() wire.Files { return wire.Issue([]string{"up.test", "other.test"}, false) })
	clientCert = sync.OnceValue(func() wire.Files { return wire.Issue([]string{"client.test"}, true) })
)

// seen has the queries that came to upstream servers.
var seen, logged, stored journal

// journal has what happened on either side.
type journal struct {
	sync.Mutex
	list [2][]string
}

func (j *journal) note(k side, s string) {
	j.Lock()
	j.list[k] = append(j.list[k], s)
	j.Unlock()
}

// get returns what one side did so far, sorted.
func (j *journal) get(k side) []string {
	j.Lock()
	defer j.Unlock()
	out := append([]string(nil), j.list[k]...)
	sort.Strings(out)
	return out
}

func (j *journal) clear() {
	j.Lock()
	j.list = [2][]string{}
	j.Unlock()
}

// set is a sorted list without repetitions.
func set(list []string) []string { return slices.Compact(list) }

// same waits until both sides did the same.
func (j *journal) same(wait time.Duration, as func([]string) []string) error {
	for t0 := time.Now(); ; time.Sleep(5 * time.Millisecond) {
		a, b := j.get(program), j.get(model)
		if as != nil {
			a, b = as(a), as(b)
		}
		if slices.Equal(a, b) {
			return nil
		}
		if time.Since(t0) > wait {
			return fmt.Errorf("%s\nexpected\n%s", strings.Join(a, "\n"), strings.Join(b, "\n"))
		}
	}
}

// Server is an upstream server.
type Server struct {
	Tag   int    `json:"tag"`
	Proto string `json:"proto"` // as in T01
	Name  bool   `json:"name,omitempty"`
	Auth  bool   `json:"auth,omitempty"` // clients need a certificate
	Std   bool   `json:"std,omitempty"`  // at the port that is the default
}

var (
	serversMu sync.Mutex
	servers   = [2]map[Server]string{{}, {}}
	nextPort  = 10000
)

func datagrams(proto string) bool {
	return proto == "udp" || proto == "dtls" || proto == "doq" || proto == "doh3"
}

var stdPorts = map[string]int{"udp": 53, "tcp": 53, "dot": 853, "dtls": 853, "doq": 8853, "doh": 443, "doh3": 443, "odoh": 443}

// ports returns the first of n free ports of all addresses of this process.
func ports(n int) int {
	if nextPort += n; nextPort > 31000 {
		nextPort = 12000
	}
	return nextPort - n
}

// slowness is the time until slow.test. is answered.
const slowness = 8 * time.Second

const odohSeed = "0102030405060708090a0b0c0d0e0f10"

// addr starts the server of a side, unless it runs, and returns its port.
func (s Server) start(k side) (string, error) {
	serversMu.Lock()
	defer serversMu.Unlock()
	if a, ok := servers[k][s]; ok {
		return a, nil
	}
	p := ports(1)
	if s.Std {
		p = stdPorts[s.Proto]
	}
	a := net.JoinHostPort(upIP[k], fmt.Sprint(p))
	answer := func(q *dns.Msg, ci rdns.ClientInfo, how string) *dns.Msg {
		if s.Tag == bootTag {
			return bootstrap(k, q)
		}
		if t := q.Question[0].Qtype; q.CheckingDisabled && (t == dns.TypeDNSKEY || t == dns.TypeDS) {
			return upstream(s.Tag, datagrams(s.Proto), q) // of a validator
		}
		n := fmt.Sprintf("%d %s %s from %v for %q path %q: %s", s.Tag, s.Proto, how, ci.SourceIP, ci.TLSServerName, ci.DoHPath, kit.HeadText(unpadded(q)))
		seen.note(k, strings.ReplaceAll(n, upIP[k], "{UP}"))
		if q.Question[0].Name == "slow.test." {
			time.Sleep(slowness)
		}
		return upstream(s.Tag, datagrams(s.Proto), q)
	}
	r := &kit.Up{ID: "up", F: func(_ int, q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) { return answer(q, ci, ""), nil }}
	f := ipCert()
	if s.Name {
		f = nameCert()
	}
	ca := ""
	if s.Auth {
		ca = wire.CA()
	}
	var t *tls.Config
	var err error
	if s.Proto != "udp" && s.Proto != "tcp" && s.Proto != "dtls" {
		if t, err = rdns.TLSServerConfig(ca, f.Crt, f.Key, s.Auth); err != nil {
			return "", err
		}
	}
	var l rdns.Listener
	switch s.Proto {
	case "udp", "tcp":
		l = rdns.NewDNSListener("up", a, s.Proto, rdns.ListenOptions{}, r)
	case "dot":
		l = rdns.NewDoTListener("up", a, "", rdns.DoTListenerOptions{TLSConfig: t}, r)
	case "dtls":
		c, err := rdns.DTLSServerConfig(ca, f.Crt, f.Key, s.Auth)
		if err != nil {
			return "", err
		}
		l = rdns.NewDTLSListener("up", a, rdns.DTLSListenerOptions{DTLSConfig: c}, r)
	case "doq":
		l = rdns.NewQUICListener("up", a, rdns.DoQListenerOptions{TLSConfig: t}, r)
	case "doh":
		l = &webServer{addr: a, tls: t, answer: answer}
	case "doh3":
		l, err = rdns.NewDoHListener("up", a, rdns.DoHListenerOptions{TLSConfig: t, Transport: "quic"}, r)
	case "odoh":
		l, err = rdns.NewODoHListener("up", a, rdns.ODoHListenerOptions{TLSConfig: t, OdohMode: "dual", KeySeed: odohSeed}, r)
	default:
		panic("verif: " + s.Proto)
	}
	if err != nil {
		return "", err
	}
	if _, err := wire.Start(l, a, datagrams(s.Proto)); err != nil {
		return "", err
	}
	servers[k][s] = fmt.Sprint(p)
	return fmt.Sprint(p), nil
}

// webServer is a DoH server that sees how it is asked.
type webServer struct {
	addr   string
	tls    *tls.Config
	answer func(q *dns.Msg, ci rdns.ClientInfo, how string) *dns.Msg
}

func (s *webServer) Start() error {
	h := &http.Server{Addr: s.addr, TLSConfig: s.tls, Handler: s, ErrorLog: log.New(io.Discard, "", 0)}
	return h.ListenAndServeTLS("", "")
}

func (s *webServer) Stop() error    { return nil }
func (s *webServer) String() string { return "web" }

func (s *webServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	b, err := io.ReadAll(r.Body)
	if r.Method == "GET" {
		b, err = base64.RawURLEncoding.DecodeString(r.URL.Query().Get("dns"))
	}
	q := new(dns.Msg)
	if err == nil {
		err = q.Unpack(b)
	}
	if err != nil {
		http.Error(w, err.Error(), 400)
		return
	}
	host, _, _ := net.SplitHostPort(r.RemoteAddr)
	ci := rdns.ClientInfo{SourceIP: net.ParseIP(host), DoHPath: r.URL.Path, TLSServerName: r.TLS.ServerName}
	b, err = s.answer(q, ci, r.Method).Pack()
	if err != nil {
		panic(err)
	}
	w.Header().Set("Content-Type", "application/dns-message")
	w.Write(b)
}

// bootTag is the tag of the server that knows where the others are.
const bootTag = 3

func bootstrap(k side, q *dns.Msg) *dns.Msg {
	m := new(dns.Msg)
	m.SetReply(q)
	if n := q.Question[0]; strings.EqualFold(n.Name, "up.test.") {
		if n.Qtype == dns.TypeA {
			m.Answer = []dns.RR{kit.RR("up.test. 300 IN A " + upIP[k])}
		}
		return m
	}
	m.Rcode = dns.RcodeNameError
	return m
}

// unpadded is m without padding.
func unpadded(m *dns.Msg) *dns.Msg {
	m = m.Copy()
	if o := m.IsEdns0(); o != nil {
		var keep []dns.EDNS0
		for _, p := range o.Option {
			if p.Option() != dns.EDNS0PADDING {
				keep = append(keep, p)
			}
		}
		o.Option = keep
	}
	return m
}

func hash(s string) uint32 {
	h := fnv.New32a()
	h.Write([]byte(strings.ToLower(s)))
	return h.Sum32()
}

var ttls = []uint32{200, 1000, 3000, 5000, 20000}

// upstream is what the upstream server with a tag answers. The first label of
// the name says what kind of answer that is: nx, sf, em, rf, tc, cn, fl<tag>
// (failing there only), no<tag> (nothing there only), mt<tag> (empty there only), many, pr (probes).
func upstream(tag int, datagram bool, q *dns.Msg) *dns.Msg {
	m := new(dns.Msg)
	m.SetReply(q)
	m.RecursionAvailable = true
	if o := q.IsEdns0(); o != nil {
		m.SetEdns0(1232, o.Do())
	}
	if len(q.Question) == 0 {
		m.Rcode = dns.RcodeFormatError
		return m
	}
	qq := q.Question[0]
	kind := strings.ToLower(dns.SplitDomainName(qq.Name + "x.")[0])
	soa := func() {
		m.Ns = append(m.Ns, kit.RR(fmt.Sprintf("test. %d IN SOA ns%d.test. host.test. 1 2 3 4 %d", ttls[hash(qq.Name)%5], tag, ttls[hash(qq.Name)%3])))
	}
	if secure(m, tag, qq, q) {
		return m
	}
	switch {
	case strings.HasPrefix(kind, "nx"):
		m.Rcode = dns.RcodeNameError
		soa()
		return m
	case strings.HasPrefix(kind, "sf"), kind == fmt.Sprintf("fl%d", tag):
		m.Rcode = dns.RcodeServerFailure
		return m
	case strings.HasPrefix(kind, "em"), kind == fmt.Sprintf("mt%d", tag):
		soa()
		return m
	case strings.HasPrefix(kind, "rf"):
		m.Rcode = dns.RcodeRefused
		return m
	case kind == fmt.Sprintf("no%d", tag):
		return nil
	case strings.HasPrefix(kind, "tc") && datagram:
		m.Truncated = true
		return m
	}
	name := qq.Name
	add := func(f string, args ...any) {
		h := hash(fmt.Sprint(f, args, tag))
		m.Answer = append(m.Answer, kit.RR(fmt.Sprintf("%s %d IN ", name, ttls[h%5])+fmt.Sprintf(f, args...)))
	}
	if strings.HasPrefix(kind, "cn") {
		t := []string{"www.example.com.", "ads.test.org.", "x.block.net."}[hash(name)%3]
		add("CNAME %s", t)
		name = t
	}
	h := hash(name)
	n := 1 + int(h%2)
	if strings.HasPrefix(kind, "many") {
		n = 4
	}
	for i := 0; i < n; i++ {
		switch qq.Qtype {
		case dns.TypeA:
			if strings.HasPrefix(kind, "pr") {
				add("A %s", upIP[i%2])
				add("A %s", upIP[1-i%2])
			} else {
				add("A 127.%d.%d.%d", 210+10*(h>>4%3), tag, h>>8%4*4+uint32(i))
			}
		case dns.TypeAAAA:
			if h>>5%2 == 0 {
				add("AAAA 2001:db8:%d::%x:%d", tag, h>>8%4, i)
			}
		case dns.TypeTXT:
			add(`TXT "t%d" "%s"`, tag, strings.Repeat("y", int(h>>8%200)))
		case dns.TypeMX:
			add("MX %d mx%d.%s.", i, tag, []string{"example.com", "test.org", "block.net"}[h%3])
		case dns.TypePTR:
			add("PTR host%d.%s.", tag, []string{"example.com", "test.org", "block.net"}[h%3])
		case dns.TypeNS:
			add("NS ns%d.example.com.", tag)
		case dns.TypeSRV:
			add("SRV 1 2 3 srv%d.test.org.", tag)
		case dns.TypeCNAME:
			add("CNAME c%d.test.org.", tag)
			i = n
		}
	}
	if len(m.Answer) == 0 {
		soa()
	}
	if h>>3%2 == 0 {
		m.Ns = append(m.Ns, kit.RR(fmt.Sprintf("test. 5000 IN NS ns%d.test.", tag)))
		m.Extra = append([]dns.RR{kit.RR(fmt.Sprintf("ns%d.test. 5000 IN A 10.9.9.%d", tag, tag))}, m.Extra...)
	}
	return m
}

// The zone sec. is signed; names with bad in them have wrong signatures.
var secKey = sync.OnceValue(func() *dns.DNSKEY {
	k := &dns.DNSKEY{Hdr: dns.RR_Header{Name: "sec.", Rrtype: dns.TypeDNSKEY, Class: dns.ClassINET, Ttl: 5000}, Flags: 257, Protocol: 3, Algorithm: dns.ED25519}
	p, err := k.Generate(256)
	if err != nil {
		panic(err)
	}
	secSign = func(rrs []dns.RR) *dns.RRSIG {
		s := &dns.RRSIG{Algorithm: k.Algorithm, KeyTag: k.KeyTag(), SignerName: "sec.", Inception: secFrom, Expiration: secFrom + 20*86400}
		if err := s.Sign(p.(crypto.Signer), rrs); err != nil {
			panic(err)
		}
		return s
	}
	return k
})

var (
	secSign func([]dns.RR) *dns.RRSIG
	secFrom = uint32(time.Now().Unix() - 10*86400)
)

// secure answers for the signed zone.
func secure(m *dns.Msg, tag int, qq dns.Question, q *dns.Msg) bool {
	name := strings.ToLower(qq.Name)
	if !dns.IsSubDomain("sec.", name) {
		return false
	}
	k := secKey()
	o := q.IsEdns0()
	var rrs []dns.RR
	switch {
	case name == "sec." && qq.Qtype == dns.TypeDNSKEY:
		rrs = []dns.RR{k}
	case qq.Qtype == dns.TypeA:
		rrs = []dns.RR{kit.RR(fmt.Sprintf("%s 5000 IN A 10.7.7.%d", name, tag))}
	default:
		m.Rcode = dns.RcodeServerFailure
		return true
	}
	m.Answer = append(m.Answer, rrs...)
	if o != nil && o.Do() {
		sig := secSign(rrs)
		if strings.Contains(name, "bad") {
			sig.Signature = "AAAA" + sig.Signature[4:]
		}
		m.Answer = append(m.Answer, sig)
	}
	return true
}
