package wire

import (
	"fmt"
	"net"
	"strings"
	"sync"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"github.com/pion/dtls/v3"
	"pgregory.net/rapid"

	"verif/kit"
)

// Through is a set of queries sent through a resolver of one transport to a
// listener of the same transport.
type Through struct {
	Proto string `json:"proto"`
	Get   bool   `json:"get,omitempty"`  // DoH by GET
	Path  string `json:"path,omitempty"` // DoH
	Size  uint16 `json:"size,omitempty"` // edns0-udp-size of the resolver
	Early bool   `json:"early,omitempty"`
	Boot  bool   `json:"boot,omitempty"` // address by name, with bootstrap address
	Local int    `json:"local,omitempty"`
	V6    bool   `json:"v6,omitempty"`
	Asks  []Ask  `json:"asks"`
}

// Ask is one query with what the resolver behind the listener does with it.
type Ask struct {
	Wave  int   `json:"wave"` // queries of one wave are sent at the same time
	Q     kit.Q `json:"q"`
	R     kit.R `json:"r"`
	Delay int   `json:"delay,omitempty"` // ms
	Fill  int   `json:"fill,omitempty"`  // bytes of further records
}

func (a Ask) reply(q *dns.Msg) (*dns.Msg, error) {
	return Handled{R: a.R, Fill: a.Fill, Chunk: 200}.reply(q)
}

func genThrough(t *rapid.T) Through {
	c := Through{Proto: kit.Pick(t, "proto", transports...)}
	if c.Proto == DoH || c.Proto == DoH3 {
		c.Get = kit.Chance(t, "get", 50)
		c.Path = kit.Pick(t, "path", "/", "/dns-query", "/a/b%20c", "/x")
	}
	if c.Proto == UDP || c.Proto == TCP || c.Proto == DTLS {
		c.Size = kit.Pick[uint16](t, "size", 0, 0, 512, 1232, 4096)
	}
	if c.Proto == DoQ || c.Proto == DoH3 && c.Get {
		c.Early = kit.Chance(t, "early", 40)
	}
	if c.Proto != UDP && c.Proto != TCP {
		c.Boot = kit.Chance(t, "boot", 50)
	}
	c.V6 = kit.Chance(t, "v6", 20)
	switch quic := c.Proto == DoQ || c.Proto == DoH3; {
	case quic && c.V6:
		c.Local = kit.Pick(t, "local", 0, 0, 3, 4)
	case c.V6:
		c.Local = kit.Pick(t, "local", 0, 0, 3, 4, 5, 6)
	case quic:
		c.Local = kit.Pick(t, "local", 0, 0, 1, 2, 3)
	default:
		c.Local = kit.Pick(t, "local", 0, 0, 1, 2, 3, 4, 5, 6)
	}
	wave := 0
	c.Asks = kit.List(t, "asks", 1, 7, func(t *rapid.T) Ask {
		if kit.Chance(t, "nextwave", 30) {
			wave++
		}
		a := Ask{Wave: wave, Q: kit.GenQ(t, 0, 3), R: genReply(t, 3)}
		a.Delay = kit.Pick(t, "delay", 0, 0, 0, 1, 3)
		if kit.Chance(t, "big", 15) {
			a.Fill = kit.Pick(t, "fill", 300, 900, 3000, 4000, 5000, 12000, 30000, 60000)
			if c.Proto == DTLS {
				a.Fill = min(a.Fill, 5000) // the library takes records of up to 8192 bytes
			}
		}
		a.Q.More = nil
		a.Q.ID = kit.Pick[uint16](t, "id", 0, 1, 1, 2, 65535)
		a.Q.Opcode = kit.Pick(t, "opcode", 0, 0, 0, 0, 0, dns.OpcodeNotify)
		if (c.Proto == DoQ || c.Proto == DoH || c.Proto == DoH3) && kit.Chance(t, "update", 10) {
			a.Q.Opcode = dns.OpcodeUpdate
		}
		return a
	})
	return c
}

// genReply draws a response of up to n records per section.
func genReply(t *rapid.T, n int) kit.R {
	if kit.Chance(t, "err", 10) {
		return kit.R{Err: "failed"}
	}
	owner := func() string { return kit.Pick(t, "owner", "q0.test.", "a.q1.test.", "x.test.", "A.test.", "q2.a.") }
	types := []uint16{dns.TypeA, dns.TypeAAAA, dns.TypeCNAME, dns.TypeMX, dns.TypeTXT, dns.TypeSRV, dns.TypeSOA, dns.TypeHTTPS, dns.TypeDS, 65280}
	r := kit.R{
		Rcode: kit.Pick(t, "rcode", 0, 0, 0, 3, 2, 5, 9),
		AA:    kit.Chance(t, "aa", 20), RA: kit.Chance(t, "ra", 70), AD: kit.Chance(t, "ad", 20),
		An: kit.GenRRs(t, "an", owner(), 0, n, types...),
		Ns: kit.GenRRs(t, "ns", owner(), 0, n, types...),
		Ex: kit.GenRRs(t, "ex", owner(), 0, n, types...),
	}
	if kit.Chance(t, "redns", 50) {
		r.EDNS = kit.GenEDNS(t)
	}
	if r.EDNS != nil && kit.Chance(t, "xrcode", 10) {
		r.Rcode = kit.Pick(t, "xr", 16, 23, 4095)
	}
	return r
}

// tag makes the names of the queries of a case distinct.
func tag(i int, name string) string {
	s := fmt.Sprintf("q%d.%s", i, strings.TrimPrefix(name, "."))
	if _, ok := dns.IsDomainName(s); !ok || len(s) > 250 {
		return fmt.Sprintf("q%d.long.test.", i)
	}
	return s
}

func untag(name string) int {
	i := -1
	fmt.Sscanf(strings.ToLower(name), "q%d.", &i)
	return i
}

// bare removes padding (and, if told so, an OPT record with nothing in it).
func bare(m *dns.Msg) *dns.Msg {
	m = m.Copy()
	if o := m.IsEdns0(); o != nil {
		var keep []dns.EDNS0
		for _, p := range o.Option {
			if p.Option() != dns.EDNS0PADDING {
				keep = append(keep, p)
			}
		}
		o.Option = keep
		m.Extra = append(withoutOPT(m).Extra, o)
	}
	return m
}

func withoutOPT(m *dns.Msg) *dns.Msg {
	m = m.Copy()
	var keep []dns.RR
	for _, rr := range m.Extra {
		if rr.Header().Rrtype != dns.TypeOPT {
			keep = append(keep, rr)
		}
	}
	m.Extra = keep
	return m
}

// wired is a message after having been on the wire.
func wired(m *dns.Msg) (*dns.Msg, error) {
	b, err := m.Pack()
	if err != nil {
		return nil, err
	}
	w := new(dns.Msg)
	return w, w.Unpack(b)
}

func padding(m *dns.Msg) (int, bool) {
	if o := m.IsEdns0(); o != nil {
		for _, p := range o.Option {
			if e, ok := p.(*dns.EDNS0_PADDING); ok {
				return len(e.Padding), true
			}
		}
	}
	return 0, false
}

var padded = map[string]bool{DoT: true, DTLS: true, DoH: true, DoH3: true}

// newClient builds the resolver.
func (c Through) newClient(id, addr string, timeout time.Duration) (rdns.Resolver, error) {
	host, prt, _ := net.SplitHostPort(addr)
	boot := ""
	if c.Boot {
		boot = host
		host = "dns.test"
	}
	at := net.JoinHostPort(host, prt)
	var local, local4, local6 net.IP
	switch c.Local {
	case 1:
		local = net.ParseIP("127.0.0.9")
	case 2:
		local, local4 = net.ParseIP("127.0.0.8"), net.ParseIP("127.0.0.7")
	case 3:
		local4, local6 = net.ParseIP("127.0.0.7"), net.ParseIP("::1")
	case 4:
		local6 = net.ParseIP("::1")
	case 5:
		local, local4 = net.ParseIP("::1"), net.ParseIP("127.0.0.7")
	case 6:
		local, local6 = net.ParseIP("127.0.0.9"), net.ParseIP("::1")
	}
	tlsc, err := rdns.TLSClientConfig(ourCA().file, "", "", "")
	if err != nil {
		return nil, err
	}
	switch c.Proto {
	case UDP, TCP:
		return rdns.NewDNSClient(id, at, c.Proto, rdns.DNSClientOptions{LocalAddr: local, LocalAddrV4: local4, LocalAddrV6: local6, UDPSize: c.Size, QueryTimeout: timeout})
	case DoT:
		return rdns.NewDoTClient(id, at, rdns.DoTClientOptions{BootstrapAddr: boot, LocalAddr: local, LocalAddrV4: local4, LocalAddrV6: local6, TLSConfig: tlsc, QueryTimeout: timeout})
	case DTLS:
		var d *dtls.Config
		if d, err = rdns.DTLSClientConfig(ourCA().file, "", ""); err != nil {
			return nil, err
		}
		return rdns.NewDTLSClient(id, at, rdns.DTLSClientOptions{BootstrapAddr: boot, LocalAddr: local, LocalAddrV4: local4, LocalAddrV6: local6, UDPSize: c.Size, DTLSConfig: d, QueryTimeout: timeout})
	case DoQ:
		return rdns.NewDoQClient(id, at, rdns.DoQClientOptions{BootstrapAddr: boot, LocalAddr: local, LocalAddrV4: local4, LocalAddrV6: local6, TLSConfig: tlsc, Use0RTT: c.Early, QueryTimeout: timeout})
	case DoH, DoH3:
		o := rdns.DoHClientOptions{BootstrapAddr: boot, LocalAddr: local, LocalAddrV4: local4, LocalAddrV6: local6, TLSConfig: tlsc, QueryTimeout: timeout}
		url := "https://" + at + c.Path
		if c.Get {
			url += "{?dns}"
			o.Method = "GET"
		}
		if c.Proto == DoH3 {
			o.Transport = "quic"
			o.Use0RTT = c.Early
		}
		return rdns.NewDoHClient(id, url, o)
	}
	panic("transport " + c.Proto)
}

// haveV6 says if the loopback network has an IPv6 address.
var haveV6 = sync.OnceValue(func() bool {
	c, err := net.ListenPacket("udp", "[::1]:0")
	if err != nil {
		return false
	}
	c.Close()
	return true
})

// freePort6 returns an address other processes may take as well.
func freePort6(datagram bool) string {
	if datagram {
		c, err := net.ListenPacket("udp", "[::1]:0")
		if err != nil {
			panic("verif: " + err.Error())
		}
		defer c.Close()
		return c.LocalAddr().String()
	}
	l, err := net.Listen("tcp", "[::1]:0")
	if err != nil {
		panic("verif: " + err.Error())
	}
	defer l.Close()
	return l.Addr().String()
}

func runThrough(x *kit.Ctx, c Through) error {
	msgs := make([]*dns.Msg, len(c.Asks))
	for i, a := range c.Asks {
		a.Q.Name = tag(i, a.Q.Name)
		msgs[i] = a.Q.Msg()
	}
	up := &kit.Up{ID: "up", F: func(_ int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) {
		i := untag(q.Question[0].Name)
		if i < 0 || i >= len(c.Asks) {
			return nil, fmt.Errorf("unknown query")
		}
		if d := c.Asks[i].Delay; d > 0 {
			time.Sleep(time.Duration(d) * time.Millisecond)
		}
		return c.Asks[i].reply(q)
	}}
	if c.V6 && !haveV6() {
		x.Label("no IPv6")
		return nil
	}
	var addr string
	for try := 0; ; try++ {
		addr = net.JoinHostPort(here, fmt.Sprint(port()))
		if c.V6 {
			addr = freePort6(datagrams(c.Proto))
		}
		l, err := newListener(c.Proto, "listener", addr, rdns.ListenOptions{}, up)
		if err != nil {
			return fmt.Errorf("listener: %v", err)
		}
		stop, err := start(l, addr, datagrams(c.Proto))
		if err == nil {
			defer stop()
			break
		}
		if !c.V6 || try == 20 {
			return err
		}
	}
	client, err := c.newClient("client", addr, patience)
	if err != nil {
		return fmt.Errorf("resolver: %v", err)
	}

	type reply struct {
		a   *dns.Msg
		err error
	}
	replies := make([]reply, len(c.Asks))
	for at := 0; at < len(c.Asks); {
		var wg sync.WaitGroup
		for w := c.Asks[at].Wave; at < len(c.Asks) && c.Asks[at].Wave == w; at++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				q := msgs[i].Copy()
				replies[i].a, replies[i].err = client.Resolve(q, rdns.ClientInfo{})
				if s, w := kit.Text(q), kit.Text(msgs[i]); s != w {
					replies[i].err = fmt.Errorf("the query was changed by the resolver: it is\n%swas\n%s", s, w)
				}
			}(at)
		}
		wg.Wait()
	}

	seen := map[int]int{}
	for _, call := range up.Calls() {
		i := untag(call.Q.Question[0].Name)
		if i < 0 || i >= len(c.Asks) {
			return fmt.Errorf("the listener passed on a query that nobody sent:\n%s", kit.Text(call.Q))
		}
		seen[i]++
		if err := c.checkQuery(msgs[i], call, addr); err != nil {
			return fmt.Errorf("query %d: %v", i, err)
		}
	}
	for i, a := range c.Asks {
		if seen[i] != 1 {
			return fmt.Errorf("query %d reached the listener's resolver %d times, client got %v, %v", i, seen[i], replies[i].a, replies[i].err)
		}
		if replies[i].err != nil {
			return fmt.Errorf("query %d failed: %v", i, replies[i].err)
		}
		if err := c.checkReply(x, msgs[i], a, replies[i].a); err != nil {
			return fmt.Errorf("query %d: %v", i, err)
		}
		x.LabelIf(a.R.Err != "", "upstream error")
		x.LabelIf(a.Q.EDNS != nil, "EDNS")
	}
	x.Label("%s", c.Proto)
	x.LabelIf(c.Get, "GET")
	if len(c.Asks) > 1 {
		x.NonTrivial()
	}
	return nil
}

// checkQuery compares what arrived at the resolver behind the listener with
// the query that was sent.
func (c Through) checkQuery(sent *dns.Msg, call kit.Call, addr string) error {
	want := sent.Copy()
	if c.Size != 0 {
		if o := want.IsEdns0(); o != nil {
			o.SetUDPSize(c.Size)
		} else {
			want.SetEdns0(c.Size, false)
		}
	}
	if c.Proto == DoQ {
		if o := want.IsEdns0(); o != nil {
			var keep []dns.EDNS0
			for _, p := range o.Option {
				if p.Option() != dns.EDNS0TCPKEEPALIVE {
					keep = append(keep, p)
				}
			}
			o.Option = keep
		}
	}
	want, err := wired(want)
	if err != nil {
		return fmt.Errorf("verif: %v", err)
	}
	if g, w := kit.HeadText(bare(call.Q)), kit.HeadText(bare(want)); g != w {
		return fmt.Errorf("the listener passed on\n%sbut sent was\n%s", g, w)
	}
	switch n, ok := padding(call.Q); {
	case c.Proto == DoQ:
	case !padded[c.Proto] && ok:
		return fmt.Errorf("the query over %s was padded", c.Proto)
	case padded[c.Proto] && sent.IsEdns0() != nil || c.Proto == DTLS && c.Size != 0:
		b, err := call.Q.Pack()
		if err != nil {
			return fmt.Errorf("verif: %v", err)
		}
		if !ok || len(b)%128 != 0 {
			return fmt.Errorf("the query over %s has %d bytes, %d of them padding; it should be padded to a multiple of 128", c.Proto, len(b), n)
		}
	}
	ci := call.CI
	src := "127.0.0.1"
	switch c.Local {
	case 1, 6:
		src = "127.0.0.9"
	case 2, 3, 5:
		src = "127.0.0.7"
	}
	if c.V6 {
		src = "::1"
	}
	if !ci.SourceIP.Equal(net.ParseIP(src)) && !(c.Local == 0 && ci.SourceIP.IsLoopback()) {
		return fmt.Errorf("source address is %v instead of %v", ci.SourceIP, src)
	}
	proto := c.Proto
	if proto == DoH3 {
		proto = DoH
	}
	path := ""
	if proto == DoH {
		path = strings.ReplaceAll(c.Path, "%20", " ")
	}
	name := ""
	if c.Boot && c.Proto != DTLS {
		name = "dns.test"
	}
	if ci.Listener != "listener" || ci.Protocol != proto || ci.ListenerAddr != addr || ci.DoHPath != path || ci.TLSServerName != name {
		return fmt.Errorf("client information is %+v; want protocol %q, address %q, path %q, server name %q", ci, proto, addr, path, name)
	}
	return nil
}

// checkReply compares what the client got with what the resolver answered.
func (c Through) checkReply(x *kit.Ctx, sent *dns.Msg, a Ask, got *dns.Msg) error {
	if got == nil {
		return fmt.Errorf("no answer")
	}
	if got.Id != sent.Id {
		return fmt.Errorf("the answer has ID %d, the query %d", got.Id, sent.Id)
	}
	if a.R.Err != "" {
		if got.Rcode != dns.RcodeServerFailure || !got.Response || len(got.Answer)+len(got.Ns) != 0 {
			return fmt.Errorf("the resolver failed, the answer is\n%s", kit.Text(got))
		}
		return kit.SameQuestion(sent, got)
	}
	want, _ := a.reply(sent)
	limit := 65535
	if c.Proto == UDP || c.Proto == DTLS {
		limit = 512
		if o := sent.IsEdns0(); o != nil {
			limit = max(limit, int(o.UDPSize()))
		}
		if c.Size != 0 {
			limit = max(512, int(c.Size))
		}
	}
	return sameUpTo(x, want, got, limit)
}
