package wire

import (
	"crypto/x509"
	"errors"
	"fmt"
	"net"
	"strings"
	"sync"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"github.com/pion/dtls/v3"
	"pgregory.net/rapid"

	"verif/kit"
)

// Auth is a resolver that connects to a listener, with certificates.
type Auth struct {
	Proto  string   `json:"proto"`
	Host   string   `json:"host,omitempty"`  // of the endpoint; "": the address
	Boot   bool     `json:"boot,omitempty"`  // connect to the bootstrap address
	Name   string   `json:"name,omitempty"`  // configured server name
	Trust  int      `json:"trust,omitempty"` // the authority the client trusts
	Local  bool     `json:"local,omitempty"` // with a local address
	Early  bool     `json:"early,omitempty"` // 0-RTT
	Server Cert     `json:"server"`
	Mutual bool     `json:"mutual,omitempty"`
	CA     int      `json:"ca,omitempty"` // the authority the listener trusts
	Client *Cert    `json:"client,omitempty"`
	Names  []string `json:"names"`
}

// Cert describes a certificate.
type Cert struct {
	By    int      `json:"by,omitempty"` // 0 and 1 are authorities, 2 is itself
	Names []string `json:"names,omitempty"`
	When  string   `json:"when,omitempty"` // expired, early
	Use   string   `json:"use"`            // server, client, both
}

var authorities = sync.OnceValue(func() []*authority {
	return []*authority{ourCA(), newAuthority("theirs")}
})

var certNames = []string{"dns.test", "localhost", "HERE", "127.0.0.1", "a.dns.test", "*.dns.test", "*.test", "DNS.test", "test", "::1"}

func genCert(t *rapid.T, label, use string) Cert {
	c := Cert{Use: use}
	if kit.Chance(t, label+" both", 15) {
		c.Use = "both"
	}
	if kit.Chance(t, label+" bad", 25) {
		switch kit.Int(t, label+" how", 0, 4) {
		case 0:
			c.By = 2
		case 1:
			c.When = "expired"
		case 2:
			c.When = "early"
		case 3:
			c.Use = map[string]string{"server": "client", "client": "server"}[use]
		default:
			c.By = 1
		}
	}
	return c
}

func genAuth(t *rapid.T) Auth {
	c := Auth{Proto: kit.Pick(t, "proto", DoT, DTLS, DoQ, DoH, DoH3)}
	switch kit.Int(t, "endpoint", 0, 3) {
	case 0:
		c.Host, c.Boot = kit.Pick(t, "host", "dns.test", "a.dns.test", "DNS.test", "localhost", "x.test"), true
	case 1:
		c.Host = "localhost"
	case 2:
		c.Host, c.Boot = "localhost", kit.Chance(t, "boot", 30)
	}
	if kit.Chance(t, "name", 40) {
		c.Name = kit.Pick(t, "server name", "dns.test", "a.dns.test", "localhost", "b.a.dns.test", "DNS.TEST")
	}
	c.Trust = kit.Pick(t, "trust", 0, 0, 0, 0, 0, 0, 1)
	c.Local = kit.Chance(t, "local", 10)
	c.Early = kit.Chance(t, "early", 10)
	c.Server = genCert(t, "server", "server")
	c.Server.Names = kit.List(t, "names", 0, 3, func(t *rapid.T) string { return kit.Pick(t, "san", certNames...) })
	if kit.Chance(t, "fit", 70) { // the right one among them
		n := c.Name
		if n == "" {
			n = c.Host
		}
		if n == "" {
			n = "HERE"
		}
		c.Server.Names = append(c.Server.Names, n)
	}
	if c.Mutual = kit.Chance(t, "mutual", 40); c.Mutual {
		c.CA = kit.Pick(t, "ca", 0, 0, 0, 1)
	}
	if kit.Chance(t, "client", 30) || c.Mutual && kit.Chance(t, "has", 75) {
		k := genCert(t, "client", "client")
		c.Client = &k
	}
	c.Names = kit.List(t, "queries", 1, 3, func(t *rapid.T) string { return kit.Pick(t, "query", "a.test.", "b.test.", "c.test.") })
	return c
}

// make makes the certificate.
func (k Cert) make(ip string) (*x509.Certificate, pair) {
	t := &x509.Certificate{
		NotBefore: time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: time.Date(2120, 1, 1, 0, 0, 0, 0, time.UTC),
		KeyUsage: x509.KeyUsageDigitalSignature,
	}
	switch k.When {
	case "expired":
		t.NotAfter = time.Date(1995, 1, 1, 0, 0, 0, 0, time.UTC)
	case "early":
		t.NotBefore = time.Date(2119, 1, 1, 0, 0, 0, 0, time.UTC)
	}
	if k.Use != "client" {
		t.ExtKeyUsage = append(t.ExtKeyUsage, x509.ExtKeyUsageServerAuth)
	}
	if k.Use != "server" {
		t.ExtKeyUsage = append(t.ExtKeyUsage, x509.ExtKeyUsageClientAuth)
	}
	for _, s := range k.Names {
		if s == "HERE" {
			s = ip
		}
		if a := net.ParseIP(s); a != nil {
			t.IPAddresses = append(t.IPAddresses, a)
		} else {
			t.DNSNames = append(t.DNSNames, s)
		}
	}
	var a *authority
	if k.By < 2 {
		a = authorities()[k.By]
	}
	return sign(a, t)
}

// valid says if a certificate is good for a use and, if one is given, a name.
func (k Cert) valid(cert *x509.Certificate, trust int, name string, use x509.ExtKeyUsage) bool {
	_, err := cert.Verify(x509.VerifyOptions{Roots: authorities()[trust].pool(), DNSName: name, KeyUsages: []x509.ExtKeyUsage{use}})
	return err == nil
}

func runAuth(x *kit.Ctx, c Auth) error {
	ip := here
	if c.Host == "localhost" && !c.Boot {
		ip = "127.0.0.1"
		if ips, err := net.LookupIP("localhost"); err != nil || ips[0].String() != ip {
			x.Label("no localhost")
			return nil
		}
	}
	addr, release, err := reserve(ip)
	if err != nil {
		return err
	}
	defer release()
	cert, files := c.Server.make(ip)
	up := &kit.Up{ID: "up", F: func(_ int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) {
		a := new(dns.Msg)
		a.SetReply(q)
		a.Answer = []dns.RR{&dns.A{Hdr: dns.RR_Header{Name: q.Question[0].Name, Rrtype: dns.TypeA, Class: 1, Ttl: 60}, A: net.IP{10, 0, 0, 1}}}
		return a, nil
	}}
	l, err := c.listener(addr, files, up)
	if err != nil {
		return fmt.Errorf("listener: %v", err)
	}
	stop, err := start(l, addr, datagrams(c.Proto))
	if err != nil {
		return err
	}
	defer stop()

	// Whom should they accept?
	name := c.Name
	if name == "" {
		name = c.Host
	}
	if name == "" {
		name = ip
	}
	server := c.Server.valid(cert, c.Trust, name, x509.ExtKeyUsageServerAuth)
	client := !c.Mutual
	var clientCert pair
	if c.Client != nil {
		var crt *x509.Certificate
		crt, clientCert = c.Client.make(ip)
		if c.Mutual {
			client = c.Client.valid(crt, c.CA, "", x509.ExtKeyUsageClientAuth)
		}
	}
	timeout := patience
	if !server || !client {
		timeout = 2 * time.Second
	}
	r, err := c.resolver(ip, addr, clientCert, timeout)
	if err != nil {
		return fmt.Errorf("resolver: %v", err)
	}
	for i, n := range c.Names {
		q := new(dns.Msg)
		q.SetQuestion(n, dns.TypeA)
		t0 := time.Now()
		a, err := r.Resolve(q, rdns.ClientInfo{})
		if took := time.Since(t0); took > patience*2 {
			return fmt.Errorf("query %d took %v", i, took)
		}
		switch {
		case server && client:
			if err != nil || a == nil || len(a.Answer) != 1 || up.N() != i+1 {
				return fmt.Errorf("query %d: both certificates are good, but got %v, %v", i, a, err)
			}
			call := up.Calls()[i]
			if sni := strings.ToLower(name); c.Proto != DTLS && net.ParseIP(name) == nil && strings.ToLower(call.CI.TLSServerName) != sni {
				return fmt.Errorf("query %d: the server name is %q, the listener got %q", i, sni, call.CI.TLSServerName)
			}
		case up.N() > 0:
			return fmt.Errorf("query %d: server good for %s: %v, client good: %v, but the query was sent; got %v, %v", i, name, server, client, a, err)
		case err == nil && a != nil:
			return fmt.Errorf("query %d: got %v", i, a)
		}
	}
	x.Label("%s", c.Proto)
	x.LabelIf(server && client, "accepted")
	x.LabelIf(!server, "wrong server")
	x.LabelIf(!client, "wrong client")
	if !server {
		other := c.Server.valid(cert, c.Trust, "", x509.ExtKeyUsageServerAuth)
		x.LabelIf(other, "wrong name only")
	}
	if !server || !client || c.Mutual || c.Name != "" || c.Boot {
		x.NonTrivial()
	}
	return nil
}

func (c Auth) listener(addr string, files pair, r rdns.Resolver) (rdns.Listener, error) {
	ca := ""
	if c.Mutual {
		ca = authorities()[c.CA].file
	}
	if c.Proto == DTLS {
		d, err := rdns.DTLSServerConfig(ca, files.crt, files.key, c.Mutual)
		if err != nil {
			return nil, err
		}
		return rdns.NewDTLSListener("listener", addr, rdns.DTLSListenerOptions{DTLSConfig: d}, r), nil
	}
	t, err := rdns.TLSServerConfig(ca, files.crt, files.key, c.Mutual)
	if err != nil {
		return nil, err
	}
	switch c.Proto {
	case DoT:
		return rdns.NewDoTListener("listener", addr, "", rdns.DoTListenerOptions{TLSConfig: t}, r), nil
	case DoQ:
		return rdns.NewQUICListener("listener", addr, rdns.DoQListenerOptions{TLSConfig: t}, r), nil
	case DoH:
		return rdns.NewDoHListener("listener", addr, rdns.DoHListenerOptions{TLSConfig: t}, r)
	case DoH3:
		return rdns.NewDoHListener("listener", addr, rdns.DoHListenerOptions{Transport: "quic", TLSConfig: t}, r)
	}
	panic(c.Proto)
}

func (c Auth) resolver(ip, addr string, client pair, timeout time.Duration) (rdns.Resolver, error) {
	_, prt, _ := net.SplitHostPort(addr)
	at, boot := addr, ""
	if c.Host != "" {
		at = net.JoinHostPort(c.Host, prt)
	}
	if c.Boot {
		boot = ip
	}
	var local net.IP
	if c.Local {
		local = net.ParseIP("127.0.0.9")
	}
	ca := authorities()[c.Trust].file
	if c.Proto == DTLS {
		var d *dtls.Config
		d, err := rdns.DTLSClientConfig(ca, client.crt, client.key)
		if err != nil {
			return nil, err
		}
		d.ServerName = c.Name
		return rdns.NewDTLSClient("client", at, rdns.DTLSClientOptions{BootstrapAddr: boot, LocalAddr: local, DTLSConfig: d, QueryTimeout: timeout})
	}
	t, err := rdns.TLSClientConfig(ca, client.crt, client.key, c.Name)
	if err != nil {
		return nil, err
	}
	switch c.Proto {
	case DoT:
		return rdns.NewDoTClient("client", at, rdns.DoTClientOptions{BootstrapAddr: boot, LocalAddr: local, TLSConfig: t, QueryTimeout: timeout})
	case DoQ:
		return rdns.NewDoQClient("client", at, rdns.DoQClientOptions{BootstrapAddr: boot, LocalAddr: local, TLSConfig: t, Use0RTT: c.Early, QueryTimeout: timeout})
	case DoH, DoH3:
		o := rdns.DoHClientOptions{BootstrapAddr: boot, LocalAddr: local, TLSConfig: t, QueryTimeout: timeout}
		if c.Proto == DoH3 {
			o.Transport, o.Use0RTT = "quic", c.Early
		}
		url := "https://" + at + "/dns-query"
		if c.Early {
			o.Method = "GET"
			url += "{?dns}"
		}
		return rdns.NewDoHClient("client", url, o)
	}
	panic(c.Proto)
}

// reserve finds a free port. Those who also do this with the same address get
// other ports until it is released.
func reserve(ip string) (string, func(), error) {
	for range 1000 {
		p := port() &^ 1
		l, err := net.Listen("tcp", net.JoinHostPort(ip, fmt.Sprint(p+1)))
		if err != nil {
			continue
		}
		addr := net.JoinHostPort(ip, fmt.Sprint(p))
		free := !bound(addr, true)
		if t, err := net.Listen("tcp", addr); err != nil {
			free = false
		} else {
			t.Close()
		}
		if free {
			return addr, func() { l.Close() }, nil
		}
		l.Close()
	}
	return "", nil, errors.New("no free port")
}
