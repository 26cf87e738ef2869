package wire

import (
	"bytes"
	"context"
	"encoding/base64"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"pgregory.net/rapid"

	"verif/kit"
)

// Web is a series of requests to a DoH listener.
type Web struct {
	Allowed []string `json:"allowed,omitempty"`
	Proxy   string   `json:"proxy,omitempty"`
	Reqs    []Req    `json:"reqs"`
}

// Req is a request with what the resolver does with the query.
type Req struct {
	From   int      `json:"from"` // last byte of the client's address
	Method string   `json:"method"`
	Path   string   `json:"path"`
	Kind   string   `json:"kind"`
	Twice  bool     `json:"twice,omitempty"` // another dns parameter follows
	XFF    []string `json:"xff,omitempty"`
	Q      kit.Q    `json:"q"`
	R      kit.R    `json:"r"`
}

const (
	noParam = "no parameter"
	notB64  = "not base64"
	cutB64  = "cut base64"
	full64k = "65535 bytes"
)

func net127(t *rapid.T) string {
	return fmt.Sprintf("127.0.77.%d/%d", kit.Int(t, "last", 1, 6), kit.Pick(t, "plen", 8, 24, 29, 30, 31, 32, 32))
}

func genWeb(acl bool) func(t *rapid.T) Web {
	return func(t *rapid.T) Web {
		c := Web{}
		if acl || kit.Chance(t, "acl", 30) {
			c.Allowed = kit.List(t, "allowed", 1, 3, func(t *rapid.T) string {
				return kit.Pick(t, "net", net127(t), net127(t), "192.0.2.0/25", "192.0.2.128/32", "10.0.0.0/8", "2001:db8::/33", "::ffff:192.0.2.0/121", "0.0.0.0/0", "::/0")
			})
		}
		if kit.Chance(t, "behind", 80) {
			c.Proxy = kit.Pick(t, "proxy", "127.0.77.0/29", net127(t), "127.0.0.0/8", "10.0.0.0/8", "::1/128", "0.0.0.0/0", "::/0")
		}
		c.Reqs = kit.List(t, "reqs", 1, 5, func(t *rapid.T) Req {
			r := Req{From: kit.Int(t, "from", 1, 6), Method: kit.Pick(t, "method", "GET", "POST", "GET", "POST", "GET", "POST", "GET", "POST", "GET", "POST", "GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS"), Path: kit.Pick(t, "path", "/", "/dns-query", "/a/b", "/x%20y")}
			r.Kind = kit.Pick(t, "kind", answer, answer, answer, answer, answer, answer, answer, answer, answer, answer, answer, answer, noQ, garbage, short, empty, tooLong, full64k, noParam, notB64, cutB64)
			r.Twice = r.Kind == answer && kit.Chance(t, "twice", 10)
			if kit.Chance(t, "forwarded", 80) {
				r.XFF = kit.List(t, "xff", 1, 3, func(t *rapid.T) string {
					return strings.Join(kit.List(t, "line", 1, 3, func(t *rapid.T) string {
						return kit.Pick(t, "addr", "192.0.2.1", "192.0.2.127", "192.0.2.128", "10.1.2.3", "2001:db8::1", "2001:db8:8000::1", "::ffff:192.0.2.1", "127.0.77.3", "::1", "unknown", "", " 192.0.2.5 ", "192.0.2.1:99", "[2001:db8::1]")
					}), kit.Pick(t, "sep", ",", ", "))
				})
			}
			r.Q = kit.GenQ(t, 0, 2)
			r.Q.ID = kit.Pick[uint16](t, "id", 0, 0, 1, 65535)
			r.Q.Opcode = kit.Pick(t, "opcode", 0, 0, 0, dns.OpcodeNotify, dns.OpcodeUpdate)
			if r.Q.EDNS != nil {
				r.Q.EDNS.Size = kit.Pick[uint16](t, "qsize", 0, 100, 512, 700, 936, 1232, 4096, 65535)
			}
			r.R = genReply(t, 3)
			if kit.Chance(t, "nil", 8) {
				r.R = kit.R{Nil: true}
			}
			return r
		})
		return c
	}
}

// client is the address a query counts as coming from.
func (c Web) client(r Req, from net.IP) net.IP {
	if c.Proxy == "" || !admits([]string{c.Proxy}, from) || len(r.XFF) == 0 {
		return from
	}
	parts := strings.Split(strings.Join(r.XFF, ","), ",")
	ip := net.ParseIP(strings.TrimSpace(parts[len(parts)-1]))
	if ip == nil || ip.IsLoopback() {
		return from
	}
	return ip
}

// body is what is sent, and if it is a query.
func (r Req) body(i int) ([]byte, bool) {
	q := r.Q
	q.Name = tag(i, q.Name)
	b, err := q.Msg().Pack()
	if err != nil {
		panic("verif: " + err.Error())
	}
	switch r.Kind {
	case noQ, garbage, short, empty, tooLong:
		return payload(r.Kind, q.Msg()), false
	case full64k:
		m := q.Msg()
		for n := 65535 - len(b); n > 0; {
			d := min(n-12, 60000)
			rr := &dns.RFC3597{Hdr: dns.RR_Header{Name: "a.", Rrtype: 65281, Class: 1}, Rdata: strings.Repeat("00", d-2)}
			m.Ns = append(m.Ns, rr)
			l, _ := m.Pack()
			if n = 65535 - len(l); n < 14 {
				break
			}
		}
		b, err = m.Pack()
		if err != nil {
			panic("verif: " + err.Error())
		}
	}
	return b, true
}

func runWeb(x *kit.Ctx, c Web) error {
	var cur Req
	up := &kit.Up{ID: "up", F: func(_ int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) { return cur.R.Msg(q) }}
	addr := net.JoinHostPort(here, fmt.Sprint(port()))
	o := rdns.DoHListenerOptions{ListenOptions: rdns.ListenOptions{AllowedNet: parseNets(c.Allowed)}, NoTLS: true}
	if c.Proxy != "" {
		o.HTTPProxyNet = parseNets([]string{c.Proxy})[0]
	}
	l, err := rdns.NewDoHListener("l", addr, o, up)
	if err != nil {
		return err
	}
	stop, err := start(l, addr, false)
	if err != nil {
		return err
	}
	defer stop()
	clients := map[int]*http.Client{}
	defer func() {
		for _, h := range clients {
			h.CloseIdleConnections()
		}
	}()
	for i, r := range c.Reqs {
		from := net.IPv4(127, 0, 77, byte(r.From))
		if clients[r.From] == nil {
			d := &net.Dialer{LocalAddr: &net.TCPAddr{IP: from}}
			clients[r.From] = &http.Client{Transport: &http.Transport{DisableCompression: true, DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) {
				conn, err := d.DialContext(ctx, "tcp", addr)
				if err == nil {
					conn.(*net.TCPConn).SetLinger(0)
				}
				return conn, err
			}}, Timeout: patience}
		}
		cur = r
		before := up.N()
		if err := c.ask(x, i, r, from, clients[r.From], addr, up); err != nil {
			return fmt.Errorf("request %d: %v", i, err)
		}
		if up.N() > before+1 {
			return fmt.Errorf("request %d was resolved %d times", i, up.N()-before)
		}
	}
	return nil
}

func (c Web) ask(x *kit.Ctx, i int, r Req, from net.IP, h *http.Client, addr string, up *kit.Up) error {
	b, isQuery := r.body(i)
	before := up.N()
	target := "http://" + addr + r.Path
	var body io.Reader
	status := 200
	if !isQuery {
		status = 400
	}
	switch r.Method {
	case "POST":
		body = bytes.NewReader(b)
		if len(b) > 65535 {
			status = 413
		}
	case "GET":
		if len(b) > 60000 {
			// too long for a header
			return nil
		}
		s := base64.RawURLEncoding.EncodeToString(b)
		switch r.Kind {
		case notB64:
			s += "!*"
			status = 400
		case cutB64:
			for len(s)%4 != 1 {
				s += "A"
			}
			status = 400
		}
		switch {
		case r.Kind == noParam:
			target += "?dnss=" + s
			status = 400
		case r.Twice:
			target += "?x=1&dns=" + s + "&dns=AAAA"
		default:
			target += "?dns=" + url.QueryEscape(s)
		}
	default:
		status = 405
		target += "?dns=" + base64.RawURLEncoding.EncodeToString(b)
		if len(target) > 60000 {
			return nil
		}
	}
	req, err := http.NewRequest(r.Method, target, body)
	if err != nil {
		return fmt.Errorf("verif: %v", err)
	}
	req.Header.Set("Content-Type", "application/dns-message")
	for _, v := range r.XFF {
		req.Header.Add("X-Forwarded-For", v)
	}
	resp, err := h.Do(req)
	if err != nil {
		return fmt.Errorf("%s: %v", r.Method, err)
	}
	out, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	if err != nil {
		return fmt.Errorf("%s: %v", r.Method, err)
	}
	calls := up.Calls()[before:]
	x.Label("%s", r.Method)
	if status != 200 {
		x.Label("status %d", status)
		if resp.StatusCode != status {
			return fmt.Errorf("%s with %s body of %d bytes: status %d instead of %d", r.Method, r.Kind, len(b), resp.StatusCode, status)
		}
		if len(calls) != 0 {
			return fmt.Errorf("%s with %s body: was resolved", r.Method, r.Kind)
		}
		return nil
	}
	ip := c.client(r, from)
	x.LabelIf(!ip.Equal(from), "forwarded")
	q := new(dns.Msg)
	if err := q.Unpack(b); err != nil {
		return fmt.Errorf("verif: %v", err)
	}
	if !ip.Equal(from) || len(c.Allowed) > 0 {
		x.NonTrivial()
	}
	ok := admits(c.Allowed, ip)
	if ok {
		if len(calls) != 1 {
			return fmt.Errorf("query of %v was resolved %d times; status %d", ip, len(calls), resp.StatusCode)
		}
		if g, w := kit.Text(calls[0].Q), kit.Text(q); g != w {
			return fmt.Errorf("the resolver got\n%sinstead of\n%s", g, w)
		}
		path, _ := url.PathUnescape(r.Path)
		if ci := calls[0].CI; !ci.SourceIP.Equal(ip) || ci.DoHPath != path || ci.Listener != "l" || ci.Protocol != "doh" || ci.ListenerAddr != addr || ci.TLSServerName != "" {
			return fmt.Errorf("client information %+v; client is %v (%v, forwarded for %q)", ci, ip, from, r.XFF)
		}
		if r.R.Nil {
			x.Label("dropped")
			if resp.StatusCode < 400 || resp.Header.Get("Content-Type") == "application/dns-message" {
				return fmt.Errorf("dropped query has a response with status %d", resp.StatusCode)
			}
			return nil
		}
	} else if len(calls) != 0 {
		return fmt.Errorf("query of %v (%v, forwarded for %q) was resolved; allowed are %v", ip, from, r.XFF, c.Allowed)
	}
	if resp.StatusCode != 200 || resp.Header.Get("Content-Type") != "application/dns-message" {
		return fmt.Errorf("response with status %d, content type %q: %q", resp.StatusCode, resp.Header.Get("Content-Type"), out)
	}
	m := new(dns.Msg)
	if err := m.Unpack(out); err != nil {
		return fmt.Errorf("the response can not be read: %v", err)
	}
	if !ok || r.R.Err != "" {
		want := dns.RcodeServerFailure
		if !ok {
			want = dns.RcodeRefused
			x.Label("refused")
		}
		if m.Rcode != want || len(m.Answer)+len(m.Ns) != 0 {
			return fmt.Errorf("response with code %d expected, is\n%s", want, kit.Text(m))
		}
		return kit.SameQuestion(q, m)
	}
	full, _ := r.R.Msg(q)
	if err := sameUpTo(x, full, m, 65535); err != nil {
		return err
	}
	return checkPadding(x, DoH, q, m, out)
}
