package wire

import (
	"errors"
	"fmt"
	"net"
	"strings"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"pgregory.net/rapid"

	"verif/kit"
)

// Handled is one query that comes in at a plain, DoT or DTLS listener.
type Handled struct {
	Proto   string   `json:"proto"`
	Allowed []string `json:"allowed,omitempty"`
	From    string   `json:"from"`
	Wide    bool     `json:"wide,omitempty"` // IPv4 address in 16 bytes
	Q       kit.Q    `json:"q"`
	R       kit.R    `json:"r"`
	TSIG    bool     `json:"tsig,omitempty"`
	Fill    int      `json:"fill,omitempty"` // bytes of further TXT records
	Chunk   int      `json:"chunk,omitempty"`
}

// genACL draws networks around the client's address.
func genACL(t *rapid.T) Handled {
	c := genHandled(t)
	c.Fill, c.Chunk = min(c.Fill, 500), 100
	if c.Allowed == nil {
		c.Allowed = genAllowed(t, c.From)
	}
	return c
}

func genAllowed(t *rapid.T, from string) []string {
	return kit.List(t, "allowed", 1, 3, func(t *rapid.T) string {
		base := from
		if kit.Chance(t, "else", 40) {
			base = kit.IP(t)
		}
		ip := net.ParseIP(base)
		if v4 := ip.To4(); v4 != nil {
			return fmt.Sprintf("%s/%d", flipBit(t, v4), kit.Pick(t, "plen", 0, 8, 16, 24, 25, 31, 32))
		}
		return fmt.Sprintf("%s/%d", flipBit(t, ip), kit.Pick(t, "plen6", 0, 32, 48, 64, 127, 128))
	})
}

func genHandled(t *rapid.T) Handled {
	c := Handled{Proto: kit.Pick(t, "proto", UDP, UDP, TCP, DoT, DTLS, DTLS), From: kit.IP(t), Q: kit.GenQ(t, 0, 3)}
	c.Wide = kit.Chance(t, "wide", 50)
	if kit.Chance(t, "acl", 40) {
		c.Allowed = genAllowed(t, c.From)
	}
	c.R = genReply(t, 3)
	if kit.Chance(t, "nil", 5) {
		c.R = kit.R{Nil: true}
	}
	c.R.TC = kit.Chance(t, "tc", 10)
	if c.R.EDNS == nil && kit.Chance(t, "moreedns", 30) {
		c.R.EDNS = kit.GenEDNS(t)
	}
	if c.R.EDNS != nil && (!padded[c.Proto] || c.Q.EDNS != nil) && kit.Chance(t, "morepad", 20) {
		c.R.EDNS.Opts = append(c.R.EDNS.Opts, kit.Opt{Code: dns.EDNS0PADDING, Data: strings.Repeat("00", kit.Int(t, "padlen", 0, 500))})
	}
	if c.Q.EDNS != nil {
		c.Q.EDNS.Size = kit.Pick[uint16](t, "qsize", 0, 100, 512, 700, 935, 936, 937, 1232, 1400, 4096, 65535)
	}
	c.TSIG = kit.Chance(t, "tsig", 3)
	if kit.Chance(t, "big", 60) {
		// aim at the limits
		c.Fill = kit.Pick(t, "near", 0, 100, 300, 400, 468, 800, 1100, 2000, 4000, 20000) + kit.Int(t, "off", 0, 80)
		c.Chunk = kit.Pick(t, "chunk", 1, 20, 100, 200)
		if c.Fill > 4000 {
			c.Chunk = 200
		}
	}
	return c
}

// flipBit returns an address that differs from ip in at most one bit.
func flipBit(t *rapid.T, ip net.IP) net.IP {
	out := append(net.IP(nil), ip...)
	if kit.Chance(t, "flip", 50) {
		i := kit.Int(t, "bit", 0, len(ip)*8-1)
		out[i/8] ^= 128 >> (i % 8)
	}
	return out
}

func (c Handled) reply(q *dns.Msg) (*dns.Msg, error) {
	m, err := c.R.Msg(q)
	if m == nil {
		return m, err
	}
	for n, i := c.Fill, 0; n > 0; i++ {
		rr := kit.RR(fmt.Sprintf("fill%d.test. 60 IN TXT %q", i, strings.Repeat("x", min(c.Chunk, 255))))
		n -= dns.Len(rr)
		switch i % 5 {
		case 3:
			m.Ns = append(m.Ns, rr)
		case 4:
			m.Extra = append([]dns.RR{rr}, m.Extra...)
		default:
			m.Answer = append(m.Answer, rr)
		}
	}
	if c.TSIG {
		m.Extra = append(m.Extra, &dns.TSIG{Hdr: dns.RR_Header{Name: "key.test.", Rrtype: dns.TypeTSIG, Class: dns.ClassANY}, Algorithm: dns.HmacSHA256, TimeSigned: 1, Fudge: 300, MACSize: 4, MAC: "01020304", OrigId: m.Id})
	}
	return m, nil
}

// sink is the connection a query came in on.
type sink struct {
	from   net.Addr
	msgs   [][]byte
	closed bool
	err    error
}

func (s *sink) LocalAddr() net.Addr  { return &net.UDPAddr{IP: net.ParseIP("192.0.2.53"), Port: 53} }
func (s *sink) RemoteAddr() net.Addr { return s.from }
func (s *sink) WriteMsg(m *dns.Msg) error {
	b, err := m.Pack()
	if err != nil {
		s.err = err
		return err
	}
	s.msgs = append(s.msgs, b)
	return nil
}
func (s *sink) Write(b []byte) (int, error) {
	s.msgs = append(s.msgs, append([]byte(nil), b...))
	return len(b), nil
}
func (s *sink) Close() error        { s.closed = true; return nil }
func (s *sink) TsigStatus() error   { return nil }
func (s *sink) TsigTimersOnly(bool) {}
func (s *sink) Hijack()             {}

func parseNets(ss []string) (out []*net.IPNet) {
	for _, s := range ss {
		_, n, err := net.ParseCIDR(s)
		if err != nil {
			panic(err)
		}
		out = append(out, n)
	}
	return out
}

// admits says if an address is in one of the networks (or there are none).
func admits(nets []string, ip net.IP) bool {
	for _, s := range nets {
		slash := strings.IndexByte(s, '/')
		base := net.ParseIP(s[:slash])
		var n int
		fmt.Sscan(s[slash+1:], &n)
		a, b := []byte(ip.To4()), []byte(base.To4())
		if (a == nil) != (b == nil) {
			continue
		}
		if strings.Contains(s, ":") && b != nil {
			n = max(n-96, 0)
		}
		if a == nil {
			a, b = ip.To16(), base.To16()
		}
		same := true
		for i := 0; i < n; i++ {
			same = same && (a[i/8]^b[i/8])&(128>>(i%8)) == 0
		}
		if same {
			return true
		}
	}
	return len(nets) == 0
}

func runHandled(x *kit.Ctx, c Handled) error {
	up := &kit.Up{ID: "up", F: func(_ int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) { return c.reply(q) }}
	opt := rdns.ListenOptions{AllowedNet: parseNets(c.Allowed)}
	var h dns.Handler
	switch c.Proto {
	case UDP, TCP:
		h = rdns.NewDNSListener("l", "192.0.2.53:53", c.Proto, opt, up).Handler
	case DoT:
		h = rdns.NewDoTListener("l", "192.0.2.53:53", "", rdns.DoTListenerOptions{ListenOptions: opt}, up).Handler
	case DTLS:
		h = rdns.NewDTLSListener("l", "192.0.2.53:53", rdns.DTLSListenerOptions{ListenOptions: opt}, up).Handler
	}
	ip := net.ParseIP(c.From)
	if v4 := ip.To4(); v4 != nil && !c.Wide {
		ip = v4
	}
	w := &sink{from: &net.TCPAddr{IP: ip, Port: 999}}
	if c.Proto == UDP || c.Proto == DTLS {
		w.from = &net.UDPAddr{IP: ip, Port: 999}
	}
	q := c.Q.Msg()
	sent := q.Copy()
	h.ServeDNS(w, q)
	if s, b := kit.Text(q), kit.Text(sent); s != b {
		return fmt.Errorf("the query was changed to\n%sfrom\n%s", s, b)
	}
	if w.err != nil {
		return fmt.Errorf("the response can not be sent: %v", w.err)
	}

	x.Label("%s", c.Proto)
	calls := up.Calls()
	if !admits(c.Allowed, ip) {
		x.Label("not allowed")
		x.NonTrivial()
		if len(calls) != 0 {
			return fmt.Errorf("the query of %v was resolved, though only %v are allowed", ip, c.Allowed)
		}
		m, err := w.one()
		if err != nil {
			return err
		}
		if m.Rcode != dns.RcodeRefused || len(m.Answer)+len(m.Ns) != 0 {
			return fmt.Errorf("the query of %v is not allowed, response:\n%s", ip, kit.Text(m))
		}
		return kit.SameQuestion(sent, m)
	}
	if len(calls) != 1 {
		return fmt.Errorf("the query of %v was resolved %d times; allowed are %v", ip, len(calls), c.Allowed)
	}
	x.LabelIf(len(c.Allowed) > 0, "allowed by network")
	if s, b := kit.Text(calls[0].Q), kit.Text(sent); s != b {
		return fmt.Errorf("the resolver got\n%sinstead of\n%s", s, b)
	}
	if ci := calls[0].CI; !ci.SourceIP.Equal(ip) || ci.Listener != "l" || ci.Protocol != c.Proto || ci.ListenerAddr != "192.0.2.53:53" || ci.DoHPath != "" || ci.TLSServerName != "" {
		return fmt.Errorf("wrong client information %+v", ci)
	}
	if c.R.Nil {
		x.Label("dropped")
		if len(w.msgs) != 0 || !w.closed && c.Proto != UDP {
			return fmt.Errorf("the resolver gave no response; sent were %d messages, connection closed: %v", len(w.msgs), w.closed)
		}
		return nil
	}
	m, err := w.one()
	if err != nil {
		return err
	}
	if c.R.Err != "" {
		x.Label("error")
		if m.Rcode != dns.RcodeServerFailure || len(m.Answer)+len(m.Ns) != 0 {
			return fmt.Errorf("the resolver failed, response:\n%s", kit.Text(m))
		}
		return kit.SameQuestion(sent, m)
	}
	full, _ := c.reply(sent)
	limit := 65535
	if c.Proto == UDP || c.Proto == DTLS {
		limit = 512
		if o := sent.IsEdns0(); o != nil {
			limit = max(512, int(o.UDPSize()))
		}
	}
	if c.TSIG {
		// the library never cuts signed messages
		x.Label("TSIG")
		return nil
	}
	if n := len(w.msgs[0]); n > limit {
		return fmt.Errorf("the response has %d bytes, the limit is %d", n, limit)
	}
	if err := sameUpTo(x, full, m, limit); err != nil {
		return err
	}
	return checkPadding(x, c.Proto, sent, m, w.msgs[0])
}

func (s *sink) one() (*dns.Msg, error) {
	if len(s.msgs) != 1 || s.closed {
		return nil, fmt.Errorf("there were %d responses, connection closed: %v", len(s.msgs), s.closed)
	}
	m := new(dns.Msg)
	if err := m.Unpack(s.msgs[0]); err != nil {
		return nil, fmt.Errorf("the response can not be read: %v", err)
	}
	return m, nil
}

// sameUpTo checks that a response is complete, or truncated if it has to be.
func sameUpTo(x *kit.Ctx, full, got *dns.Msg, limit int) error {
	want, err := wired(full)
	if err != nil {
		return fmt.Errorf("verif: %v", err)
	}
	g, w := bare(got), bare(want)
	if w.IsEdns0() == nil {
		g = withoutOPT(g)
	}
	gt, wt := kit.Text(g), kit.Text(w)
	if gt == wt {
		return nil
	}
	// padding may have to give way first
	small := w.Copy()
	small.Compress = true
	b, err := small.Pack()
	if err != nil {
		return fmt.Errorf("verif: %v", err)
	}
	if o := got.IsEdns0(); o != nil && w.IsEdns0() == nil {
		limit -= dns.Len(o)
	} else if _, ok := padding(got); ok {
		limit -= 4
	}
	if len(b) <= limit-16 {
		return fmt.Errorf("the response should be\n%sbut is\n%s", wt, gt)
	}
	x.Label("truncated")
	x.NonTrivial()
	if !got.Truncated {
		return fmt.Errorf("the response is incomplete without saying so; should be\n%sis\n%s", wt, gt)
	}
	less := func(what string, g, w []dns.RR) error {
		if len(g) > len(w) {
			return fmt.Errorf("the %s section has %d records, the resolver gave %d", what, len(g), len(w))
		}
		for i := range g {
			if a, b := kit.RRText(g[i]), kit.RRText(w[i]); a != b {
				return fmt.Errorf("record %d of the %s section is %s instead of %s", i, what, a, b)
			}
		}
		return nil
	}
	if (w.IsEdns0() == nil) != (g.IsEdns0() == nil) {
		return errors.New("truncated response lost the OPT record")
	}
	if w.IsEdns0() != nil {
		if a, b := kit.RRText(g.IsEdns0()), kit.RRText(w.IsEdns0()); a != b {
			return fmt.Errorf("truncated response has OPT %s instead of %s", a, b)
		}
	}
	for _, s := range []struct {
		name string
		g, w []dns.RR
	}{{"answer", g.Answer, w.Answer}, {"authority", g.Ns, w.Ns}, {"additional", withoutOPT(g).Extra, withoutOPT(w).Extra}} {
		if err := less(s.name, s.g, s.w); err != nil {
			return err
		}
	}
	g.Answer, g.Ns, g.Extra, w.Answer, w.Ns, w.Extra = nil, nil, nil, nil, nil, nil
	w.Truncated = true
	if gt, wt := kit.Text(g), kit.Text(w); gt != wt {
		return fmt.Errorf("truncated response has header\n%sinstead of\n%s", gt, wt)
	}
	return nil
}

// checkPadding checks the padding of a response as sent.
func checkPadding(x *kit.Ctx, proto string, q, m *dns.Msg, raw []byte) error {
	n, has := padding(m)
	if !padded[proto] {
		if has {
			return fmt.Errorf("the response over %s is padded", proto)
		}
		return nil
	}
	o := q.IsEdns0()
	if o == nil || m.Truncated {
		return nil
	}
	if !has {
		return fmt.Errorf("the response to a query with EDNS over %s is not padded", proto)
	}
	size := int(o.UDPSize())
	loose, err := m.Pack()
	if err != nil {
		return fmt.Errorf("verif: %v", err)
	}
	if len(loose) != len(raw) && len(loose)-n > size {
		x.Label("fits just with compression")
		return nil
	}
	bare := len(raw) - n
	want := (bare + 467) / 468 * 468
	switch {
	case want > size && bare <= size:
		want = size
		x.Label("padded to the size of the query")
	case want > size:
		want = bare
		x.Label("no room for padding")
	default:
		x.Label("padded to a block")
	}
	x.NonTrivial()
	if len(raw) != want && !(bare == want && len(raw) == min(want+468, size)) {
		return fmt.Errorf("the response over %s has %d bytes, %d of them padding; it should have %d (the client takes %d)", proto, len(raw), n, want, size)
	}
	return nil
}
