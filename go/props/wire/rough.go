package wire

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"slices"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"github.com/pion/dtls/v3"
	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"
	"pgregory.net/rapid"

	"verif/kit"
)

// Rough is a series of things sent to a listener, not all of them queries.
type Rough struct {
	Proto   string      `json:"proto"`
	Allowed []string    `json:"allowed,omitempty"`
	Steps   []RoughStep `json:"steps"`
}

// RoughStep is what one client sends.
type RoughStep struct {
	From  int    `json:"from"`           // last byte of the client's address
	Raw   bool   `json:"raw,omitempty"`  // below encryption and framing
	Frame int    `json:"frame"`          // added to the length in front of the message (streams)
	Bytes string `json:"bytes"`          // hex
	R     kit.R  `json:"r"`              // response to it, if it is a query
	Fill  int    `json:"fill,omitempty"` // further records
}

func genRoughBytes(t *rapid.T) []byte {
	q := kit.GenQ(t, 0, 2)
	q.ID = kit.Pick[uint16](t, "id", 0, 1, 77)
	if q.EDNS != nil {
		q.EDNS.Opts = nil
		if kit.Chance(t, "keepalive", 15) {
			q.EDNS.Opts = append(q.EDNS.Opts, kit.Opt{Code: dns.EDNS0TCPKEEPALIVE, Data: kit.Pick(t, "keep", "", "0064")})
			for _, o := range []string{"before", "after"} {
				if kit.Chance(t, o, 50) {
					q.EDNS.Opts = append(q.EDNS.Opts, kit.Opt{Code: 65001, Data: "01"})
					slices.Reverse(q.EDNS.Opts)
				}
			}
		}
	}
	m := q.Msg()
	how := kit.Pick(t, "how", "ok", "ok", "ok", "ok", "random", "cut", "flip", "flip", "noq", "twoq", "response", "opcode", "trailing", "records", "empty")
	switch how {
	case "noq":
		m.Question = nil
	case "twoq":
		m.Question = append(m.Question, dns.Question{Name: "two.test.", Qtype: 1, Qclass: 1})
	case "response":
		m.Response = true
	case "opcode":
		m.Opcode = kit.Int(t, "opcode", 0, 15)
	case "records":
		m.Answer = kit.RRs(kit.GenRRs(t, "an", "x.test.", 0, 3, dns.TypeA, dns.TypeTXT, dns.TypeSOA))
		m.Ns = kit.RRs(kit.GenRRs(t, "ns", "x.test.", 0, 3, dns.TypeA, dns.TypeTXT, dns.TypeSOA))
	}
	b, err := m.Pack()
	if err != nil {
		panic("verif: " + err.Error())
	}
	switch how {
	case "random":
		b = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "random")
	case "cut":
		b = b[:kit.Int(t, "cut", 0, len(b)-1)]
	case "flip":
		for range kit.Int(t, "flips", 1, 3) {
			i := kit.Int(t, "bit", 0, len(b)*8-1)
			b[i/8] ^= 128 >> (i % 8)
		}
	case "trailing":
		b = append(b, rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "more")...)
	case "empty":
		b = nil
	}
	return b
}

func genRough(acl bool, protos ...string) func(t *rapid.T) Rough {
	return func(t *rapid.T) Rough {
		c := Rough{Proto: kit.Pick(t, "proto", protos...)}
		if acl {
			c.Allowed = kit.List(t, "allowed", 1, 3, net127)
		}
		c.Steps = kit.List(t, "steps", 1, 5, func(t *rapid.T) RoughStep {
			s := RoughStep{From: kit.Int(t, "from", 1, 6), Bytes: hex.EncodeToString(genRoughBytes(t))}
			if !acl {
				s.Raw = kit.Chance(t, "raw", 15)
				if kit.Chance(t, "badframe", 20) {
					s.Frame = kit.Pick(t, "frame", -1, 1, -12, 100, 60000)
				}
			}
			s.R = genReply(t, 2)
			if kit.Chance(t, "nil", 20) {
				s.R = kit.R{Nil: true}
			}
			if kit.Chance(t, "big", 15) {
				s.Fill = kit.Pick(t, "fill", 1000, 5000, 30000, 60000)
				if c.Proto == DTLS {
					s.Fill = min(s.Fill, 5000) // the library takes records of up to 8192 bytes
				}
			}
			return s
		})
		return c
	}
}

// Judgements of what is sent.
const (
	isClean = iota // a query that has to be answered
	isOdd          // decodes, but may be rejected
	isWrong        // does not decode or is no query
)

func judge(proto string, b []byte) (int, *dns.Msg) {
	m := new(dns.Msg)
	if m.Unpack(b) != nil || len(m.Question) == 0 || len(b) < 12 {
		return isWrong, nil
	}
	n := func(i int) uint16 { return binary.BigEndian.Uint16(b[i:]) }
	if m.Response || m.Opcode != 0 || n(4) != 1 || n(6) > 1 || n(8) > 1 || n(10) > 2 || len(m.Extra) != int(n(10)) || len(m.Answer) != int(n(6)) || len(m.Ns) != int(n(8)) {
		return isOdd, m
	}
	if _, err := m.Pack(); err != nil {
		return isOdd, m
	}
	if m.IsEdns0() != nil {
		for _, o := range m.IsEdns0().Option {
			if o.Option() == dns.EDNS0TCPKEEPALIVE {
				if proto == DoQ {
					return isWrong, nil // RFC 9250
				}
				return isOdd, m
			}
		}
		if m.IsEdns0().Version() != 0 {
			return isOdd, m
		}
	}
	return isClean, m
}

// rawConn is a connection of a client.
type rawConn struct {
	send func([]byte, int) error
	recv func() ([]byte, error)
	stop func()
}

func dialRaw(ctx context.Context, proto, addr, from string, raw bool) (*rawConn, error) {
	tlsc := func(p ...string) *tls.Config {
		return &tls.Config{RootCAs: ourCA().pool(), ServerName: "dns.test", NextProtos: p}
	}
	frame := func(b []byte, d int) []byte {
		return append(binary.BigEndian.AppendUint16(nil, uint16(len(b)+d)), b...)
	}
	unframe := func(r io.Reader) ([]byte, error) {
		var n uint16
		if err := binary.Read(r, binary.BigEndian, &n); err != nil {
			return nil, err
		}
		b := make([]byte, n)
		_, err := io.ReadFull(r, b)
		return b, err
	}
	ip := net.ParseIP(from)
	udp := &net.Dialer{LocalAddr: &net.UDPAddr{IP: ip}}
	tcp := &net.Dialer{LocalAddr: &net.TCPAddr{IP: ip}}
	if raw && datagrams(proto) || proto == UDP {
		c, err := udp.DialContext(ctx, "udp", addr)
		if err != nil {
			return nil, err
		}
		c.SetDeadline(time.Now().Add(patience))
		return &rawConn{send: func(b []byte, _ int) error { _, err := c.Write(b); return err },
			recv: func() ([]byte, error) {
				b := make([]byte, 65536)
				n, err := c.Read(b)
				return b[:n], err
			}, stop: func() { c.Close() }}, nil
	}
	if !datagrams(proto) {
		t, err := tcp.DialContext(ctx, "tcp", addr)
		if err != nil {
			return nil, err
		}
		t.(*net.TCPConn).SetLinger(0)
		t.SetDeadline(time.Now().Add(patience))
		c := t
		switch {
		case raw:
			return &rawConn{send: func(b []byte, _ int) error { _, err := t.Write(b); return err }, stop: func() { t.Close() }}, nil
		case proto == DoT:
			c = tls.Client(t, tlsc())
		case proto == DoH:
			h := &http.Client{Transport: &http.Transport{DialTLSContext: func(ctx context.Context, _, _ string) (net.Conn, error) {
				return tls.Client(t, tlsc("http/1.1")), nil
			}, DisableKeepAlives: true}, Timeout: patience}
			return webConn(h, func() { t.Close() }), nil
		}
		return &rawConn{send: func(b []byte, d int) error { _, err := c.Write(frame(b, d)); return err },
			recv: func() ([]byte, error) { return unframe(c) }, stop: func() { t.Close() }}, nil
	}
	if proto == DTLS {
		u, err := net.ResolveUDPAddr("udp", addr)
		if err != nil {
			return nil, err
		}
		pc, err := net.ListenUDP("udp", &net.UDPAddr{IP: ip})
		if err != nil {
			return nil, err
		}
		c, err := dtls.Client(pc, u, &dtls.Config{RootCAs: ourCA().pool(), ServerName: "dns.test", ExtendedMasterSecret: dtls.RequireExtendedMasterSecret})
		if err == nil {
			err = c.HandshakeContext(ctx)
		}
		if err != nil {
			pc.Close()
			return nil, err
		}
		c.SetDeadline(time.Now().Add(patience))
		return &rawConn{send: func(b []byte, d int) error { _, err := c.Write(frame(b, d)); return err },
			recv: func() ([]byte, error) { return unframe(bufio.NewReaderSize(c, 70000)) }, stop: func() { go func() { c.Close(); pc.Close() }() }}, nil
	}
	pc, err := net.ListenUDP("udp", &net.UDPAddr{IP: ip})
	if err != nil {
		return nil, err
	}
	u, err := net.ResolveUDPAddr("udp", addr)
	if err != nil {
		pc.Close()
		return nil, err
	}
	tr := &quic.Transport{Conn: pc}
	stop := func() { tr.Close(); pc.Close() }
	if proto == DoH3 {
		h3 := &http3.Transport{TLSClientConfig: tlsc("h3"), Dial: func(ctx context.Context, _ string, t *tls.Config, q *quic.Config) (*quic.Conn, error) {
			return tr.DialEarly(ctx, u, t, q)
		}}
		return webConn(&http.Client{Transport: h3, Timeout: patience}, func() { h3.Close(); stop() }), nil
	}
	conn, err := tr.Dial(ctx, u, tlsc("doq"), nil)
	if err != nil {
		stop()
		return nil, err
	}
	s, err := conn.OpenStreamSync(ctx)
	if err != nil {
		stop()
		return nil, err
	}
	s.SetReadDeadline(time.Now().Add(patience))
	return &rawConn{send: func(b []byte, d int) error {
		_, err := s.Write(frame(b, d))
		s.Close()
		return err
	}, recv: func() ([]byte, error) { return unframe(s) }, stop: stop}, nil
}

func webConn(h *http.Client, stop func()) *rawConn {
	var resp *http.Response
	return &rawConn{send: func(b []byte, _ int) (err error) {
		resp, err = h.Post("https://dns.test/dns-query", dohType, bytes.NewReader(b))
		return err
	}, recv: func() ([]byte, error) {
		if resp == nil {
			return nil, errors.New("no response")
		}
		b, err := io.ReadAll(resp.Body)
		if resp.StatusCode != 200 && err == nil {
			err = fmt.Errorf("status %d", resp.StatusCode)
		}
		return b, err
	}, stop: func() {
		if resp != nil {
			resp.Body.Close()
		}
		stop()
	}}
}

func runRough(x *kit.Ctx, c Rough) error {
	var cur RoughStep
	sentinel := kit.Q{Name: "alive.test.", Type: 1, ID: 4242}.Msg()
	up := &kit.Up{ID: "up", F: func(_ int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) {
		if q.Question[0].Name == "alive.test." && q.Id == 4242 {
			return kit.R{An: []string{"alive.test. 60 IN A 192.0.2.77"}}.Msg(q)
		}
		return Handled{R: cur.R, Fill: cur.Fill, Chunk: 200}.reply(q)
	}}
	addr := net.JoinHostPort(here, fmt.Sprint(port()))
	l, err := newListener(c.Proto, "l", addr, rdns.ListenOptions{AllowedNet: parseNets(c.Allowed)}, up)
	if err != nil {
		return err
	}
	stop, err := start(l, addr, datagrams(c.Proto))
	if err != nil {
		return err
	}
	defer stop()
	ctx, cancel := context.WithTimeout(context.Background(), patience)
	defer cancel()
	var conns []*rawConn
	defer func() {
		for _, k := range conns {
			k.stop()
		}
	}()
	fine := map[string]int{} // queries that may be resolved
	x.Label("%s", c.Proto)
	for i, s := range c.Steps {
		b, err := hex.DecodeString(s.Bytes)
		if err != nil {
			return fmt.Errorf("verif: %v", err)
		}
		from := fmt.Sprintf("127.0.77.%d", s.From)
		allowed := admits(c.Allowed, net.ParseIP(from))
		verdict, q := judge(c.Proto, b)
		if verdict == isWrong && c.Allowed != nil || verdict == isOdd && c.Allowed != nil {
			continue
		}
		if s.Raw && c.Proto == UDP {
			s.Raw = false
		}
		framed := c.Proto == TCP || c.Proto == DoT || c.Proto == DTLS || c.Proto == DoQ
		if framed && s.Frame != 0 && len(b)+s.Frame >= 0 {
			// what is left of the message, or nothing if there is not enough
			verdict = isWrong
			if n := len(b) + s.Frame; n <= len(b) {
				if v, m := judge(c.Proto, b[:n]); v != isWrong {
					verdict, q = isOdd, m
				}
			}
			x.Label("wrong length")
		} else {
			s.Frame = 0
		}
		if s.Raw {
			verdict = isOdd
			x.Label("below the transport")
			if q == nil {
				verdict = isWrong
			}
			if c.Proto != TCP {
				verdict = isWrong
			}
		}
		cur = s
		if q != nil && verdict != isWrong {
			fine[kit.Text(bare(q))]++
		}
		before := up.N()
		k, err := dialRaw(ctx, c.Proto, addr, from, s.Raw)
		if err != nil {
			return fmt.Errorf("step %d: no connection: %v", i, err)
		}
		conns = append(conns, k)
		if !allowed && c.Proto == DoQ {
			// there will not be a response
			x.Label("not allowed")
			x.NonTrivial()
			k.send(b, s.Frame)
		} else if err := k.send(b, s.Frame); err != nil && verdict == isClean {
			return fmt.Errorf("step %d: not sent: %v", i, err)
		}
		if verdict == isClean && allowed {
			err = c.cleanAnswer(x, s, q, k, up, before)
		} else if verdict == isClean && c.Proto != DoQ {
			x.Label("not allowed")
			x.NonTrivial()
			m, rerr := readMsg(k)
			if rerr != nil {
				err = rerr
			} else if m.Rcode != dns.RcodeRefused || len(m.Answer) != 0 {
				err = fmt.Errorf("client %s is not allowed (only %v), but got\n%s", from, c.Allowed, kit.Text(m))
			}
		} else if verdict == isWrong {
			x.Label("not a query")
			x.NonTrivial()
		}
		if err != nil {
			return fmt.Errorf("step %d: %v", i, err)
		}
	}
	// another client
	for n := 1; n <= 6; n++ {
		from := fmt.Sprintf("127.0.77.%d", n)
		if !admits(c.Allowed, net.ParseIP(from)) {
			continue
		}
		k, err := dialRaw(ctx, c.Proto, addr, from, false)
		if err != nil {
			return fmt.Errorf("no further connection: %v", err)
		}
		defer k.stop()
		b, _ := sentinel.Pack()
		if err := k.send(b, 0); err != nil {
			return fmt.Errorf("no further query: %v", err)
		}
		m, err := readMsg(k)
		if err != nil {
			return fmt.Errorf("no further answer: %v", err)
		}
		if m.Id != 4242 || len(m.Answer) != 1 || kit.RRText(m.Answer[0]) != kit.RRText(kit.RR("alive.test. 60 IN A 192.0.2.77")) {
			return fmt.Errorf("wrong answer after all:\n%s", kit.Text(m))
		}
		break
	}
	for _, call := range up.Calls() {
		s := kit.Text(bare(call.Q))
		if call.Q.Id == 4242 && call.Q.Question[0].Name == "alive.test." {
			continue
		}
		if fine[s] == 0 {
			return fmt.Errorf("a query was resolved that nobody sent:\n%s", s)
		}
		if ci := call.CI; !admits(c.Allowed, ci.SourceIP) {
			return fmt.Errorf("a query of %v was resolved; allowed are %v", ci.SourceIP, c.Allowed)
		}
		fine[s]--
	}
	return nil
}

func readMsg(k *rawConn) (*dns.Msg, error) {
	b, err := k.recv()
	if err != nil {
		return nil, fmt.Errorf("no response: %v", err)
	}
	m := new(dns.Msg)
	if err := m.Unpack(b); err != nil {
		return nil, fmt.Errorf("the response can not be read: %v", err)
	}
	return m, nil
}

// cleanAnswer checks the response to a query.
func (c Rough) cleanAnswer(x *kit.Ctx, s RoughStep, q *dns.Msg, k *rawConn, up *kit.Up, before int) error {
	x.Label("query")
	if s.R.Nil {
		x.Label("dropped")
		if c.Proto == UDP || c.Proto == DTLS {
			for t0 := time.Now(); up.N() == before; time.Sleep(100 * time.Microsecond) {
				if time.Since(t0) > patience {
					return errors.New("the query was not resolved")
				}
			}
			return nil
		}
		if b, err := k.recv(); err == nil {
			return fmt.Errorf("a dropped query has a response: %x", b)
		} else if e, ok := err.(net.Error); ok && e.Timeout() {
			return errors.New("nothing happens after a query was dropped")
		}
	} else {
		m, err := readMsg(k)
		if err != nil {
			return err
		}
		if s.R.Err != "" {
			if m.Rcode != dns.RcodeServerFailure {
				return fmt.Errorf("the resolver failed, response:\n%s", kit.Text(m))
			}
			if err := kit.SameQuestion(q, m); err != nil {
				return err
			}
		} else {
			full, _ := Handled{R: s.R, Fill: s.Fill, Chunk: 200}.reply(q)
			limit := 65535
			if c.Proto == UDP || c.Proto == DTLS {
				limit = 512
				if o := q.IsEdns0(); o != nil {
					limit = max(512, int(o.UDPSize()))
				}
			}
			if err := sameUpTo(x, full, m, limit); err != nil {
				return err
			}
		}
	}
	if up.N() == before {
		return errors.New("the query was not resolved")
	}
	return nil
}
