package wire

import (
	"context"
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"github.com/quic-go/quic-go"
	"pgregory.net/rapid"

	"verif/kit"
)

// QuicUpstream is a series of queries to a DoQ server that answers as it
// likes.
type QuicUpstream struct {
	Early bool      `json:"early,omitempty"`
	Asks  []QuicAsk `json:"asks"`
}

// QuicAsk is a query with the response.
type QuicAsk struct {
	Q    kit.Q  `json:"q"`
	Kind string `json:"kind"`
	R    kit.R  `json:"r"`
}

const (
	keepalive = "keepalive"
	silence   = "silence"
	reset     = "reset"
	cutStream = "short stream"
)

func genQuicUpstream(t *rapid.T) QuicUpstream {
	return QuicUpstream{
		Early: kit.Chance(t, "early", 40),
		Asks: kit.List(t, "asks", 1, 6, func(t *rapid.T) QuicAsk {
			a := QuicAsk{Q: kit.GenQ(t, 0, 3), R: genReply(t, 2)}
			a.R.Err = ""
			a.Kind = kit.Pick(t, "kind", answer, answer, answer, otherCase, otherID, wrongName, wrongType, wrongCl, noQ, garbage, short, empty, keepalive, longest, reset, cutStream, hangup, silence)
			if a.Q.EDNS != nil && kit.Chance(t, "ka", 10) {
				a.Q.EDNS.Opts = append(a.Q.EDNS.Opts, kit.Opt{Code: dns.EDNS0TCPKEEPALIVE})
			}
			return a
		}),
	}
}

func (c QuicUpstream) query(i int) *dns.Msg {
	q := c.Asks[i].Q
	q.Name = tag(i, q.Name)
	m := q.Msg()
	if o := m.IsEdns0(); o != nil {
		for k, p := range o.Option {
			if p.Option() == dns.EDNS0TCPKEEPALIVE {
				o.Option[k] = &dns.EDNS0_TCP_KEEPALIVE{Code: dns.EDNS0TCPKEEPALIVE, Timeout: 5}
			}
		}
	}
	return m
}

func (c QuicUpstream) reply(i int, q *dns.Msg) []byte {
	a := c.Asks[i]
	m, _ := a.R.Msg(q)
	if a.Kind == keepalive {
		o := m.IsEdns0()
		if o == nil {
			m.SetEdns0(1232, false)
			o = m.IsEdns0()
		}
		o.Option = append(o.Option, &dns.EDNS0_TCP_KEEPALIVE{Code: dns.EDNS0TCPKEEPALIVE, Timeout: 5})
	}
	return payload(a.Kind, m)
}

func runQuicUpstream(x *kit.Ctx, c QuicUpstream) error {
	addr := net.JoinHostPort(here, fmt.Sprint(port()))
	ln, err := quic.ListenAddrEarly(addr, &tls.Config{Certificates: []tls.Certificate{ourCert().tls}, NextProtos: []string{"doq"}}, &quic.Config{Allow0RTT: true})
	if err != nil {
		return fmt.Errorf("verif: %v", err)
	}
	defer ln.Close()
	var mu sync.Mutex
	var problem error
	fail := func(format string, a ...any) {
		mu.Lock()
		defer mu.Unlock()
		if problem == nil {
			problem = fmt.Errorf(format, a...)
		}
	}
	serve := func(conn *quic.Conn, s *quic.Stream) {
		all, err := io.ReadAll(s)
		if err != nil {
			return
		}
		q := new(dns.Msg)
		if len(all) < 2 || int(binary.BigEndian.Uint16(all)) != len(all)-2 || q.Unpack(all[2:]) != nil || len(q.Question) == 0 {
			fail("the server can not read the query %x", all)
			return
		}
		i := untag(q.Question[0].Name)
		if i < 0 || i >= len(c.Asks) {
			fail("the server got a query nobody sent:\n%s", kit.Text(q))
			return
		}
		if q.Id != 0 {
			fail("query %d has ID %d instead of 0", i, q.Id)
		}
		want := c.query(i)
		if o := want.IsEdns0(); o != nil {
			var keep []dns.EDNS0
			for _, p := range o.Option {
				if p.Option() != dns.EDNS0TCPKEEPALIVE {
					keep = append(keep, p)
				}
			}
			o.Option = keep
		}
		if want, err = wired(want); err != nil {
			fail("verif: %v", err)
			return
		}
		if g, w := kit.HeadText(bare(q)), kit.HeadText(bare(want)); g != w {
			fail("the server got\n%sinstead of\n%s", g, w)
		}
		b := c.reply(i, q)
		n := len(b)
		switch c.Asks[i].Kind {
		case silence:
			return
		case hangup:
			conn.CloseWithError(0, "")
			return
		case reset:
			s.CancelWrite(2)
			return
		case cutStream:
			n++
		}
		s.Write(append([]byte{byte(n >> 8), byte(n)}, b...))
		s.Close()
	}
	go func() {
		for {
			conn, err := ln.Accept(context.Background())
			if err != nil {
				return
			}
			go func() {
				for {
					s, err := conn.AcceptStream(context.Background())
					if err != nil {
						return
					}
					go serve(conn, s)
				}
			}()
		}
	}()

	timeout, quiet := patience, false
	for _, a := range c.Asks {
		quiet = quiet || a.Kind == silence
	}
	if quiet {
		timeout = 300 * time.Millisecond
	}
	client, err := Through{Proto: DoQ, Early: c.Early}.newClient("up", addr, timeout)
	if err != nil {
		return err
	}
	down := false
	for i, a := range c.Asks {
		ask := func() (*dns.Msg, error) {
			q := c.query(i)
			before := kit.Text(q)
			r, err := client.Resolve(q, rdns.ClientInfo{})
			if s := kit.Text(q); s != before {
				fail("query %d was changed by the resolver", i)
			}
			return r, err
		}
		good := a.Kind == answer || a.Kind == otherCase || a.Kind == otherID || a.Kind == longest
		t0 := time.Now()
		g, err := ask()
		for good && err != nil && down && time.Since(t0) < patience {
			time.Sleep(time.Millisecond)
			g, err = ask()
		}
		if err == nil && g == nil {
			return fmt.Errorf("query %d got neither answer nor error", i)
		}
		if time.Since(t0) > patience*3/2 {
			return fmt.Errorf("query %d took %v", i, time.Since(t0))
		}
		x.Label("%s", a.Kind)
		if !good {
			if err == nil {
				return fmt.Errorf("query %d got an answer in spite of %s:\n%s", i, a.Kind, kit.Text(g))
			}
			if a.Kind == hangup {
				down = true
			}
			continue
		}
		if err != nil && quiet {
			continue
		}
		if err != nil {
			return fmt.Errorf("query %d failed: %v", i, err)
		}
		down = false
		q := c.query(i)
		want := new(dns.Msg)
		q.Id = 0
		if err := want.Unpack(c.reply(i, q)); err != nil {
			return fmt.Errorf("verif: %v", err)
		}
		want.Id = a.Q.ID
		if g, w := kit.Text(bare(g)), kit.Text(bare(want)); g != w {
			return fmt.Errorf("query %d got\n%sinstead of\n%s", i, g, w)
		}
	}
	mu.Lock()
	defer mu.Unlock()
	if len(c.Asks) > 1 {
		x.NonTrivial()
	}
	return problem
}
