package wire

import (
	"context"
	"crypto/tls"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"sync"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"
	"pgregory.net/rapid"

	"verif/kit"
)

// Early is a connection that is resumed while nothing from the server gets to
// the client, so that all the server receives is 0-RTT data.
type Early struct {
	Proto   string     `json:"proto"` // DoQ or DoH3
	Flights [][]EarlyQ `json:"flights"`
	Replay  int        `json:"replay,omitempty"` // how often a first flight is sent again (listeners)
	Finish  bool       `json:"finish"`           // the handshake completes in the end
	Forget  bool       `json:"forget,omitempty"` // the server has forgotten the sessions (resolvers)
}

// EarlyQ is one query.
type EarlyQ struct {
	Opcode int  `json:"opcode"`
	Post   bool `json:"post,omitempty"` // not by the 0-RTT method (DoH)
}

func genEarly(listener bool) func(t *rapid.T) Early {
	return func(t *rapid.T) Early {
		c := Early{Proto: kit.Pick(t, "proto", DoQ, DoQ, DoH3)}
		c.Flights = kit.List(t, "flights", 1, 2, func(t *rapid.T) []EarlyQ {
			return kit.List(t, "queries", 1, 4, func(t *rapid.T) EarlyQ {
				q := EarlyQ{Opcode: kit.Pick(t, "opcode", dns.OpcodeUpdate, dns.OpcodeUpdate, dns.OpcodeQuery, dns.OpcodeNotify, dns.OpcodeIQuery, dns.OpcodeStatus, 6, 15)}
				return q
			})
		})
		c.Finish = kit.Chance(t, "finish", 60)
		if listener {
			c.Replay = kit.Pick(t, "replay", 0, 0, 1, 2)
		} else {
			c.Forget = kit.Chance(t, "forget", 20)
		}
		return c
	}
}

func replayable(opcode int) bool { return opcode == dns.OpcodeQuery || opcode == dns.OpcodeNotify }

// relay passes datagrams on between clients and a server.
type relay struct {
	front  *net.UDPConn
	target *net.UDPAddr
	mu     sync.Mutex
	back   map[string]*net.UDPConn
	deaf   bool // hold back what the server sends
	held   []func()
	record bool
	sent   [][]byte // by clients
	down   int      // datagrams from the server
}

func newRelay(target string) (*relay, error) {
	t, err := net.ResolveUDPAddr("udp", target)
	if err != nil {
		return nil, err
	}
	f, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP(here)})
	if err != nil {
		return nil, err
	}
	r := &relay{front: f, target: t, back: map[string]*net.UDPConn{}}
	go r.run()
	return r, nil
}

func (r *relay) addr() string { return r.front.LocalAddr().String() }

func (r *relay) run() {
	for {
		b := make([]byte, 65536)
		n, from, err := r.front.ReadFromUDP(b)
		if err != nil {
			return
		}
		b = b[:n]
		r.mu.Lock()
		if r.record {
			r.sent = append(r.sent, b)
		}
		c := r.back[from.String()]
		if c == nil {
			if c, err = net.DialUDP("udp", &net.UDPAddr{IP: net.ParseIP(here)}, r.target); err != nil {
				r.mu.Unlock()
				continue
			}
			r.back[from.String()] = c
			go r.returns(c, from)
		}
		r.mu.Unlock()
		c.Write(b)
	}
}

func (r *relay) returns(c *net.UDPConn, to *net.UDPAddr) {
	for {
		b := make([]byte, 65536)
		n, err := c.Read(b)
		if errors.Is(err, net.ErrClosed) {
			return
		}
		if err != nil {
			continue
		}
		send := func() { r.front.WriteToUDP(b[:n], to) }
		r.mu.Lock()
		r.down++
		if r.deaf {
			r.held = append(r.held, send)
		} else {
			send()
		}
		r.mu.Unlock()
	}
}

func (r *relay) count() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.down
}

func (r *relay) hold() {
	r.mu.Lock()
	r.deaf, r.record, r.sent = true, true, nil
	r.mu.Unlock()
}

// release passes on what was held back.
func (r *relay) release(pass bool) [][]byte {
	r.mu.Lock()
	defer r.mu.Unlock()
	if pass {
		for _, f := range r.held {
			f()
		}
	}
	r.deaf, r.held, r.record = false, nil, false
	return r.sent
}

func (r *relay) stop() {
	r.front.Close()
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, c := range r.back {
		c.Close()
	}
}

// sessions is a cache of TLS sessions that can be waited for.
type sessions struct {
	tls.ClientSessionCache
	got chan struct{}
}

func (s *sessions) Put(k string, v *tls.ClientSessionState) {
	s.ClientSessionCache.Put(k, v)
	select {
	case s.got <- struct{}{}:
	default:
	}
}

func (c Early) query(flight, i int) *dns.Msg {
	q := kit.Q{Name: fmt.Sprintf("q%d.f%d.test.", i, flight), Type: 1}.Msg()
	q.Opcode = c.Flights[flight][i].Opcode
	return q
}

// arrivals counts queries by name.
type arrivals struct {
	mu sync.Mutex
	n  map[string]int
}

func (a *arrivals) add(name string) {
	a.mu.Lock()
	defer a.mu.Unlock()
	if a.n == nil {
		a.n = map[string]int{}
	}
	a.n[name]++
}

func (a *arrivals) of(name string) int {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.n[name]
}

// within waits until something is so.
func within(d time.Duration, f func() bool) bool {
	for t0 := time.Now(); !f(); time.Sleep(500 * time.Microsecond) {
		if time.Since(t0) > d {
			return false
		}
	}
	return true
}

const moment = 15 * time.Millisecond

// runEarlyListener plays the client of a listener.
func runEarlyListener(x *kit.Ctx, c Early) error {
	var seen arrivals
	up := &kit.Up{ID: "up", F: func(_ int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) {
		seen.add(q.Question[0].Name)
		return kit.R{An: []string{q.Question[0].Name + " 60 IN A 192.0.2.1"}}.Msg(q)
	}}
	addr := net.JoinHostPort(here, fmt.Sprint(port()))
	l, err := newListener(c.Proto, "l", addr, rdns.ListenOptions{}, up)
	if err != nil {
		return err
	}
	stop, err := start(l, addr, true)
	if err != nil {
		return err
	}
	defer stop()
	r, err := newRelay(addr)
	if err != nil {
		return fmt.Errorf("verif: %v", err)
	}
	defer r.stop()
	cache := &sessions{tls.NewLRUClientSessionCache(10), make(chan struct{}, 10)}
	ctx, cancel := context.WithTimeout(context.Background(), patience)
	defer cancel()
	x.Label("%s", c.Proto)

	for f, flight := range c.Flights {
		for len(cache.got) > 0 {
			<-cache.got
		}
		first, err := c.connect(ctx, ctx, r, cache)
		if err != nil {
			return err
		}
		if _, err := first.ask(kit.Q{Name: "first.test.", Type: 1}.Msg(), false); err != nil {
			return fmt.Errorf("first query: %v", err)
		}
		select {
		case <-cache.got:
		case <-ctx.Done():
			return errors.New("no session ticket")
		}
		first.stop()
		r.hold()
		soon, cancel := context.WithTimeout(ctx, 2*time.Second)
		defer cancel()
		conn, err := c.connect(soon, ctx, r, cache)
		if err != nil {
			x.Label("no 0-RTT connection")
			r.release(false)
			continue
		}
		type result struct {
			a   *dns.Msg
			err error
		}
		results := make([]chan result, len(flight)+1)
		ask := func(i int, q *dns.Msg) {
			results[i] = make(chan result, 1)
			go func() {
				a, err := conn.ask(q, true)
				results[i] <- result{a, err}
			}()
		}
		for i := range flight {
			ask(i, c.query(f, i))
		}
		last := fmt.Sprintf("last%d.test.", f)
		ask(len(flight), kit.Q{Name: last, Type: 1}.Msg())
		early := within(2*time.Second, func() bool { return seen.of(last) > 0 })
		x.LabelIf(early, "0-RTT data arrived")
		if early {
			x.NonTrivial()
		}
		time.Sleep(moment)
		check := func(when string) error {
			for i, q := range flight {
				name := c.query(f, i).Question[0].Name
				if n := seen.of(name); n > 0 && !replayable(q.Opcode) {
					return fmt.Errorf("query %d of flight %d with opcode %d was resolved %s", i, f, q.Opcode, when)
				}
			}
			return nil
		}
		if err := check("before the handshake was complete"); err != nil {
			return err
		}
		if c.Finish {
			packets := r.release(true)
			for i, ch := range results {
				name, op := last, 0
				if i < len(flight) {
					name, op = c.query(f, i).Question[0].Name, flight[i].Opcode
				}
				var res result
				select {
				case res = <-ch:
				case <-ctx.Done():
					return fmt.Errorf("query %d of flight %d has no end", i, f)
				}
				n := seen.of(name)
				switch {
				case res.err != nil && c.Proto == DoH3 && !replayable(op) && res.err.Error() == "status 425":
					x.Label("status 425")
					if n != 0 {
						return fmt.Errorf("query %d of flight %d was resolved, but has status 425", i, f)
					}
				case res.err != nil:
					return fmt.Errorf("query %d of flight %d with opcode %d failed: %v", i, f, op, res.err)
				case n != 1 || len(res.a.Answer) != 1 || res.a.Answer[0].Header().Name != name:
					return fmt.Errorf("query %d of flight %d was resolved %d times, answer:\n%s", i, f, n, kit.Text(res.a))
				default:
					x.LabelIf(!replayable(op), "resolved after the handshake")
				}
			}
			before := map[string]int{}
			for i := range flight {
				before[c.query(f, i).Question[0].Name] = seen.of(c.query(f, i).Question[0].Name)
			}
			conn.stop()
			if err := c.replay(x, packets, addr); err != nil {
				return err
			}
			for i, q := range flight {
				name := c.query(f, i).Question[0].Name
				if n := seen.of(name); n > before[name] && !replayable(q.Opcode) {
					return fmt.Errorf("query %d of flight %d with opcode %d was resolved again from replayed packets", i, f, q.Opcode)
				}
			}
			continue
		}
		conn.stop()
		packets := r.release(false)
		if err := c.replay(x, packets, addr); err != nil {
			return err
		}
		if err := check("from replayed packets"); err != nil {
			return err
		}
	}
	return nil
}

// replay sends packets again from another address.
func (c Early) replay(x *kit.Ctx, packets [][]byte, addr string) error {
	for range c.Replay {
		x.Label("replayed")
		u, err := net.Dial("udp", addr)
		if err != nil {
			return fmt.Errorf("verif: %v", err)
		}
		for _, b := range packets {
			u.Write(b)
		}
		time.Sleep(moment)
		u.Close()
	}
	return nil
}

// earlyConn is a connection of a client.
type earlyConn struct {
	ask  func(q *dns.Msg, early bool) (*dns.Msg, error)
	stop func()
}

func (c Early) connect(dial, ctx context.Context, r *relay, cache *sessions) (*earlyConn, error) {
	pc, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP(here)})
	if err != nil {
		return nil, fmt.Errorf("verif: %v", err)
	}
	tr := &quic.Transport{Conn: pc}
	stop := func() { tr.Close(); pc.Close() }
	tlsc := &tls.Config{RootCAs: ourCA().pool(), ServerName: "dns.test", NextProtos: []string{"doq"}, ClientSessionCache: cache}
	if c.Proto == DoH3 {
		tlsc.NextProtos = []string{"h3"}
		h3 := &http3.Transport{TLSClientConfig: tlsc, Dial: func(ctx context.Context, _ string, t *tls.Config, q *quic.Config) (*quic.Conn, error) {
			return tr.DialEarly(ctx, r.front.LocalAddr(), t, q)
		}}
		return &earlyConn{func(q *dns.Msg, early bool) (*dns.Msg, error) {
			b, err := q.Pack()
			if err != nil {
				return nil, fmt.Errorf("verif: %v", err)
			}
			method := http.MethodGet
			if early {
				method = http3.MethodGet0RTT
			}
			req, err := http.NewRequestWithContext(ctx, method, "https://dns.test/dns-query?dns="+base64.RawURLEncoding.EncodeToString(b), nil)
			if err != nil {
				return nil, fmt.Errorf("verif: %v", err)
			}
			resp, err := h3.RoundTrip(req)
			if err != nil {
				return nil, err
			}
			defer resp.Body.Close()
			b, err = io.ReadAll(resp.Body)
			if resp.StatusCode != 200 {
				return nil, fmt.Errorf("status %d", resp.StatusCode)
			}
			if err != nil {
				return nil, err
			}
			a := new(dns.Msg)
			return a, a.Unpack(b)
		}, func() { h3.Close(); stop() }}, nil
	}
	conn, err := tr.DialEarly(dial, r.front.LocalAddr(), tlsc, nil)
	if err != nil {
		stop()
		return nil, err
	}
	return &earlyConn{func(q *dns.Msg, _ bool) (*dns.Msg, error) {
		b, err := q.Pack()
		if err != nil {
			return nil, fmt.Errorf("verif: %v", err)
		}
		s, err := conn.OpenStreamSync(ctx)
		if err != nil {
			return nil, err
		}
		s.SetDeadline(time.Now().Add(patience))
		s.Write(append(binary.BigEndian.AppendUint16(nil, uint16(len(b))), b...))
		s.Close()
		if b, err = io.ReadAll(s); err != nil {
			return nil, err
		}
		if len(b) < 2 {
			return nil, errors.New("no response")
		}
		a := new(dns.Msg)
		return a, a.Unpack(b[2:])
	}, stop}, nil
}

// earlyServer is the server for a resolver.
type earlyServer struct {
	seen  arrivals
	mu    sync.Mutex
	conns []*quic.Conn
	err   error
}

func (s *earlyServer) answer(b []byte) []byte {
	q := new(dns.Msg)
	if err := q.Unpack(b); err != nil || len(q.Question) != 1 {
		s.mu.Lock()
		s.err = fmt.Errorf("the server can not read the query %x", b)
		s.mu.Unlock()
		return nil
	}
	s.seen.add(q.Question[0].Name)
	a, _ := kit.R{An: []string{q.Question[0].Name + " 60 IN A 192.0.2.1"}}.Msg(q)
	out, _ := a.Pack()
	return out
}

func (s *earlyServer) drop() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.conns {
		c.CloseWithError(0, "")
	}
	s.conns = nil
}

// runEarlyResolver plays the server of a resolver.
func runEarlyResolver(x *kit.Ctx, c Early) error {
	s := &earlyServer{}
	pc, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP(here)})
	if err != nil {
		return fmt.Errorf("verif: %v", err)
	}
	tr := &quic.Transport{Conn: pc}
	defer func() { tr.Close(); pc.Close() }()
	alpn := "doq"
	if c.Proto == DoH3 {
		alpn = "h3"
	}
	base := &tls.Config{Certificates: []tls.Certificate{ourCert().tls}, NextProtos: []string{alpn}}
	key := byte(1)
	base.SetSessionTicketKeys([][32]byte{{key}})
	ln, err := tr.ListenEarly(base, &quic.Config{Allow0RTT: true})
	if err != nil {
		return fmt.Errorf("verif: %v", err)
	}
	defer ln.Close()
	web := &http3.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		b, err := base64.RawURLEncoding.DecodeString(req.URL.Query().Get("dns"))
		if err != nil {
			w.WriteHeader(400)
			return
		}
		w.Header().Set("content-type", dohType)
		w.Write(s.answer(b))
	})}
	go func() {
		for {
			conn, err := ln.Accept(context.Background())
			if err != nil {
				return
			}
			s.mu.Lock()
			s.conns = append(s.conns, conn)
			s.mu.Unlock()
			if c.Proto == DoH3 {
				go web.ServeQUICConn(conn)
				continue
			}
			go func() {
				for {
					st, err := conn.AcceptStream(context.Background())
					if err != nil {
						return
					}
					go func() {
						b, err := io.ReadAll(st)
						if err != nil || len(b) < 2 {
							return
						}
						a := s.answer(b[2:])
						st.Write(append(binary.BigEndian.AppendUint16(nil, uint16(len(a))), a...))
						st.Close()
					}()
				}
			}()
		}
	}()
	r, err := newRelay(pc.LocalAddr().String())
	if err != nil {
		return fmt.Errorf("verif: %v", err)
	}
	defer r.stop()
	client, err := Through{Proto: c.Proto, Early: true, Get: true, Path: "/q"}.newClient("up", r.addr(), 5*time.Second)
	if err != nil {
		return err
	}
	x.Label("%s", c.Proto)
	// until an answer comes
	settle := func(name string) error {
		var last error
		if !within(patience, func() bool {
			a, err := client.Resolve(kit.Q{Name: name, Type: 1}.Msg(), rdns.ClientInfo{})
			last = err
			return err == nil && len(a.Answer) == 1
		}) {
			return fmt.Errorf("queries are not answered any more: %v", last)
		}
		return nil
	}
	if err := settle("first.test."); err != nil {
		return err
	}
	time.Sleep(moment) // for the session ticket
	for f, flight := range c.Flights {
		if c.Forget {
			key++
			base.SetSessionTicketKeys([][32]byte{{key}})
		}
		n := r.count()
		s.drop()
		within(time.Second, func() bool { return r.count() > n })
		time.Sleep(moment)
		r.hold()
		type result struct {
			a   *dns.Msg
			err error
		}
		results := make([]chan result, len(flight))
		for i := range flight {
			q := c.query(f, i)
			results[i] = make(chan result, 1)
			go func() {
				a, err := client.Resolve(q, rdns.ClientInfo{})
				results[i] <- result{a, err}
			}()
			if i == 0 {
				time.Sleep(moment / 4)
			}
		}
		time.Sleep(2 * moment)
		for i, q := range flight {
			name := c.query(f, i).Question[0].Name
			if s.seen.of(name) == 0 {
				continue
			}
			x.Label("0-RTT data arrived")
			x.NonTrivial()
			if !replayable(q.Opcode) {
				return fmt.Errorf("query %d of flight %d with opcode %d was sent before the handshake was complete", i, f, q.Opcode)
			}
		}
		r.release(c.Finish || c.Proto == DoQ)
		if !c.Finish && c.Proto == DoQ {
			s.drop()
		}
		for i := range flight {
			var res result
			select {
			case res = <-results[i]:
			case <-time.After(patience):
				return fmt.Errorf("query %d of flight %d has no end", i, f)
			}
			name := c.query(f, i).Question[0].Name
			if res.err == nil && (res.a == nil || len(res.a.Answer) != 1 || res.a.Answer[0].Header().Name != name) {
				return fmt.Errorf("query %d of flight %d has the answer %v", i, f, res.a)
			}
			x.LabelIf(res.err == nil, "answered after a pause")
			x.LabelIf(res.err != nil, "failed")
		}
		if err := settle(fmt.Sprintf("again%d.test.", f)); err != nil {
			return err
		}
		time.Sleep(moment)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.err
}
