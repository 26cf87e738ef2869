package wire

import (
	"crypto/tls"
	"errors"
	"fmt"
	"net"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"pgregory.net/rapid"

	"verif/kit"
)

// Upstream is a history of queries to one server that answers as it likes.
type Upstream struct {
	Proto   string    `json:"proto"`
	Timeout int       `json:"timeout"` // ms, 0 is the default
	Dials   []Dial    `json:"dials"`   // the last one repeats
	Asks    []SlowAsk `json:"asks"`
}

// Dial is what happens when a connection is opened.
type Dial struct {
	Delay int  `json:"delay,omitempty"` // ms
	Fail  bool `json:"fail,omitempty"`
	Snap  int  `json:"snap,omitempty"` // this write gets through, but ends in an error after a while
}

// snapTime is how long a write takes to fail.
const snapTime = 2*time.Millisecond + 7*time.Microsecond

// SlowAsk is a query at a time, with what the server does when it gets it.
type SlowAsk struct {
	At    int     `json:"at"` // ms
	Name  string  `json:"name"`
	Type  uint16  `json:"type"`
	ID    uint16  `json:"id"`
	React []React `json:"react"`
}

// React is one thing the server does.
type React struct {
	After int    `json:"after"` // ms after the query came in
	Kind  string `json:"kind"`
	To    int    `json:"to,omitempty"`
}

// Kinds of reactions.
const (
	answer    = "answer"
	otherCase = "other case"
	wrongName = "wrong name"
	wrongType = "wrong type"
	wrongCl   = "wrong class"
	noQ       = "no question"
	stranger  = "unknown ID"
	crossed   = "ID of another query"
	garbage   = "cut off"
	short     = "too short"
	hangup    = "close"
)

func genUpstream(t *rapid.T) Upstream {
	c := Upstream{
		Proto:   kit.Pick(t, "proto", UDP, TCP, DoT),
		Timeout: kit.Pick(t, "timeout", 0, 1000, 3000, 12000),
	}
	c.Dials = kit.List(t, "dials", 1, 4, func(t *rapid.T) Dial {
		d := Dial{Delay: kit.Pick(t, "delay", 0, 0, 0, 50, 700, 2500), Fail: kit.Chance(t, "fail", 20)}
		if c.Proto != DoT && kit.Chance(t, "snaps", 25) {
			d.Snap = kit.Int(t, "snap", 1, 3)
		}
		return d
	})
	at := 0
	n := kit.Int(t, "asks", 1, 9)
	for i := 0; i < n; i++ {
		at += kit.Pick(t, "gap", 0, 0, 1, 10, 100, 1000, 2600, 5000, 11000, 30000)
		a := SlowAsk{At: at, Name: kit.Pick(t, "name", "a.test.", "b.test.", "A.tEst."), Type: kit.Pick[uint16](t, "type", 1, 1, 28), ID: kit.Pick[uint16](t, "id", 0, 1, 7, 65535)}
		if kit.Chance(t, "plain", 45) {
			a.React = []React{{After: kit.Pick(t, "after", 0, 5, 60, 500, 1500, 2300), Kind: answer}}
		} else {
			a.React = kit.List(t, "react", 0, 3, func(t *rapid.T) React {
				return React{
					After: kit.Pick(t, "after", 0, 5, 60, 500, 1500, 2300),
					Kind:  kit.Pick(t, "kind", answer, answer, crossed, otherCase, wrongName, wrongType, wrongCl, noQ, stranger, garbage, short, hangup),
					To:    kit.Int(t, "to", 0, n-1),
				}
			})
		}
		c.Asks = append(c.Asks, a)
	}
	return c
}

func (c Upstream) timeout() time.Duration {
	if c.Timeout == 0 {
		return 2 * time.Second
	}
	return time.Duration(c.Timeout) * time.Millisecond
}

// All times differ by at least a microsecond.
func (c Upstream) askTime(i int) time.Duration {
	return time.Duration(c.Asks[i].At)*time.Millisecond + time.Duration(i)*time.Microsecond
}

func (c Upstream) lag(i, k int) time.Duration {
	return time.Duration(c.Asks[i].React[k].After)*time.Millisecond + time.Duration(20*(k+1)+100*i)*time.Microsecond
}

func (c Upstream) dial(k int) (time.Duration, bool) {
	d := c.Dials[min(k, len(c.Dials)-1)]
	if d.Delay == 0 {
		return 0, d.Fail
	}
	return time.Duration(d.Delay)*time.Millisecond + 11*time.Microsecond, d.Fail
}

// outcome is what a client has to get.
type outcome struct {
	done bool
	ok   bool
	tag  string
	any  bool // also an answer that can not be told in advance, or an error
	at   time.Duration
	why  string
}

const idle = 10 * time.Second

// model plays the history. It also says if the order of queries matters that
// wait for the same connection.
func (c Upstream) model() ([]outcome, bool) {
	unsure := false
	out := make([]outcome, len(c.Asks))
	type event struct {
		at   time.Duration
		what func()
	}
	var todo []event
	var now time.Duration
	add := func(at time.Duration, f func()) {
		i := sort.Search(len(todo), func(i int) bool { return todo[i].at > at })
		todo = slices.Insert(todo, i, event{at, f})
	}
	finish := func(i int, o outcome) {
		if !out[i].done {
			o.done, o.at = true, now
			out[i] = o
		}
	}
	var (
		conn     int // 0 is none, -1 being opened
		conns    int
		dials    int
		lastRead time.Duration
		waiting  []int
		where    = map[int]int{} // connection a query went out on
		snap     int             // the write that will fail
		sent     int             // writes on this connection
		stuck    bool            // in a write
	)
	var dialing func()
	lose := func(why string, any bool) {
		old := conn
		conn = 0
		stuck = false
		defer func() {
			for len(waiting) > 0 && out[waiting[0]].done {
				waiting = waiting[1:]
			}
			if len(waiting) > 0 {
				dialing()
			}
		}()
		for i := range c.Asks {
			if where[i] == old {
				finish(i, outcome{why: why, any: any})
			}
		}
	}
	var idles func(cn int)
	idles = func(cn int) {
		at := lastRead
		add(at+idle, func() {
			if conn != cn {
				return
			}
			if lastRead == at {
				lose("the connection was idle", true)
				return
			}
		})
	}
	read := func() {
		lastRead = now
		idles(conn)
	}
	send := func(i int) {
		if stuck {
			waiting = append(waiting, i)
			return
		}
		where[i] = conn
		cn := conn
		if sent++; sent == snap {
			stuck = true
			add(now+snapTime, func() {
				if conn == cn {
					lose("the query could not be sent", false)
				}
			})
		}
		for k, r := range c.Asks[i].React {
			add(now+c.lag(i, k), func() {
				if conn != cn {
					return
				}
				id := i
				if r.Kind == crossed {
					if w, ok := where[r.To]; !ok || w != cn {
						id = -1 // not known to the server
					} else {
						id = r.To
					}
				}
				fits := id >= 0 && strings.EqualFold(c.Asks[i].Name, c.Asks[id].Name) && c.Asks[i].Type == c.Asks[id].Type
				switch r.Kind {
				case hangup, short:
					lose("the connection was closed", false)
					return
				case stranger:
				case garbage:
					finish(id, outcome{any: true, why: "the response is broken"})
				case answer, otherCase, crossed:
					if id < 0 {
						break
					}
					if fits {
						finish(id, outcome{ok: true, tag: fmt.Sprintf("%d/%d", i, k)})
					} else {
						finish(id, outcome{why: "the response is to another question"})
					}
				default:
					finish(id, outcome{why: "the response is to another question"})
				}
				read()
			})
		}
	}
	dialing = func() {
		trigger := waiting[0]
		waiting = waiting[1:]
		conn = -1
		d, fail := c.dial(dials)
		snap, sent = c.Dials[min(dials, len(c.Dials)-1)].Snap, 0
		dials++
		up := func() {
			if fail {
				conn = 0
				finish(trigger, outcome{why: "no connection"})
				for len(waiting) > 0 && out[waiting[0]].done {
					waiting = waiting[1:]
				}
				if len(waiting) > 0 {
					dialing()
				}
				return
			}
			conns++
			conn = conns
			read()
			send(trigger)
			rest := waiting
			unsure = unsure || len(rest) > 0 && snap != 0
			waiting = nil
			for _, i := range rest {
				if !out[i].done {
					send(i)
				}
			}
		}
		if d == 0 {
			up()
		} else {
			add(now+d, up)
		}
	}
	for i := range c.Asks {
		add(c.askTime(i), func() {
			add(now+c.timeout(), func() { finish(i, outcome{why: "timeout"}) })
			switch {
			case conn > 0:
				send(i)
			case conn < 0:
				waiting = append(waiting, i)
			default:
				waiting = append(waiting, i)
				dialing()
			}
		})
	}
	for len(todo) > 0 {
		e := todo[0]
		todo = todo[1:]
		now = e.at
		e.what()
	}
	return out, unsure
}

// server is the other end of the connections.
type server struct {
	c      Upstream
	t0     time.Time
	mu     sync.Mutex
	dials  int
	err    error
	reused bool
}

// Dial implements rdns.Dialer.
func (s *server) Dial(network, addr string) (net.Conn, error) {
	s.mu.Lock()
	d, fail := s.c.dial(s.dials)
	snap := s.c.Dials[min(s.dials, len(s.c.Dials)-1)].Snap
	s.dials++
	s.mu.Unlock()
	time.Sleep(d)
	if fail {
		return nil, fmt.Errorf("no route to host")
	}
	client, srv := net.Pipe()
	if snap != 0 {
		sc := &snapConn{Conn: client, left: snap, gone: make(chan struct{})}
		go s.serve(&goneConn{Conn: srv, gone: sc.gone})
		return sc, nil
	}
	go s.serve(srv)
	return client, nil
}

// snapConn fails a write that has got through.
type snapConn struct {
	net.Conn
	left int
	gone chan struct{}
}

func (c *snapConn) Write(b []byte) (int, error) {
	n, err := c.Conn.Write(b)
	if c.left--; c.left != 0 || err != nil {
		return n, err
	}
	select {
	case <-time.After(snapTime):
	case <-c.gone:
	}
	return 0, errors.New("connection reset by peer")
}

// goneConn tells when the server closes it.
type goneConn struct {
	net.Conn
	gone chan struct{}
	once sync.Once
}

func (c *goneConn) Close() error {
	c.once.Do(func() { close(c.gone) })
	return c.Conn.Close()
}

func (s *server) fail(format string, a ...any) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.err == nil {
		s.err = fmt.Errorf(format, a...)
	}
}

type packets struct{ net.Conn }

func (packets) ReadFrom([]byte) (int, net.Addr, error)      { panic("unused") }
func (packets) WriteTo([]byte, net.Addr) (n int, err error) { panic("unused") }

func (s *server) serve(c net.Conn) {
	switch s.c.Proto {
	case UDP:
		c = packets{c}
	case DoT:
		c = tls.Server(c, &tls.Config{Certificates: []tls.Certificate{ourCert().tls}})
	}
	co := &dns.Conn{Conn: c, UDPSize: 65535}
	defer c.Close()
	var mu sync.Mutex
	ids := map[int]*dns.Msg{}   // queries under way
	known := map[int]*dns.Msg{} // queries ever seen
	for {
		q, err := co.ReadMsg()
		if err != nil {
			return
		}
		i := -1
		if o := q.IsEdns0(); o != nil {
			for _, p := range o.Option {
				if l, ok := p.(*dns.EDNS0_LOCAL); ok && l.Code == 65001 && len(l.Data) == 1 {
					i = int(l.Data[0])
				}
			}
		}
		if i < 0 || i >= len(s.c.Asks) {
			s.fail("the server got a query that nobody sent:\n%s", kit.Text(q))
			return
		}
		if g, w := kit.HeadText(bare(q)), kit.HeadText(s.c.query(i)); g != w {
			s.fail("the server got\n%sinstead of\n%s", g, w)
			return
		}
		mu.Lock()
		for j, o := range ids {
			if o.Id == q.Id && time.Since(s.t0) < s.c.askTime(j)+s.c.timeout() {
				s.fail("queries %d and %d are under way with the same ID on one connection", j, i)
			}
		}
		for _, o := range known {
			if o.Id == q.Id { // allowed and rare, but would spoil the model
				s.mu.Lock()
				s.reused = true
				s.mu.Unlock()
			}
		}
		ids[i], known[i] = q, q
		mu.Unlock()
		for k, r := range s.c.Asks[i].React {
			go func() {
				time.Sleep(s.c.lag(i, k))
				mu.Lock()
				defer mu.Unlock()
				a := new(dns.Msg)
				a.SetReply(q)
				a.Answer = kit.RRs([]string{fmt.Sprintf("%s 60 IN TXT \"%d/%d\"", q.Question[0].Name, i, k)})
				delete(ids, i)
				switch r.Kind {
				case otherCase:
					a.Question[0].Name = flip(a.Question[0].Name)
				case wrongName:
					a.Question[0].Name = "c.test."
				case wrongType:
					a.Question[0].Qtype = 29 - q.Question[0].Qtype
				case wrongCl:
					a.Question[0].Qclass = dns.ClassCHAOS
				case noQ:
					a.Question = nil
				case stranger:
					a.Id = s.free(known, q.Id)
				case crossed:
					ids[i] = q
					if o := known[r.To]; o != nil {
						a.Id = o.Id
						delete(ids, r.To)
					} else {
						a.Id = s.free(known, q.Id)
					}
				case garbage:
					b, _ := a.Pack()
					co.Write(b[:len(b)-3])
					return
				case short:
					co.Write([]byte{byte(q.Id >> 8), byte(q.Id), 0x80})
					c.Close()
					return
				case hangup:
					c.Close()
					return
				}
				co.WriteMsg(a)
			}()
		}
	}
}

// free returns an ID no query has.
func (s *server) free(ids map[int]*dns.Msg, id uint16) uint16 {
	for {
		id += 77
		if !slices.ContainsFunc(s.all(ids), func(m *dns.Msg) bool { return m.Id == id }) {
			return id
		}
	}
}

func (s *server) all(ids map[int]*dns.Msg) (out []*dns.Msg) {
	for _, m := range ids {
		out = append(out, m)
	}
	return out
}

func flip(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			b[i] ^= 32
		}
	}
	return string(b)
}

func (c Upstream) query(i int) *dns.Msg {
	a := c.Asks[i]
	return kit.Q{Name: a.Name, Type: a.Type, ID: a.ID, RD: true, EDNS: &kit.E{Size: 1232, Opts: []kit.Opt{{Code: 65001, Data: fmt.Sprintf("%02x", i)}}}}.Msg()
}

func runUpstream(x *kit.Ctx, c Upstream) error {
	return kit.Bubble(x, func() error {
		s := &server{c: c, t0: time.Now()}
		var r rdns.Resolver
		var err error
		to := time.Duration(c.Timeout) * time.Millisecond
		if c.Proto == DoT {
			r, err = rdns.NewDoTClient("up", "dns.test:853", rdns.DoTClientOptions{TLSConfig: &tls.Config{RootCAs: ourCA().pool()}, QueryTimeout: to, Dialer: s})
		} else {
			r, err = rdns.NewDNSClient("up", "192.0.2.1:53", c.Proto, rdns.DNSClientOptions{QueryTimeout: to, Dialer: s})
		}
		if err != nil {
			return err
		}
		type result struct {
			a   *dns.Msg
			err error
			at  time.Duration
		}
		got := make([]result, len(c.Asks))
		var wg sync.WaitGroup
		for i := range c.Asks {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(c.askTime(i))
				q := c.query(i)
				a, err := r.Resolve(q, rdns.ClientInfo{})
				got[i] = result{a, err, time.Since(s.t0)}
			}()
		}
		wg.Wait()
		synctest.Wait()
		s.mu.Lock()
		defer s.mu.Unlock()
		if s.err != nil {
			return s.err
		}
		if s.reused {
			x.Label("ID reused")
			return nil
		}
		out, unsure := c.model()
		x.LabelIf(unsure, "the order is not known")
		for i, w := range out {
			g := got[i]
			if unsure {
				if d := g.at - c.askTime(i); d > c.timeout() {
					return fmt.Errorf("query %d took %v (answer %v, error %v)", i, d, g.a, g.err)
				}
				if g.err == nil && g.a == nil {
					return fmt.Errorf("query %d got neither answer nor error", i)
				}
				continue
			}
			if !w.done {
				return fmt.Errorf("verif: query %d has no outcome", i)
			}
			if g.err == nil && g.a == nil {
				return fmt.Errorf("query %d got neither answer nor error", i)
			}
			if late := w.at; g.at > late && !(w.any && g.at <= late+snapTime) {
				return fmt.Errorf("query %d was done at %v (answer %v, error %v), but should be at %v (%s%s)", i, g.at, g.a, g.err, w.at, w.tag, w.why)
			}
			x.LabelIf(w.why != "", w.why)
			x.LabelIf(w.ok, "answered")
			switch {
			case w.any:
				continue
			case w.ok && g.err != nil:
				return fmt.Errorf("query %d failed with %q at %v, but should get answer %s at %v", i, g.err, g.at, w.tag, w.at)
			case !w.ok && g.err == nil:
				return fmt.Errorf("query %d got an answer at %v, but should fail at %v: %s\n%s", i, g.at, w.at, w.why, kit.Text(g.a))
			case !w.ok:
				continue
			}
			if len(g.a.Answer) != 1 || g.a.Answer[0].(*dns.TXT).Txt[0] != w.tag {
				return fmt.Errorf("query %d should get answer %s, but got\n%s", i, w.tag, kit.Text(g.a))
			}
			if g.a.Id != c.Asks[i].ID {
				return fmt.Errorf("query %d with ID %d got an answer with ID %d", i, c.Asks[i].ID, g.a.Id)
			}
		}
		x.Label("%s", c.Proto)
		if len(c.Asks) > 2 && s.dials > 1 {
			x.NonTrivial()
		}
		return nil
	})
}

// Lost is a long series of queries without answers over one connection that is
// kept busy by others.
type Lost struct {
	Proto string `json:"proto"`
	Waves int    `json:"waves"`
	Size  int    `json:"size"`
}

func genLost(t *rapid.T) Lost {
	c := Lost{Proto: kit.Pick(t, "proto", UDP, TCP), Size: kit.Int(t, "size", 9000, 14000)}
	c.Waves = 66000/c.Size + 1
	return c
}

func runLost(x *kit.Ctx, c Lost) error {
	return kit.Bubble(x, func() error {
		dials := 0
		d := dialFunc(func(string, string) (net.Conn, error) {
			dials++
			client, srv := net.Pipe()
			go func() {
				var k net.Conn = srv
				if c.Proto == UDP {
					k = packets{srv}
				}
				co := &dns.Conn{Conn: k, UDPSize: 65535}
				for {
					q, err := co.ReadMsg()
					if err != nil {
						return
					}
					if q.Question[0].Name == "ok.test." {
						a := new(dns.Msg)
						a.SetReply(q)
						go co.WriteMsg(a)
					}
				}
			}()
			return client, nil
		})
		r, err := rdns.NewDNSClient("up", "192.0.2.1:53", c.Proto, rdns.DNSClientOptions{QueryTimeout: time.Second, Dialer: d})
		if err != nil {
			return err
		}
		for w := range c.Waves {
			var wg sync.WaitGroup
			for i := range c.Size {
				wg.Add(1)
				go func() {
					defer wg.Done()
					r.Resolve(kit.Q{Name: "lost.test.", Type: 1, ID: uint16(i)}.Msg(), rdns.ClientInfo{})
				}()
			}
			wg.Wait()
			if _, err := r.Resolve(kit.Q{Name: "ok.test.", Type: 1, ID: 5}.Msg(), rdns.ClientInfo{}); err != nil {
				return fmt.Errorf("after %d queries without an answer: %v", (w+1)*c.Size, err)
			}
		}
		x.LabelIf(dials == 1, "one connection")
		x.NonTrivial()
		return nil
	})
}

type dialFunc func(network, addr string) (net.Conn, error)

func (f dialFunc) Dial(network, addr string) (net.Conn, error) { return f(network, addr) }
