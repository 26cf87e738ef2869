package wire

import (
	"encoding/base64"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"pgregory.net/rapid"

	"verif/kit"
)

// WebUpstream is a set of queries to a DoH server that answers as it likes.
type WebUpstream struct {
	Get     bool     `json:"get,omitempty"`
	Path    string   `json:"path"`
	Timeout int      `json:"timeout"` // ms
	Asks    []WebAsk `json:"asks"`
}

// WebAsk is a query at a time with the response.
type WebAsk struct {
	At     int    `json:"at"` // ms
	Q      kit.Q  `json:"q"`
	Delay  int    `json:"delay"` // ms
	Status int    `json:"status"`
	Kind   string `json:"kind"`
	R      kit.R  `json:"r"`
}

const (
	otherID = "other ID"
	tooLong = "too long"
	longest = "long"
	empty   = "empty"
)

func genWebUpstream(t *rapid.T) WebUpstream {
	c := WebUpstream{Get: kit.Chance(t, "get", 50), Path: kit.Pick(t, "path", "/", "/dns-query", "/a/b"), Timeout: kit.Pick(t, "timeout", 0, 1000, 4000)}
	at := 0
	c.Asks = kit.List(t, "asks", 1, 5, func(t *rapid.T) WebAsk {
		at += kit.Pick(t, "gap", 0, 1, 700, 3000, 40000)
		a := WebAsk{At: at, Q: kit.GenQ(t, 0, 3), Delay: kit.Pick(t, "delay", 0, 0, 10, 900, 1500, 3000, 12000)}
		a.Status = kit.Pick(t, "status", 200, 200, 200, 200, 200, 201, 299, 300, 400, 404, 425, 500, 503)
		a.Kind = kit.Pick(t, "kind", answer, answer, answer, otherCase, otherID, wrongName, wrongType, wrongCl, noQ, garbage, short, empty, tooLong, longest)
		a.R = genReply(t, 2)
		a.R.Err = ""
		return a
	})
	return c
}

// web is a DoH server.
type web struct {
	c   WebUpstream
	ch  chan net.Conn
	mu  sync.Mutex
	err error
}

func (s *web) Dial(network, addr string) (net.Conn, error) {
	a, b := net.Pipe()
	go func() { s.ch <- b }()
	return a, nil
}

func (s *web) Accept() (net.Conn, error) { return <-s.ch, nil }
func (s *web) Close() error              { return nil }
func (s *web) Addr() net.Addr            { return &net.TCPAddr{} }

func (s *web) fail(format string, a ...any) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.err == nil {
		s.err = fmt.Errorf(format, a...)
	}
}

func (c WebUpstream) query(i int) *dns.Msg {
	q := c.Asks[i].Q
	q.Name = tag(i, q.Name)
	return q.Msg()
}

// payload makes the body of a response.
func payload(kind string, a *dns.Msg) []byte {
	switch kind {
	case otherCase:
		a.Question[0].Name = flip(a.Question[0].Name)
	case otherID:
		a.Id ^= 0x1234
	case wrongName:
		a.Question[0].Name = "q0.other.test."
	case wrongType:
		a.Question[0].Qtype ^= 3
	case wrongCl:
		a.Question[0].Qclass ^= 2
	case noQ:
		a.Question = nil
	case longest:
		for range 200 {
			a.Answer = append(a.Answer, kit.RR("long.test. 60 IN TXT \""+strings.Repeat("x", 250)+"\""))
		}
	}
	b, err := a.Pack()
	if err != nil {
		panic("verif: " + err.Error())
	}
	switch kind {
	case garbage:
		// another record is announced, of which there is only the start
		a.Answer, a.Ns, a.Extra = nil, nil, nil
		a.Rcode &= 15
		if b, err = a.Pack(); err != nil {
			panic("verif: " + err.Error())
		}
		b[7] = 1
		b = append(b, 5, 'a')
	case short:
		b = b[:7]
	case empty:
		b = nil
	case tooLong:
		b = append(b, make([]byte, 67000)...)
	}
	return b
}

func (s *web) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	var b []byte
	var err error
	if s.c.Get {
		b, err = base64.RawURLEncoding.DecodeString(r.URL.Query().Get("dns"))
		if r.Method != "GET" {
			s.fail("method %s instead of GET", r.Method)
		}
	} else {
		b, err = io.ReadAll(r.Body)
		if r.Method != "POST" || r.Header.Get("Content-Type") != "application/dns-message" {
			s.fail("request is %s with content type %q", r.Method, r.Header.Get("Content-Type"))
		}
	}
	if r.URL.Path != s.c.Path || r.Header.Get("Accept") != "application/dns-message" {
		s.fail("request for path %q accepts %q", r.URL.Path, r.Header.Get("Accept"))
	}
	q := new(dns.Msg)
	if err != nil || q.Unpack(b) != nil || len(q.Question) == 0 {
		s.fail("the server can not read the query %x: %v", b, err)
		return
	}
	i := untag(q.Question[0].Name)
	if i < 0 || i >= len(s.c.Asks) {
		s.fail("the server got a query nobody sent:\n%s", kit.Text(q))
		return
	}
	want, err := wired(s.c.query(i))
	if err != nil {
		s.fail("verif: %v", err)
	}
	if g, w := kit.HeadText(bare(q)), kit.HeadText(bare(want)); g != w {
		s.fail("the server got\n%sinstead of\n%s", g, w)
	}
	if q.IsEdns0() != nil && len(b)%128 != 0 {
		s.fail("query %d has %d bytes, not padded to a multiple of 128", i, len(b))
	}
	a := s.c.Asks[i]
	time.Sleep(time.Duration(a.Delay)*time.Millisecond + time.Microsecond)
	m, _ := a.R.Msg(q)
	body := payload(a.Kind, m)
	w.Header().Set("Content-Type", "application/dns-message")
	w.WriteHeader(a.Status)
	w.Write(body)
}

func runWebUpstream(x *kit.Ctx, c WebUpstream) error {
	return kit.Bubble(x, func() error {
		s := &web{c: c, ch: make(chan net.Conn)}
		go http.Serve(s, s)
		url, method := "http://dns.test"+c.Path, ""
		if c.Get {
			url, method = url+"{?dns}", "GET"
		}
		to := time.Duration(c.Timeout) * time.Millisecond
		r, err := rdns.NewDoHClient("up", url, rdns.DoHClientOptions{Method: method, QueryTimeout: to, Dialer: s})
		if err != nil {
			return err
		}
		if to == 0 {
			to = 2 * time.Second
		}
		type result struct {
			a   *dns.Msg
			err error
			at  time.Duration
		}
		got := make([]result, len(c.Asks))
		t0 := time.Now()
		when := func(i int) time.Duration {
			return time.Duration(c.Asks[i].At)*time.Millisecond + time.Duration(10*i)*time.Microsecond
		}
		var wg sync.WaitGroup
		for i := range c.Asks {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(when(i))
				q := c.query(i)
				a, err := r.Resolve(q, rdns.ClientInfo{})
				got[i] = result{a, err, time.Since(t0)}
			}()
		}
		wg.Wait()
		s.mu.Lock()
		defer s.mu.Unlock()
		if s.err != nil {
			return s.err
		}
		for i, a := range c.Asks {
			g := got[i]
			why := ""
			at := when(i) + min(time.Duration(a.Delay)*time.Millisecond+time.Microsecond, to)
			switch {
			case time.Duration(a.Delay)*time.Millisecond >= to:
				why = "timeout"
			case a.Status < 200 || a.Status > 299:
				why = "status"
			case a.Kind != answer && a.Kind != otherCase && a.Kind != otherID && a.Kind != longest:
				why = a.Kind
			}
			x.LabelIf(why != "", why)
			x.LabelIf(why == "", "answered")
			if g.err == nil && g.a == nil {
				return fmt.Errorf("query %d got neither answer nor error", i)
			}
			if g.at > at+time.Millisecond {
				return fmt.Errorf("query %d was done at %v instead of %v", i, g.at, at)
			}
			if why != "" {
				if g.err == nil {
					return fmt.Errorf("query %d got an answer in spite of %s:\n%s", i, why, kit.Text(g.a))
				}
				continue
			}
			if g.err != nil {
				return fmt.Errorf("query %d failed: %v", i, g.err)
			}
			q := c.query(i)
			m, _ := a.R.Msg(q)
			want := new(dns.Msg)
			if err := want.Unpack(payload(a.Kind, m)); err != nil {
				return fmt.Errorf("verif: %v", err)
			}
			want.Id = q.Id
			if g, w := kit.Text(bare(g.a)), kit.Text(bare(want)); g != w {
				return fmt.Errorf("query %d got\n%sinstead of\n%s", i, g, w)
			}
		}
		if len(c.Asks) > 1 {
			x.NonTrivial()
		}
		return nil
	})
}
