package wire

import (
	"bytes"
	"crypto/tls"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"net"
	"net/http"
	"sync"
	"time"

	odoh "github.com/cloudflare/odoh-go"
	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"pgregory.net/rapid"

	"verif/kit"
)

// Oblivious is a series of queries of an ODoH resolver.
type Oblivious struct {
	Proxy   bool     `json:"proxy,omitempty"` // else the target is asked directly
	Port    bool     `json:"port,omitempty"`  // target at another port
	Preset  string   `json:"preset,omitempty"`
	Timeout int      `json:"timeout"` // ms
	Configs []Config `json:"configs"` // responses to requests for the key, the last for all further ones
	Asks    []OAsk   `json:"asks"`
}

// Config is a response to a request for the target's key.
type Config struct {
	Kind  string `json:"kind"`
	Key   int    `json:"key"`
	Delay int    `json:"delay,omitempty"` // ms
}

// OAsk is a query with the response to it.
type OAsk struct {
	Gap    int    `json:"gap"` // s
	Q      kit.Q  `json:"q"`
	Kind   string `json:"kind"`
	Pos    int    `json:"pos"`
	Status int    `json:"status"`
	Type   string `json:"type"`
	Delay  int    `json:"delay,omitempty"` // ms
	R      kit.R  `json:"r"`
}

// Kinds of key configurations.
const (
	oneKey    = "one"
	newerKey  = "newer version first"
	twoKeys   = "two"
	noKeys    = "none"
	onlyNewer = "just newer version"
	cutKey    = "cut"
	longEntry = "entry longer than the list"
	wrongLen  = "list longer than the body"
	lastShort = "cut entry last"
	htmlPage  = "page"
	notFound  = "not found"
)

// Kinds of responses.
const (
	hugeLen   = "length 65535"
	emptyBody = "sealed nothing"
	otherCtx  = "sealed for another query"
)

var goodConfig = map[string]bool{oneKey: true, newerKey: true, twoKeys: true}

func genOblivious(t *rapid.T) Oblivious {
	c := Oblivious{Proxy: kit.Chance(t, "proxy", 60), Port: kit.Chance(t, "port", 40), Timeout: kit.Pick(t, "timeout", 0, 1000, 4000)}
	kinds := []string{oneKey, oneKey, oneKey, oneKey, oneKey, oneKey, oneKey, oneKey, newerKey, twoKeys, noKeys, onlyNewer, cutKey, longEntry, wrongLen, lastShort, htmlPage, notFound}
	if kit.Chance(t, "preset", 25) {
		c.Preset = kit.Pick(t, "presetkind", kinds...)
	}
	c.Configs = kit.List(t, "configs", 1, 3, func(t *rapid.T) Config {
		return Config{Kind: kit.Pick(t, "ckind", kinds...), Key: kit.Int(t, "key", 0, 5), Delay: kit.Pick(t, "cdelay", 0, 0, 0, 10, 900, 3000, 60000)}
	})
	c.Asks = kit.List(t, "asks", 1, 5, func(t *rapid.T) OAsk {
		a := OAsk{Gap: kit.Pick(t, "gap", 1, 1, 60, 3600, 86300, 86500, 200000), Q: kit.GenQ(t, 0, 3)}
		a.Status = kit.Pick(t, "status", 200, 200, 200, 200, 200, 200, 201, 299, 300, 400, 404, 500)
		a.Type = kit.Pick(t, "type", odohType, odohType, odohType, odohType, odohType, odohType, odohType, dohType, "", "text/html")
		a.Kind = kit.Pick(t, "kind", answer, answer, answer, answer, answer, otherCase, otherID, wrongName, wrongType, noQ, garbage, short, plain, flipped, cutSealed, wrongKind, hugeLen, emptyBody, otherCtx, tooLong)
		a.Pos = kit.Int(t, "pos", 0, 999)
		a.Delay = kit.Pick(t, "delay", 0, 0, 0, 10, 900, 3000)
		a.R = genReply(t, 3)
		a.R.Err = ""
		return a
	})
	return c
}

// config encodes keys.
func config(kind string, key int) []byte {
	one := keyPair(key).Config.Marshal()
	newer := append([]byte{0xff, 0x03, 0, 4}, 1, 2, 3, 4)
	list := func(parts ...[]byte) []byte {
		b := bytes.Join(parts, nil)
		return append(binary.BigEndian.AppendUint16(nil, uint16(len(b))), b...)
	}
	switch kind {
	case oneKey:
		return list(one)
	case newerKey:
		return list(newer, one)
	case twoKeys:
		return list(one, keyPair(key+50).Config.Marshal())
	case noKeys:
		return []byte{0, 0}
	case onlyNewer:
		return list(newer)
	case cutKey:
		b := list(one)
		return b[:len(b)-5]
	case longEntry:
		b := list(newer)
		b[5] += 3
		return b
	case wrongLen:
		b := list(newer)
		b[1] += 20
		return b
	case lastShort:
		b := list(newer, []byte{0xff, 0x03, 0})
		b[5] += 2
		return b
	case htmlPage, notFound:
		return []byte("<html><body>Hello there</body></html>")
	}
	panic("config " + kind)
}

type oblivious struct {
	c       Oblivious
	ch      chan net.Conn
	mu      sync.Mutex
	err     error
	fetches int
	current int // key of the last request for it
	asked   []int
}

func (s *oblivious) Dial(network, addr string) (net.Conn, error) {
	a, b := net.Pipe()
	go func() { s.ch <- b }()
	return a, nil
}
func (s *oblivious) Accept() (net.Conn, error) { return <-s.ch, nil }
func (s *oblivious) Close() error              { return nil }
func (s *oblivious) Addr() net.Addr            { return &net.TCPAddr{} }
func (s *oblivious) fail(format string, a ...any) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.err == nil {
		s.err = fmt.Errorf(format, a...)
	}
}

func (s *oblivious) target() string {
	if s.c.Port {
		return "target.test:8443"
	}
	return "target.test"
}

func (s *oblivious) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	if r.URL.Path == "/.well-known/odohconfigs" {
		if r.Method != "GET" || r.Host != s.target() && r.Host != s.target()+":" {
			s.fail("the key was requested with %s from %s", r.Method, r.Host)
		}
		s.mu.Lock()
		k := s.c.Configs[min(s.fetches, len(s.c.Configs)-1)]
		s.fetches++
		if goodConfig[k.Kind] {
			s.current = k.Key
		}
		s.mu.Unlock()
		time.Sleep(time.Duration(k.Delay)*time.Millisecond + time.Microsecond)
		if k.Kind == notFound {
			w.WriteHeader(404)
		}
		w.Write(config(k.Kind, k.Key))
		return
	}
	host, path := s.target(), "/dns-query"
	if s.c.Proxy {
		host, path = "proxy.test", "/proxy"
	}
	if r.Method != "POST" || r.Host != host || r.URL.Path != path || r.Header.Get("Content-Type") != odohType {
		s.fail("query as %s of type %q to %s%s", r.Method, r.Header.Get("Content-Type"), r.Host, r.URL.Path)
	}
	if v := r.URL.Query(); s.c.Proxy && (v.Get("targethost") != "target.test" || v.Get("targetpath") != "/dns-query") {
		s.fail("query for target %q, path %q", v.Get("targethost"), v.Get("targetpath"))
	}
	b, _ := io.ReadAll(r.Body)
	msg, err := odoh.UnmarshalDNSMessage(b)
	if err != nil {
		s.fail("the query has no ODoH message: %v", err)
		return
	}
	s.mu.Lock()
	key := keyPair(s.current)
	s.mu.Unlock()
	oq, ctx, err := key.DecryptQuery(msg)
	if err != nil {
		s.fail("the target can not decrypt the query: %v", err)
		return
	}
	q := new(dns.Msg)
	if err := q.Unpack(oq.Message()); err != nil || len(q.Question) == 0 {
		s.fail("the target can not read the query: %v", err)
		return
	}
	i := untag(q.Question[0].Name)
	if i < 0 || i >= len(s.c.Asks) {
		s.fail("the target got a query nobody sent:\n%s", kit.Text(q))
		return
	}
	want, err := wired(s.c.query(i))
	if err != nil {
		s.fail("verif: %v", err)
	}
	if g, w := kit.HeadText(bare(q)), kit.HeadText(bare(want)); g != w {
		s.fail("the target got\n%sinstead of\n%s", g, w)
	}
	s.mu.Lock()
	s.asked = append(s.asked, i)
	s.mu.Unlock()
	a := s.c.Asks[i]
	time.Sleep(time.Duration(a.Delay)*time.Millisecond + time.Microsecond)
	if a.Type != "" {
		w.Header().Set("Content-Type", a.Type)
	} else {
		w.Header()["Content-Type"] = nil
	}
	w.WriteHeader(a.Status)
	w.Write(s.reply(a, q, ctx))
}

// reply encodes a response.
func (s *oblivious) reply(a OAsk, q *dns.Msg, ctx odoh.ResponseContext) []byte {
	m, _ := a.R.Msg(q)
	var b []byte
	switch a.Kind {
	case otherCase, otherID, wrongName, wrongType, noQ, garbage, short:
		b = payload(a.Kind, m)
	default:
		b = payload(answer, m)
	}
	if a.Kind == plain {
		return b
	}
	if a.Kind == otherCtx {
		k := keyPair(99)
		e, _, err := k.Config.Contents.EncryptQuery(odoh.CreateObliviousDNSQuery([]byte{1}, 0))
		if err != nil {
			panic(err)
		}
		if _, ctx, err = k.DecryptQuery(e); err != nil {
			panic(err)
		}
	}
	msg, err := ctx.EncryptResponse(odoh.CreateObliviousDNSResponse(b, uint16(a.Pos%3)))
	if err != nil {
		panic("verif: " + err.Error())
	}
	if a.Kind == wrongKind {
		msg.MessageType = odoh.QueryType
	}
	out := msg.Marshal()
	switch a.Kind {
	case flipped:
		out[len(out)*a.Pos/1000] ^= 1 << (a.Pos % 8)
	case cutSealed:
		out = out[:len(out)*a.Pos/1000]
	case hugeLen:
		out[1], out[2] = 0xff, 0xff
		if a.Pos%2 == 0 {
			out = msg.Marshal()
			n := 3 + len(msg.KeyID)
			out[n], out[n+1] = 0xff, 0xfe
		}
	case emptyBody:
		out = msg.Marshal()[:3+len(msg.KeyID)]
		out = append(out, 0, 0)
	case tooLong:
		out = append(out, make([]byte, 70000)...)
	}
	return out
}

func (c Oblivious) query(i int) *dns.Msg {
	q := c.Asks[i].Q
	q.Name = tag(i, q.Name)
	return q.Msg()
}

var obliviousCert = sync.OnceValue(func() pair { return ourCA().issue([]string{"target.test", "proxy.test"}, false, false) })

func runOblivious(x *kit.Ctx, c Oblivious) error {
	cert := obliviousCert()
	return kit.Bubble(x, func() error {
		s := &oblivious{c: c, ch: make(chan net.Conn), current: 42}
		go http.Serve(tls.NewListener(s, &tls.Config{Certificates: []tls.Certificate{cert.tls}}), s)
		tlsc, err := rdns.TLSClientConfig(ourCA().file, "", "", "")
		if err != nil {
			return err
		}
		to := time.Duration(c.Timeout) * time.Millisecond
		proxy, preset := "", ""
		if c.Proxy {
			proxy = "https://proxy.test/proxy"
		}
		if c.Preset != "" {
			preset = hex.EncodeToString(config(c.Preset, 42))
		}
		r, err := rdns.NewODoHClient("up", proxy, "https://"+s.target()+"/dns-query", preset, rdns.DoHClientOptions{QueryTimeout: to, Dialer: s, TLSConfig: tlsc})
		if err != nil {
			if c.Preset != "" && !goodConfig[c.Preset] {
				x.Label("bad preset")
				return nil
			}
			return err
		}
		if to == 0 {
			to = 2 * time.Second
		}
		fetched := time.Time{} // last good one
		for i, a := range c.Asks {
			time.Sleep(time.Duration(a.Gap) * time.Second)
			t0 := time.Now()
			s.mu.Lock()
			n := s.fetches
			s.mu.Unlock()
			q := c.query(i)
			m, err := r.Resolve(q, rdns.ClientInfo{})
			took := time.Since(t0)
			s.mu.Lock()
			broken, fetches, asked := s.err, s.fetches, len(s.asked)
			s.asked = nil
			s.mu.Unlock()
			if broken != nil {
				return fmt.Errorf("query %d: %v", i, broken)
			}
			if err == nil && m == nil {
				return fmt.Errorf("query %d got neither answer nor error", i)
			}
			// the key
			why := ""
			age := t0.Sub(fetched)
			limit := to
			switch {
			case c.Preset != "":
				if fetches != 0 {
					return fmt.Errorf("the key was requested, though there is a preset one")
				}
				if !goodConfig[c.Preset] {
					why = "bad preset"
				}
			case age < 24*time.Hour-2*time.Second:
				if fetches != n {
					return fmt.Errorf("query %d: the key was requested again %v after the last time", i, age)
				}
				x.Label("key known")
			default:
				if fetches != n+1 {
					return fmt.Errorf("query %d: the key was requested %d times; it was %v old", i, fetches-n, age)
				}
				k := c.Configs[min(n, len(c.Configs)-1)]
				limit += to
				if !goodConfig[k.Kind] {
					why = "bad key"
				} else if time.Duration(k.Delay)*time.Millisecond >= to {
					why = "slow key"
				} else {
					fetched = time.Now()
				}
				x.LabelIf(n > 0, "key renewed")
			}
			if took > limit+100*time.Millisecond {
				return fmt.Errorf("query %d took %v, the limit is %v", i, took, to)
			}
			if why != "" {
				x.Label("%s", why)
				if asked != 0 {
					return fmt.Errorf("query %d was sent without a key", i)
				}
				if err == nil {
					return fmt.Errorf("query %d got an answer without a key:\n%s", i, kit.Text(m))
				}
				continue
			}
			if asked != 1 {
				return fmt.Errorf("query %d reached the target %d times: %v", i, asked, err)
			}
			x.NonTrivial()
			switch {
			case time.Duration(a.Delay)*time.Millisecond >= to:
				why = "timeout"
			case a.Status < 200 || a.Status > 299:
				why = "status"
			case a.Type != odohType:
				why = "type"
			case a.Kind != answer && a.Kind != otherCase && a.Kind != otherID:
				why = a.Kind
			}
			x.LabelIf(why != "", why)
			x.LabelIf(why == "", "answered")
			if why != "" {
				if err == nil {
					return fmt.Errorf("query %d got an answer in spite of %s:\n%s", i, why, kit.Text(m))
				}
				continue
			}
			if err != nil {
				return fmt.Errorf("query %d failed: %v", i, err)
			}
			w, _ := a.R.Msg(c.query(i))
			want := new(dns.Msg)
			if err := want.Unpack(payload(a.Kind, w)); err != nil {
				return fmt.Errorf("verif: %v", err)
			}
			want.Id = q.Id
			if g, w := kit.Text(bare(m)), kit.Text(bare(want)); g != w {
				return fmt.Errorf("query %d got\n%sinstead of\n%s", i, g, w)
			}
		}
		return nil
	})
}
