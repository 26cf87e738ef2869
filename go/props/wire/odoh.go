package wire

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"strings"
	"sync"

	"crypto/tls"

	odoh "github.com/cloudflare/odoh-go"
	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"pgregory.net/rapid"

	"verif/kit"
)

const (
	dohType  = "application/dns-message"
	odohType = "application/oblivious-dns-message"
)

func keyPair(n int) odoh.ObliviousDoHKeyPair {
	k, err := odoh.CreateDefaultKeyPairFromSeed(bytes.Repeat([]byte{byte(n)}, 32))
	if err != nil {
		panic(err)
	}
	return k
}

// Target is a series of requests to an ODoH listener as target.
type Target struct {
	Key      int      `json:"key"`
	AllowDoH bool     `json:"allow_doh,omitempty"`
	Allowed  []string `json:"allowed,omitempty"`
	Reqs     []OReq   `json:"reqs"`
}

// OReq is a request to an ODoH target.
type OReq struct {
	From   string `json:"from"`
	Method string `json:"method"`
	Type   string `json:"type"`
	Kind   string `json:"kind"`
	Pos    int    `json:"pos"` // permille of the message
	Pad    uint16 `json:"pad,omitempty"`
	Q      kit.Q  `json:"q"`
	R      kit.R  `json:"r"`
}

const (
	sealed    = "sealed"
	otherKey  = "sealed with another key"
	flipped   = "one bit flipped"
	cutSealed = "cut"
	plain     = "not sealed"
	sealedNoQ = "sealed without question"
	sealedBad = "sealed garbage"
	wrongKind = "sealed response"
)

func genTarget(acl bool) func(t *rapid.T) Target {
	return func(t *rapid.T) Target {
		c := Target{Key: kit.Int(t, "key", 0, 5), AllowDoH: kit.Chance(t, "doh", 40)}
		if acl || kit.Chance(t, "acl", 20) {
			c.Allowed = kit.List(t, "allowed", 1, 3, func(t *rapid.T) string {
				return kit.Pick(t, "net", "192.0.2.0/25", "192.0.2.128/32", "10.0.0.0/8", "2001:db8::/33", "0.0.0.0/0", "::/0")
			})
		}
		c.Reqs = kit.List(t, "reqs", 1, 4, func(t *rapid.T) OReq {
			r := OReq{From: kit.Pick(t, "from", "192.0.2.1", "192.0.2.127", "192.0.2.128", "10.1.2.3", "2001:db8::1", "2001:db8:8000::1")}
			r.Method = kit.Pick(t, "method", "POST", "POST", "POST", "POST", "POST", "GET", "PUT")
			r.Type = kit.Pick(t, "type", odohType, odohType, odohType, odohType, dohType, "", "text/plain")
			r.Kind = kit.Pick(t, "kind", sealed, sealed, sealed, sealed, sealed, otherKey, flipped, cutSealed, plain, sealedNoQ, sealedBad, wrongKind)
			if r.Type != odohType && kit.Chance(t, "mix", 80) {
				r.Kind = plain
			}
			r.Pos = kit.Int(t, "pos", 0, 999)
			r.Pad = kit.Pick[uint16](t, "pad", 0, 0, 10, 128)
			r.Q = kit.GenQ(t, 0, 3)
			r.R = genReply(t, 3)
			if kit.Chance(t, "nil", 8) {
				r.R = kit.R{Nil: true}
			}
			return r
		})
		return c
	}
}

// seal makes the body of a request.
func (r OReq) seal(key int, q *dns.Msg) ([]byte, odoh.QueryContext) {
	if r.Kind == sealedNoQ {
		q = q.Copy()
		q.Question = nil
	}
	b, err := q.Pack()
	if err != nil {
		panic("verif: " + err.Error())
	}
	switch r.Kind {
	case plain:
		return b, odoh.QueryContext{}
	case sealedBad:
		b = b[:min(len(b), 5)]
	case otherKey:
		key += 17
	}
	msg, ctx, err := keyPair(key).Config.Contents.EncryptQuery(odoh.CreateObliviousDNSQuery(b, r.Pad))
	if err != nil {
		panic("verif: " + err.Error())
	}
	if r.Kind == wrongKind {
		msg.MessageType = odoh.ResponseType
	}
	out := msg.Marshal()
	switch r.Kind {
	case flipped:
		// not in the key ID, which does not matter: the bits after it
		n := 1 + 2 + len(msg.KeyID)
		i := n + (len(out)-n)*r.Pos/1000
		out[i] ^= 1 << (r.Pos % 8)
	case cutSealed:
		out = out[:len(out)*r.Pos/1000]
	}
	return out, ctx
}

// handle runs a handler as the HTTP server does.
func handle(h http.HandlerFunc, req *http.Request) (rec *httptest.ResponseRecorder, aborted bool) {
	rec = httptest.NewRecorder()
	defer func() {
		if recover() != nil {
			aborted = true
		}
	}()
	h(rec, req)
	return rec, false
}

func runTarget(x *kit.Ctx, c Target) error {
	var cur OReq
	up := &kit.Up{ID: "up", F: func(_ int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) { return cur.R.Msg(q) }}
	l, err := rdns.NewODoHListener("l", "192.0.2.53:443", rdns.ODoHListenerOptions{
		ListenOptions: rdns.ListenOptions{AllowedNet: parseNets(c.Allowed)}, AllowDoH: c.AllowDoH, KeySeed: hex.EncodeToString(keyPair(c.Key).Seed),
	}, up)
	if err != nil {
		return err
	}
	for i, r := range c.Reqs {
		cur = r
		if err := c.ask(x, l, i, r, up); err != nil {
			return fmt.Errorf("request %d: %v", i, err)
		}
	}
	return nil
}

func (c Target) ask(x *kit.Ctx, l *rdns.ODoHListener, i int, r OReq, up *kit.Up) error {
	before := up.N()
	q := r.Q.Msg()
	sent, err := wired(q)
	if err != nil {
		return fmt.Errorf("verif: %v", err)
	}
	body, ctx := r.seal(c.Key, q)
	req := httptest.NewRequest(r.Method, "https://target.test/dns-query", bytes.NewReader(body))
	if r.Type != "" {
		req.Header.Set("Content-Type", r.Type)
	}
	req.RemoteAddr = net.JoinHostPort(r.From, "4711")
	req.TLS = &tls.ConnectionState{ServerName: "target.test", HandshakeComplete: true}
	rec, aborted := handle(l.ODoHqueryHandler, req)
	calls := up.Calls()[before:]
	res := rec.Result()
	isDoH := r.Method != "POST" || r.Type == dohType
	x.Label("%s", r.Kind)
	if isDoH && c.AllowDoH {
		x.Label("DoH")
		if r.Method != "POST" || r.Kind != plain {
			// no query, or one in the wrong wrapping
			if len(calls) != 0 || res.StatusCode < 400 && !aborted {
				return fmt.Errorf("%s with %s body: resolved %d times, status %d", r.Method, r.Kind, len(calls), res.StatusCode)
			}
			return nil
		}
	} else if isDoH || r.Type != odohType || r.Kind != sealed {
		x.Label("rejected")
		if len(calls) != 0 {
			return fmt.Errorf("%s of type %q with %s body was resolved", r.Method, r.Type, r.Kind)
		}
		if !aborted && (res.StatusCode < 400 || res.StatusCode > 499) {
			return fmt.Errorf("%s of type %q with %s body has status %d", r.Method, r.Type, r.Kind, res.StatusCode)
		}
		return nil
	}
	if aborted {
		return fmt.Errorf("the handler panicked")
	}
	allowed := admits(c.Allowed, net.ParseIP(r.From))
	if !allowed {
		x.Label("not allowed")
		x.NonTrivial()
		if len(calls) != 0 {
			return fmt.Errorf("%s of type %q from %s was resolved; allowed are %v", r.Method, r.Type, r.From, c.Allowed)
		}
		if res.StatusCode >= 400 {
			return nil
		}
	} else {
		if len(calls) != 1 {
			return fmt.Errorf("query was resolved %d times, status %d", len(calls), res.StatusCode)
		}
		if g, w := kit.Text(calls[0].Q), kit.Text(sent); g != w {
			return fmt.Errorf("the resolver got\n%sinstead of\n%s", g, w)
		}
		proto, path := "odoh", ""
		if isDoH {
			proto, path = "doh", "/dns-query"
		}
		if ci := calls[0].CI; ci.Listener != "l" || ci.Protocol != proto || ci.ListenerAddr != "192.0.2.53:443" || ci.TLSServerName != "target.test" || ci.DoHPath != path {
			return fmt.Errorf("wrong client information %+v", ci)
		}
		if r.R.Nil {
			x.Label("dropped")
			if res.StatusCode < 400 {
				return fmt.Errorf("dropped query has a response with status %d", res.StatusCode)
			}
			return nil
		}
	}
	out, _ := io.ReadAll(res.Body)
	want := odohType
	if isDoH {
		want = dohType
	}
	if res.StatusCode != 200 || res.Header.Get("Content-Type") != want {
		return fmt.Errorf("status %d with type %q: %q", res.StatusCode, res.Header.Get("Content-Type"), out)
	}
	if !isDoH {
		msg, err := odoh.UnmarshalDNSMessage(out)
		if err != nil {
			return fmt.Errorf("bad response: %v", err)
		}
		if out, err = ctx.OpenAnswer(msg); err != nil {
			return fmt.Errorf("the response can not be decrypted: %v", err)
		}
		x.NonTrivial()
	}
	m := new(dns.Msg)
	if err := m.Unpack(out); err != nil {
		return fmt.Errorf("the response can not be read: %v", err)
	}
	if !allowed || r.R.Err != "" {
		want := dns.RcodeServerFailure
		if !allowed {
			want = dns.RcodeRefused
		}
		if m.Rcode != want || len(m.Answer)+len(m.Ns) != 0 {
			return fmt.Errorf("response with code %d expected, is\n%s", want, kit.Text(m))
		}
		return kit.SameQuestion(sent, m)
	}
	full, _ := r.R.Msg(sent)
	return sameUpTo(x, full, m, 65535)
}

// Proxied is a request to an ODoH listener as proxy.
type Proxied struct {
	Allowed []string `json:"allowed,omitempty"`
	From    string   `json:"from"`
	Method  string   `json:"method"`
	Type    string   `json:"type"`
	Host    string   `json:"host"`
	Path    string   `json:"path"`
	Body    int      `json:"body"` // bytes
	Status  int      `json:"status"`
	Answer  string   `json:"answer"` // type
	Reply   int      `json:"reply"`  // bytes
	Fail    bool     `json:"fail,omitempty"`
}

func genProxied(acl bool) func(t *rapid.T) Proxied {
	return func(t *rapid.T) Proxied {
		c := Proxied{From: kit.Pick(t, "from", "192.0.2.1", "192.0.2.127", "192.0.2.128", "10.1.2.3", "2001:db8::1")}
		if acl || kit.Chance(t, "acl", 20) {
			c.Allowed = kit.List(t, "allowed", 1, 3, func(t *rapid.T) string {
				return kit.Pick(t, "net", "192.0.2.0/25", "192.0.2.128/32", "10.0.0.0/8", "2001:db8::/33", "0.0.0.0/0", "::/0")
			})
		}
		c.Method, c.Type = "POST", odohType
		c.Host = kit.Pick(t, "host", "target.test", "a.b-c.example.org", "x1.yy", strings.Repeat("a.", 125)+"com")
		c.Path = kit.Pick(t, "path", "/", "/dns-query", "/a b", "/"+strings.Repeat("a", 1023), "/x?y=z", "/%2e", "//other.test/", "/x#y")
		switch kit.Pick(t, "wrong", "", "", "", "", "method", "type", "host", "host", "host", "path", "path") {
		case "method":
			c.Method = kit.Pick(t, "method", "GET", "PUT", "HEAD")
		case "type":
			c.Type = kit.Pick(t, "type", dohType, "", "text/plain")
		case "host":
			c.Host = kit.Pick(t, "badhost", "", "localhost", "127.0.0.1", "192.0.2.1", "[::1]", "target.test:853", "user@target.test", "target.test/x", "target.test?", "target.test#a", "ta rget.test", "target.test\n", strings.Repeat("a.", 126)+"com", ".target.test", "tärget.test", "target.test.", "a_b.test", "x@127.0.0.1", "a.test\\@b.test")
		case "path":
			c.Path = kit.Pick(t, "badpath", "", "x", "/../x", "/a..b", "dns-query/", "/"+strings.Repeat("a", 1024), "@evil.test/")
		}
		c.Body = kit.Pick(t, "body", 0, 1, 100, 4000, 4096)
		c.Status = kit.Pick(t, "status", 200, 200, 200, 200, 201, 204, 301, 400, 403, 404, 500, 503)
		c.Answer = kit.Pick(t, "answer", odohType, odohType, odohType, odohType, "", dohType, "text/html")
		c.Reply = kit.Pick(t, "reply", 0, 1, 100, 5000, 70000)
		c.Fail = kit.Chance(t, "fail", 8)
		return c
	}
}

var hostname = regexp.MustCompile(`\A([a-zA-Z0-9-]+\.)+[a-zA-Z]{2,}\z`)

type roundTrip func(*http.Request) (*http.Response, error)

func (f roundTrip) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

var defaultTransport sync.Mutex

func runProxied(x *kit.Ctx, c Proxied) error {
	l, err := rdns.NewODoHListener("l", "192.0.2.53:443", rdns.ODoHListenerOptions{
		ListenOptions: rdns.ListenOptions{AllowedNet: parseNets(c.Allowed)}, OdohMode: "proxy",
	}, &kit.Up{ID: "up"})
	if err != nil {
		return err
	}
	reply := bytes.Repeat([]byte{7}, c.Reply)
	type seen struct {
		method, url, typ string
		body             []byte
		header           http.Header
	}
	var got []seen
	defaultTransport.Lock()
	defer defaultTransport.Unlock()
	old := http.DefaultTransport
	defer func() { http.DefaultTransport = old }()
	http.DefaultTransport = roundTrip(func(r *http.Request) (*http.Response, error) {
		var b []byte
		if r.Body != nil {
			b, _ = io.ReadAll(r.Body)
		}
		got = append(got, seen{r.Method, r.URL.String(), r.Header.Get("Content-Type"), b, r.Header.Clone()})
		if c.Fail {
			return nil, fmt.Errorf("no route to host")
		}
		h := http.Header{}
		if c.Answer != "" {
			h.Set("Content-Type", c.Answer)
		}
		if c.Status/100 == 3 {
			h.Set("Location", "https://elsewhere.test/")
		}
		return &http.Response{StatusCode: c.Status, Header: h, Body: io.NopCloser(bytes.NewReader(reply)), Request: r, ProtoMajor: 1, ProtoMinor: 1}, nil
	})
	body := bytes.Repeat([]byte{9}, c.Body)
	v := url.Values{}
	if c.Host != "" {
		v.Set("targethost", c.Host)
	}
	if c.Path != "" {
		v.Set("targetpath", c.Path)
	}
	req := httptest.NewRequest(c.Method, "https://proxy.test/proxy?"+v.Encode(), bytes.NewReader(body))
	if c.Type != "" {
		req.Header.Set("Content-Type", c.Type)
	}
	req.RemoteAddr = net.JoinHostPort(c.From, "4711")
	req.TLS = &tls.ConnectionState{ServerName: "proxy.test", HandshakeComplete: true}
	rec, aborted := handle(l.ODoHproxyHandler, req)
	if aborted {
		return fmt.Errorf("the handler panicked")
	}
	res := rec.Result()
	out, _ := io.ReadAll(res.Body)

	ok := c.Method == "POST" && c.Type == odohType && len(c.Host) <= 253 && hostname.MatchString(c.Host) &&
		strings.HasPrefix(c.Path, "/") && len(c.Path) <= 1024 && !strings.Contains(c.Path, "..")
	if !admits(c.Allowed, net.ParseIP(c.From)) {
		x.Label("not allowed")
		x.NonTrivial()
		ok = false
	}
	if !ok {
		x.Label("rejected")
		if len(got) != 0 {
			return fmt.Errorf("a request was sent to %s", got[0].url)
		}
		if res.StatusCode < 400 || res.StatusCode > 499 {
			return fmt.Errorf("rejected with status %d", res.StatusCode)
		}
		return nil
	}
	x.NonTrivial()
	if len(got) != 1 {
		return fmt.Errorf("%d requests were sent to the target", len(got))
	}
	want := (&url.URL{Scheme: "https", Host: c.Host, Path: c.Path}).String()
	if g := got[0]; g.method != "POST" || g.url != want || g.typ != odohType || !bytes.Equal(g.body, body) {
		return fmt.Errorf("sent was %s %s of type %s, %d bytes; should be POST %s with %d bytes", g.method, g.url, g.typ, len(g.body), want, len(body))
	}
	for k, v := range got[0].header {
		if s := strings.Join(v, " "); strings.Contains(s, c.From) {
			return fmt.Errorf("the target learns the client's address from header %s: %s", k, s)
		}
	}
	switch {
	case c.Fail:
		x.Label("target down")
		if res.StatusCode < 500 {
			return fmt.Errorf("status %d when the target is down", res.StatusCode)
		}
	case c.Status != 200:
		x.Label("status of the target")
		if res.StatusCode != c.Status || res.Header.Get("Content-Type") == odohType {
			return fmt.Errorf("status %d (%s) instead of %d", res.StatusCode, res.Header.Get("Content-Type"), c.Status)
		}
	case c.Answer != odohType:
		x.Label("wrong type")
		if res.StatusCode < 500 || bytes.Equal(out, reply) && len(reply) > 0 {
			return fmt.Errorf("target answered with type %q, status is %d", c.Answer, res.StatusCode)
		}
	default:
		x.Label("passed on")
		if res.StatusCode != 200 || res.Header.Get("Content-Type") != odohType || !bytes.Equal(out, reply) {
			return fmt.Errorf("status %d with type %q and %d bytes instead of the target's %d", res.StatusCode, res.Header.Get("Content-Type"), len(out), len(reply))
		}
	}
	return nil
}
