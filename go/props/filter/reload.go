package filter

import (
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"pgregory.net/rapid"

	"verif/kit"
)

// State is what a source has to offer in a refresh period.
type State struct {
	Kind  string `json:"kind"` // rules, invalid, gone, status, cut, long
	Rules []int  `json:"rules,omitempty"`
	Code  int    `json:"code,omitempty"`  // of status
	Delay int    `json:"delay,omitempty"` // seconds an HTTP server takes
}

// Source is a list in a file or on a server.
type Source struct {
	HTTP         bool    `json:"http,omitempty"`
	Format       string  `json:"format"`
	CacheDir     bool    `json:"cachedir,omitempty"`
	AllowFailure bool    `json:"allowfailure,omitempty"`
	States       []State `json:"states"`
}

// Reload is a blocklist with sources that change over time. The first state
// is seen at startup, every other one by one refresh.
type Reload struct {
	Elem     string   `json:"elem"`
	Sources  []Source `json:"sources"`
	Restarts []int    `json:"restarts,omitempty"` // periods that begin with a restart
}

const (
	atoms   = 5
	refresh = 100 * time.Second
)

func atomName(i int) string { return fmt.Sprintf("r%d.test", i) }
func atomIP(i int) net.IP   { return net.IPv4(10, 0, 0, byte(i+1)) }

// lines are the rules of a state as text.
func (s Source) lines(st State) []string {
	var out []string
	for _, r := range st.Rules {
		switch s.Format {
		case "domain":
			out = append(out, atomName(r))
		case "regexp":
			out = append(out, "^"+strings.ReplaceAll(atomName(r), ".", `\.`)+`\.$`)
		case "hosts":
			out = append(out, "0.0.0.0 "+atomName(r))
		case "cidr":
			out = append(out, atomIP(r).String())
		}
	}
	if st.Kind == "invalid" {
		out = append(out, map[string]string{"domain": "a*b", "regexp": "(", "cidr": "10.0.0.0/99"}[s.Format])
	}
	if st.Kind == "long" {
		out = append(out, strings.Repeat("x", 70000))
	}
	return out
}

// web stands in for the network.
type web struct {
	mu    sync.Mutex
	hosts map[string]func(*http.Request) (*http.Response, error)
}

var theWeb = &web{hosts: map[string]func(*http.Request) (*http.Response, error){}}

func (w *web) RoundTrip(r *http.Request) (*http.Response, error) {
	w.mu.Lock()
	f := w.hosts[r.URL.Host]
	w.mu.Unlock()
	if f == nil {
		return nil, errors.New("no such host")
	}
	return f(r)
}

func init() {
	http.DefaultTransport = theWeb
	http.DefaultClient.Transport = theWeb
}

type cutBody struct{ r io.Reader }

func (c cutBody) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

func serve(s Source, st State) (*http.Response, error) {
	if st.Delay > 0 {
		time.Sleep(time.Duration(st.Delay) * time.Second)
	}
	body := io.Reader(strings.NewReader(strings.Join(s.lines(st), "\n")))
	code := 200
	switch st.Kind {
	case "gone":
		return nil, errors.New("connection refused")
	case "status":
		code = st.Code
	case "cut":
		body = cutBody{body}
	}
	return &http.Response{StatusCode: code, Status: http.StatusText(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: io.NopCloser(body), ContentLength: -1}, nil
}

func (st State) ok() bool { return st.Kind == "rules" || st.Kind == "invalid" }

// source is the model of a source.
type source struct {
	Source
	disk  *State // what is in the cache directory
	last  *State
	fresh bool // not loaded since startup
}

// load returns the state whose rules are now used, and whether that worked.
func (s *source) load(st State) (*State, bool) {
	if s.fresh && s.HTTP && s.CacheDir && s.disk != nil {
		s.fresh = false
		s.last = s.disk
		return s.disk, true
	}
	s.fresh = false
	if st.ok() {
		if s.HTTP && s.CacheDir {
			s.disk = &st
		}
		s.last = &st
		return &st, st.Kind != "invalid"
	}
	if s.AllowFailure {
		if s.last == nil {
			return &State{Kind: "rules"}, true
		}
		return s.last, s.last.Kind != "invalid"
	}
	return nil, false
}

type reloadRun struct {
	Reload
	dir    string
	period atomic.Int32
	up     *kit.Up
	hosts  []string
}

func (r *reloadRun) file(i int) string { return filepath.Join(r.dir, fmt.Sprintf("list%d", i)) }

// enter makes the sources offer the states of a period.
func (r *reloadRun) enter(p int) error {
	r.period.Store(int32(p))
	for i, s := range r.Sources {
		if s.HTTP {
			continue
		}
		st := s.States[p]
		if st.Kind == "gone" {
			if err := os.Remove(r.file(i)); err != nil && !os.IsNotExist(err) {
				return err
			}
			continue
		}
		if err := os.WriteFile(r.file(i), []byte(strings.Join(s.lines(st), "\n")+"\n"), 0600); err != nil {
			return err
		}
	}
	return nil
}

func (r *reloadRun) loader(i int) rdns.BlocklistLoader {
	s := r.Sources[i]
	if !s.HTTP {
		return rdns.NewFileLoader(r.file(i), rdns.FileLoaderOptions{AllowFailure: s.AllowFailure})
	}
	o := rdns.HTTPLoaderOptions{AllowFailure: s.AllowFailure}
	if s.CacheDir {
		o.CacheDir = filepath.Join(r.dir, "cache")
	}
	return rdns.NewHTTPLoader("http://"+r.hosts[i]+"/list", o)
}

// start builds the element.
func (r *reloadRun) start() (rdns.Resolver, error) {
	var names []rdns.BlocklistDB
	var ips []rdns.IPBlocklistDB
	for i, s := range r.Sources {
		var err error
		if s.Format == "cidr" {
			var db rdns.IPBlocklistDB
			db, err = ipDB(listName(i), s.Format, r.loader(i), "")
			ips = append(ips, db)
		} else {
			var db rdns.BlocklistDB
			db, err = nameDB(listName(i), s.Format, r.loader(i))
			names = append(names, db)
		}
		if err != nil {
			return nil, err
		}
	}
	var name rdns.BlocklistDB
	var ip rdns.IPBlocklistDB
	switch {
	case len(names) == 1:
		name = names[0]
	case len(names) > 1:
		name, _ = rdns.NewMultiDB(names...)
	case len(ips) == 1:
		ip = ips[0]
	default:
		ip, _ = rdns.NewMultiIPDB(ips...)
	}
	switch r.Elem {
	case "query":
		return rdns.NewBlocklist("b", r.up, rdns.BlocklistOptions{BlocklistDB: name, BlocklistRefresh: refresh})
	case "allow":
		all, err := rdns.NewRegexpDB("all", rdns.NewStaticLoader([]string{"."}))
		if err != nil {
			return nil, err
		}
		return rdns.NewBlocklist("b", r.up, rdns.BlocklistOptions{BlocklistDB: all, AllowlistDB: name, AllowlistRefresh: refresh})
	case "response-name":
		return rdns.NewResponseBlocklistName("b", r.up, rdns.ResponseBlocklistNameOptions{BlocklistDB: name, BlocklistRefresh: refresh})
	case "response-ip":
		return rdns.NewResponseBlocklistIP("b", r.up, rdns.ResponseBlocklistIPOptions{BlocklistDB: ip, BlocklistRefresh: refresh})
	}
	return rdns.NewClientBlocklist("b", r.up, rdns.ClientBlocklistOptions{BlocklistDB: ip, BlocklistRefresh: refresh})
}

// probe checks that exactly the given rules are in use.
func (r *reloadRun) probe(b rdns.Resolver, want map[int]bool) error {
	for i := 0; i < atoms; i++ {
		q := new(dns.Msg)
		q.SetQuestion(atomName(i)+".", dns.TypeA)
		t0 := time.Now()
		a, err := b.Resolve(q, rdns.ClientInfo{SourceIP: atomIP(i)})
		if d := time.Since(t0); d > 0 {
			return fmt.Errorf("a query took %s", d)
		}
		if err != nil || a == nil {
			return fmt.Errorf("no answer: %v", err)
		}
		hit := a.Rcode != dns.RcodeSuccess
		if r.Elem == "allow" {
			hit = !hit
		}
		if hit != want[i] {
			var used []int
			for k := range want {
				used = append(used, k)
			}
			return fmt.Errorf("rule %d matches: %v; the rules in use should be %v", i, hit, used)
		}
	}
	return nil
}

var reloadHosts atomic.Int64

func runReload(x *kit.Ctx, c Reload) error {
	dir, err := os.MkdirTemp("", "reload")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	if err := os.Mkdir(filepath.Join(dir, "cache"), 0700); err != nil {
		return err
	}
	r := &reloadRun{Reload: c, dir: dir}
	x.Label("%s", c.Elem)
	for i, s := range c.Sources {
		host := fmt.Sprintf("h%d.test", reloadHosts.Add(1))
		r.hosts = append(r.hosts, host)
		theWeb.mu.Lock()
		theWeb.hosts[host] = func(*http.Request) (*http.Response, error) {
			return serve(c.Sources[i], c.Sources[i].States[r.period.Load()])
		}
		theWeb.mu.Unlock()
		x.LabelIf(s.HTTP, "http")
		x.LabelIf(!s.HTTP, "file")
		x.LabelIf(s.HTTP && s.CacheDir, "cache-dir")
		x.LabelIf(s.AllowFailure, "allow-failure")
	}
	defer func() {
		theWeb.mu.Lock()
		for _, h := range r.hosts {
			delete(theWeb.hosts, h)
		}
		theWeb.mu.Unlock()
	}()
	r.up = &kit.Up{ID: "up", F: func(_ int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) {
		var i int
		fmt.Sscanf(q.Question[0].Name, "r%d.", &i)
		return kit.R{An: []string{q.Question[0].Name + " 60 IN CNAME " + atomName(i) + ".", atomName(i) + ". 60 IN A " + atomIP(i).String()}}.Msg(q)
	}}
	return kit.Bubble(x, func() error { return r.play(x) })
}

func (r *reloadRun) play(x *kit.Ctx) error {
	var model []*source
	for _, s := range r.Sources {
		model = append(model, &source{Source: s})
	}
	// reload returns the rules in use after loading everything, how long
	// that takes, and whether it works.
	reload := func(p int) (map[int]bool, time.Duration, bool) {
		var took time.Duration
		rules := map[int]bool{}
		ok := true
		for _, s := range model {
			if s.HTTP && !(s.fresh && s.CacheDir && s.disk != nil) {
				took += time.Duration(s.States[p].Delay) * time.Second
			}
			st, good := s.load(s.States[p])
			x.LabelIf(!s.States[p].ok(), "failed load")
			x.LabelIf(s.States[p].Kind == "invalid", "invalid rules")
			if !good {
				ok = false
				break
			}
			for _, i := range st.Rules {
				rules[i] = true
			}
		}
		return rules, took, ok
	}
	restart := map[int]bool{0: true}
	for _, p := range r.Restarts {
		restart[p] = true
	}
	var b rdns.Resolver
	var rules map[int]bool
	for p := range r.Sources[0].States {
		if err := r.enter(p); err != nil {
			return err
		}
		if restart[p] || b == nil {
			for _, s := range model {
				s.fresh, s.last = true, nil
			}
			want, _, ok := reload(p)
			var err error
			b, err = r.start()
			if (err == nil) != ok {
				return fmt.Errorf("period %d: start failed with %v; expected to work: %v", p, err, ok)
			}
			if err != nil {
				x.Label("start fails")
				b = nil
				continue
			}
			x.LabelIf(p > 0, "restarted")
			rules = want
			if err := r.probe(b, rules); err != nil {
				return fmt.Errorf("period %d, after start: %w", p, err)
			}
			continue
		}
		// One refresh, beginning 100 s after the previous one ended.
		before := rules
		want, took, ok := reload(p)
		if ok {
			rules = want
		}
		if fmt.Sprint(before) != fmt.Sprint(rules) || !ok {
			x.NonTrivial()
		}
		x.LabelIf(!ok, "reload fails")
		time.Sleep(refresh - time.Second)
		synctest.Wait()
		if err := r.probe(b, before); err != nil {
			return fmt.Errorf("period %d, before the refresh: %w", p, err)
		}
		time.Sleep(time.Second)
		if took > 0 {
			x.Label("query during reload")
			time.Sleep(took / 2)
			synctest.Wait()
			if err := r.probe(b, before); err != nil {
				return fmt.Errorf("period %d, while reloading: %w", p, err)
			}
			time.Sleep(took - took/2)
		}
		synctest.Wait()
		if err := r.probe(b, rules); err != nil {
			return fmt.Errorf("period %d, after the refresh: %w", p, err)
		}
	}
	return nil
}

func genReload(t *rapid.T) Reload {
	c := Reload{Elem: kit.Pick(t, "elem", "query", "allow", "response-name", "response-ip", "client")}
	n := kit.Int(t, "sources", 1, 3)
	periods := kit.Int(t, "periods", 2, 7)
	allow := kit.Chance(t, "allowfailure", 75)
	strict := n > 1 // several sources: keep what one failure does to the others simple
	for i := 0; i < n; i++ {
		s := Source{HTTP: kit.Chance(t, "http", 60), Format: kit.Pick(t, "format", "domain", "regexp", "hosts"), AllowFailure: allow}
		if c.Elem == "response-ip" || c.Elem == "client" {
			s.Format = "cidr"
		}
		s.CacheDir = s.HTTP && (n == 1 || allow) && kit.Chance(t, "cachedir", 75)
		for p := 0; p < periods; p++ {
			st := State{Kind: "rules", Rules: kit.List(t, "rules", 0, 3, func(t *rapid.T) int { return kit.Int(t, "rule", 0, atoms-1) })}
			if k := kit.Int(t, "trouble", 0, 19); k >= 12 && (p > 0 || k >= 18) {
				kinds := []string{"gone", "long"}
				if s.HTTP {
					kinds = []string{"gone", "status", "cut", "long"}
				}
				if s.Format != "hosts" && !s.CacheDir && !(strict && allow) {
					kinds = append(kinds, "invalid")
				}
				st.Kind = kit.Pick(t, "kind", kinds...)
			}
			if st.Kind == "status" {
				st.Code = kit.Pick(t, "code", 404, 500, 503, 403, 304, 199)
			}
			if s.HTTP && kit.Chance(t, "slow", 25) {
				st.Delay = kit.Int(t, "delay", 2, 40)
			}
			s.States = append(s.States, st)
		}
		c.Sources = append(c.Sources, s)
	}
	if kit.Chance(t, "restart", 50) {
		c.Restarts = kit.List(t, "restarts", 1, 2, func(t *rapid.T) int { return kit.Int(t, "at", 1, periods-1) })
	}
	return c
}

// ---- databases are not used once closed ----

// Swap is a list that is replaced while it is in use.
type Swap struct {
	Elem    string `json:"elem"`
	Clients int    `json:"clients"`
	Queries int    `json:"queries"`
	Period  int    `json:"period"` // microseconds
	Fail    int    `json:"fail"`   // every which reload fails, 0 for none
	Work    int    `json:"work"`   // how long a lookup is
}

type swapDB struct {
	s        *swapState
	gen      int64
	inUse    atomic.Int32
	isClosed atomic.Bool
}

type swapState struct {
	Swap
	gens    atomic.Int64
	late    atomic.Int64
	reloads atomic.Int64
	closed  atomic.Int64
	twice   atomic.Int64
	done    atomic.Bool
}

func (d *swapDB) Reload() (rdns.IPBlocklistDB, error) {
	if d.s.done.Load() {
		select {} // the case is over; do not go on reloading
	}
	n := d.s.reloads.Add(1)
	if d.isClosed.Load() {
		d.s.late.Add(1)
	}
	if d.s.Fail > 0 && n%int64(d.s.Fail) == 0 {
		return nil, errors.New("reload failed")
	}
	return &swapDB{s: d.s, gen: d.s.gens.Add(1)}, nil
}

func (d *swapDB) Match(ip net.IP) (*rdns.BlocklistMatch, bool) {
	if d.isClosed.Load() {
		d.s.late.Add(1)
	}
	d.inUse.Add(1)
	for i := 0; i < d.s.Work; i++ {
		if i%8 == 7 {
			time.Sleep(time.Microsecond)
		}
	}
	d.inUse.Add(-1)
	if d.isClosed.Load() {
		d.s.late.Add(1)
	}
	return &rdns.BlocklistMatch{List: "l", Rule: "r"}, true
}

func (d *swapDB) Close() error {
	if d.isClosed.Swap(true) {
		d.s.twice.Add(1)
	}
	d.s.closed.Add(1)
	if d.inUse.Load() > 0 {
		d.s.late.Add(1)
	}
	return nil
}

func (d *swapDB) String() string { return "swap" }

func runSwap(x *kit.Ctx, c Swap) error {
	s := &swapState{Swap: c}
	db := &swapDB{s: s}
	up := kit.Const("up", kit.R{An: []string{"a.test. 60 IN A 10.0.0.1"}})
	period := time.Duration(c.Period) * time.Microsecond
	var b rdns.Resolver
	var err error
	if c.Elem == "client" {
		b, err = rdns.NewClientBlocklist("b", up, rdns.ClientBlocklistOptions{BlocklistDB: db, BlocklistRefresh: period})
	} else {
		b, err = rdns.NewResponseBlocklistIP("b", up, rdns.ResponseBlocklistIPOptions{BlocklistDB: db, BlocklistRefresh: period, Filter: c.Elem == "filter"})
	}
	if err != nil {
		return err
	}
	defer s.done.Store(true)
	errs := make(chan error, c.Clients)
	for i := 0; i < c.Clients; i++ {
		go func() {
			for n := 0; n < c.Queries; n++ {
				q := new(dns.Msg)
				q.SetQuestion("a.test.", dns.TypeA)
				a, err := b.Resolve(q, rdns.ClientInfo{SourceIP: net.IPv4(10, 0, 0, 1)})
				if err != nil || a == nil || a.Rcode == dns.RcodeSuccess {
					errs <- fmt.Errorf("a blocked query got %v, %v while the list was replaced", a, err)
					return
				}
			}
			errs <- nil
		}()
	}
	for i := 0; i < c.Clients; i++ {
		if e := <-errs; e != nil {
			err = e
		}
	}
	if err != nil {
		return err
	}
	if s.closed.Load() > 0 {
		x.NonTrivial()
	}
	x.Label("%s", c.Elem)
	if n := s.late.Load(); n > 0 {
		return fmt.Errorf("a closed list was used %d times", n)
	}
	if n := s.twice.Load(); n > 0 {
		return fmt.Errorf("a list was closed twice")
	}
	return nil
}

func genSwap(t *rapid.T) Swap {
	return Swap{Elem: kit.Pick(t, "elem", "client", "block", "filter"), Clients: kit.Int(t, "clients", 1, 6), Queries: kit.Int(t, "queries", 5, 60),
		Period: kit.Int(t, "period", 20, 400), Fail: kit.Pick(t, "fail", 0, 0, 2, 3), Work: kit.Int(t, "work", 0, 40)}
}
