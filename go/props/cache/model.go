// Package cache checks the caching element against a reference model that
// keeps whole responses with the time they came in.
package cache

import (
	"encoding/hex"
	"fmt"
	"strings"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"pgregory.net/rapid"

	"verif/kit"
)

// Case is a history of queries against one cache.
type Case struct {
	NegTTL   uint32            `json:"neg_ttl,omitempty"`
	RcodeMax map[string]uint32 `json:"rcode_max,omitempty"`
	Capacity int               `json:"capacity,omitempty"`
	GC       int               `json:"gc_s,omitempty"`
	Harden   bool              `json:"harden,omitempty"`
	Flush    string            `json:"flush,omitempty"`
	Shuffle  string            `json:"shuffle,omitempty"`
	Prefetch uint32            `json:"prefetch,omitempty"`
	Eligible uint32            `json:"eligible,omitempty"`
	Queries  []kit.Q           `json:"queries"`
	Ops      []Op              `json:"ops"`
}

// Op is a query at a point in time, and what the upstream would say to it.
type Op struct {
	After int    `json:"after_ms,omitempty"` // time since the previous operation
	Q     int    `json:"q"`
	ID    uint16 `json:"id"`
	Upper bool   `json:"upper,omitempty"`
	Flush bool   `json:"flush,omitempty"`
	Multi bool   `json:"multi,omitempty"`
	Mark  bool   `json:"mark,omitempty"`
	R     kit.R  `json:"r"`
}

func (c Case) cache(up rdns.Resolver, backend rdns.CacheBackend) *rdns.Cache {
	opt := rdns.CacheOptions{
		NegativeTTL:         c.NegTTL,
		HardenBelowNXDOMAIN: c.Harden,
		FlushQuery:          c.Flush,
		PrefetchTrigger:     c.Prefetch,
		PrefetchEligible:    c.Eligible,
		Backend:             backend,
	}
	if backend == nil {
		opt.Capacity = c.Capacity
		opt.GCPeriod = time.Duration(c.GC) * time.Second
	}
	if c.RcodeMax != nil {
		opt.CacheRcodeMaxTTL = map[int]uint32{}
		for k, v := range c.RcodeMax {
			var n int
			fmt.Sscan(k, &n)
			opt.CacheRcodeMaxTTL[n] = v
		}
	}
	switch c.Shuffle {
	case "random":
		opt.ShuffleAnswerFunc = rdns.AnswerShuffleRandom
	case "round-robin":
		opt.ShuffleAnswerFunc = rdns.AnswerShuffleRoundRobin
	}
	return rdns.NewCache("verif", up, opt)
}

type entry struct {
	key  string
	msg  *dns.Msg
	at   time.Time
	life time.Duration // how long it may be served
	ttl  time.Duration // lowest TTL, or -1s
}

// model is what the cache should hold.
type model struct {
	c     Case
	live  map[string]*entry
	order []string // least recently used first
	// Whether expired entries still take up room depends on when they were
	// last collected. From the first eviction that may have been spared by
	// that, the victims are kept here: they may or may not be in the cache.
	maybe  map[string]*entry
	spared bool
}

func newModel(c Case) *model {
	return &model{c: c, live: map[string]*entry{}, maybe: map[string]*entry{}}
}

func key(q *dns.Msg) string {
	s := fmt.Sprintf("%s %d %d cd=%v", strings.ToLower(q.Question[0].Name), q.Question[0].Qtype, q.Question[0].Qclass, q.CheckingDisabled)
	if o := q.IsEdns0(); o != nil {
		s += fmt.Sprintf(" do=%v", o.Do())
		for _, p := range o.Option {
			if e, ok := p.(*dns.EDNS0_SUBNET); ok {
				s += fmt.Sprintf(" ecs=%s/%d", e.Address, e.SourceNetmask)
			}
		}
	} else {
		s += " do=false"
	}
	return s
}

func eachRR(m *dns.Msg, f func(dns.RR)) {
	for _, s := range [][]dns.RR{m.Answer, m.Ns, m.Extra} {
		for _, rr := range s {
			if rr.Header().Rrtype != dns.TypeOPT {
				f(rr)
			}
		}
	}
}

// lifetime is how long a response may be kept, per the documentation.
func (m *model) lifetime(a *dns.Msg) (d, ttl time.Duration, ok bool) {
	neg := m.c.NegTTL
	if neg == 0 {
		neg = 60
	}
	if a == nil || a.Truncated {
		return 0, 0, false
	}
	min := int64(-1)
	eachRR(a, func(rr dns.RR) {
		if t := int64(rr.Header().Ttl); min < 0 || t < min {
			min = t
		}
	})
	var s int64
	switch a.Rcode {
	case dns.RcodeSuccess, dns.RcodeNameError, dns.RcodeRefused, dns.RcodeNotImplemented, dns.RcodeFormatError:
		s = min
		if min < 0 {
			s = int64(neg)
		}
	case dns.RcodeServerFailure:
		s = int64(neg)
		if s > 300 {
			s = 300
		}
		if min >= 0 && min < s {
			s = min
		}
	default:
		return 0, 0, false
	}
	if max, ok := m.c.RcodeMax[fmt.Sprint(a.Rcode)]; ok && s > int64(max) {
		s = int64(max)
	}
	return time.Duration(s) * time.Second, time.Duration(min) * time.Second, true
}

func (m *model) touch(k string) {
	m.drop(k)
	m.order = append(m.order, k)
}

func (m *model) drop(k string) {
	for i, x := range m.order {
		if x == k {
			m.order = append(m.order[:i:i], m.order[i+1:]...)
			return
		}
	}
}

func (m *model) store(k string, a *dns.Msg, now time.Time) {
	d, ttl, ok := m.lifetime(a)
	if !ok {
		return
	}
	m.insert(&entry{key: k, msg: a.Copy(), at: now, life: d, ttl: ttl}, now)
}

func (m *model) insert(e *entry, now time.Time) {
	delete(m.maybe, e.key)
	m.live[e.key] = e
	m.touch(e.key)
	for m.c.Capacity > 0 && len(m.live) > m.c.Capacity {
		for _, o := range m.live {
			if now.Sub(o.at) >= o.life {
				m.spared = true
			}
		}
		victim := m.order[0]
		if m.spared {
			m.maybe[victim] = m.live[victim]
		}
		delete(m.live, victim)
		m.order = m.order[1:]
	}
}

func (m *model) remove(k string) {
	delete(m.live, k)
	delete(m.maybe, k)
	m.drop(k)
}

// expect says whether a query must, may or must not be served from the cache.
func (m *model) expect(k string, now time.Time) (e *entry, must, may bool) {
	e, must = m.live[k]
	if e == nil {
		if e = m.maybe[k]; e == nil {
			return nil, false, false
		}
	}
	age := now.Sub(e.at)
	switch {
	case age < e.life:
		return e, must, true
	case age == e.life && (e.ttl < 0 || age < e.ttl):
		return e, false, true // either side of the boundary will do
	}
	return e, false, false
}

// aged is the stored response as it should be served to q after a time.
func (e *entry) aged(q *dns.Msg, age time.Duration) *dns.Msg {
	a := e.msg.Copy()
	a.Id = q.Id
	a.Question = append([]dns.Question(nil), q.Question...)
	eachRR(a, func(rr dns.RR) { rr.Header().Ttl -= uint32(age / time.Second) })
	return a
}

func normal(m *dns.Msg) string {
	if m == nil {
		return "<nil>"
	}
	return kit.Text(m)
}

// sameShuffled compares with the A and AAAA answers allowed in any order
// among their own positions.
func sameShuffled(got, want *dns.Msg) bool {
	if len(got.Answer) != len(want.Answer) {
		return false
	}
	isAddr := func(rr dns.RR) bool {
		return rr.Header().Rrtype == dns.TypeA || rr.Header().Rrtype == dns.TypeAAAA
	}
	var g, w []dns.RR
	for i := range want.Answer {
		if isAddr(want.Answer[i]) != isAddr(got.Answer[i]) {
			return false
		}
		if isAddr(want.Answer[i]) {
			g, w = append(g, got.Answer[i]), append(w, want.Answer[i])
		} else if kit.RRText(got.Answer[i]) != kit.RRText(want.Answer[i]) {
			return false
		}
	}
	if strings.Join(kit.SortedTexts(g), "\n") != strings.Join(kit.SortedTexts(w), "\n") {
		return false
	}
	a, b := got.Copy(), want.Copy()
	a.Answer, b.Answer = nil, nil
	return normal(a) == normal(b)
}

// parents lists the ancestors of a name, nearest first, without the root.
func parents(name string) []string {
	var out []string
	idx := dns.Split(name)
	for _, i := range idx[min(1, len(idx)):] {
		out = append(out, name[i:])
	}
	return out
}

// scribble ruins a message the cache has handed out, in place.
func scribble(m *dns.Msg) {
	if m == nil {
		return
	}
	m.Id ^= 0xffff
	m.Rcode = dns.RcodeBadName & 0xf
	for i := range m.Question {
		m.Question[i].Name = "scribbled.test."
	}
	for _, s := range [][]dns.RR{m.Answer, m.Ns, m.Extra} {
		for i, rr := range s {
			rr.Header().Ttl = 77777
			rr.Header().Name = "scribbled."
			if a, ok := rr.(*dns.A); ok {
				for j := range a.A {
					a.A[j] = 99
				}
			}
			if o, ok := rr.(*dns.OPT); ok {
				o.Option = nil
			}
			s[i] = kit.RR("scribbled. 9 IN A 9.9.9.9")
		}
	}
}

// Scribble is scribble, for the other packages.
func Scribble(m *dns.Msg) { scribble(m) }

func (o Op) response(n int) kit.R {
	r := o.R
	if o.Mark {
		// Mark the response without adding a TTL to it.
		e := kit.E{Size: 1232}
		if r.EDNS != nil {
			e = *r.EDNS
		}
		e.Opts = append(append([]kit.Opt(nil), e.Opts...), kit.Opt{Code: 65100, Data: fmt.Sprintf("%08x", n)})
		r.EDNS = &e
	}
	return r
}

func (c Case) query(o Op) *dns.Msg {
	q := c.Queries[o.Q%len(c.Queries)]
	q.ID = o.ID
	if o.Upper {
		q.Name = flip(q.Name)
	}
	if o.Flush && c.Flush != "" {
		q.Name = c.Flush
	}
	m := q.Msg()
	if o.Multi {
		m.Question = append(m.Question, dns.Question{Name: "second.test.", Qtype: dns.TypeA, Qclass: dns.ClassINET})
	}
	return m
}

// flip inverts the case of the letters in a name, leaving escapes alone.
func flip(s string) string {
	b := []byte(s)
	for i, c := range b {
		switch {
		case c >= 'a' && c <= 'z':
			b[i] = c - 32
		case c >= 'A' && c <= 'Z':
			b[i] = c + 32
		}
	}
	return string(b)
}

// run drives the history through a cache under a clock of its own and holds
// every answer against the model.
func run(x *kit.Ctx, c Case) error {
	return kit.Bubble(x, func() error { return drive(x, c, nil) })
}

func drive(x *kit.Ctx, c Case, backend rdns.CacheBackend) error {
	d := newDriver(x, c, backend)
	for i, o := range c.Ops {
		if err := d.step(i, o); err != nil {
			return err
		}
	}
	d.finish()
	return nil
}

// driver holds a cache next to its model.
type driver struct {
	x     *kit.Ctx
	c     Case
	up    *kit.Up
	next  kit.R
	cache *rdns.Cache
	bk    interface{ Size() int }
	m     *model
	// shared: the store keeps ages to the second, rounded up, and tells
	// queries without EDNS0 from those with.
	shared bool
	// faulty: entries may be missing, and older ones may come back.
	faulty bool
	old    map[string][]*entry

	askedAt time.Time

	hits, misses, expired, evicted int
	firsts                         map[string][]string
}

func newDriver(x *kit.Ctx, c Case, backend rdns.CacheBackend) *driver {
	d := &driver{x: x, c: c, m: newModel(c), firsts: map[string][]string{}, old: map[string][]*entry{}}
	d.up = &kit.Up{ID: "up", F: func(_ int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) {
		d.askedAt = time.Now()
		m, err := d.next.Msg(q)
		if len(q.Question) == 1 { // it is the upstream's own copy
			q.Question[0].Name = "touched-by-upstream."
		}
		return m, err
	}}
	if backend == nil {
		backend = rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Capacity: c.Capacity, GCPeriod: time.Duration(c.GC) * time.Second})
	}
	d.use(backend)
	return d
}

// use puts a new cache on top of a backend.
func (d *driver) use(backend rdns.CacheBackend) {
	d.bk, _ = backend.(interface{ Size() int })
	d.cache = d.c.cache(d.up, backend)
}

func (d *driver) finish() {
	x := d.x
	x.LabelIf(d.hits > 0, "hit")
	x.LabelIf(d.expired > 0, "expiry")
	x.LabelIf(d.evicted > 0, "eviction")
	x.LabelIf(d.c.Harden, "harden")
	if d.hits > 0 && d.misses > 1 {
		x.NonTrivial()
	}
}

func (d *driver) step(i int, o Op) error {
	x, c, up := d.x, d.c, d.up
	m := d.m
	time.Sleep(time.Duration(o.After) * time.Millisecond)
	now := time.Now()
	q := c.query(o)
	orig := q.Copy()
	k := d.key(q)
	d.next = o.response(i)
	before := up.N()
	a, err := d.cache.Resolve(q, rdns.ClientInfo{})
	asked := up.N() - before
	if kit.Text(q) != kit.Text(orig) {
		return fmt.Errorf("op %d: the query was changed\nfrom %s\nto %s", i, kit.Text(orig), kit.Text(q))
	}
	if asked > 1 {
		return fmt.Errorf("op %d: %d upstream queries for one", i, asked)
	}
	if asked == 1 {
		calls := up.Calls()
		if got := calls[len(calls)-1].Q; kit.Text(got) != kit.Text(orig) {
			return fmt.Errorf("op %d: upstream got a different query\n%s\nwant %s", i, kit.Text(got), kit.Text(orig))
		}
	}
	fresh, ferr := d.next.Msg(orig)
	passed := func() error {
		if (err != nil) != (ferr != nil) {
			return fmt.Errorf("op %d: error %v, upstream's was %v", i, err, ferr)
		}
		if normal(a) != normal(fresh) {
			return fmt.Errorf("op %d: upstream's answer was not passed on\ngot  %s\nwant %s", i, normal(a), normal(fresh))
		}
		return nil
	}
	switch {
	case len(q.Question) > 1:
		if asked != 1 {
			return fmt.Errorf("op %d: query with several questions answered without upstream", i)
		}
		if err := passed(); err != nil {
			return err
		}
		x.Label("multi-question")
	case c.Flush != "" && q.Question[0].Name == c.Flush:
		if asked != 0 {
			return fmt.Errorf("op %d: flush query went upstream", i)
		}
		if err != nil || a == nil || a.Rcode != dns.RcodeSuccess || len(a.Answer) != 0 {
			return fmt.Errorf("op %d: bad reply to the flush query: %v %s", i, err, kit.Text(a))
		}
		if err := kit.SameQuestion(orig, a); err != nil {
			return fmt.Errorf("op %d: flush reply: %w", i, err)
		}
		x.LabelIf(len(m.live) > 0, "flush of a filled cache")
		d.m = newModel(c)
		if d.bk != nil && d.bk.Size() != 0 {
			return fmt.Errorf("op %d: %d entries left after a flush", i, d.bk.Size())
		}
	default:
		e, must, may := m.expect(k, now)
		if must && d.shared && e.ttl >= 0 && now.Sub(e.at)+time.Second >= e.ttl {
			must = false
		}
		must = must && !d.faulty
		if e != nil && !may {
			d.expired++
			m.remove(k)
			e = nil
		}
		// A name below a cached NXDOMAIN.
		hardMust, hardMay := false, false
		if c.Harden && !must {
			blocked := false
			for _, p := range parents(q.Question[0].Name) {
				pq := q.Copy()
				pq.Question[0].Name = p
				for _, oe := range d.old[d.key(pq)] {
					if oe.msg.Rcode == dns.RcodeNameError && now.Sub(oe.at) <= oe.life+late {
						hardMay = true
					}
				}
				pe, pmust, pmay := m.expect(d.key(pq), now)
				if !pmay {
					continue
				}
				if pe.msg.Rcode == dns.RcodeNameError {
					hardMay = true
					hardMust = pmust && !blocked && !may && !d.faulty && !d.shared
					break
				}
				blocked = true
			}
		}
		switch {
		case asked == 1 && (must || hardMust):
			return fmt.Errorf("op %d: asked upstream although %q was in the cache (age %v of %v, hardened %v)", i, k, ageOf(e, now), lifeOf(e), hardMust)
		case asked == 1:
			d.misses++
			if e != nil { // on the boundary, and treated as expired
				m.remove(k)
			}
			if err := passed(); err != nil {
				return err
			}
			if ferr == nil {
				had := len(m.live)
				m.store(k, fresh, d.askedAt) // a failing store takes time
				if e := m.live[k]; d.faulty && e != nil {
					d.old[k] = append(d.old[k], e)
				}
				if c.Capacity > 0 && had == c.Capacity && len(m.live) == had {
					d.evicted++
				}
			}
		case d.faulty && err == nil && d.matchesOld(k, a, orig, now):
			d.hits++
			x.Label("hit with faults")
		case e != nil && may && err == nil && d.matches(a, e, orig, now):
			d.hits++
			m.insert(e, now)
			x.LabelIf(now.Sub(e.at) >= time.Second, "hit with aged TTL")
			x.LabelIf(e.msg.Rcode == dns.RcodeNameError, "hit on NXDOMAIN")
			x.LabelIf(e.msg.Rcode == dns.RcodeServerFailure, "hit on SERVFAIL")
			x.LabelIf(e.ttl < 0, "hit without TTL")
			x.LabelIf(c.Shuffle != "", "hit shuffled")
			x.LabelIf(o.Upper, "hit other case")
			if c.Shuffle == "round-robin" && len(c.Queries) == 1 {
				x.Label("rotation")
				if err := rotates(d.firsts, k, a, i); err != nil {
					return err
				}
			}
		case hardMay && err == nil && a != nil && a.Rcode == dns.RcodeNameError && len(a.Answer) == 0:
			x.Label("NXDOMAIN from parent")
			d.hits++
			if err := kit.SameQuestion(orig, a); err != nil {
				return fmt.Errorf("op %d: %w", i, err)
			}
			if !a.Response {
				return fmt.Errorf("op %d: NXDOMAIN is not a response", i)
			}
		case e != nil && may:
			return fmt.Errorf("op %d: wrong answer from the cache, stored %v ago\ngot  %v %s\nwant %s", i, now.Sub(e.at), err, normal(a), normal(e.aged(orig, now.Sub(e.at))))
		default:
			return fmt.Errorf("op %d: answered from the cache without a live entry for %q\ngot %v %s", i, k, err, normal(a))
		}
		if asked == 1 {
			delete(d.firsts, k)
		}
	}
	if d.bk != nil && c.Capacity > 0 && d.bk.Size() > c.Capacity {
		return fmt.Errorf("op %d: %d entries in a cache of %d", i, d.bk.Size(), c.Capacity)
	}
	scribble(a)
	scribble(q)
	return nil
}

func (d *driver) key(q *dns.Msg) string {
	k := key(q)
	if d.shared && q.IsEdns0() != nil {
		k += " edns"
	}
	return k
}

// late is how much longer a store that was slow to take an entry may keep it,
// as far as the TTLs in it allow.
const late = time.Second

func (d *driver) matchesOld(k string, got, q *dns.Msg, now time.Time) bool {
	for _, e := range d.old[k] {
		if now.Sub(e.at) <= e.life+late && (e.ttl < 0 || now.Sub(e.at) < e.ttl) && d.matches(got, e, q, now) {
			return true
		}
	}
	return false
}

// matches: is got the entry as it should be served now?
func (d *driver) matches(got *dns.Msg, e *entry, q *dns.Msg, now time.Time) bool {
	if got == nil {
		return false
	}
	ages := []time.Duration{now.Sub(e.at)}
	if d.shared {
		later := time.Since(e.at)
		ages = append(ages, ages[0]+time.Second, later, later+time.Second)
	}
	for _, age := range ages {
		want := e.aged(q, age)
		if d.c.Shuffle != "" && sameShuffled(got, want) || d.c.Shuffle == "" && normal(got) == normal(want) {
			return true
		}
	}
	return false
}

func ageOf(e *entry, now time.Time) time.Duration {
	if e == nil {
		return 0
	}
	return now.Sub(e.at)
}

func lifeOf(e *entry) time.Duration {
	if e == nil {
		return 0
	}
	return e.life
}

// rotates: with n address records, n reads in a row put each one first once.
func rotates(firsts map[string][]string, k string, a *dns.Msg, op int) error {
	var addrs []string
	uniq := map[string]bool{}
	for _, rr := range a.Answer {
		switch v := rr.(type) {
		case *dns.A:
			addrs = append(addrs, v.Hdr.Name+v.A.String())
		case *dns.AAAA:
			addrs = append(addrs, v.Hdr.Name+v.AAAA.String())
		}
	}
	for _, s := range addrs {
		uniq[s] = true
	}
	if len(addrs) < 2 || len(uniq) != len(addrs) {
		return nil
	}
	seq := append(firsts[k], addrs[0])
	if len(seq) > len(addrs) {
		seq = seq[1:]
	}
	firsts[k] = seq
	seen := map[string]bool{}
	for _, s := range seq {
		if seen[s] {
			return fmt.Errorf("op %d: round-robin put %s first twice in %d reads of %d records: %v", op, s, len(seq), len(addrs), seq)
		}
		seen[s] = true
	}
	return nil
}

// ---- generators ----

// variants draws queries that differ from the first in one respect each.
func variants(t *rapid.T, n int) []kit.Q {
	base := kit.Q{
		Name: kit.OddName(t, 1, 4),
		Type: kit.Pick(t, "qtype", kit.QTypes...),
		RD:   true,
	}
	if kit.Chance(t, "edns", 60) {
		base.EDNS = &kit.E{Size: 1232, DO: rapid.Bool().Draw(t, "do")}
		if kit.Chance(t, "ecs", 50) {
			base.EDNS.Opts = []kit.Opt{{ECS: kit.GenECS(t)}}
		}
	}
	qs := []kit.Q{base}
	for i := 0; i < n; i++ {
		q := kit.Pick(t, "from", qs...)
		if q.EDNS != nil {
			e := *q.EDNS
			e.Opts = append([]kit.Opt(nil), e.Opts...)
			q.EDNS = &e
		}
		switch kit.Int(t, "vary", 0, 12) {
		case 12: // long, with escapes longer still
			n := kit.Int(t, "long", 1, 60)
			q.Name = strings.Repeat(strings.Repeat(`\200`, n)+".", kit.Int(t, "labels", 1, 4)) + strings.TrimPrefix(q.Name, ".")
		case 0:
			q.Type = kit.Pick(t, "qtype", kit.QTypes...)
		case 1:
			q.Class = kit.Pick[uint16](t, "qclass", dns.ClassCHAOS, dns.ClassANY, 0)
		case 2:
			q.CD = !q.CD
		case 3:
			if q.EDNS == nil {
				q.EDNS = &kit.E{Size: 512}
			}
			q.EDNS.DO = !q.EDNS.DO
		case 4:
			if q.EDNS == nil {
				q.EDNS = &kit.E{Size: 512}
			}
			q.EDNS.Opts = []kit.Opt{{ECS: kit.GenECS(t)}}
		case 5: // same address, other mask
			if q.EDNS != nil && len(q.EDNS.Opts) > 0 && q.EDNS.Opts[0].ECS != nil {
				e := *q.EDNS.Opts[0].ECS
				e.Mask = kit.Pick[uint8](t, "mask", 0, 8, 16, 20, 24, 28, 32)
				q.EDNS.Opts = []kit.Opt{{ECS: &e}}
			} else {
				q.EDNS = &kit.E{Size: 4096, Opts: []kit.Opt{{ECS: &kit.ECS{Addr: "10.0.0.0", Mask: 8}}}}
			}
		case 6:
			q.EDNS = nil
		case 7: // a child
			q.Name = kit.Pick(t, "label", kit.Labels...) + "." + strings.TrimPrefix(q.Name, ".")
		case 8: // a parent
			if p := parents(q.Name); len(p) > 0 {
				q.Name = p[0]
			}
		case 9: // an equivalent query, for the cache
			q.RD = !q.RD
			q.AD = !q.AD
			if q.EDNS != nil {
				q.EDNS.Size = 4096
				q.EDNS.Opts = append(q.EDNS.Opts, kit.Opt{Code: dns.EDNS0COOKIE, Data: "0011223344556677"})
			}
		case 10:
			q.Name = kit.OddName(t, 0, 4)
		case 11: // one letter differs
			if p := dns.Fqdn("z" + strings.TrimPrefix(q.Name, ".")); kit.ValidName(p) {
				q.Name = p
			}
		}
		if !kit.ValidName(q.Name) {
			q = base
		}
		qs = append(qs, q)
	}
	return qs
}

func genResponse(t *rapid.T, q kit.Q) kit.R {
	r := kit.R{
		RA: true,
		Rcode: kit.Pick(t, "rcode", 0, 0, 0, 0, 0, 0, dns.RcodeNameError, dns.RcodeNameError, dns.RcodeServerFailure,
			dns.RcodeRefused, dns.RcodeNotImplemented, dns.RcodeFormatError, dns.RcodeYXDomain, dns.RcodeNotAuth),
		AA: rapid.Bool().Draw(t, "aa"),
		AD: rapid.Bool().Draw(t, "ad"),
		TC: kit.Chance(t, "tc", 6),
	}
	if kit.Chance(t, "err", 4) {
		return kit.R{Err: "upstream failed"}
	}
	if kit.Chance(t, "drop", 3) {
		return kit.R{Nil: true}
	}
	ttl := func(t *rapid.T) uint32 {
		return kit.Pick[uint32](t, "ttl", 60, 0, 1, 2, 3, 5, 10, 30, 59, 61, 120, 300, 301, 3600)
	}
	rr := func(types ...uint16) func(t *rapid.T) string {
		return func(t *rapid.T) string {
			owner := q.Name
			if kit.Chance(t, "other", 20) {
				owner = kit.Name(t, 1, 3)
			}
			return kit.GenRR(t, owner, kit.Pick(t, "rrtype", types...), ttl(t))
		}
	}
	if r.Rcode == 0 || kit.Chance(t, "weird", 15) {
		r.An = kit.List(t, "an", 0, 4, rr(dns.TypeA, dns.TypeA, dns.TypeAAAA, dns.TypeCNAME, dns.TypeTXT, dns.TypeMX))
	}
	if kit.Chance(t, "hasns", 40) {
		r.Ns = kit.List(t, "ns", 1, 2, rr(dns.TypeSOA, dns.TypeNS))
	}
	if kit.Chance(t, "hasex", 25) {
		r.Ex = kit.List(t, "ex", 1, 2, rr(dns.TypeA, dns.TypeAAAA))
	}
	if kit.Chance(t, "redns", 30) {
		r.EDNS = &kit.E{Size: 1232, DO: rapid.Bool().Draw(t, "rdo"), Opts: []kit.Opt{{Code: 65001, Data: hex.EncodeToString([]byte("x"))}}, First: rapid.Bool().Draw(t, "optfirst")}
	}
	return r
}

func genAfter(t *rapid.T) int {
	if kit.Chance(t, "instant", 35) {
		return 0
	}
	base := kit.Pick(t, "dt", 0, 1, 2, 3, 5, 10, 29, 30, 59, 60, 61, 120, 299, 300, 301, 3600) * 1000
	ms := base + kit.Pick(t, "dms", 0, 0, 1, -1, 500, 999)
	return max(ms, 0)
}

// genKeys: many related queries, and time enough for most entries to live on.
func genKeys(t *rapid.T) Case {
	c := Case{GC: kit.Pick(t, "gc", 0, 600)}
	c.Queries = variants(t, kit.Int(t, "variants", 1, 7))
	c.Ops = genOps(t, c, 3, 25)
	for i := range c.Ops {
		if !kit.Chance(t, "keeptime", 15) {
			c.Ops[i].After = kit.Pick(t, "short", 0, 1, 900)
		}
	}
	return c
}

// genLife: few keys, and times around the ends of their lives.
func genLife(t *rapid.T) Case {
	c := Case{
		NegTTL: kit.Pick[uint32](t, "negttl", 0, 0, 1, 10, 30, 299, 300, 301, 3600),
		GC:     kit.Pick(t, "gc", 0, 1, 30, 600),
	}
	if kit.Chance(t, "rcodemax", 35) {
		c.RcodeMax = map[string]uint32{}
		for _, rc := range []string{"0", "1", "2", "3", "4", "5"} {
			if rapid.Bool().Draw(t, "rc"+rc) {
				c.RcodeMax[rc] = kit.Pick[uint32](t, "rcmax", 1, 5, 30, 60, 600)
			}
		}
	}
	c.Queries = variants(t, kit.Int(t, "variants", 0, 2))
	c.Ops = genOps(t, c, 2, 25)
	return c
}

// genCapacity: more keys than there is room for.
func genCapacity(t *rapid.T) Case {
	c := Case{Capacity: kit.Int(t, "cap", 1, 5), GC: kit.Pick(t, "gc", 0, 1, 600)}
	n := c.Capacity + kit.Int(t, "over", 0, 3)
	for i := 0; i <= n; i++ {
		c.Queries = append(c.Queries, kit.Q{Name: fmt.Sprintf("n%d.test.", i), Type: dns.TypeA})
	}
	if kit.Chance(t, "flush", 25) {
		c.Flush = "flush.cache."
	}
	if kit.Chance(t, "types", 20) {
		for i := range c.Queries {
			c.Queries[i].Type = kit.Pick(t, "qtype", kit.QTypes...)
		}
	}
	c.Ops = genOps(t, c, 4, 40)
	for i := range c.Ops {
		if !kit.Chance(t, "keeptime", 10) {
			c.Ops[i].After = kit.Pick(t, "short", 0, 1, 900)
		}
		if !kit.Chance(t, "keepresp", 10) {
			c.Ops[i].R = kit.R{An: []string{fmt.Sprintf("n%d.test. 3600 IN A 192.0.2.1", c.Ops[i].Q)}}
		}
	}
	return c
}

// genHarden: chains of names, some of which do not exist.
func genHarden(t *rapid.T) Case {
	c := Case{Harden: !kit.Chance(t, "soft", 10)}
	name := kit.Name(t, 1, 2)
	typ := kit.Pick(t, "qtype", dns.TypeA, dns.TypeMX)
	c.Queries = []kit.Q{{Name: name, Type: typ}}
	for i := kit.Int(t, "names", 1, 5); i > 0; i-- {
		q := kit.Pick(t, "from", c.Queries...)
		switch kit.Int(t, "vary", 0, 12) {
		default:
			q.Name = kit.Pick(t, "label", "a", "b", "www", "*") + "." + q.Name
		case 8:
			q.Name = kit.Pick(t, "odd", `a\.b.`, `a\.`, `\.a.`, `a\046b.`) + q.Name
			if !strings.HasSuffix(q.Name, ".") {
				q.Name += "."
			}
		case 9:
			q.Type = dns.TypeAAAA
		case 10:
			q.CD = !q.CD
		case 11:
			q.EDNS = &kit.E{Size: 1232, DO: true}
		case 12:
			q.Name = "x" + q.Name
		}
		if kit.ValidName(q.Name) {
			c.Queries = append(c.Queries, q)
		}
	}
	c.Ops = genOps(t, c, 3, 25)
	for i := range c.Ops {
		if !kit.Chance(t, "keeptime", 20) {
			c.Ops[i].After = kit.Pick(t, "short", 0, 1, 900)
		}
		if kit.Chance(t, "nx", 50) {
			c.Ops[i].R = kit.R{Rcode: dns.RcodeNameError, Ns: []string{"test. 60 IN SOA test. h.test. 1 2 3 4 60"}}
		}
	}
	return c
}

// genShuffle: answers with several addresses, read again and again.
func genShuffle(t *rapid.T) Case {
	c := Case{Shuffle: kit.Pick(t, "shuffle", "random", "round-robin")}
	c.Queries = variants(t, kit.Int(t, "variants", 0, 2))
	c.Ops = genOps(t, c, 3, 15)
	for i := range c.Ops {
		if !kit.Chance(t, "keeptime", 15) {
			c.Ops[i].After = kit.Pick(t, "short", 0, 1, 900)
		}
		if kit.Chance(t, "addrs", 70) {
			r := &c.Ops[i].R
			*r = kit.R{An: kit.GenRRs(t, "an", c.Queries[c.Ops[i].Q].Name, 2, 6, dns.TypeA, dns.TypeA, dns.TypeAAAA, dns.TypeCNAME)}
		}
	}
	return c
}

func genOps(t *rapid.T, c Case, lo, hi int) []Op {
	return kit.List(t, "ops", lo, hi, func(t *rapid.T) Op {
		o := Op{
			After: genAfter(t),
			Q:     kit.Int(t, "q", 0, len(c.Queries)-1),
			ID:    rapid.Uint16().Draw(t, "id"),
			Upper: kit.Chance(t, "upper", 25),
			Multi: kit.Chance(t, "multi", 3),
			Mark:  !kit.Chance(t, "nomark", 30),
		}
		if c.Flush != "" {
			o.Flush = kit.Chance(t, "doflush", 8)
		}
		o.R = genResponse(t, c.Queries[o.Q])
		return o
	})
}
