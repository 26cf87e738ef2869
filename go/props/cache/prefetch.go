package cache

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"sync"
	"testing/synctest"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"github.com/redis/go-redis/v9"
	"pgregory.net/rapid"

	"verif/kit"
)

// Refresh is a history of queries for a few names against a cache that
// refreshes entries which are about to expire.
type Refresh struct {
	Trigger  uint32      `json:"trigger"`
	Eligible uint32      `json:"eligible"`
	Queries  []kit.Q     `json:"queries"`
	Ops      []RefreshOp `json:"ops"`
	Up       []Reply     `json:"up"`             // to successive upstream queries, over and over
	Kept     string      `json:"kept,omitempty"` // in a file or a Redis server
}

// RefreshOp is a query some time after the last one.
type RefreshOp struct {
	After int    `json:"after_ms"`
	Q     int    `json:"q"`
	ID    uint16 `json:"id"`
	Upper bool   `json:"upper,omitempty"`

	Restart bool `json:"restart,omitempty"`
}

// Reply is an upstream's response with the time it takes.
type Reply struct {
	R    kit.R `json:"r"`
	Took int   `json:"took_ms"`
}

// took is the time the n-th query takes; no two end at the same time.
func (r Reply) took(n int) time.Duration {
	if r.Took == 0 {
		return 0
	}
	return time.Duration(r.Took+n) * time.Millisecond
}

func genReply(t *rapid.T, q kit.Q) kit.R {
	switch kit.Int(t, "outcome", 0, 15) {
	case 0:
		return kit.R{Err: "upstream failed"}
	case 1:
		return kit.R{Nil: true}
	}
	r := kit.R{RA: true, TC: kit.Chance(t, "tc", 8), AD: kit.Chance(t, "ad", 20)}
	if kit.Chance(t, "nx", 10) {
		r.Rcode = dns.RcodeNameError
	}
	for i := kit.Pick(t, "records", 1, 2, 3, 1, 2, 0); i > 0; i-- {
		s := kit.GenRR(t, q.Name, dns.TypeA, kit.Pick[uint32](t, "ttl", 10, 1, 2, 3, 5, 7, 12, 20, 30))
		if kit.Chance(t, "ns", 20) {
			r.Ns = append(r.Ns, s)
		} else {
			r.An = append(r.An, s)
		}
	}
	if kit.Chance(t, "edns", 30) {
		r.EDNS = &kit.E{Size: 1232}
	}
	return r
}

func genRefresh(t *rapid.T) Refresh {
	c := Refresh{Trigger: kit.Pick[uint32](t, "trigger", 8, 15, 5, 40, 2, 0), Eligible: kit.Pick[uint32](t, "eligible", 0, 0, 4, 9, 11)}
	c.Queries = variants(t, kit.Int(t, "variants", 0, 2))
	c.Ops = kit.List(t, "ops", 2, 25, func(t *rapid.T) RefreshOp {
		return RefreshOp{
			After: kit.Pick(t, "after", 1000, 0, 100, 500, 1500, 2000, 3000, 4000, 6000, 9000), Q: kit.Int(t, "q", 0, len(c.Queries)-1),
			ID: uint16(kit.Int(t, "id", 0, 65535)), Upper: kit.Chance(t, "upper", 20),
		}
	})
	c.Up = kit.List(t, "up", 1, 8, func(t *rapid.T) Reply {
		return Reply{genReply(t, c.Queries[0]), kit.Pick(t, "took", 0, 0, 0, 7, 130, 1900)}
	})
	if kit.Chance(t, "elsewhere", 25) {
		c.Kept = kit.Pick(t, "kept", "file", "redis")
		for i := range c.Ops {
			c.Ops[i].Restart = kit.Chance(t, "restart", 15)
			if c.Kept == "redis" { // which keeps whole seconds
				c.Ops[i].After -= c.Ops[i].After % 1000
			}
		}
		for i := range c.Up {
			if c.Kept == "redis" {
				c.Up[i].Took = 0
			}
		}
	}
	return c
}

func runRefresh(x *kit.Ctx, c Refresh) error {
	redis.SetLogger(quiet{})
	dir := ""
	if c.Kept == "file" {
		var err error
		if dir, err = os.MkdirTemp("", "c06-"); err != nil {
			return err
		}
		defer os.RemoveAll(dir)
	}
	return kit.Bubble(x, func() error {
		srv := &fakeRedis{data: map[string]record{}}
		backend := func() rdns.CacheBackend {
			switch c.Kept {
			case "file":
				return rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Filename: filepath.Join(dir, "cache.json")})
			case "redis":
				return rdns.NewRedisBackend(rdns.RedisBackendOptions{SyncSet: true, RedisOptions: redis.Options{Addr: "127.0.0.1:6379", Dialer: srv.dial, PoolSize: 50}})
			}
			return nil
		}
		bk := backend()
		type pending struct {
			key     string
			arrives time.Time
			msg     *dns.Msg
			floor   time.Duration
		}
		var mu sync.Mutex
		up := &kit.Up{ID: "up"}
		up.F = func(n int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) {
			mu.Lock()
			r := c.Up[n%len(c.Up)]
			mu.Unlock()
			m, err := r.R.Msg(q)
			time.Sleep(r.took(n))
			return m, err
		}
		base := Case{Queries: c.Queries, Prefetch: c.Trigger, Eligible: c.Eligible}
		cache := base.cache(up, bk)
		m := newModel(base)
		var wait []pending
		refreshed := 0
		arrive := func(now time.Time) {
			sort.SliceStable(wait, func(i, j int) bool { return wait[i].arrives.Before(wait[j].arrives) })
			for len(wait) > 0 && !wait[0].arrives.After(now) {
				p := wait[0]
				wait = wait[1:]
				if p.msg == nil || p.msg.Truncated {
					continue
				}
				if _, ttl, _ := m.lifetime(p.msg); ttl < 0 || ttl < p.floor {
					continue
				}
				m.store(p.key, p.msg, p.arrives)
				refreshed++
			}
		}
		for i, o := range c.Ops {
			time.Sleep(time.Duration(o.After) * time.Millisecond)
			for again := true; again; {
				again = false
				for _, p := range wait {
					if p.arrives.Equal(time.Now()) {
						again = true
					}
				}
				if again {
					time.Sleep(time.Millisecond)
				}
			}
			synctest.Wait()
			now := time.Now()
			arrive(now)
			if o.Restart && bk != nil && len(wait) == 0 {
				if err := bk.Close(); err != nil {
					return err
				}
				bk = backend()
				cache = base.cache(up, bk)
				x.Label("restart")
			}
			q := base.query(Op{Q: o.Q, ID: o.ID, Upper: o.Upper})
			orig := q.Copy()
			k := key(q)
			if c.Kept == "redis" {
				k = (&driver{shared: true}).key(q)
			}
			before := up.N()
			a, err := cache.Resolve(q, rdns.ClientInfo{Listener: "l"})
			took := time.Since(now)
			synctest.Wait()
			calls := up.Calls()
			asked := len(calls) - before
			e, must, may := m.expect(k, now)
			if asked > 1 {
				return fmt.Errorf("op %d: %d upstream queries for one", i, asked)
			}
			var r Reply
			var fresh *dns.Msg
			var ferr error
			if asked == 1 {
				if got := calls[before]; kit.Text(got.Q) != kit.Text(orig) || got.CI.Listener != "l" {
					return fmt.Errorf("op %d: upstream got\n%s\nwant %s", i, kit.Text(got.Q), kit.Text(orig))
				}
				r = c.Up[before%len(c.Up)]
				fresh, ferr = r.R.Msg(orig)
			}
			if may && err == nil && a != nil && (asked == 0 || took == 0) && normal(a) == normal(e.aged(orig, now.Sub(e.at))) &&
				!(asked == 1 && !must && r.Took == 0 && normal(a) == normal(fresh)) {
				// From the cache.
				left := e.ttl - now.Sub(e.at).Truncate(time.Second)
				want := c.Trigger > 0 && e.ttl > time.Duration(c.Eligible)*time.Second && left < time.Duration(c.Trigger)*time.Second
				edge := e.ttl == time.Duration(c.Eligible)*time.Second || e.msg.Rcode == dns.RcodeServerFailure
				if want != (asked == 1) && !edge {
					return fmt.Errorf("op %d: entry with %v of %v left, trigger %d, eligible %d: refreshed %v", i, left, e.ttl, c.Trigger, c.Eligible, asked == 1)
				}
				if asked == 1 {
					wait = append(wait, pending{k, now.Add(r.took(before)), fresh, left})
					x.Label("refresh")
					arrive(now.Add(time.Nanosecond))
				}
				scribble(a)
				continue
			}
			if must || asked != 1 {
				return fmt.Errorf("op %d: upstream asked %d times, entry %v (age %v of %v), got %v\n%s", i, asked, e != nil, ageOf(e, now), lifeOf(e), err, normal(a))
			}
			if (err != nil) != (ferr != nil) || normal(a) != normal(fresh) {
				return fmt.Errorf("op %d: upstream's response was not passed on: %v %s", i, err, normal(a))
			}
			m.remove(k)
			arrive(time.Now().Add(-time.Nanosecond))
			if ferr == nil {
				m.store(k, fresh, time.Now())
			}
			scribble(a)
		}
		x.LabelIf(refreshed > 0, "refreshed")
		if refreshed > 0 {
			x.NonTrivial()
		}
		return nil
	})
}

// Popular is a history of queries through the element that keeps often used
// names fresh.
type Popular struct {
	Window    int         `json:"window_s"`
	Threshold uint64      `json:"threshold"`
	Items     int         `json:"items"`
	Queries   []kit.Q     `json:"queries"`
	Ops       []PopularOp `json:"ops"`
	Again     []kit.R     `json:"again"` // responses to prefetching
	Tail      int         `json:"tail_s"`
}

// PopularOp is a client's query with its response.
type PopularOp struct {
	After int    `json:"after_s"`
	Q     int    `json:"q"`
	ID    uint16 `json:"id"`
	Upper bool   `json:"upper,omitempty"`
	R     kit.R  `json:"r"`
}

func genPopular(t *rapid.T) Popular {
	c := Popular{
		Window:    kit.Pick(t, "window", 60, 20, 35, 600, 0),
		Threshold: kit.Pick[uint64](t, "threshold", 1, 2, 3, 0),
		Items:     1000,
		Tail:      kit.Pick(t, "tail", 60, 15, 300, 0),
	}
	if kit.Chance(t, "few", 20) {
		c.Items = kit.Int(t, "items", 1, 3)
	}
	c.Queries = variants(t, kit.Int(t, "variants", 0, 4))
	hot := kit.Chance(t, "hot", 60)
	c.Ops = kit.List(t, "ops", 2, 25, func(t *rapid.T) PopularOp {
		o := PopularOp{After: kit.Pick(t, "after", 1, 0, 2, 5, 9, 14, 40), Q: kit.Int(t, "q", 0, len(c.Queries)-1), ID: uint16(kit.Int(t, "id", 0, 65535)), Upper: kit.Chance(t, "upper", 20)}
		if hot && kit.Chance(t, "same", 60) {
			o.Q = 0
		}
		o.R = genReply(t, c.Queries[o.Q])
		return o
	})
	c.Again = kit.List(t, "again", 1, 4, func(t *rapid.T) kit.R { return genReply(t, c.Queries[0]) })
	return c
}

// lowest is the TTL that counts, if the response qualifies.
func lowest(r kit.R, q *dns.Msg) (time.Duration, bool) {
	a, err := r.Msg(q)
	if err != nil || a == nil || a.Rcode != 0 || a.Truncated {
		return 0, false
	}
	_, ttl, _ := newModel(Case{}).lifetime(a)
	return ttl, ttl >= 2*time.Second
}

func runPopular(x *kit.Ctx, c Popular) error {
	return kit.Bubble(x, func() error {
		const tick = 10 * time.Second
		start := time.Now()
		window := time.Duration(c.Window) * time.Second
		if c.Window == 0 {
			window = time.Hour
		}
		threshold := c.Threshold
		if threshold == 0 {
			threshold = 5
		}
		type state struct {
			count   uint64
			until   time.Duration // the counter is forgotten after this
			query   string        // prefetched next
			id      uint16
			expires time.Duration
		}
		keys := map[string]*state{}
		var next kit.R
		type fetch struct {
			at time.Duration
			q  *dns.Msg
			r  kit.R
		}
		var mu sync.Mutex
		var fetched []fetch
		up := &kit.Up{ID: "up"}
		up.F = func(_ int, q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			if ci.Listener == "prefetch" {
				mu.Lock()
				r := c.Again[len(fetched)%len(c.Again)]
				fetched = append(fetched, fetch{time.Since(start), q.Copy(), r})
				mu.Unlock()
				return r.Msg(q)
			}
			return next.Msg(q)
		}
		r := rdns.NewPrefetch("prefetch", up, rdns.PrefetchOptions{PrefetchWindow: window, PrefetchThreshold: c.Threshold, PrefetchMaxItems: c.Items})
		// With few items, which ones are tracked is left open.
		exact := c.Items/(2*runtime.GOMAXPROCS(0)) >= len(c.Queries)
		done := time.Duration(0) // ticks up to this have been checked
		checked := 0
		total := 0
		check := func() error {
			synctest.Wait()
			now := time.Since(start)
			for done+tick <= now {
				done += tick
				seen := map[string]fetch{}
				for ; checked < len(fetched) && fetched[checked].at <= done; checked++ {
					f := fetched[checked]
					if f.at != done {
						return fmt.Errorf("prefetch at %v: %s", f.at, kit.HeadText(f.q))
					}
					k := key(f.q)
					if _, dup := seen[k]; dup {
						return fmt.Errorf("two prefetches at %v for %s", f.at, k)
					}
					seen[k] = f
					total++
				}
				if len(seen) > c.Items {
					return fmt.Errorf("%d names prefetched, limit %d", len(seen), c.Items)
				}
				for k, f := range seen {
					s := keys[k]
					if s == nil || s.query == "" || done <= s.expires || s.count < threshold {
						return fmt.Errorf("prefetch at %v for %s without reason (%+v, threshold %d)", done, k, s, threshold)
					}
					if kit.HeadText(f.q) != s.query {
						return fmt.Errorf("prefetch at %v of\n%s\nwant the client's\n%s", done, kit.HeadText(f.q), s.query)
					}
				}
				for k, s := range keys {
					f, was := seen[k]
					forgotten := done > s.until
					if s.query != "" && done > s.expires {
						if !was && exact && !forgotten && s.count >= threshold {
							return fmt.Errorf("no prefetch at %v for %s, asked for %d times, last response good until %v", done, k, s.count, s.expires)
						}
						ttl, ok := time.Duration(0), false
						if was {
							ttl, ok = lowest(f.r, f.q)
						}
						if ok {
							s.expires = done + ttl
						} else {
							s.query = ""
						}
					}
					if forgotten {
						s.count = 0
					}
				}
			}
			return nil
		}
		for i, o := range c.Ops {
			time.Sleep(time.Duration(o.After) * time.Second)
			if i == 0 {
				time.Sleep(500 * time.Millisecond)
			}
			if err := check(); err != nil {
				return err
			}
			now := time.Since(start)
			q := Case{Queries: c.Queries}.query(Op{Q: o.Q, ID: o.ID, Upper: o.Upper})
			orig := q.Copy()
			next = o.R
			n := up.N()
			a, err := r.Resolve(q, rdns.ClientInfo{Listener: "l"})
			want, werr := o.R.Msg(orig)
			if (err != nil) != (werr != nil) || normal(a) != normal(want) {
				return fmt.Errorf("op %d: got %v %s\nwant %v %s", i, err, normal(a), werr, normal(want))
			}
			calls := up.Calls()
			if len(calls) != n+1 || kit.Text(calls[n].Q) != kit.Text(orig) || kit.Text(q) != kit.Text(orig) {
				return fmt.Errorf("op %d: the query was not passed on as it is", i)
			}
			scribble(q)
			k := key(orig)
			ttl, ok := lowest(o.R, orig)
			if !ok {
				continue
			}
			s := keys[k]
			if s == nil {
				s = &state{}
				keys[k] = s
			}
			s.count++
			s.until = now + window
			if s.count >= threshold {
				s.query, s.expires = kit.HeadText(orig), now+ttl
			}
		}
		time.Sleep(time.Duration(c.Tail) * time.Second)
		if err := check(); err != nil {
			return err
		}
		x.LabelIf(total > 0, "prefetched")
		x.LabelIf(!exact, "few items")
		if total > 0 {
			x.NonTrivial()
		}
		return nil
	})
}
