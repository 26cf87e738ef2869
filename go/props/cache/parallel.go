package cache

import (
	"fmt"
	"sync"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"pgregory.net/rapid"

	"verif/kit"
)

// Parallel is a set of clients that use one cache at the same time.
type Parallel struct {
	Capacity int     `json:"capacity,omitempty"`
	Names    int     `json:"names"`
	Delay    bool    `json:"delay,omitempty"`
	Shuffle  string  `json:"shuffle,omitempty"`
	Clients  [][]int `json:"clients"` // the names each one asks for; negative ones flush
}

func genParallel(t *rapid.T) Parallel {
	p := Parallel{
		Capacity: kit.Pick(t, "cap", 0, 0, 1, 2, 5),
		Names:    kit.Int(t, "names", 1, 6),
		Delay:    rapid.Bool().Draw(t, "delay"),
		Shuffle:  kit.Pick(t, "shuffle", "", "random", "round-robin"),
	}
	p.Clients = kit.List(t, "clients", 2, 8, func(t *rapid.T) []int {
		return kit.List(t, "asks", 5, 40, func(t *rapid.T) int {
			if kit.Chance(t, "flush", 3) {
				return -1
			}
			return kit.Int(t, "name", 0, p.Names-1)
		})
	})
	return p
}

// Every client must get the answer to its own question, complete, however
// the others are scheduled.
func runParallel(x *kit.Ctx, p Parallel) error {
	answer := func(name string) kit.R {
		r := kit.R{}
		for i := 0; i < 4; i++ {
			r.An = append(r.An, fmt.Sprintf("%s 3600 IN A 192.0.2.%d", name, i))
		}
		r.An = append(r.An, fmt.Sprintf("%s 3600 IN TXT %q", name, name))
		return r
	}
	up := &kit.Up{ID: "up", F: func(n int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) {
		if p.Delay && n%3 == 0 {
			time.Sleep(50 * time.Microsecond)
		}
		return answer(lower(q.Question[0].Name)).Msg(q)
	}}
	b := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Capacity: p.Capacity})
	c := Case{Flush: "flush.", Shuffle: p.Shuffle}.cache(up, b)
	errs := make(chan error, len(p.Clients))
	var wg sync.WaitGroup
	total := 0
	for ci, asks := range p.Clients {
		total += len(asks)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, n := range asks {
				name := fmt.Sprintf("name%d.test.", n)
				if n < 0 {
					name = "flush."
				} else if (i+ci)%2 == 0 {
					name = flip(name)
				}
				q := kit.Q{Name: name, Type: dns.TypeA, ID: uint16(ci*1000 + i), RD: true}.Msg()
				a, err := c.Resolve(q, rdns.ClientInfo{})
				if err != nil || a == nil {
					errs <- fmt.Errorf("client %d, %s: %v, answer %v", ci, name, err, a)
					return
				}
				if err := kit.SameQuestion(q, a); err != nil {
					errs <- fmt.Errorf("client %d, %s: %w", ci, name, err)
					return
				}
				if n < 0 {
					continue
				}
				want, _ := answer(lower(name)).Msg(q)
				aged := a.Copy()
				for _, rr := range aged.Answer {
					if rr.Header().Ttl < 3000 || rr.Header().Ttl > 3600 {
						errs <- fmt.Errorf("client %d, %s: TTL %d", ci, name, rr.Header().Ttl)
						return
					}
					rr.Header().Ttl = 3600
				}
				if !sameShuffled(aged, want) {
					errs <- fmt.Errorf("client %d got a wrong answer for %s\ngot  %s\nwant %s", ci, name, kit.Text(aged), kit.Text(want))
					return
				}
				scribble(a)
			}
		}()
	}
	wg.Wait()
	select {
	case err := <-errs:
		return err
	default:
	}
	if p.Capacity > 0 && b.Size() > p.Capacity {
		return fmt.Errorf("%d entries in a cache of %d", b.Size(), p.Capacity)
	}
	x.LabelIf(up.N() < total, "hit")
	x.LabelIf(p.Capacity > 0 && p.Capacity < p.Names, "contended capacity")
	if up.N() > 1 && up.N() < total {
		x.NonTrivial()
	}
	return nil
}

func lower(s string) string { return dns.CanonicalName(s) }
