package groups

import (
	"errors"
	"fmt"
	"net"
	"slices"
	"strings"
	"sync"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"pgregory.net/rapid"

	"verif/kit"
	"verif/props/cache"
)

// Dup is a number of clients asking related questions through the element
// that merges identical queries.
type Dup struct {
	Queries []kit.Q `json:"queries"`
	Clients []Asker `json:"clients"`
}

// Asker is one client's query; R and Took are used if it is sent upstream.
type Asker struct {
	At    int    `json:"at_ms"`
	Q     int    `json:"q"`
	ID    uint16 `json:"id"`
	Upper bool   `json:"upper,omitempty"`
	R     kit.R  `json:"r"`
	Took  int    `json:"took_ms"`
	Also  bool   `json:"also_error,omitempty"` // there is an error along with the response
}

func (a Asker) outcome(q *dns.Msg) (*dns.Msg, error) {
	m, err := a.R.Msg(q)
	if a.Also && err == nil {
		err = errors.New("and an error")
	}
	return m, err
}

func genDup(t *rapid.T) Dup {
	base := kit.Q{Name: kit.Name(t, 1, 3), Type: dns.TypeA, RD: true}
	c := Dup{}
	n := kit.Int(t, "queries", 1, 4)
	subnets := kit.Chance(t, "subnets", 20)
	var last *kit.ECS
	for i := 0; i < n; i++ {
		q := base
		e := kit.E{Size: 1232}
		ecs := kit.MaskedECS(t)
		ecs.Scope = 0
		if last != nil && kit.Chance(t, "near", 50) {
			ecs = nearECS(t, *last)
		}
		last = ecs
		differ := kit.Int(t, "differ", 0, 9)
		if subnets {
			differ = 4
		}
		switch differ {
		case 0:
			q.Type = kit.Pick(t, "type", dns.TypeAAAA, dns.TypeTXT)
		case 1:
			q.Class = dns.ClassCHAOS
		case 2:
			q.CD = true
		case 3:
			e.DO = true
			q.EDNS = &e
		case 4, 5:
			e.Opts = []kit.Opt{{ECS: ecs}}
			q.EDNS = &e
		case 6:
			e.Opts = []kit.Opt{{ECS: ecs}}
			e.DO = true
			q.CD = true
			q.EDNS = &e
		case 7:
			q.Name = "x" + q.Name
		}
		c.Queries = append(c.Queries, q)
	}
	c.Clients = kit.List(t, "clients", 2, 16, func(t *rapid.T) Asker {
		a := Asker{
			At: kit.Int(t, "at", 0, 120), Q: kit.Int(t, "q", 0, n-1), ID: uint16(kit.Int(t, "id", 0, 65535)),
			Upper: kit.Chance(t, "upper", 30), Took: kit.Int(t, "took", 0, 60),
		}
		q := c.Queries[a.Q]
		a.R = genR(t, q)
		a.Also = kit.Chance(t, "also", 5)
		return a
	})
	return c
}

// nearECS returns a subnet that differs from e in one bit of the address or of
// the length.
func nearECS(t *rapid.T, e kit.ECS) *kit.ECS {
	ip := net.ParseIP(e.Addr)
	if v4 := ip.To4(); v4 != nil && !strings.Contains(e.Addr, ":") {
		ip = v4
	}
	if kit.Chance(t, "length", 20) && int(e.Mask) < 8*len(ip) {
		e.Mask++
		return &e
	}
	if e.Mask == 0 {
		return &e
	}
	bit := int(e.Mask) - 1
	if kit.Chance(t, "higher", 50) {
		bit = kit.Int(t, "bit", 0, bit)
	}
	ip = slices.Clone(ip)
	ip[bit/8] ^= 128 >> (bit % 8)
	if len(ip) == 16 && ip.To4() != nil {
		return &e
	}
	e.Addr = ip.String()
	return &e
}

func (c Dup) query(a Asker) *dns.Msg {
	q := c.Queries[a.Q%len(c.Queries)]
	q.ID = a.ID
	if a.Upper {
		q.Name = strings.ToUpper(q.Name)
	}
	return q.Msg()
}

func (c Dup) key(a Asker) string {
	q := c.query(a)
	s := fmt.Sprint(strings.ToLower(q.Question[0].Name), q.Question[0].Qtype, q.Question[0].Qclass, q.CheckingDisabled)
	if o := q.IsEdns0(); o != nil {
		s += fmt.Sprint(o.Do())
		for _, p := range o.Option {
			s += kit.OptText(p)
		}
		return s
	}
	return s + "false"
}

func runDup(x *kit.Ctx, c Dup) error {
	return kit.Bubble(x, func() error {
		start := time.Now()
		type call struct {
			by         int
			key        string
			start, end time.Duration
		}
		var mu sync.Mutex
		var calls []call
		up := &kit.Up{ID: "up", F: func(_ int, q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			// The client who is sent on is known by the listener name.
			var by int
			fmt.Sscan(ci.Listener, &by)
			a := c.Clients[by]
			began := time.Since(start)
			m, err := a.outcome(q)
			mu.Lock()
			same := kit.Text(q) == kit.Text(c.query(a))
			calls = append(calls, call{by, c.key(a), began, began + time.Duration(a.Took)*time.Millisecond})
			mu.Unlock()
			if !same {
				return nil, fmt.Errorf("verif: other query than that of client %d: %s", by, kit.Text(q))
			}
			time.Sleep(time.Duration(a.Took) * time.Millisecond)
			return m, err
		}}
		r := rdns.NewRequestDedup("dedup", up)
		type outcome struct {
			at, end time.Duration
			a       string
			err     error
		}
		out := make([]outcome, len(c.Clients))
		var wg sync.WaitGroup
		for i, cl := range c.Clients {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(cl.At) * time.Millisecond)
				at := time.Since(start)
				a, err := r.Resolve(c.query(cl), rdns.ClientInfo{Listener: fmt.Sprint(i)})
				out[i] = outcome{at, time.Since(start), kit.Text(a), err}
				cache.Scribble(a)
			}()
		}
		wg.Wait()
		shared := 0
		// Calls for the same question do not overlap.
		for i, p := range calls {
			for _, q := range calls[:i] {
				if p.key == q.key && p.start < q.end && q.start < p.end {
					return fmt.Errorf("two queries upstream at the same time for %s (clients %d and %d)", p.key, q.by, p.by)
				}
			}
		}
		for i, cl := range c.Clients {
			var own *call
			for k := range calls {
				if calls[k].by == i {
					if own != nil {
						return fmt.Errorf("client %d was sent upstream twice", i)
					}
					own = &calls[k]
				}
			}
			o := out[i]
			fits := func(p call) error {
				if o.end != p.end {
					return fmt.Errorf("client %d was answered at %v, the upstream at %v", i, o.end, p.end)
				}
				q := c.query(c.Clients[p.by])
				w, werr := c.Clients[p.by].outcome(q)
				if w != nil {
					mine := c.query(cl)
					w.Id, w.Question = mine.Id, mine.Question
				}
				if (werr != nil) != (o.err != nil) || werr != nil && werr.Error() != o.err.Error() {
					return fmt.Errorf("client %d got error %v, the upstream's was %v", i, o.err, werr)
				}
				if kit.Text(w) != o.a {
					return fmt.Errorf("client %d got\n%swant %s", i, o.a, kit.Text(w))
				}
				return nil
			}
			if own != nil {
				if err := fits(*own); err != nil {
					return err
				}
				continue
			}
			// Answered by a query that was on its way when this one came.
			var err error = fmt.Errorf("client %d was answered although no such query was on its way", i)
			for _, p := range calls {
				if p.key == c.key(cl) && p.start <= o.at && o.at <= p.end {
					if e := fits(p); e == nil {
						err = nil
						shared++
						break
					} else {
						err = e
					}
				}
			}
			if err != nil {
				return err
			}
		}
		x.LabelIf(shared > 0, "merged")
		x.LabelIf(len(calls) > 1, "several upstream queries")
		if shared > 0 {
			x.NonTrivial()
		}
		return nil
	})
}
