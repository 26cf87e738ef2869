package modify

import (
	"fmt"
	"hash/fnv"
	"runtime"
	"sync"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"pgregory.net/rapid"

	"verif/kit"
)

// Crowd is a number of clients using one chain at the same time.
type Crowd struct {
	Case
	Clients []kit.Q `json:"clients"`
}

func genCrowd(t *rapid.T) Crowd {
	c := Crowd{Case: genChain(t)}
	for i := range c.Chain {
		if c.Chain[i].Kind == "dedup" { // clients get each other's answers
			c.Chain[i].Kind = "router"
		}
	}
	if kit.Chance(t, "answering", 40) {
		c.Chain = append(c.Chain, genElem(t, "static", "template"))
	}
	c.Clients = kit.List(t, "clients", 2, 8, func(t *rapid.T) kit.Q {
		q := c.Q
		q.ID = uint16(kit.Int(t, "cid", 0, 65535))
		if kit.Chance(t, "othername", 60) {
			q.Name = kit.CaseMix(t, kit.Name(t, 1, 4))
		}
		if kit.Chance(t, "othertype", 30) {
			q.Type = kit.Pick(t, "ctype", dns.TypeA, dns.TypeAAAA, dns.TypeTXT)
		}
		return q
	})
	return c
}

// pure picks the response by the query alone.
func pure(rs []kit.R, q *dns.Msg) (*dns.Msg, error) {
	h := fnv.New32a()
	o := q.Question[0]
	fmt.Fprint(h, o.Name, o.Qtype)
	return respond(rs[int(h.Sum32()>>8)%len(rs)], q)
}

func runCrowd(x *kit.Ctx, c Crowd) error {
	script := func(rs []kit.R) (*kit.Up, fn) {
		return &kit.Up{ID: "up", F: func(_ int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) {
			runtime.Gosched()
			return pure(rs, q)
		}}, func(q *dns.Msg) (*dns.Msg, error) {
			return pure(rs, q)
		}
	}
	up, mup := script(c.Script)
	retry, mretry := script(c.Retry)
	var r rdns.Resolver = up
	m := mup
	for i := len(c.Chain) - 1; i >= 0; i-- {
		next, err := c.Chain[i].build(r, retry)
		if err != nil {
			return err
		}
		r, m = next, c.Chain[i].model(c.Case, m, mretry)
		x.Label("%s", c.Chain[i].Kind)
	}
	errs := make([]error, len(c.Clients))
	var wg sync.WaitGroup
	for i, cq := range c.Clients {
		want, werr := m(cq.Msg())
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 3; n++ {
				in := cq.Msg()
				got, gerr := r.Resolve(in, c.ci())
				if !sameErr(gerr, werr) {
					errs[i] = fmt.Errorf("client %d got error %v, want %v", i, gerr, werr)
					return
				}
				if werr == nil && kit.Text(got) != kit.Text(want) {
					errs[i] = fmt.Errorf("client %d got\n%s\nwant\n%s", i, kit.Text(got), kit.Text(want))
					return
				}
				if kit.Text(in) != kit.Text(cq.Msg()) {
					errs[i] = fmt.Errorf("the query of client %d was changed to\n%s", i, kit.Text(in))
					return
				}
				if got != nil {
					got.Pack()
				}
				scribble(got)
			}
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	x.NonTrivial()
	return nil
}
