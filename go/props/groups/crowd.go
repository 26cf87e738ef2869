package groups

import (
	"errors"
	"fmt"
	"sync"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"pgregory.net/rapid"

	"verif/kit"
	"verif/props/cache"
)

// Crowd is a number of clients on a group whose members work or do not.
type Crowd struct {
	Kind    string `json:"kind"`
	Reset   int    `json:"reset_ms,omitempty"`
	Good    []bool `json:"good"`
	Delay   []int  `json:"delay_ms"`
	Starts  []int  `json:"starts_ms"`
	Penalty int    `json:"penalty_ms,omitempty"`
}

func genCrowd(kinds ...string) func(*rapid.T) Crowd {
	return func(t *rapid.T) Crowd {
		c := Crowd{Kind: kit.Pick(t, "kind", kinds...), Reset: 3600 * 1000}
		n := kit.Int(t, "members", 2, 5)
		for i := 0; i < n; i++ {
			c.Good = append(c.Good, rapid.Bool().Draw(t, "good"))
			c.Delay = append(c.Delay, kit.Int(t, "delay", 0, 30))
		}
		if c.Kind == "round-robin" || kit.Chance(t, "one-good", 80) {
			c.Good[kit.Int(t, "good-one", 0, n-1)] = true
		}
		c.Starts = kit.List(t, "starts", 2, 24, func(t *rapid.T) int { return kit.Int(t, "start", 0, 100) })
		return c
	}
}

func runCrowd(x *kit.Ctx, c Crowd) error {
	return kit.Bubble(x, func() error {
		anyGood := false
		members := make([]rdns.Resolver, len(c.Good))
		for i := range members {
			anyGood = anyGood || c.Good[i]
			members[i] = &kit.Up{ID: fmt.Sprint("m", i), F: func(_ int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) {
				time.Sleep(time.Duration(c.Delay[i]) * time.Millisecond)
				if !c.Good[i] {
					return nil, errors.New("no response")
				}
				return kit.R{An: []string{fmt.Sprintf("%s 60 IN A 10.0.0.%d", q.Question[0].Name, i)}}.Msg(q)
			}}
		}
		var g rdns.Resolver
		if c.Kind == "round-robin" {
			g = rdns.NewRoundRobin("g", members...)
		} else {
			g = Fail{Kind: c.Kind, Reset: c.Reset}.group(members)
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		var trouble error
		for n, at := range c.Starts {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(at) * time.Millisecond)
				q := kit.Q{Name: fmt.Sprintf("n%d.test.", n), Type: dns.TypeA, ID: uint16(n)}.Msg()
				a, err := g.Resolve(q, rdns.ClientInfo{})
				mu.Lock()
				defer mu.Unlock()
				switch {
				case err != nil && anyGood && c.Kind != "round-robin":
					trouble = fmt.Errorf("query %d failed although a member works: %v", n, err)
				case err == nil && !anyGood:
					trouble = fmt.Errorf("query %d answered although no member works", n)
				case err == nil:
					if e := kit.SameQuestion(kit.Q{Name: fmt.Sprintf("n%d.test.", n), Type: dns.TypeA, ID: uint16(n)}.Msg(), a); e != nil {
						trouble = fmt.Errorf("query %d: %w", n, e)
					} else if len(a.Answer) != 1 || a.Answer[0].Header().Name != q.Question[0].Name {
						trouble = fmt.Errorf("query %d: got the answer of another: %s", n, kit.Text(a))
					}
				}
			}()
		}
		wg.Wait()
		if trouble != nil {
			return trouble
		}
		if c.Kind == "round-robin" {
			lo, hi := len(c.Starts), 0
			for _, m := range members {
				lo, hi = min(lo, m.(*kit.Up).N()), max(hi, m.(*kit.Up).N())
			}
			if hi-lo > 1 {
				return fmt.Errorf("members got between %d and %d queries", lo, hi)
			}
		}
		x.LabelIf(anyGood, "a member works")
		x.Label("%s", c.Kind)
		if anyGood {
			x.NonTrivial()
		}
		return nil
	})
}

// Share is a long run on a load-balancing group with members of very different
// speed or health.
type Share struct {
	Delay []int `json:"delay_ms"`
	Bad   int   `json:"bad"` // failing member, or -1
}

func genShare(t *rapid.T) Share {
	c := Share{Bad: -1}
	c.Delay = []int{kit.Int(t, "fast", 1, 3)}
	for i := kit.Int(t, "others", 1, 3); i > 0; i-- {
		c.Delay = append(c.Delay, kit.Int(t, "slow", 100, 1000))
	}
	if kit.Chance(t, "bad", 50) {
		c.Bad = kit.Int(t, "which", 1, len(c.Delay)-1)
		c.Delay[c.Bad] = kit.Pick(t, "baddelay", 0, 1, 50)
	}
	// The fast one is anywhere.
	i := kit.Int(t, "pos", 0, len(c.Delay)-1)
	c.Delay[0], c.Delay[i] = c.Delay[i], c.Delay[0]
	if c.Bad == i && i > 0 {
		c.Bad = 0
	}
	return c
}

func runShare(x *kit.Ctx, c Share) error {
	return kit.Bubble(x, func() error {
		fast := 0
		members := make([]rdns.Resolver, len(c.Delay))
		for i := range members {
			if i != c.Bad && (c.Delay[i] < c.Delay[fast] || fast == c.Bad) {
				fast = i
			}
			members[i] = &kit.Up{ID: fmt.Sprint("m", i), F: func(_ int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) {
				time.Sleep(time.Duration(c.Delay[i]) * time.Millisecond)
				if i == c.Bad {
					return nil, errors.New("no response")
				}
				return kit.R{}.Msg(q)
			}}
		}
		g := rdns.NewLoadBalance("g", rdns.LoadBalanceOptions{}, members...)
		ask := func(n int) error {
			for i := 0; i < n; i++ {
				if _, err := g.Resolve(kit.Q{Name: "a.test.", Type: 1}.Msg(), rdns.ClientInfo{}); err != nil {
					return fmt.Errorf("query failed: %w", err)
				}
			}
			return nil
		}
		if err := ask(300); err != nil {
			return err
		}
		before := make([]int, len(members))
		for i, m := range members {
			before[i] = m.(*kit.Up).N()
		}
		const n = 1000
		if err := ask(n); err != nil {
			return err
		}
		// Weights are in inverse proportion to the response time, and a
		// twentieth of the queries goes anywhere: by far most of them end up at
		// the fast member, and every member still gets some.
		for i, m := range members {
			got := m.(*kit.Up).N() - before[i]
			if i == fast && got < n*70/100 {
				return fmt.Errorf("the fastest member got %d of %d queries", got, n)
			}
			if got == 0 {
				return fmt.Errorf("member %d got no queries at all any more", i)
			}
		}
		x.LabelIf(c.Bad >= 0, "with a failing member")
		x.NonTrivial()
		return nil
	})
}

// Race is a query to a group that asks all its members.
type Race struct {
	Q     kit.Q   `json:"q"`
	R     []kit.R `json:"r"`
	Delay []int   `json:"delay_ms"`
}

func genRace(t *rapid.T) Race {
	c := Race{Q: genQ(t)}
	n := kit.Int(t, "members", 1, 6)
	at := 0
	for i := 0; i < n; i++ {
		c.R = append(c.R, genR(t, c.Q))
		at += kit.Int(t, "delay", 1, 50)
		c.Delay = append(c.Delay, at)
	}
	perm := rapid.Permutation(c.Delay).Draw(t, "order")
	c.Delay = perm
	return c
}

func runRace(x *kit.Ctx, c Race) error {
	return kit.Gone(x, func() error {
		ci := rdns.ClientInfo{Listener: "l", DoHPath: "/p"}
		var mu sync.Mutex
		var trouble error
		members := make([]rdns.Resolver, len(c.R))
		for i := range members {
			members[i] = &kit.Up{ID: fmt.Sprint("m", i), F: func(_ int, q *dns.Msg, got rdns.ClientInfo) (*dns.Msg, error) {
				a, err := c.R[i].Msg(q)
				mu.Lock()
				if kit.Text(q) != kit.Text(c.Q.Msg()) {
					trouble = fmt.Errorf("member %d got a different query: %s", i, kit.Text(q))
				}
				if got.Listener != "l" || got.DoHPath != "/p" {
					trouble = fmt.Errorf("member %d got other client information", i)
				}
				mu.Unlock()
				cache.Scribble(q) // its own copy
				time.Sleep(time.Duration(c.Delay[i]) * time.Millisecond)
				return a, err
			}}
		}
		winner, last := -1, 0
		for i := range members {
			a, err := c.R[i].Msg(c.Q.Msg())
			if err == nil && (a == nil || a.Rcode != dns.RcodeServerFailure) && (winner < 0 || c.Delay[i] < c.Delay[winner]) {
				winner = i
			}
			if c.Delay[i] > c.Delay[last] {
				last = i
			}
		}
		x.LabelIf(winner < 0, "all failed")
		if winner < 0 {
			winner = last
		}
		start := time.Now()
		q := c.Q.Msg()
		a, err := rdns.NewFastest("g", members...).Resolve(q, ci)
		took := time.Since(start)
		if kit.Text(q) != kit.Text(c.Q.Msg()) {
			return fmt.Errorf("the query was changed: %s", kit.Text(q))
		}
		if trouble != nil {
			return trouble
		}
		w, werr := c.R[winner].Msg(c.Q.Msg())
		if e := same(a, w, err, werr); e != nil {
			return fmt.Errorf("member %d was the fastest to succeed: %w", winner, e)
		}
		if took != time.Duration(c.Delay[winner])*time.Millisecond {
			return fmt.Errorf("took %v, member %d answered after %d ms", took, winner, c.Delay[winner])
		}
		for i, m := range members {
			if m.(*kit.Up).N() != 1 {
				return fmt.Errorf("member %d was asked %d times", i, m.(*kit.Up).N())
			}
		}
		time.Sleep(time.Minute)
		if e := same(a, w, err, werr); e != nil {
			return fmt.Errorf("the answer changed afterwards: %w", e)
		}
		if len(members) > 1 {
			x.NonTrivial()
		}
		x.LabelIf(c.Delay[winner] > 50, "waited for a slower one")
		return nil
	})
}

// Rotation is a history on a round-robin group.
type Rotation struct {
	Members int    `json:"members"`
	Steps   []Step `json:"steps"`
}

func genRotation(t *rapid.T) Rotation {
	c := Rotation{Members: kit.Int(t, "members", 1, 5)}
	c.Steps = kit.List(t, "steps", 1, 12, func(t *rapid.T) Step {
		s := Step{Q: genQ(t)}
		s.R = []kit.R{genR(t, s.Q)}
		return s
	})
	return c
}

func runRotation(x *kit.Ctx, c Rotation) error {
	asked := -1
	var step Step
	var got *dns.Msg
	members := make([]rdns.Resolver, c.Members)
	for i := range members {
		members[i] = &kit.Up{ID: fmt.Sprint("m", i), F: func(_ int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) {
			asked = i
			got = q.Copy()
			return step.R[0].Msg(q)
		}}
	}
	g := rdns.NewRoundRobin("g", members...)
	failed := false
	for n, s := range c.Steps {
		step, asked = s, -1
		q := s.Q.Msg()
		a, err := g.Resolve(q, rdns.ClientInfo{})
		if asked != n%c.Members {
			return fmt.Errorf("query %d went to member %d of %d", n, asked, c.Members)
		}
		if kit.Text(got) != kit.Text(s.Q.Msg()) {
			return fmt.Errorf("query %d was changed on its way: %s", n, kit.Text(got))
		}
		w, werr := s.R[0].Msg(s.Q.Msg())
		failed = failed || werr != nil
		if e := same(a, w, err, werr); e != nil {
			return fmt.Errorf("query %d: %w", n, e)
		}
	}
	if len(c.Steps) > c.Members && failed {
		x.NonTrivial()
	}
	return nil
}
