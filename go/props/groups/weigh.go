package groups

import (
	"errors"
	"expvar"
	"fmt"
	"math"
	"slices"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"pgregory.net/rapid"

	"verif/kit"
)

// Weigh is a long run on a load-balancing group whose members change.
type Weigh struct {
	Penalty int     `json:"penalty_us,omitempty"`
	Phases  []Phase `json:"phases"`
}

// Phase is a number of queries; a member answers after its delay, or fails.
type Phase struct {
	Queries int    `json:"queries"`
	Delay   []int  `json:"delay_us"`
	Bad     []bool `json:"bad"`
}

func genWeigh(t *rapid.T) Weigh {
	c := Weigh{Penalty: kit.Pick(t, "penalty", 0, 0, 50, 20_000, 2_000_000)}
	n := kit.Pick(t, "members", 2, 3, 1, 4, 7, 9, 10)
	c.Phases = kit.List(t, "phases", 1, 5, func(t *rapid.T) Phase {
		p := Phase{Queries: kit.Pick(t, "queries", 1, 2, 3, 10, 100, 1000, 4000)}
		for i := 0; i < n; i++ {
			p.Delay = append(p.Delay, kit.Pick(t, "delay", 1, 0, 20, 999, 1000, 1001, 5000, 99_999, 100_000, 100_001, 1_000_000))
			p.Bad = append(p.Bad, kit.Chance(t, "bad", 30))
		}
		return p
	})
	return c
}

// tally compares how often something happened with how often it should have:
// the chance of exceeding the bound is below exp(-30) (Freedman's inequality).
type tally struct{ got, want, variance float64 }

func (t *tally) add(happened bool, p float64) {
	if happened {
		t.got++
	}
	t.want += p
	t.variance += p * (1 - p)
}

func (t *tally) off() bool {
	d := math.Abs(t.got - t.want)
	return d*d/(2*(t.variance+d/3)) > 30
}

func runWeigh(x *kit.Ctx, c Weigh) error {
	return kit.Gone(x, func() error {
		n := len(c.Phases[0].Delay)
		var phase Phase
		var asked []int
		members := make([]rdns.Resolver, n)
		for i := range members {
			members[i] = &kit.Up{ID: fmt.Sprint("m", i), F: func(_ int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) {
				asked = append(asked, i)
				time.Sleep(time.Duration(phase.Delay[i]) * time.Microsecond)
				if phase.Bad[i] {
					return nil, errors.New("no response")
				}
				return kit.R{}.Msg(q)
			}}
		}
		g := rdns.NewLoadBalance("weigh", rdns.LoadBalanceOptions{FailurePenalty: time.Duration(c.Penalty) * time.Microsecond}, members...)
		rtt, ok := expvar.Get("routedns.router.weigh.rtt").(*expvar.Map)
		if !ok {
			return errors.New("no metric of the response times")
		}
		// What the group should think of each member.
		type member struct {
			mean    float64 // in microseconds
			samples int
			fails   int  // in a row
			raised  bool // by a failure
		}
		model := make([]member, n)
		picks := make([]tally, n)
		failed := false
		for k, p := range c.Phases {
			phase = p
			for range p.Queries {
				asked = nil
				_, err := g.Resolve(kit.Q{Name: "a.test.", Type: dns.TypeA}.Msg(), rdns.ClientInfo{})
				if (err != nil) != !slices.Contains(p.Bad, false) {
					return fmt.Errorf("phase %d: error %v", k, err)
				}
				left := make([]int, n)
				for i := range left {
					left[i] = i
				}
				for _, i := range asked {
					at := slices.Index(left, i)
					if at < 0 {
						return fmt.Errorf("phase %d: members asked %v", k, asked)
					}
					// The odds of those that were left.
					total := 0.0
					weight := func(i int) float64 {
						if model[i].samples == 0 {
							return 1
						}
						return 100_000 / max(model[i].mean, 1000)
					}
					for _, j := range left {
						total += weight(j)
					}
					for _, j := range left {
						picks[j].add(i == j, 0.05/float64(len(left))+0.95*weight(j)/total)
					}
					left = slices.Delete(left, at, at+1)
					m := &model[i]
					us := float64(max(1, p.Delay[i]))
					if p.Bad[i] {
						failed = true
						m.fails++
						punish := c.Penalty > 0 && m.fails > 1
						if punish {
							us = float64(c.Penalty)
						}
						switch mixed := 0.1*us + 0.9*m.mean; {
						case m.samples == 0:
							m.mean, m.raised = max(us, 100_000), true
						case punish || mixed > m.mean:
							m.mean, m.raised = mixed, true
						}
					} else {
						m.fails = 0
						if m.samples == 0 || m.raised {
							m.mean = us
						} else {
							m.mean = 0.1*us + 0.9*m.mean
						}
						m.raised = false
					}
					m.samples++
					v, ok := rtt.Get(fmt.Sprint("m", i)).(*expvar.Float)
					if !ok {
						return fmt.Errorf("no response time of member %d", i)
					}
					if d := v.Value() - m.mean; math.Abs(d) > 1e-6*m.mean {
						return fmt.Errorf("phase %d: the average of member %d is %v, should be %v", k, i, v.Value(), m.mean)
					}
				}
			}
			for i := range picks {
				if picks[i].off() {
					return fmt.Errorf("phase %d: member %d was picked %v times, should be %.1f (variance %.1f)", k, i, picks[i].got, picks[i].want, picks[i].variance)
				}
			}
		}
		x.LabelIf(failed, "a member failed")
		x.LabelIf(c.Penalty > 0, "penalty")
		if n > 1 && len(c.Phases) > 1 {
			x.NonTrivial()
		}
		return nil
	})
}

// Draw is a long run on a random group with failing members.
type Draw struct {
	Members int `json:"members"`
	Bad     int `json:"bad"` // failing ones, from the first
	Queries int `json:"queries"`
}

func genDraw(t *rapid.T) Draw {
	c := Draw{Members: kit.Int(t, "members", 1, 8), Queries: kit.Pick(t, "queries", 500, 2000)}
	c.Bad = kit.Int(t, "bad", 0, c.Members-1)
	return c
}

// runDraw: all members in the group are equally likely.
func runDraw(x *kit.Ctx, c Draw) error {
	return kit.Gone(x, func() error {
		var asked []int
		members := make([]rdns.Resolver, c.Members)
		for i := range members {
			members[i] = &kit.Up{ID: fmt.Sprint("m", i), F: func(_ int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) {
				asked = append(asked, i)
				a, err := kit.R{}.Msg(q)
				if i < c.Bad {
					return nil, errors.New("no response")
				}
				return a, err
			}}
		}
		g := rdns.NewRandom("draw", rdns.RandomOptions{ResetAfter: time.Second}, members...)
		picks := make([]tally, c.Members)
		for range c.Queries {
			asked = nil
			if _, err := g.Resolve(kit.Q{Name: "a.test.", Type: dns.TypeA}.Msg(), rdns.ClientInfo{}); err != nil {
				return err
			}
			left := make([]int, c.Members)
			for i := range left {
				left[i] = i
			}
			for _, i := range asked {
				at := slices.Index(left, i)
				if at < 0 {
					return fmt.Errorf("members asked %v", asked)
				}
				for _, j := range left {
					picks[j].add(i == j, 1/float64(len(left)))
				}
				left = slices.Delete(left, at, at+1)
			}
			time.Sleep(1001 * time.Millisecond) // the failed ones are back
		}
		for i := range picks {
			if picks[i].off() {
				return fmt.Errorf("member %d was picked %v times, should be %.1f (variance %.1f)", i, picks[i].got, picks[i].want, picks[i].variance)
			}
		}
		if c.Members > 1 {
			x.NonTrivial()
		}
		x.LabelIf(c.Bad > 0, "some failed")
		return nil
	})
}
