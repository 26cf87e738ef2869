// Package groups checks the resolver groups against models of how they choose
// among their members.
package groups

import (
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"pgregory.net/rapid"

	"verif/kit"
	"verif/props/cache"
)

// Step is one query and what each member would say to it.
type Step struct {
	After int     `json:"after_ms,omitempty"`
	Q     kit.Q   `json:"q"`
	R     []kit.R `json:"r"`
	Delay []int   `json:"delay_ms,omitempty"` // how long each takes
}

// Fail is a history of queries on a group which retries on failure.
type Fail struct {
	Kind     string `json:"kind"`
	Reset    int    `json:"reset_ms,omitempty"`
	Servfail bool   `json:"servfail,omitempty"`
	Empty    bool   `json:"empty,omitempty"`
	Penalty  int    `json:"penalty_ms,omitempty"`
	Members  int    `json:"members"`
	Steps    []Step `json:"steps"`
}

// success is what the documentation calls a response that is not a failure.
func success(m *dns.Msg, err error, servfail, empty bool) bool {
	if err != nil {
		return false
	}
	if m == nil {
		return true // dropped on purpose
	}
	switch m.Rcode {
	case dns.RcodeServerFailure:
		if servfail {
			return false
		}
	case dns.RcodeRefused, dns.RcodeNotImplemented:
		return false
	}
	if !empty {
		return true
	}
	qt := m.Question[0].Qtype
	for _, rr := range m.Answer {
		if rr.Header().Rrtype == qt {
			return true
		}
	}
	if len(m.Answer) > 0 {
		if qt == dns.TypeANY {
			return len(m.Answer) > 1 || m.Answer[0].Header().Rrtype != dns.TypeHINFO
		}
		return false
	}
	if e := kit.FindEDE(m); e != nil {
		return e.InfoCode == 15 || e.InfoCode == 16 || e.InfoCode == 17
	}
	return false
}

func genR(t *rapid.T, q kit.Q) kit.R {
	ok := kit.R{RA: true, An: []string{kit.GenRR(t, q.Name, q.Type, 60)}}
	switch kit.Int(t, "response", 0, 13) {
	case 0, 1, 2, 3:
		return ok
	case 4:
		return kit.R{Rcode: dns.RcodeNameError}
	case 5, 6:
		return kit.R{Rcode: dns.RcodeServerFailure}
	case 7:
		return kit.R{Rcode: kit.Pick(t, "rcode", dns.RcodeRefused, dns.RcodeNotImplemented, dns.RcodeFormatError)}
	case 8:
		return kit.R{}
	case 9:
		e := kit.Pick[uint16](t, "ede", 15, 16, 17, 18, 4)
		return kit.R{Rcode: kit.Pick(t, "rcode", 0, 3), EDE: &e}
	case 10:
		r := kit.R{An: []string{q.Name + " 60 IN CNAME other.test."}}
		if kit.Chance(t, "more", 50) {
			r.An = append(r.An, kit.GenRR(t, "other.test.", q.Type, 60))
		}
		return r
	case 11:
		return kit.R{Nil: true}
	}
	return kit.R{Err: kit.Pick(t, "err", "no response", "connection refused", "timeout")}
}

func genQ(t *rapid.T) kit.Q {
	q := kit.Q{Name: kit.Name(t, 1, 3), Type: kit.Pick(t, "type", dns.TypeA, dns.TypeAAAA, dns.TypeTXT), RD: true, ID: uint16(kit.Int(t, "id", 0, 65535))}
	if kit.Chance(t, "edns", 30) {
		q.EDNS = kit.GenEDNS(t)
	}
	return q
}

func genFail(kinds ...string) func(*rapid.T) Fail {
	return func(t *rapid.T) Fail {
		c := Fail{
			Kind:     kit.Pick(t, "kind", kinds...),
			Servfail: rapid.Bool().Draw(t, "servfail"),
			Empty:    rapid.Bool().Draw(t, "empty"),
			Members:  kit.Int(t, "members", 1, 5),
		}
		switch c.Kind {
		case "fail-back":
			c.Reset = kit.Pick(t, "reset", -1000, 0, 1000, 5000, 60000)
		case "random":
			c.Reset = kit.Pick(t, "reset", -1000, 0, 1000, 5000, 60000)
		case "load-balance":
			c.Penalty = kit.Pick(t, "penalty", 0, 0, 1000)
		}
		if kit.Chance(t, "many", 25) {
			c.Members = kit.Int(t, "manymembers", 6, 12)
		}
		// Members keep their state for a while.
		var last []kit.R
		c.Steps = kit.List(t, "steps", 1, 14, func(t *rapid.T) Step {
			s := Step{Q: genQ(t)}
			if kit.Chance(t, "any", 5) {
				s.Q.Type = dns.TypeANY
			}
			switch kit.Int(t, "wait", 0, 5) {
			case 0:
				s.After = c.Reset / 2
			case 1:
				s.After = c.Reset - 1
			case 2:
				s.After = c.Reset + 1
			case 3:
				s.After = kit.Int(t, "ms", 0, 2000)
			}
			s.After = max(0, s.After)
			for i := 0; i < c.Members; i++ {
				g := s.Q
				if g.Type == dns.TypeANY {
					g.Type = kit.Pick(t, "anytype", dns.TypeA, dns.TypeTXT, dns.TypeHINFO)
				}
				r := genR(t, g)
				if last != nil && kit.Chance(t, "bad-again", 40) && last[i].Err != "" {
					r = last[i]
				}
				s.R = append(s.R, r)
			}
			if kit.Chance(t, "outage", 20) {
				up := kit.Int(t, "up", -1, c.Members-1)
				for i := range s.R {
					if i != up {
						s.R[i] = kit.R{Err: "no response"}
					}
				}
			}
			if kit.Chance(t, "delays", 50) {
				s.Delay = kit.List(t, "delay", c.Members, c.Members, func(t *rapid.T) int { return kit.Pick(t, "ms", 0, 3, 7, 2000) })
			}
			last = s.R
			return s
		})
		return c
	}
}

func (c Fail) group(members []rdns.Resolver) rdns.Resolver {
	reset := time.Duration(c.Reset) * time.Millisecond
	switch c.Kind {
	case "fail-rotate":
		return rdns.NewFailRotate("g", rdns.FailRotateOptions{ServfailError: c.Servfail, EmptyError: c.Empty}, members...)
	case "fail-back":
		return rdns.NewFailBack("g", rdns.FailBackOptions{ResetAfter: reset, ServfailError: c.Servfail, EmptyError: c.Empty}, members...)
	case "random":
		return rdns.NewRandom("g", rdns.RandomOptions{ResetAfter: reset, ServfailError: c.Servfail, EmptyError: c.Empty}, members...)
	case "load-balance":
		return rdns.NewLoadBalance("g", rdns.LoadBalanceOptions{FailurePenalty: time.Duration(c.Penalty) * time.Millisecond, ServfailError: c.Servfail, EmptyError: c.Empty}, members...)
	}
	panic("verif: no such group " + c.Kind)
}

// same: is got what the member answered?
func same(got, want *dns.Msg, err, werr error) error {
	if (err != nil) != (werr != nil) {
		return fmt.Errorf("error %v, the member's was %v", err, werr)
	}
	if err != nil && !strings.Contains(err.Error(), werr.Error()) {
		return fmt.Errorf("error %v, the member's was %v", err, werr)
	}
	if err == nil && kit.Text(got) != kit.Text(want) {
		return fmt.Errorf("answer differs from the member's\ngot  %swant %s", kit.Text(got), kit.Text(want))
	}
	return nil
}

func runFail(x *kit.Ctx, c Fail) error {
	return kit.Bubble(x, func() error {
		var step Step
		var mu sync.Mutex
		var asked []int
		members := make([]rdns.Resolver, c.Members)
		ci := rdns.ClientInfo{DoHPath: "/p", Listener: "l"}
		var trouble error
		for i := range members {
			members[i] = &kit.Up{ID: fmt.Sprint("m", i), F: func(_ int, q *dns.Msg, got rdns.ClientInfo) (*dns.Msg, error) {
				mu.Lock()
				asked = append(asked, i)
				endless := len(asked) > 20*c.Members
				mu.Unlock()
				if endless {
					select {} // seen by the wait below
				}
				if i < len(step.Delay) {
					time.Sleep(time.Duration(step.Delay[i]) * time.Millisecond)
				}
				mu.Lock()
				defer mu.Unlock()
				if want := step.Q.Msg(); kit.Text(q) != kit.Text(want) {
					trouble = fmt.Errorf("member %d got a different query\n%swant %s", i, kit.Text(q), kit.Text(want))
				}
				if got.Listener != ci.Listener || got.DoHPath != ci.DoHPath {
					trouble = fmt.Errorf("member %d got other client information", i)
				}
				a, err := step.R[i].Msg(q)
				if c.Kind == "load-balance" {
					cache.Scribble(q) // its own copy
				}
				return a, err
			}}
		}
		g := c.group(members)
		m := &failModel{Fail: c}
		m.init()
		failed := false
		for n, s := range c.Steps {
			step = s
			time.Sleep(time.Duration(s.After) * time.Millisecond)
			synctest.Wait()
			mu.Lock()
			asked = nil
			mu.Unlock()
			q := s.Q.Msg()
			start := time.Now()
			var a *dns.Msg
			var err error
			done := make(chan struct{})
			go func() {
				defer close(done)
				a, err = g.Resolve(q, ci)
			}()
			select {
			case <-done:
			case <-time.After(time.Hour):
				return fmt.Errorf("step %d: no answer after an hour, members asked %v", n, asked)
			}
			if trouble != nil {
				return fmt.Errorf("step %d: %w", n, trouble)
			}
			if kit.Text(q) != kit.Text(s.Q.Msg()) {
				return fmt.Errorf("step %d: the client's query was changed: %s", n, kit.Text(q))
			}
			e := m.step(x, s, start, asked, a, err)
			if e == errOpen {
				x.Label("either way at the same instant")
				return nil
			}
			if e != nil {
				return fmt.Errorf("step %d: members asked %v: %w", n, asked, e)
			}
			failed = failed || len(asked) > 1
		}
		if failed && c.Members > 1 && len(c.Steps) > 1 {
			x.NonTrivial()
		}
		return nil
	})
}

// errOpen: two things happen at the same instant, so the rest is not checked.
var errOpen = errors.New("open")

type failModel struct {
	Fail
	active  int
	changed time.Time   // last failover
	out     []time.Time // when a random member is back
}

func (m *failModel) init() { m.out = make([]time.Time, m.Members) }

// fallBack applies the reset timer of a fail-back group.
func (m *failModel) fallBack(x *kit.Ctx, now time.Time) error {
	if m.Kind != "fail-back" || m.Reset <= 0 || m.active == 0 {
		return nil
	}
	switch d := now.Sub(m.changed) - time.Duration(m.Reset)*time.Millisecond; {
	case d == 0:
		return errOpen
	case d > 0:
		x.Label("fell back")
		m.active = 0
	}
	return nil
}

func (m *failModel) step(x *kit.Ctx, s Step, now time.Time, asked []int, a *dns.Msg, err error) error {
	q := s.Q.Msg()
	says := func(i int) (*dns.Msg, error) { return s.R[i].Msg(q) }
	good := func(i int) bool {
		a, err := says(i)
		return success(a, err, m.Servfail, m.Empty)
	}
	last := func() error {
		if len(asked) == 0 {
			return errors.New("nobody was asked")
		}
		w, werr := says(asked[len(asked)-1])
		return same(a, w, err, werr)
	}
	delay := func(i int) time.Duration {
		if i < len(s.Delay) {
			return time.Duration(s.Delay[i]) * time.Millisecond
		}
		return 0
	}
	switch m.Kind {
	case "fail-rotate", "fail-back":
		if m.Kind == "fail-back" && m.Reset <= 0 {
			m.active = 0 // only this query is affected by failures
		}
		var want []int
		for i := 0; i < m.Members; i++ {
			if e := m.fallBack(x, now); e != nil {
				return e
			}
			was := m.active
			want = append(want, was)
			now = now.Add(delay(was))
			if e := m.fallBack(x, now); e != nil {
				return e
			}
			if good(was) {
				break
			}
			if m.active == was {
				m.active = (was + 1) % m.Members
				m.changed = now
			}
		}
		if fmt.Sprint(asked) != fmt.Sprint(want) {
			return fmt.Errorf("should have been %v", want)
		}
		x.LabelIf(len(want) > 1, "failover")
		x.LabelIf(len(want) == m.Members && !good(want[len(want)-1]), "all failed")
		return last()
	case "random":
		reset := max(0, time.Duration(m.Reset)*time.Millisecond)
		seen := map[int]bool{}
		for n, i := range asked {
			if m.out[i].Equal(now) && reset > 0 {
				return errOpen
			}
			if m.out[i].After(now) {
				return fmt.Errorf("member %d is out of the group until %v (now %v)", i, m.out[i], now)
			}
			if seen[i] {
				return fmt.Errorf("member %d was asked twice", i)
			}
			seen[i] = true
			now = now.Add(delay(i))
			if good(i) {
				if n != len(asked)-1 {
					return errors.New("asked on after a success")
				}
				x.LabelIf(len(asked) > 1, "failover")
				return last()
			}
			x.Label("member taken out")
			m.out[i] = now.Add(reset)
		}
		for i, until := range m.out {
			if until.Equal(now) && reset > 0 {
				return errOpen
			}
			if !seen[i] && !until.After(now) {
				return fmt.Errorf("gave up although member %d was available", i)
			}
		}
		x.Label("all failed")
		if err == nil {
			return fmt.Errorf("answered although no member was left: %s", kit.Text(a))
		}
	case "load-balance":
		seen := map[int]bool{}
		for n, i := range asked {
			if seen[i] {
				return fmt.Errorf("member %d was asked twice", i)
			}
			seen[i] = true
			if good(i) && n != len(asked)-1 {
				return errors.New("asked on after a success")
			}
		}
		if len(asked) == 0 {
			return errors.New("nobody was asked")
		}
		if !good(asked[len(asked)-1]) && len(asked) < m.Members {
			return errors.New("gave up before all were asked")
		}
		x.LabelIf(len(asked) > 1, "failover")
		x.LabelIf(!good(asked[len(asked)-1]), "all failed")
		return last()
	}
	return nil
}
