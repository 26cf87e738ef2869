// Package kit drives generated cases through the checks: it owns seeding,
// sharding, case accounting, shrinking, replay files and evidence.
package kit

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log/slog"
	"math"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	rdns "github.com/folbricht/routedns"
	"pgregory.net/rapid"
)

// Ctx is handed to the body of a check for one generated case.
type Ctx struct {
	T          *testing.T
	mu         sync.Mutex
	labels     map[string]bool
	nontrivial bool
}

// Label classifies the case; the counts end up in the evidence.
func (x *Ctx) Label(format string, a ...any) {
	s := format
	if len(a) > 0 {
		s = fmt.Sprintf(format, a...)
	}
	x.mu.Lock()
	x.labels[s] = true
	x.mu.Unlock()
}

// LabelIf is Label under a condition.
func (x *Ctx) LabelIf(c bool, s string) {
	if c {
		x.Label("%s", s)
	}
}

// NonTrivial marks the case as one that exercises what the property is about.
func (x *Ctx) NonTrivial() {
	x.mu.Lock()
	x.nontrivial = true
	x.mu.Unlock()
}

// Check is one generated check of a property.
type Check interface {
	name() string
	run(*runner)
	replay(*testing.T, json.RawMessage) error
}

// Prop is a check over generated cases of type C. C must survive a JSON
// round trip, since the encoded case is the replay file.
type Prop[C any] struct {
	Name            string
	Rule            string // what counts as a non-trivial case
	Quick, Thorough int    // cases per tier, over all shards
	Gen             func(*rapid.T) C
	Run             func(*Ctx, C) error
	ShrinkTime      time.Duration
	// Fixed cases are run before the generated ones, by the first shard. They
	// are shapes which an earlier search found (regression corpus).
	Fixed []C
}

func (p Prop[C]) name() string { return p.Name }

type subResult struct {
	Name        string            `json:"name"`
	Rule        string            `json:"rule"`
	Evaluations int               `json:"evaluations"`
	Nontrivial  int               `json:"nontrivial"`
	Skipped     int               `json:"skipped_budget"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
}

type violation struct {
	Sub     string          `json:"sub"`
	Message string          `json:"message"`
	Case    json.RawMessage `json:"case"`
}

type result struct {
	Subs      []*subResult `json:"subs"`
	Violation *violation   `json:"violation,omitempty"`
	Hang      *violation   `json:"hang,omitempty"`
}

type runner struct {
	t          *testing.T
	id         string
	tier       string
	seed       uint64
	shard, of  int
	out        string
	deadline   time.Time
	res        result
	hashes     map[uint64]struct{}
	cur        *os.File
	curStart   atomic.Int64
	curSub     atomic.Value
	curCase    atomic.Value
	hangAfter  time.Duration
	scaleCases float64
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// Main runs the checks of one property: all of them (VK_MODE=run) or the case
// in a replay file (VK_REPLAY).
func Main(t *testing.T, id string, checks ...Check) {
	rdns.Log = slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.Level(100)}))
	if f := os.Getenv("VK_REPLAY"); f != "" {
		replayFile(t, f, checks)
		return
	}
	out := os.Getenv("VK_OUT")
	if out == "" {
		out = t.TempDir()
	}
	r := &runner{
		t: t, id: id,
		tier:       os.Getenv("VK_TIER"),
		shard:      envInt("VK_SHARD", 0),
		of:         envInt("VK_SHARDS", 1),
		out:        out,
		hashes:     map[uint64]struct{}{},
		deadline:   time.Now().Add(time.Duration(envInt("VK_BUDGET_S", 400)) * time.Second),
		hangAfter:  time.Duration(envInt("VK_HANG_S", 120)) * time.Second,
		scaleCases: float64(envInt("VK_SCALE_PCT", 100)) / 100,
	}
	if r.tier == "" {
		r.tier = "quick"
	}
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		s = 1
	}
	r.seed = s
	r.cur, err = os.Create(filepath.Join(out, fmt.Sprintf("current-%d.json", r.shard)))
	if err != nil {
		t.Fatal(err)
	}
	go r.watchdog()
	only := os.Getenv("VK_ONLY")
	for _, c := range checks {
		if only != "" && c.name() != only {
			continue
		}
		c.run(r)
		if r.res.Violation != nil {
			break
		}
	}
	r.write()
	if v := r.res.Violation; v != nil {
		fmt.Printf("violation in %s: %s\ncase: %s\n", v.Sub, v.Message, v.Case)
	}
	if os.Getenv("VK_VERBOSE") != "" {
		for _, s := range r.res.Subs {
			fmt.Printf("%s: %d cases, %d distinct non-trivial, skipped %d\n", s.Name, s.Evaluations, s.Nontrivial, s.Skipped)
			keys := make([]string, 0)
			for k := range s.Labels {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				fmt.Printf("   %6.2f%% %s\n", 100*float64(s.Labels[k])/float64(s.Evaluations), k)
			}
		}
		if r.res.Violation != nil {
			t.Fail()
		}
	}
}

func (r *runner) write() {
	b, err := json.Marshal(r.res)
	if err != nil {
		panic(err)
	}
	tmp := filepath.Join(r.out, fmt.Sprintf("result-%d.tmp", r.shard))
	if err := os.WriteFile(tmp, b, 0644); err != nil {
		panic(err)
	}
	h := make([]byte, 0, 8*len(r.hashes))
	for k := range r.hashes {
		h = binary.LittleEndian.AppendUint64(h, k)
	}
	os.WriteFile(filepath.Join(r.out, fmt.Sprintf("hashes-%d.bin", r.shard)), h, 0644)
	if err := os.Rename(tmp, filepath.Join(r.out, fmt.Sprintf("result-%d.json", r.shard))); err != nil {
		panic(err)
	}
}

// A case that does not come back within hangAfter is reported as a hang. The
// driver decides: it repeats the case in a process of its own first.
func (r *runner) watchdog() {
	for {
		time.Sleep(time.Second)
		s := r.curStart.Load()
		if s == 0 || time.Since(time.Unix(0, s)) < r.hangAfter {
			continue
		}
		r.res.Hang = &violation{
			Sub:     r.curSub.Load().(string),
			Case:    r.curCase.Load().([]byte),
			Message: fmt.Sprintf("no result after %v", r.hangAfter),
		}
		b, _ := json.Marshal(result{Hang: r.res.Hang})
		os.WriteFile(filepath.Join(r.out, fmt.Sprintf("result-%d.json", r.shard)), b, 0644)
		debug.SetTraceback("all")
		panic("verif: case hangs")
	}
}

func (r *runner) begin(sub string, raw []byte) {
	r.curSub.Store(sub)
	r.curCase.Store(raw)
	b, _ := json.Marshal(violation{Sub: sub, Case: raw})
	buf := make([]byte, 0, len(b)+9)
	buf = append(buf, fmt.Sprintf("%08d\n", len(b))...)
	buf = append(buf, b...)
	r.cur.WriteAt(buf, 0)
	r.curStart.Store(time.Now().UnixNano())
}

func (r *runner) end() { r.curStart.Store(0) }

func mix(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprintln(h, parts...)
	v := h.Sum64()
	if v == 0 {
		v = 1
	}
	return v
}

func safely[C any](p Prop[C], x *Ctx, c C) (err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v\n%s", e, debug.Stack())
		}
	}()
	return p.Run(x, c)
}

func (p Prop[C]) run(r *runner) {
	sr := &subResult{Name: p.Name, Rule: p.Rule, Labels: map[string]int{}}
	r.res.Subs = append(r.res.Subs, sr)
	n := p.Quick
	if r.tier == "thorough" {
		n = p.Thorough
	}
	n = int(float64(n) * r.scaleCases)
	n = (n + r.of - 1) / r.of
	if n < 1 {
		n = 1
	}
	shrinkTime := p.ShrinkTime
	if shrinkTime == 0 {
		shrinkTime = 30 * time.Second
	}
	var fail *violation
	var failedAt time.Time
	one := func(c C) bool {
		raw, err := json.Marshal(c)
		if err != nil {
			panic(fmt.Errorf("verif: cannot encode case: %w", err))
		}
		var rt C // what runs is what the replay file holds
		if err := json.Unmarshal(raw, &rt); err != nil {
			panic(fmt.Errorf("verif: cannot decode case %s: %w", raw, err))
		}
		r.begin(p.Name, raw)
		x := &Ctx{T: r.t, labels: map[string]bool{}}
		err = safely(p, x, rt)
		r.end()
		if fail == nil || err != nil {
			if fail == nil {
				sr.Evaluations++
				for l := range x.labels {
					sr.Labels[l]++
				}
				if x.nontrivial {
					h := mix(p.Name, string(raw))
					if _, ok := r.hashes[h]; !ok {
						r.hashes[h] = struct{}{}
						sr.Nontrivial++
						if len(raw) < 4000 && (len(sr.Samples) < 2 || (sr.Nontrivial%997 == 0 && len(sr.Samples) < 4)) {
							sr.Samples = append(sr.Samples, raw)
						}
					}
				}
			}
			if err != nil {
				if fail == nil {
					failedAt = time.Now()
				}
				fail = &violation{Sub: p.Name, Message: err.Error(), Case: raw}
				if os.Getenv("VK_FIRST") != "" { // for the search for gaps: no shrinking
					fmt.Printf("FIRST-FAIL %s: %s\n", p.Name, err)
					os.Exit(3)
				}
				return false
			}
		}
		return true
	}
	if r.shard == 0 {
		for _, c := range p.Fixed {
			if !one(c) {
				r.res.Violation = fail
				return
			}
		}
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(mix(r.seed, p.Name, r.shard), 10))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", shrinkTime.String())
	tb := &tb{}
	func() {
		defer func() {
			if e := recover(); e != nil && e != stop {
				panic(e)
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			if fail == nil && (time.Now().After(r.deadline) || full()) {
				sr.Skipped++
				return
			}
			if fail != nil && time.Since(failedAt) > 2*shrinkTime+20*time.Second {
				return // shrinking has taken too long: keep what there is
			}
			c := p.Gen(t)
			if !one(c) {
				t.Fatalf("violation")
			}
		})
	}()
	if fail == nil && tb.failed {
		panic("verif: rapid failed without a violation: " + strings.Join(tb.logs, "\n"))
	}
	r.res.Violation = fail
}

func (p Prop[C]) replay(t *testing.T, raw json.RawMessage) error {
	var c C
	if err := json.Unmarshal(raw, &c); err != nil {
		return fmt.Errorf("verif: bad replay case: %w", err)
	}
	return safely(p, &Ctx{T: t, labels: map[string]bool{}}, c)
}

func replayFile(t *testing.T, name string, checks []Check) {
	b, err := os.ReadFile(name)
	if err != nil {
		t.Fatal(err)
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		t.Fatal(err)
	}
	for _, c := range checks {
		if c.name() != v.Sub {
			continue
		}
		done := make(chan error, 1)
		go func() { done <- c.replay(t, v.Case) }()
		select {
		case err = <-done:
		case <-time.After(time.Duration(envInt("VK_HANG_S", 120)) * time.Second):
			fmt.Println("REPLAY-HANG")
			os.Exit(4)
		}
		if err != nil {
			fmt.Printf("REPLAY-FAIL %s\n", err)
			os.Exit(3)
		}
		fmt.Println("REPLAY-OK")
		return
	}
	t.Fatalf("no check %q", v.Sub)
}

var stop = new(int)

// tb records a failure instead of failing the Go test.
type tb struct {
	failed bool
	logs   []string
}

func (b *tb) log(s string) {
	if len(b.logs) < 50 {
		b.logs = append(b.logs, s)
	}
}
func (b *tb) Helper()                   {}
func (b *tb) Name() string              { return "verif" }
func (b *tb) Logf(f string, a ...any)   { b.log(fmt.Sprintf(f, a...)) }
func (b *tb) Log(a ...any)              { b.log(fmt.Sprint(a...)) }
func (b *tb) Skipf(f string, a ...any)  { panic("skip") }
func (b *tb) Skip(a ...any)             { panic("skip") }
func (b *tb) SkipNow()                  { panic("skip") }
func (b *tb) Errorf(f string, a ...any) { b.failed = true; b.Logf(f, a...) }
func (b *tb) Error(a ...any)            { b.failed = true; b.Log(a...) }
func (b *tb) Fatalf(f string, a ...any) { b.Errorf(f, a...); panic(stop) }
func (b *tb) Fatal(a ...any)            { b.Error(a...); panic(stop) }
func (b *tb) FailNow()                  { b.failed = true; panic(stop) }
func (b *tb) Fail()                     { b.failed = true }
func (b *tb) Failed() bool              { return b.failed }

var fullCount int

// full tells if no more cases fit into memory: bubbles stay there.
func full() bool {
	fullCount++
	if fullCount < 0 {
		return true
	}
	if fullCount%64 != 0 {
		return false
	}
	b, _ := os.ReadFile("/proc/self/statm")
	var size, resident int
	fmt.Sscan(string(b), &size, &resident)
	if resident*os.Getpagesize()>>20 > envInt("VK_MEM_MB", 3000) {
		fullCount = math.MinInt
		return true
	}
	return false
}

// Closed runs f, which leaves no goroutines behind, like Bubble does, and frees
// the memory.
func Closed(x *Ctx, f func() error) error {
	done := make(chan error, 1)
	go func() {
		defer func() { recover() }() // there are goroutines left
		synctest.Test(x.T, func(*testing.T) {
			done <- func() (err error) {
				defer func() {
					if e := recover(); e != nil {
						err = fmt.Errorf("panic: %v\n%s", e, debug.Stack())
					}
				}()
				return f()
			}()
		})
	}()
	return <-done
}

// Gone runs f like Closed does and reports goroutines that are left for ever.
func Gone(x *Ctx, f func() error) error {
	done := make(chan error, 1)
	go func() {
		var err error
		defer func() {
			if e := recover(); e != nil && err == nil {
				err = fmt.Errorf("something is left behind: %v", e)
			}
			done <- err
		}()
		synctest.Test(x.T, func(*testing.T) {
			err = func() (err error) {
				defer func() {
					if e := recover(); e != nil {
						err = fmt.Errorf("panic: %v\n%s", e, debug.Stack())
					}
				}()
				return f()
			}()
		})
	}()
	return <-done
}

// Bubble runs f under a clock of its own (testing/synctest). Goroutines which
// the code under test leaves behind stay frozen in the bubble when f is done.
func Bubble(x *Ctx, f func() error) error {
	done := make(chan error, 1)
	hold := make(chan struct{})
	go synctest.Test(x.T, func(*testing.T) {
		done <- func() (err error) {
			defer func() {
				if e := recover(); e != nil {
					err = fmt.Errorf("panic: %v\n%s", e, debug.Stack())
				}
			}()
			return f()
		}()
		<-hold
	})
	return <-done
}
