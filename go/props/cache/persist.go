package cache

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"sync"
	"syscall"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"pgregory.net/rapid"

	"verif/kit"
)

// Saved is a history of queries against a cache that is kept in a file, with
// restarts, crashes, failing saves and damage in between.
type Saved struct {
	Case
	SaveEvery int     `json:"save_every_s,omitempty"`
	Mode      uint32  `json:"mode,omitempty"` // of a file that is there beforehand, 0: none
	Events    []Event `json:"events"`
}

// Event happens before the operation with the same index.
type Event struct {
	At    int    `json:"at"`
	Kind  string `json:"kind"`            // restart, crash, full, cut, junk, bad
	Where int    `json:"where,omitempty"` // per mille of the file
	Wait  int    `json:"wait_s,omitempty"`
}

func genSaved(t *rapid.T) Saved {
	s := Saved{
		Case:      Case{Capacity: kit.Pick(t, "cap", 0, 0, 1, 2, 3, 5), GC: kit.Pick(t, "gc", 0, 1, 600)},
		SaveEvery: kit.Pick(t, "save", 0, 0, 1, 10, 60),
		Mode:      kit.Pick[uint32](t, "mode", 0, 0, 0600, 0640, 0644, 0606),
	}
	n := kit.Int(t, "names", 1, 6)
	odd := kit.OddName(t, 1, 2)
	for i := 0; i < n; i++ {
		q := kit.Q{Name: fmt.Sprintf("n%d.test.", i), Type: kit.Pick(t, "qtype", dns.TypeA, dns.TypeTXT), CD: kit.Chance(t, "cd", 20)}
		if kit.Chance(t, "odd", 15) && kit.ValidName(fmt.Sprintf("n%d.", i)+odd) {
			q.Name = fmt.Sprintf("n%d.", i) + odd
		}
		if kit.Chance(t, "edns", 30) {
			q.EDNS = &kit.E{Size: 1232, DO: rapid.Bool().Draw(t, "do"), Opts: []kit.Opt{{ECS: kit.GenECS(t)}}}
		}
		s.Queries = append(s.Queries, q)
	}
	s.Ops = genOps(t, s.Case, 3, 25)
	for i := range s.Ops {
		o := &s.Ops[i]
		if !kit.Chance(t, "keeptime", 20) {
			o.After = kit.Pick(t, "short", 0, 10, 900)
		}
		o.After -= o.After % 10 // see runSaved
		if !kit.Chance(t, "keepresp", 35) {
			o.R = kit.R{An: []string{fmt.Sprintf("%s 3600 IN A 192.0.2.%d", s.Queries[o.Q].Name, i)}}
		}
	}
	for i := range s.Ops {
		if !kit.Chance(t, "event", 25) {
			continue
		}
		s.Events = append(s.Events, Event{
			At:    i,
			Kind:  kit.Pick(t, "kind", "restart", "restart", "restart", "crash", "full", "full", "cut", "junk", "bad"),
			Where: kit.Int(t, "where", 0, 1000),
			Wait:  kit.Pick(t, "wait", 0, 0, 1, 5, 61, 3599),
		})
	}
	return s
}

// snapshot is the content of the file, as the model has it.
type snapshot struct {
	entries []*entry // oldest first
	spared  bool
	maybe   []*entry
}

func (m *model) snapshot() *snapshot {
	s := &snapshot{spared: m.spared}
	for _, k := range m.order {
		s.entries = append(s.entries, m.live[k])
	}
	for _, e := range m.maybe {
		s.maybe = append(s.maybe, e)
	}
	return s
}

func runSaved(x *kit.Ctx, s Saved) error {
	dir, err := os.MkdirTemp("", "c04-")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	return kit.Bubble(x, func() error { return driveSaved(x, s, dir) })
}

func driveSaved(x *kit.Ctx, s Saved, root string) error {
	n := 0
	var dir, file string
	newDir := func() {
		n++
		dir = filepath.Join(root, fmt.Sprint(n))
		os.Mkdir(dir, 0755)
		file = filepath.Join(dir, "cache.json")
	}
	newDir()
	wantMode := os.FileMode(0)
	if s.Mode != 0 {
		os.WriteFile(file, nil, 0600)
		os.Chmod(file, os.FileMode(s.Mode))
		wantMode = os.FileMode(s.Mode)
	}
	// Files which are none of the cache's business.
	others := []string{"other.txt", "routedns123456", ".routedns-tmp-inflight", "cache.json.bak", ".routedns.toml", ".routedns-tmp", "cache.json.routedns-tmp-1"}
	plant := func() {
		for _, o := range others {
			os.WriteFile(filepath.Join(dir, o), []byte("keep "+o), 0644)
			if o != ".routedns-tmp-inflight" {
				old := time.Now().Add(-48 * time.Hour)
				os.Chtimes(filepath.Join(dir, o), old, old)
			}
		}
		stale := filepath.Join(dir, ".routedns-tmp-123")
		os.WriteFile(stale, []byte("stale"), 0600)
		old := time.Now().Add(-48 * time.Hour)
		os.Chtimes(stale, old, old)
	}
	plant()
	type backend interface {
		rdns.CacheBackend
		Size() int
		Close() error
	}
	// The last save that should have made it into the file.
	saved := &snapshot{}
	var started time.Time
	var bk backend
	open := func() {
		bk = rdns.NewMemoryBackend(rdns.MemoryBackendOptions{
			Capacity: s.Capacity, GCPeriod: time.Duration(s.GC) * time.Second,
			Filename: file, SaveInterval: time.Duration(s.SaveEvery) * time.Second,
		})
		started = time.Now()
	}
	check := func(wrote bool) error {
		for _, o := range others {
			if b, err := os.ReadFile(filepath.Join(dir, o)); err != nil || string(b) != "keep "+o {
				return fmt.Errorf("file %s next to the cache file is gone or changed: %v", o, err)
			}
		}
		fis, _ := os.ReadDir(dir)
		if len(fis) > len(others)+1 {
			return fmt.Errorf("left over files: %v", fis)
		}
		if !wrote {
			return nil
		}
		fi, err := os.Stat(file)
		if err != nil {
			return fmt.Errorf("no cache file: %v", err)
		}
		if wantMode == 0 && fi.Mode().Perm()&0077 != 0 || wantMode != 0 && fi.Mode().Perm() != wantMode {
			return fmt.Errorf("the cache file has mode %v, want %v", fi.Mode(), wantMode)
		}
		return nil
	}
	time.Sleep(3 * time.Millisecond) // operations never coincide with a timed save
	open()
	d := newDriver(x, s.Case, bk)
	// sleep passes the time and keeps track of timed saves.
	sleep := func(t time.Duration) {
		if s.SaveEvery > 0 && t > 0 {
			iv := time.Duration(s.SaveEvery) * time.Second
			before := time.Since(started) / iv
			after := (time.Since(started) + t) / iv
			if after > before {
				saved = d.m.snapshot()
			}
		}
		time.Sleep(t)
	}
	time.Sleep(3 * time.Millisecond)
	events := s.Events
	for i, o := range s.Ops {
		for len(events) > 0 && events[0].At == i {
			ev := events[0]
			events = events[1:]
			maybeAll := false
			switch ev.Kind {
			case "restart", "cut", "junk", "bad":
				if err := bk.Close(); err != nil {
					return fmt.Errorf("op %d: cannot save: %v", i, err)
				}
				saved = d.m.snapshot()
				if err := check(true); err != nil {
					return fmt.Errorf("op %d: %w", i, err)
				}
			case "full": // the disk is full before all is written
				was, _ := os.ReadFile(file)
				limit := int64(ev.Where) * int64(len(was)+2000) / 1000
				err := withFileLimit(limit, bk.Close)
				now, _ := os.ReadFile(file)
				if err != nil {
					x.Label("save failed")
					if !bytes.Equal(was, now) {
						return fmt.Errorf("op %d: a failed save changed the file from %d to %d bytes", i, len(was), len(now))
					}
				} else {
					saved = d.m.snapshot()
				}
				if err := check(err == nil); err != nil {
					return fmt.Errorf("op %d: after save with a full disk: %w", i, err)
				}
			case "crash":
				x.LabelIf(s.SaveEvery > 0, "crash with timed saves")
			}
			x.Label("event %s", ev.Kind)
			content, err := os.ReadFile(file)
			// The old instance is gone: go on with a copy, out of its reach.
			newDir()
			plant()
			switch ev.Kind {
			case "cut":
				content = content[:len(content)*ev.Where/1000]
				maybeAll = true
			case "junk", "bad":
				lines := bytes.SplitAfter(content, []byte("\n"))
				at := len(lines) * ev.Where / 1001
				if ev.Kind == "junk" {
					maybeAll = true
				}
				junk := [][]byte{[]byte("{\"Key\": garbage\n"), []byte("\x00\xff\xfe\n"), []byte("]\n"), []byte("[1,2,3]\n"), []byte("\"str\"\n")}
				bad := [][]byte{[]byte("{}\n"), []byte("{\"Key\":{},\"Answer\":{}}\n"), []byte("{\"Key\":{\"Question\":{\"Name\":\"n0.test.\",\"Qtype\":1,\"Qclass\":1}},\"Answer\":{\"Msg\":\"AAAA\"}}\n"), []byte("null\n"), []byte("{\"Future\":1}\n")}
				ins := bad[ev.Where%len(bad)]
				if ev.Kind == "junk" {
					ins = junk[ev.Where%len(junk)]
				}
				var out []byte
				for j, l := range lines {
					if j == at {
						if ev.Kind == "junk" {
							content = append([]byte(nil), out...)
						}
						out = append(out, ins...)
					}
					out = append(out, l...)
				}
				if ev.Kind == "junk" {
					// content is now what precedes the junk
					maybeAll = true
					os.WriteFile(file, out, 0600)
				} else {
					content = out
				}
			}
			if ev.Kind != "junk" && (err == nil || len(content) > 0) {
				os.WriteFile(file, content, 0600)
				if wantMode != 0 {
					os.Chmod(file, wantMode)
				}
			} else if ev.Kind == "junk" && wantMode != 0 {
				os.Chmod(file, wantMode)
			}
			time.Sleep(time.Duration(ev.Wait) * time.Second)
			open()
			if err := check(false); err != nil {
				return fmt.Errorf("op %d: after start: %w", i, err)
			}
			// What the model knows is what was saved.
			m := newModel(s.Case)
			m.spared = saved.spared
			for _, e := range saved.maybe {
				m.maybe[e.key] = e
			}
			for _, e := range saved.entries {
				if maybeAll && !wholeLine(content, e) {
					m.spared = true
					m.maybe[e.key] = e
					continue
				}
				m.live[e.key] = e
				m.order = append(m.order, e.key)
			}
			x.LabelIf(len(m.live) > 0, "restart with entries")
			x.LabelIf(maybeAll && len(m.maybe) > 0 && len(m.live) > 0, "partly damaged")
			d.m = m
			d.use(bk)
			saved = m.snapshot() // until the next save the file is as it is
			time.Sleep(3 * time.Millisecond)
		}
		sleep(time.Duration(o.After) * time.Millisecond)
		o.After = 0
		if err := d.step(i, o); err != nil {
			return err
		}
	}
	d.finish()
	return nil
}

// wholeLine: does the content have a complete line about the entry's name?
func wholeLine(content []byte, e *entry) bool {
	name := []byte(fmt.Sprintf("%q", lowerASCII(e.msg.Question[0].Name)))
	for _, l := range bytes.SplitAfter(content, []byte("\n")) {
		if bytes.HasSuffix(l, []byte("\n")) && bytes.Contains(l, name) {
			return true
		}
	}
	return false
}

func lowerASCII(s string) string { return string(bytes.ToLower([]byte(s))) }

var limitMu sync.Mutex

// withFileLimit runs f while no file may grow beyond n bytes.
func withFileLimit(n int64, f func() error) error {
	limitMu.Lock()
	defer limitMu.Unlock()
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic(err)
	}
	lim := old
	lim.Cur = uint64(n)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		panic(err)
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	return f()
}

// Observed is a cache that is saved all the time while someone reads the file.
type Observed struct {
	Entries int   `json:"entries"`
	Extra   int   `json:"extra"`
	Reads   int   `json:"reads"`
	Size    int   `json:"size"`
	Seed    int64 `json:"seed"`
}

func genObserved(t *rapid.T) Observed {
	return Observed{
		Entries: kit.Int(t, "entries", 50, 1200), Extra: kit.Int(t, "extra", 1, 300),
		Reads: kit.Int(t, "reads", 20, 60), Size: kit.Int(t, "size", 1, 200), Seed: rapid.Int64().Draw(t, "seed"),
	}
}

// Whatever moment a crash picks, the file is a complete save: it is read at
// many moments, and each copy must load with everything in it.
func runObserved(x *kit.Ctx, o Observed) error {
	dir, err := os.MkdirTemp("", "c04o-")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "cache.json")
	up := &kit.Up{ID: "up", F: func(_ int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) {
		txt := bytes.Repeat([]byte("x"), o.Size)
		return kit.R{An: []string{fmt.Sprintf("%s 3600 IN TXT %q", q.Question[0].Name, txt)}}.Msg(q)
	}}
	fill := func(c *rdns.Cache, from, n int) error {
		for i := from; i < from+n; i++ {
			if _, err := c.Resolve(kit.Q{Name: fmt.Sprintf("n%d.test.", i), Type: dns.TypeTXT}.Msg(), rdns.ClientInfo{}); err != nil {
				return err
			}
		}
		return nil
	}
	first := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Filename: file})
	if err := fill(rdns.NewCache("c", up, rdns.CacheOptions{Backend: first}), 0, o.Entries); err != nil {
		return err
	}
	if err := first.Close(); err != nil {
		return err
	}
	bk := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Filename: file})
	if bk.Size() != o.Entries {
		return fmt.Errorf("%d entries loaded of %d", bk.Size(), o.Entries)
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	saves := 0
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				bk.Close()
				if i == 0 {
					saves++
				}
			}
		}()
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		fill(rdns.NewCache("c", up, rdns.CacheOptions{Backend: bk}), o.Entries, o.Extra)
	}()
	rng := rand.New(rand.NewSource(o.Seed))
	var bad error
	last := o.Entries
	for i := 0; i < o.Reads && bad == nil; i++ {
		time.Sleep(time.Duration(rng.Intn(1500)) * time.Microsecond)
		b, err := os.ReadFile(file)
		if err != nil {
			bad = fmt.Errorf("read %d: %w", i, err)
			break
		}
		copyName := filepath.Join(dir, fmt.Sprintf("copy-%d", i))
		os.WriteFile(copyName, b, 0600)
		got := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Filename: copyName}).Size()
		if got < last {
			bad = fmt.Errorf("read %d: the file holds %d entries (%d bytes), a complete save has at least %d", i, got, len(b), last)
		}
		last = max(last, got)
		os.Remove(copyName)
	}
	close(stop)
	wg.Wait()
	if bad != nil {
		return bad
	}
	if saves > 1 {
		x.NonTrivial()
	}
	return nil
}
