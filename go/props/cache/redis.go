package cache

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"github.com/redis/go-redis/v9"
	"pgregory.net/rapid"

	"verif/kit"
)

// Redis is a history against caches that share a Redis server.
type Redis struct {
	Case
	Prefix    string         `json:"prefix,omitempty"`
	Async     bool           `json:"async,omitempty"`
	Instances int            `json:"instances"`
	On        []int          `json:"on"`               // which instance an operation goes to
	Faults    map[int]string `json:"faults,omitempty"` // what the server does, from an operation on
	Rush      bool           `json:"rush,omitempty"`   // operations do not wait for stores
}

func genRedis(t *rapid.T) Redis {
	r := Redis{
		Prefix:    kit.Pick(t, "prefix", "", "routedns-", "a:b*", "x[1]?", "p\\\\"),
		Async:     rapid.Bool().Draw(t, "async"),
		Instances: kit.Int(t, "instances", 1, 2),
	}
	switch kit.Int(t, "kind", 0, 3) {
	case 0:
		r.Case = genLife(t)
	case 1:
		r.Case = genHarden(t)
	default:
		r.Case = genKeys(t)
	}
	if kit.Chance(t, "flush", 40) {
		r.Flush = "flush.cache."
		for i := range r.Ops {
			r.Ops[i].Flush = kit.Chance(t, "doflush", 10)
		}
	}
	for range r.Ops {
		r.On = append(r.On, kit.Int(t, "on", 0, r.Instances-1))
	}
	if kit.Chance(t, "faulty", 50) {
		r.Faults = map[int]string{}
		for i := range r.Ops {
			if kit.Chance(t, "fault", 40) {
				r.Faults[i] = kit.Pick(t, "what", "", "error", "close", "slow", "garbage", "cut", "cut header", "version", "older", "refuse", "readonly")
			}
		}
		if r.Async && r.Flush == "" && kit.Chance(t, "rush", 50) {
			r.Rush = true
			for i := range r.Ops {
				r.Ops[i].After = kit.Pick(t, "soon", 0, 1, 5, 30)
				if kit.Chance(t, "fault", 30) {
					r.Faults[i] = kit.Pick(t, "pace", "hesitant", "")
				} else {
					delete(r.Faults, i)
				}
			}
		}
	}
	return r
}

type quiet struct{}

func (quiet) Printf(context.Context, string, ...any) {}

func runRedis(x *kit.Ctx, r Redis) error {
	redis.SetLogger(quiet{})
	return kit.Bubble(x, func() error {
		srv := &fakeRedis{data: map[string]record{}}
		others := map[string]string{"foreign": "1", "other-app:key": "2", "a:bXforeign": "3", "x1Yforeign": "4", "P-upper": "5"}
		for k, v := range others {
			srv.data[k] = record{value: v}
		}
		var caches []*rdns.Cache
		var d *driver
		for i := 0; i < r.Instances; i++ {
			b := rdns.NewRedisBackend(rdns.RedisBackendOptions{
				KeyPrefix: r.Prefix,
				SyncSet:   !r.Async,
				RedisOptions: redis.Options{
					Addr:     "127.0.0.1:6379",
					Dialer:   srv.dial,
					PoolSize: 200,
				},
			})
			if d == nil {
				d = newDriver(x, r.Case, b)
			} else {
				d.use(b)
			}
			caches = append(caches, d.cache)
		}
		d.bk = nil
		d.shared = true
		d.faulty = len(r.Faults) > 0
		for i, o := range r.Ops {
			if f, ok := r.Faults[i]; ok {
				srv.set(f)
				x.LabelIf(f != "", "fault "+f)
			}
			d.cache = caches[r.On[i]%len(caches)]
			known := d.up.N()
			time.Sleep(time.Duration(o.After) * time.Millisecond)
			o.After = 0
			start := time.Now()
			old := d.old
			err := d.step(i, o)
			if err != nil {
				return err
			}
			took := time.Since(start)
			if (srv.fault == "version" || srv.fault == "older") && d.up.N() == known && !o.Flush {
				return fmt.Errorf("op %d: a record in another format was used", i)
			}
			if took > 1500*time.Millisecond && (!o.Flush || o.Multi) {
				return fmt.Errorf("op %d: the query took %v with the store failing (%s)", i, took, srv.fault)
			}
			synctest.Wait()
			if srv.forever != "" {
				return fmt.Errorf("op %d: %s is stored without an expiry", i, srv.forever)
			}
			if r.Async && !r.Rush && (took > 0 || srv.fault != "") {
				time.Sleep(time.Second) // stores may be tried again
			}
			if o.Flush && !o.Multi && r.Flush != "" {
				if srv.fault == "" {
					x.Label("flush")
					d.old = map[string][]*entry{}
					if srv.has(r.Prefix, others) {
						return fmt.Errorf("op %d: entries left after a flush: %v", i, srv.keys())
					}
				} else {
					d.old = old
				}
			}
			if r.Prefix != "" {
				for k := range others {
					if !srv.holds(k) {
						return fmt.Errorf("op %d: key %q of someone else was removed", i, k)
					}
				}
			}
		}
		d.finish()
		x.LabelIf(r.Instances > 1 && d.hits > 0, "shared by two")
		return nil
	})
}

// Burst is many queries at once while the store does not answer.
type Burst struct {
	Async  bool   `json:"async"`
	Fault  string `json:"fault"`
	First  []int  `json:"first"` // queries of each burst
	Pause  int    `json:"pause_ms"`
	Prefix string `json:"prefix"`
}

func genBurst(t *rapid.T) Burst {
	return Burst{
		Async:  !kit.Chance(t, "sync", 20),
		Fault:  kit.Pick(t, "fault", "slow", "error", "readonly", "hesitant"),
		First:  kit.List(t, "bursts", 1, 3, func(t *rapid.T) int { return kit.Pick(t, "n", 300, 600, 700, 40, 260, 255, 256, 257) }),
		Pause:  kit.Pick(t, "pause", 0, 50, 500),
		Prefix: kit.Pick(t, "prefix", "", "p-"),
	}
}

func runBurst(x *kit.Ctx, c Burst) error {
	redis.SetLogger(quiet{})
	return kit.Bubble(x, func() error {
		srv := &fakeRedis{data: map[string]record{}}
		b := rdns.NewRedisBackend(rdns.RedisBackendOptions{
			KeyPrefix:    c.Prefix,
			SyncSet:      !c.Async,
			RedisOptions: redis.Options{Addr: "127.0.0.1:6379", Dialer: srv.dial, PoolSize: 2000},
		})
		up := &kit.Up{ID: "up", F: func(_ int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) {
			return kit.R{An: []string{q.Question[0].Name + " 3600 IN A 192.0.2.1"}}.Msg(q)
		}}
		cache := Case{}.cache(up, b)
		total := 0
		ask := func(name string) (bool, time.Duration, error) {
			q := kit.Q{Name: name, Type: dns.TypeA, ID: 7}.Msg()
			start := time.Now()
			n := up.N()
			a, err := cache.Resolve(q, rdns.ClientInfo{})
			if err != nil || a == nil || len(a.Answer) != 1 || a.Answer[0].Header().Name != name {
				return false, 0, fmt.Errorf("query for %s: %v %v", name, a, err)
			}
			return up.N() > n, time.Since(start), nil
		}
		for _, n := range c.First {
			srv.set(c.Fault)
			var wg sync.WaitGroup
			errs := make([]error, n)
			for j := 0; j < n; j++ {
				total++
				name := fmt.Sprintf("n%d.test.", total)
				wg.Add(1)
				go func() {
					defer wg.Done()
					_, took, err := ask(name)
					if err == nil && took > 1500*time.Millisecond {
						err = fmt.Errorf("query for %s took %v with the store failing (%s)", name, took, c.Fault)
					}
					errs[j] = err
				}()
			}
			done := make(chan bool)
			go func() { wg.Wait(); close(done) }()
			select {
			case <-done:
			case <-time.After(time.Minute):
				return fmt.Errorf("of %d queries at once some have no result after a minute (%s)", n, c.Fault)
			}
			for _, err := range errs {
				if err != nil {
					return err
				}
			}
			time.Sleep(time.Duration(c.Pause) * time.Millisecond)
			x.LabelIf(n > 256, "more than are stored at once")
		}
		// The store is back.
		srv.set("")
		time.Sleep(2 * time.Second)
		kept := 0
		for i := 1; i <= total; i++ {
			asked, _, err := ask(fmt.Sprintf("n%d.test.", i))
			if err != nil {
				return fmt.Errorf("asked again: %w", err)
			}
			synctest.Wait()
			if !asked {
				kept++
			}
		}
		x.LabelIf(kept > 0, "some are kept")
		for i := 0; i < 2; i++ {
			name := fmt.Sprintf("late%d.test.", i)
			if _, _, err := ask(name); err != nil {
				return err
			}
			time.Sleep(100 * time.Millisecond)
			asked, _, err := ask(name)
			if err != nil {
				return err
			}
			if asked {
				return fmt.Errorf("nothing is stored any more after %v queries while the store failed (%s)", c.First, c.Fault)
			}
		}
		x.Label("%s", c.Fault)
		x.NonTrivial()
		return nil
	})
}

type record struct {
	value  string
	expiry time.Time
}

// fakeRedis speaks enough of the protocol for the client library.
type fakeRedis struct {
	mu    sync.Mutex
	data  map[string]record
	fault string
	conns []net.Conn

	sets    int
	forever string // a key stored without expiry
}

func (s *fakeRedis) set(f string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.fault = f
	if f == "refuse" || f == "close" {
		for _, c := range s.conns {
			c.Close()
		}
		s.conns = nil
	}
}

func (s *fakeRedis) keys() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []string
	for k, r := range s.data {
		if r.expiry.IsZero() || time.Now().Before(r.expiry) {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func (s *fakeRedis) holds(k string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	_, ok := s.data[k]
	return ok
}

// has: is there a key with the prefix which is not one of others?
func (s *fakeRedis) has(prefix string, others map[string]string) bool {
	for _, k := range s.keys() {
		if _, ok := others[k]; !ok && strings.HasPrefix(k, prefix) {
			return true
		}
	}
	return false
}

func (s *fakeRedis) dial(context.Context, string, string) (net.Conn, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.fault == "refuse" {
		return nil, errors.New("connection refused")
	}
	if s.fault == "hesitant" {
		s.mu.Unlock()
		time.Sleep(50 * time.Millisecond)
		s.mu.Lock()
	}
	a, b := net.Pipe()
	s.conns = append(s.conns, b)
	go s.serve(b)
	return link{a}, nil
}

// link fails in a way that has the client open another connection. It would
// see that one over a network is closed before it uses it.
type link struct{ net.Conn }

func (l link) SetDeadline(t time.Time) error      { l.Conn.SetDeadline(t); return nil }
func (l link) SetReadDeadline(t time.Time) error  { l.Conn.SetReadDeadline(t); return nil }
func (l link) SetWriteDeadline(t time.Time) error { l.Conn.SetWriteDeadline(t); return nil }

func (l link) Write(b []byte) (int, error) {
	n, err := l.Conn.Write(b)
	if errors.Is(err, io.ErrClosedPipe) {
		err = io.EOF
	}
	return n, err
}

func (s *fakeRedis) serve(c net.Conn) {
	defer c.Close()
	r := bufio.NewReader(c)
	for {
		args, err := readCommand(r)
		if err != nil {
			return
		}
		reply, drop := s.command(args)
		if drop {
			return
		}
		if _, err := io.WriteString(c, reply); err != nil {
			return
		}
	}
}

func readCommand(r *bufio.Reader) ([]string, error) {
	line, err := r.ReadString('\n')
	if err != nil {
		return nil, err
	}
	n, err := strconv.Atoi(strings.TrimSpace(strings.TrimPrefix(line, "*")))
	if err != nil {
		return nil, err
	}
	var args []string
	for i := 0; i < n; i++ {
		line, err := r.ReadString('\n')
		if err != nil {
			return nil, err
		}
		l, err := strconv.Atoi(strings.TrimSpace(strings.TrimPrefix(line, "$")))
		if err != nil {
			return nil, err
		}
		b := make([]byte, l+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		args = append(args, string(b[:l]))
	}
	return args, nil
}

func bulk(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }

func (s *fakeRedis) command(args []string) (reply string, drop bool) {
	s.mu.Lock()
	fault := s.fault
	s.mu.Unlock()
	name := strings.ToLower(args[0])
	switch name {
	case "hello":
		return "-ERR unknown command\r\n", false
	case "client", "select", "auth", "ping":
		return "+OK\r\n", false
	}
	switch fault {
	case "error":
		return "-LOADING Redis is loading the dataset in memory\r\n", false
	case "close":
		return "", true
	case "slow":
		time.Sleep(400 * time.Millisecond)
	case "hesitant":
		// Every other store has to be tried again.
		if name == "set" {
			s.mu.Lock()
			s.sets++
			n := s.sets
			s.mu.Unlock()
			if n%2 == 1 {
				return "", true
			}
		}
	case "readonly":
		if name == "set" || name == "del" {
			return "-READONLY You can't write against a read only replica.\r\n", false
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	now := time.Now()
	switch name {
	case "get":
		rec, ok := s.data[args[1]]
		if !ok || !rec.expiry.IsZero() && !now.Before(rec.expiry) {
			return "$-1\r\n", false
		}
		v := rec.value
		switch {
		case fault == "garbage":
			v = "garbage" + v
		case fault == "cut header":
			v = v[:min(len(v), len(args[1])%11)]
		case fault == "older" && len(v) > 0:
			v = string([]byte{v[0] - 1}) + v[1:]
		case fault == "cut":
			v = v[:min(len(v), 15)] // not even a message header
		case fault == "version" && len(v) > 0:
			v = string([]byte{v[0] + 1}) + v[1:]
		}
		return bulk(v), false
	case "set":
		rec := record{value: args[2]}
		for i := 3; i < len(args); i++ {
			n := 0
			if i+1 < len(args) {
				n, _ = strconv.Atoi(args[i+1])
			}
			switch strings.ToLower(args[i]) {
			case "ex":
				rec.expiry = now.Add(time.Duration(n) * time.Second)
				i++
			case "px":
				rec.expiry = now.Add(time.Duration(n) * time.Millisecond)
				i++
			case "exat":
				rec.expiry = time.Unix(int64(n), 0)
				i++
			case "pxat":
				rec.expiry = time.UnixMilli(int64(n))
				i++
			default:
				return "-ERR syntax error\r\n", false
			}
		}
		if rec.expiry.IsZero() {
			s.forever = args[1]
		}
		s.data[args[1]] = rec
		return "+OK\r\n", false
	case "del", "unlink":
		n := 0
		for _, k := range args[1:] {
			if _, ok := s.data[k]; ok {
				n++
			}
			delete(s.data, k)
		}
		return fmt.Sprintf(":%d\r\n", n), false
	case "dbsize":
		return fmt.Sprintf(":%d\r\n", len(s.data)), false
	case "scan", "keys":
		pattern := "*"
		if name == "keys" {
			pattern = args[1]
		}
		for i := 2; i+1 < len(args); i++ {
			if strings.EqualFold(args[i], "match") {
				pattern = args[i+1]
			}
		}
		var keys []string
		for k := range s.data {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		// A few at a time, by position from the end, so that removing keys
		// between the calls does not hide others.
		cursor := 0
		if name == "scan" {
			cursor, _ = strconv.Atoi(args[1])
		}
		const page = 3
		var out []string
		next := 0
		if name == "keys" {
			out = keys
		} else if cursor == 0 {
			cursor = len(keys) + 1
		}
		if name == "scan" {
			hi := min(cursor-1, len(keys))
			lo := max(0, hi-page)
			out = keys[lo:hi]
			if lo > 0 {
				next = lo + 1
			}
		}
		var body strings.Builder
		n := 0
		for _, k := range out {
			if glob(pattern, k) {
				body.WriteString(bulk(k))
				n++
			}
		}
		list := fmt.Sprintf("*%d\r\n%s", n, body.String())
		if name == "keys" {
			return list, false
		}
		return "*2\r\n" + bulk(strconv.Itoa(next)) + list, false
	}
	return "-ERR unknown command '" + name + "'\r\n", false
}

// glob is the server's pattern matching.
func glob(p, s string) bool {
	for len(p) > 0 {
		switch p[0] {
		case '*':
			for i := 0; i <= len(s); i++ {
				if glob(p[1:], s[i:]) {
					return true
				}
			}
			return false
		case '?':
			if s == "" {
				return false
			}
			p, s = p[1:], s[1:]
		case '[':
			end := strings.IndexByte(p, ']')
			if end < 0 || s == "" {
				return false
			}
			set := p[1:end]
			neg := strings.HasPrefix(set, "^")
			set = strings.TrimPrefix(set, "^")
			if strings.IndexByte(set, s[0]) >= 0 == neg {
				return false
			}
			p, s = p[end+1:], s[1:]
		case '\\':
			if len(p) > 1 {
				p = p[1:]
			}
			fallthrough
		default:
			if s == "" || p[0] != s[0] {
				return false
			}
			p, s = p[1:], s[1:]
		}
	}
	return s == ""
}

// ServeRedis serves a store of its own to all connections, and reports the
// commands it gets.
func ServeRedis(l net.Listener, seen func(args []string)) {
	s := &fakeRedis{data: map[string]record{}}
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		go func() {
			defer c.Close()
			r := bufio.NewReader(c)
			for {
				args, err := readCommand(r)
				if err != nil {
					return
				}
				seen(args)
				reply, drop := s.command(args)
				if drop {
					return
				}
				if _, err := io.WriteString(c, reply); err != nil {
					return
				}
			}
		}()
	}
}
