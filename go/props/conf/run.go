package conf

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/BurntSushi/toml"
	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/kit"
	"verif/props/wire"
)

// ids lists the elements, with a letter for what they are.
func (c Config) ids() (out []string) {
	add := func(kind, id string) { out = append(out, kind+":"+id) }
	for id := range c.Resolvers {
		add("r", id)
	}
	for id := range c.Groups {
		add("g", id)
	}
	for id := range c.Routers {
		add("o", id)
	}
	for id := range c.Listeners {
		add("l", id)
	}
	sort.Strings(out)
	if c.Bootstrap != nil {
		add("b", "bootstrap")
	}
	return out
}

func (c Config) any(f func(Group) bool) bool {
	for _, g := range c.Groups {
		if f(g) {
			return true
		}
	}
	return false
}

// refreshes says if caches ask again at times of their own.
func (c Config) refreshes() bool { return c.any(func(g Group) bool { return g.PrefetchTrigger > 0 }) }
func (c Config) caches() bool    { return c.any(func(g Group) bool { return g.Type == "cache" }) }

// unordered says if the order of answers can be any.
func (c Config) unordered() bool {
	return c.any(func(g Group) bool { return g.AnswerShuffle != "" || g.Type == "fastest-tcp" })
}

// timed says if it depends on the time of the day.
func (c Config) timed() bool {
	for _, r := range c.Routers {
		for _, x := range r.Routes {
			if x.After != "" || x.Before != "" || len(x.Weekdays) > 0 {
				return true
			}
		}
	}
	return false
}

// section is the name of the sections for a kind of elements.
var section = map[string]string{"r": "resolvers", "g": "groups", "o": "routers", "l": "listeners"}

// text is an element in a configuration file.
func (c Config) text(id string) string {
	kind, name := id[:1], id[2:]
	var b bytes.Buffer
	e := toml.NewEncoder(&b)
	var err error
	switch kind {
	case "b":
		err = e.Encode(map[string]any{"bootstrap-resolver": *c.Bootstrap})
	case "r":
		err = e.Encode(map[string]any{"resolvers": map[string]any{name: c.Resolvers[name]}})
	case "g":
		err = e.Encode(map[string]any{"groups": map[string]any{name: c.Groups[name]}})
	case "o":
		err = e.Encode(map[string]any{"routers": map[string]any{name: c.Routers[name]}})
	case "l":
		err = e.Encode(map[string]any{"listeners": map[string]any{name: c.Listeners[name]}})
	}
	must(0, err)
	return strings.Replace(b.String(), "["+section[kind]+"]\n", "", 1)
}

// write writes the files of a configuration.
func (c Config) write(dir string, where map[string]int) []string {
	var parts [4]string
	for _, id := range c.ids() {
		parts[where[id]] += c.text(id)
	}
	parts[0] = "title = \"checked\"\n" + parts[0]
	var files []string
	for i, p := range parts {
		if i > 0 && p == "" {
			continue
		}
		f := filepath.Join(dir, fmt.Sprintf("config%d.toml", i))
		must(0, os.WriteFile(f, []byte(strings.TrimRight(p, "\n")), 0o644))
		files = append(files, f)
	}
	return files
}

// fill replaces what differs between the sides in a text.
func (c Config) fill(text string, k side, dir string, base int, more ...string) string {
	w := world()
	r := append(more, "{IP}", ownIP[k], "{UP}", upIP[k], "{DIR}", dir, "{LISTS}", w.lists, "{WEB}", w.web, "{SYSLOG}", w.syslog[k], "{REDIS}", w.redis[k],
		"{REDISUNIX}", w.redisUnix[k], "{CA}", wire.CA(), "{CRT}", clientCert().Crt, "{KEY}", clientCert().Key, "{SRVCRT}", ipCert().Crt, "{SRVKEY}", ipCert().Key)
	for i := range 10 {
		r = append(r, fmt.Sprintf("{L%d}", i), fmt.Sprint(base+i))
	}
	return strings.NewReplacer(r...).Replace(text)
}

// forSide fills in what differs between the sides.
func (c Config) forSide(k side, dir string, base int) (Config, error) {
	odoh, err := odohConfig()
	if err != nil {
		return c, err
	}
	r := []string{"{ODOH}", odoh}
	up := func(x *Resolver) error {
		if x == nil || x.To == nil {
			return nil
		}
		p, err := x.To.start(k)
		r = append(r, fmt.Sprintf("{PORT%d}", x.To.Tag), p)
		return err
	}
	if err := up(c.Bootstrap); err != nil {
		return c, err
	}
	for _, x := range c.Resolvers {
		if err := up(&x); err != nil {
			return c, err
		}
	}
	b := must(json.Marshal(c))
	var out Config
	must(0, json.Unmarshal([]byte(c.fill(string(b), k, dir, base, r...)), &out))
	for id, g := range out.Groups {
		for i := range g.Anchors {
			if g.Anchors[i].Digest == "" {
				key := secKey()
				ds := key.ToDS(dns.SHA256)
				g.Anchors[i] = Anchor{Owner: g.Anchors[i].Owner, KeyTag: ds.KeyTag, Algorithm: ds.Algorithm, DigestType: ds.DigestType, Digest: ds.Digest}
			}
		}
		out.Groups[id] = g
	}
	if world().noBind {
		for id, x := range out.Resolvers {
			x.BindIf = ""
			out.Resolvers[id] = x
		}
		for id, x := range out.Listeners {
			x.BindIf = ""
			out.Listeners[id] = x
		}
	}
	return out, nil
}

// odohConfig is the key of ODoH servers.
var odohConfig = sync.OnceValues(func() (string, error) {
	p, err := Server{Tag: 9, Proto: "odoh"}.start(model)
	if err != nil {
		return "", err
	}
	s := Step{Path: "/.well-known/odohconfigs", Method: "GET", Src: "127.0.0.1", Q: kit.Q{Name: "."}}
	ctx, cancel := context.WithTimeout(context.Background(), patience)
	defer cancel()
	r := s.ask(ctx, Listener{Protocol: "odoh"}, net.JoinHostPort(upIP[model], p), 1)
	var code int
	var typ, body string
	if _, err := fmt.Sscanf(r.other, "status %d %s %q", &code, &typ, &body); err != nil || code != 200 {
		return "", fmt.Errorf("no ODoH configuration: %q %v", r.other, r.err)
	}
	return fmt.Sprintf("%x", body), nil
})

// datagram says if a listener uses UDP.
func (l Listener) datagram() bool {
	return datagrams(l.proto()) || l.Protocol == "admin" && l.Transport == "quic"
}

// process is the program while it runs.
type process struct {
	cmd   *exec.Cmd
	err   bytes.Buffer
	done  chan error
	since time.Time
}

// launch starts the program.
func launch(dir string, args ...string) (*process, error) {
	p := &process{cmd: exec.Command(world().program, args...), done: make(chan error, 1), since: time.Now()}
	p.cmd.Dir, p.cmd.Stderr, p.cmd.Stdout = dir, &p.err, &p.err
	p.cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	go func() { p.done <- p.cmd.Wait() }()
	return p, nil
}

// ready waits for the listeners of a configuration.
func (p *process) ready(c Config) error {
	for id, l := range c.Listeners {
		for t0 := time.Now(); !wire.Bound(l.at(), l.datagram()); time.Sleep(500 * time.Microsecond) {
			select {
			case err := <-p.done:
				p.done <- err
				return fmt.Errorf("the program ended at its start: %v\n%s", err, p.output())
			default:
			}
			if time.Since(t0) > patience {
				return fmt.Errorf("listener %s does not listen at %s", id, l.at())
			}
		}
	}
	return nil
}

// output is what the program printed, without the noise of its log; it can be
// used after its end.
func (p *process) output() string {
	s := p.err.String()
	if len(s) > 3000 {
		s = "..." + s[len(s)-3000:]
	}
	return s
}

// exit waits for the end of the program.
func (p *process) exit() error {
	select {
	case err := <-p.done:
		p.done <- err
		return err
	case <-time.After(patience):
		p.cmd.Process.Kill()
		<-p.done
		p.done <- errors.New("killed")
		return fmt.Errorf("the program did not end in %v", patience)
	}
}

func (p *process) kill() {
	if p == nil {
		return
	}
	p.cmd.Process.Kill()
	err := <-p.done
	p.done <- err
}

// tap sees which queries are dropped.
type tap struct {
	rdns.Resolver
	dropped *atomic.Int64
}

func (t tap) Resolve(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
	a, err := t.Resolver.Resolve(q, ci)
	if a == nil && err == nil {
		t.dropped.Add(1)
	}
	return a, err
}

// start builds the reference and runs its listeners.
func (b *reference) start() (err error) {
	b.made = map[string]rdns.Resolver{}
	if b.c.Bootstrap != nil {
		r, err := b.resolver("bootstrap-resolver", *b.c.Bootstrap)
		if err != nil {
			return err
		}
		net.DefaultResolver = rdns.NewNetResolver(r)
	}
	for _, id := range b.c.ids() {
		if strings.Contains("rgo", id[:1]) { // also what no listener uses
			if _, err := b.get(id[2:]); err != nil {
				return err
			}
		}
	}
	for id, l := range b.c.Listeners {
		x, err := b.listener(id, l)
		if err != nil {
			return fmt.Errorf("%s: %w", id, err)
		}
		if _, err := wire.Start(x, l.at(), l.datagram()); err != nil {
			return err
		}
		b.running = append(b.running, func() error {
			x.Stop()
			for t0 := time.Now(); wire.Bound(l.at(), l.datagram()); time.Sleep(time.Millisecond) {
				if time.Since(t0) > patience {
					return fmt.Errorf("verif: %s is still in use", l.at())
				}
			}
			return nil
		})
	}
	return nil
}

// stop ends the listeners.
func (b *reference) stop() error {
	var errs []error
	for _, f := range b.running {
		errs = append(errs, f())
	}
	for _, f := range b.close {
		f()
	}
	b.running, b.close = nil, nil
	return errors.Join(errs...)
}

// both are the program and the reference with the same configuration.
type both struct {
	conf  [2]Config
	dir   [2]string
	proc  *process
	ref   reference
	files []string
	since time.Time
}

func begin(c Config, where map[string]int) (*both, error) {
	base := ports(10)
	b := &both{since: time.Now()}
	for k := range 2 {
		b.dir[k] = must(os.MkdirTemp(wire.Scratch(), "side"))
		var err error
		if b.conf[k], err = c.forSide(side(k), b.dir[k], base); err != nil {
			return b, fmt.Errorf("verif: %w", err)
		}
	}
	conf := must(os.MkdirTemp(wire.Scratch(), "conf"))
	b.files = b.conf[program].write(conf, where)
	b.ref.c = b.conf[model]
	seen.clear()
	logged.clear()
	stored.clear()
	return b, b.start()
}

func (b *both) start() (err error) {
	if b.proc, err = launch(b.dir[program], b.files...); err != nil {
		return err
	}
	if err := b.ref.start(); err != nil {
		return fmt.Errorf("verif: reference: %w", err)
	}
	if err := b.proc.ready(b.conf[program]); err != nil {
		return fmt.Errorf("%w\nwith configuration\n%s", err, b.text())
	}
	return nil
}

func (b *both) text() string {
	var out strings.Builder
	for _, f := range b.files {
		out.Write(must(os.ReadFile(f)))
		out.WriteString("\n---\n")
	}
	return out.String()
}

// end removes what is left.
func (b *both) end() {
	b.proc.kill()
	b.ref.stop()
	net.DefaultResolver = &net.Resolver{}
	for _, d := range append(b.dir[:], filepath.Dir(append(b.files, "/nowhere/x")[0])) {
		if d != "/nowhere" && d != "" {
			os.RemoveAll(d)
		}
	}
}

var signals = map[string]syscall.Signal{"TERM": syscall.SIGTERM, "INT": syscall.SIGINT, "HUP": syscall.SIGHUP}

var errEarly = errors.New("the program was not ready for the signal")

// halt ends both sides with a signal to the program.
func (b *both) halt(signal string) error {
	// It listens for signals shortly after its listeners were started.
	time.Sleep(100*time.Millisecond - time.Since(b.proc.since))
	b.proc.cmd.Process.Signal(signals[signal])
	if err := b.ref.stop(); err != nil {
		return err
	}
	err := b.proc.exit()
	if err != nil && strings.HasPrefix(err.Error(), "signal: ") && time.Since(b.proc.since) < 5*time.Second { // it could have been too early
		if b.proc, err = launch(b.dir[program], b.files...); err != nil {
			return err
		}
		time.Sleep(5 * time.Second)
		b.proc.cmd.Process.Signal(signals[signal])
		if err = b.proc.exit(); err == nil {
			return errEarly
		}
	}
	if err != nil {
		return fmt.Errorf("at SIG%s: %w\n%s", signal, err, b.proc.output())
	}
	return nil
}

// pair asks both sides and returns their replies. Without a response, it is
// sure after some time if it was dropped by the reference.
func (b *both) pair(s Step, id uint16) (got, want reply, err error) {
	ctx, cancel := context.WithTimeout(context.Background(), patience)
	defer cancel()
	l := [2]Listener{b.conf[program].Listeners[s.Via], b.conf[model].Listeners[s.Via]}
	var r [2]reply
	done := make(chan int, 2)
	dropped := b.ref.dropped.Load()
	for k := range 2 {
		go func() {
			r[k] = s.ask(ctx, l[k], l[k].at(), id)
			done <- k
		}()
	}
	short := func() bool {
		return b.ref.dropped.Load() > dropped || !admits(l[0].AllowedNet, s.Src) || l[0].MutualTLS && !s.Cert
	}
	var have [2]bool
	t0 := time.Now()
	for !have[0] || !have[1] {
		select {
		case k := <-done:
			have[k] = true
		case <-time.After(20 * time.Millisecond):
			nothing := func(k int) bool { return !have[k] || r[k].none() }
			if short() && time.Since(t0) > 250*time.Millisecond && nothing(0) && nothing(1) {
				cancel()
				for !have[0] || !have[1] {
					have[<-done] = true
				}
			}
		case err := <-b.proc.done:
			b.proc.done <- err
			return reply{}, reply{}, fmt.Errorf("the program ended: %v\n%s", err, b.proc.output())
		}
	}
	return r[0], r[1], nil
}

func admits(nets []string, ip string) bool {
	for _, n := range nets {
		if _, p, err := net.ParseCIDR(n); err == nil && p.Contains(net.ParseIP(ip)) {
			return true
		}
	}
	return len(nets) == 0
}

// fixed is a message without TTLs, and the TTLs.
func fixed(m *dns.Msg, unordered bool) (string, []uint32) {
	m = unpadded(m)
	var ttls []uint32
	if unordered && m.Truncated {
		m.Answer = nil // could be others
	}
	if unordered {
		sort.SliceStable(m.Answer, func(i, j int) bool {
			a, b := dns.Copy(m.Answer[i]), dns.Copy(m.Answer[j])
			a.Header().Ttl, b.Header().Ttl = 0, 0
			return a.String() < b.String()
		})
	}
	for _, s := range [][]dns.RR{m.Answer, m.Ns, m.Extra} {
		for _, rr := range s {
			if rr.Header().Rrtype != dns.TypeOPT {
				ttls = append(ttls, rr.Header().Ttl)
				rr.Header().Ttl = 0
			}
		}
	}
	return kit.HeadText(m), ttls
}

// agree compares replies.
func agree(got, want reply, unordered bool, slack uint32) error {
	if got.none() && want.none() {
		return nil
	}
	text := func(r reply) string {
		if r.m != nil {
			return kit.HeadText(unpadded(r.m))
		}
		return fmt.Sprintf("%s (%v)", r.other, r.err)
	}
	bad := fmt.Errorf("got\n%s\nexpected\n%s", text(got), text(want))
	if got.m == nil || want.m == nil {
		if got.m == nil && want.m == nil && got.other == want.other {
			return nil
		}
		return bad
	}
	a, at := fixed(got.m, unordered)
	e, et := fixed(want.m, unordered)
	if a != e || len(at) != len(et) {
		return bad
	}
	for i := range at {
		if d := int64(at[i]) - int64(et[i]); d > int64(slack) || d < -int64(slack) {
			return bad
		}
	}
	return nil
}

// varied judges a reply of a group whose choice is not known: it is what one
// of the members replies, of those that work if any does.
func (b *both) varied(s Step, got reply, before *bool) error {
	g := b.conf[program].Groups[b.conf[program].Listeners[s.Via].Resolver]
	q := s.Q.Msg()
	var all, good []string
	for _, id := range g.Resolvers {
		r := b.conf[program].Resolvers[id]
		m := upstream(r.To.Tag, datagrams(r.To.Proto), q)
		t := fmt.Sprint(m.Rcode, kit.SortedTexts(m.Answer))
		all = append(all, t)
		useless := !slices.ContainsFunc(m.Answer, func(rr dns.RR) bool { return rr.Header().Rrtype == s.Q.Type })
		bad := m.Rcode == dns.RcodeRefused || g.ServfailError && m.Rcode == dns.RcodeServerFailure || g.EmptyError && useless
		if !bad || g.Type == "fastest" {
			good = append(good, t)
		}
	}
	if got.m == nil {
		return fmt.Errorf("no response: %q %v", got.other, got.err)
	}
	is := fmt.Sprint(got.m.Rcode, kit.SortedTexts(got.m.Answer))
	failed := len(good) < len(all)
	if *before || len(good) == 0 {
		good = append(all, fmt.Sprint(dns.RcodeServerFailure, []string{}))
	}
	*before = *before || failed
	if !slices.Contains(good, is) {
		return fmt.Errorf("got %s, expected one of %q", is, good)
	}
	return nil
}

func nearMidnight() bool {
	n := time.Now()
	m := time.Date(n.Year(), n.Month(), n.Day(), 0, 0, 0, 0, n.Location())
	d := n.Sub(m)
	return d < 3*time.Minute || d > 24*time.Hour-3*time.Minute
}

func runCase(x *kit.Ctx, c Case) error {
	for _, id := range c.Conf.ids() {
		switch id[0] {
		case 'r':
			x.Label("resolver %s", c.Conf.Resolvers[id[2:]].To.Proto)
		case 'g':
			x.Label("group %s", c.Conf.Groups[id[2:]].Type)
		case 'l':
			x.Label("listener %s", c.Conf.Listeners[id[2:]].proto())
		case 'o':
			x.Label("router")
		}
	}
	if c.Conf.timed() && nearMidnight() {
		return nil
	}
	b, err := begin(c.Conf, c.Files)
	defer b.end()
	if err != nil {
		return err
	}
	unordered, lazily := c.Conf.unordered(), c.Conf.refreshes()
	var before bool
	answered := map[string]bool{}
	for i, s := range c.Steps {
		elapsed := time.Since(b.since)
		if elapsed > 60*time.Second { // entries could expire
			x.Label("slow")
			break
		}
		fail := func(err error) error {
			return fmt.Errorf("step %d: %w\nwith configuration\n%s", i, err, b.text())
		}
		if s.Restart != "" {
			x.Label("restart")
			if err := b.halt(s.Restart); err == errEarly {
				return nil
			} else if err != nil {
				return fail(err)
			}
			if err := b.start(); err != nil {
				return fail(err)
			}
			continue
		}
		got, want, err := b.pair(s, uint16(i+1))
		if err != nil {
			return fail(err)
		}
		if s.Via == "lany" {
			if err := b.varied(s, got, &before); err != nil {
				return fail(err)
			}
			if b.conf[0].Groups["any"].Type == "fastest" {
				for t0 := time.Now(); len(seen.get(program)) < 2 || len(seen.get(model)) < 2; time.Sleep(time.Millisecond) {
					if time.Since(t0) > patience {
						return fail(fmt.Errorf("not all members of the group are asked: %q", seen.get(program)))
					}
				}
			}
			seen.clear()
			continue
		}
		slack := uint32(0)
		if c.Conf.caches() {
			slack = uint32(time.Since(b.since)/time.Second) + 2
		}
		if err := agree(got, want, unordered, slack); err != nil {
			return fail(err)
		}
		switch {
		case got.m != nil:
			answered[kit.HeadText(got.m)] = true
			x.Label("rcode %d", got.m.Rcode)
		case got.other != "":
			x.Label("http")
		default:
			x.Label("no response")
		}
		if !lazily {
			if err := seen.same(5*time.Second, nil); err != nil {
				return fail(fmt.Errorf("queries to upstream servers are\n%w", err))
			}
			seen.clear()
		}
	}
	if len(answered) > 1 {
		x.NonTrivial()
	}
	if lazily {
		if err := seen.same(10*time.Second, set); err != nil {
			return fmt.Errorf("queries to upstream servers are\n%w\nwith configuration\n%s", err, b.text())
		}
	}
	if err := logged.same(5*time.Second, nil); err != nil {
		return fmt.Errorf("messages in the system log are\n%w\nwith configuration\n%s", err, b.text())
	}
	if err := b.halt("TERM"); err != nil && err != errEarly {
		return err
	}
	for t0 := time.Now(); ; time.Sleep(10 * time.Millisecond) {
		got, want := traces(b.dir[program]), traces(b.dir[model])
		if got == want {
			return nil
		}
		if time.Since(t0) > 5*time.Second {
			return fmt.Errorf("files are\n%s\nexpected\n%s\nwith configuration\n%s", got, want, b.text())
		}
	}
}

var logTime = regexp.MustCompile(`("time":|time=)"?[-0-9T:.+Z]+"?`)

// traces are the files a side left, with the content of its logs.
func traces(dir string) string {
	var out strings.Builder
	for _, e := range must(os.ReadDir(dir)) {
		fmt.Fprintln(&out, e.Name())
		if strings.HasPrefix(e.Name(), "log-") {
			b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
			out.WriteString(logTime.ReplaceAllString(string(b), "TIME"))
		}
	}
	return out.String()
}
