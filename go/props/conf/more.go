package conf

import (
	"context"
	"errors"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/miekg/dns"
	"pgregory.net/rapid"

	"verif/kit"
	"verif/props/wire"
)

// solo is the program alone.
type solo struct {
	conf Config
	dir  string
	args []string
	proc *process
}

// alone prepares the program with a configuration; start runs it.
func alone(c Config, dir string) (*solo, error) {
	p := &solo{dir: dir}
	var err error
	if p.conf, err = c.forSide(program, dir, ports(10)); err != nil {
		return nil, fmt.Errorf("verif: %w", err)
	}
	p.args = p.conf.write(dir, nil)
	seen.clear()
	return p, nil
}

func (p *solo) start() (err error) {
	if p.proc, err = launch(p.dir, p.args...); err != nil {
		return err
	}
	return p.proc.ready(p.conf)
}

func (p *solo) end() {
	p.proc.kill()
	os.RemoveAll(p.dir)
}

// ask asks through a listener.
func (p *solo) ask(via, name string, qtype uint16, wait time.Duration) reply {
	ctx, cancel := context.WithTimeout(context.Background(), wait)
	defer cancel()
	l := p.conf.Listeners[via]
	s := Step{Via: via, Src: "127.0.0.1", Path: "/dns-query", Method: "POST", Q: kit.Q{Name: name, Type: qtype, RD: true}}
	return s.ask(ctx, l, l.at(), 77)
}

func scratch() string { return must(os.MkdirTemp(wire.Scratch(), "alone")) }

// Stored is a case for options of redis backends.
type Stored struct {
	Backend Backend  `json:"backend"`
	Names   []string `json:"names"`
}

func genStored(t *rapid.T) Stored {
	c := Stored{Backend: Backend{Type: "redis", Address: "{REDIS}", Network: kit.Pick(t, "network", "", "tcp", "unix")}}
	b := &c.Backend
	if b.Network == "unix" {
		b.Address = "{REDISUNIX}"
	}
	b.Username, b.Password = kit.Pick(t, "user", "", "me"), kit.Pick(t, "password", "", "secret")
	b.DB, b.Prefix = kit.Pick(t, "db", 0, 3, 7), kit.Pick(t, "prefix", "", "pre:", "x/")
	b.SyncSet = kit.Chance(t, "sync", 40)
	c.Names = kit.List(t, "names", 1, 2, func(t *rapid.T) string { return kit.Pick(t, "name", "www.test.", "nx.test.", "many.test.") })
	return c
}

var serial int

func runStored(x *kit.Ctx, c Stored) error {
	conf := Config{
		Resolvers: map[string]Resolver{"r0": {Address: "{UP}:{PORT0}", Protocol: "udp", To: &Server{Proto: "udp"}}},
		Groups:    map[string]Group{"g0": {Type: "cache", Resolvers: []string{"r0"}, Backend: &c.Backend}},
		Listeners: map[string]Listener{"l0": {Address: "{IP}:{L0}", Protocol: "tcp", Resolver: "g0"}},
	}
	b, err := begin(conf, nil)
	defer b.end()
	if err != nil {
		return err
	}
	x.LabelIf(c.Backend.Username != "" || c.Backend.Password != "", "password")
	x.LabelIf(c.Backend.DB > 0, "database")
	x.Label("network %s", c.Backend.Network)
	x.NonTrivial()
	for _, n := range c.Names {
		serial++
		n = strings.Replace(n, ".", fmt.Sprintf(".u%d.", serial), 1)
		for t0 := time.Now(); ; time.Sleep(50 * time.Millisecond) {
			got, want, err := b.pair(Step{Via: "l0", Src: "127.0.0.1", Q: kit.Q{Name: n, Type: dns.TypeA, RD: true}}, 9)
			if err != nil {
				return err
			}
			if err := agree(got, want, false, 10); err != nil {
				return err
			}
			has := slices.ContainsFunc(stored.get(model), func(s string) bool { return strings.Contains(s, " set ") && strings.Contains(s, n) })
			err = stored.same(20*time.Millisecond, set)
			if has && err == nil {
				break
			}
			if time.Since(t0) > 20*time.Second {
				return fmt.Errorf("commands are\n%w\nwith configuration\n%s", err, b.text())
			}
		}
	}
	return nil
}

// Shuffled is a case for the order of answers from caches.
type Shuffled struct {
	How     string `json:"how"`
	Backend bool   `json:"backend"`
	N       int    `json:"n"`
}

func genShuffled(t *rapid.T) Shuffled {
	return Shuffled{How: kit.Pick(t, "how", "round-robin", "random", ""), Backend: kit.Chance(t, "backend", 50), N: kit.Int(t, "n", 40, 60)}
}

func runShuffled(x *kit.Ctx, c Shuffled) error {
	g := Group{Type: "cache", Resolvers: []string{"r0"}, AnswerShuffle: c.How}
	if c.Backend {
		g.Backend = &Backend{Type: "memory"}
	}
	p, err := alone(Config{
		Resolvers: map[string]Resolver{"r0": {Address: "{UP}:{PORT0}", Protocol: "tcp", To: &Server{Proto: "tcp"}}},
		Groups:    map[string]Group{"g0": g},
		Listeners: map[string]Listener{"l0": {Address: "{IP}:{L0}", Protocol: "tcp", Resolver: "g0"}},
	}, scratch())
	if err != nil {
		return err
	}
	defer p.end()
	if err := p.start(); err != nil {
		return err
	}
	x.Label("order %s", c.How)
	x.NonTrivial()
	var last []string
	orders := map[string]bool{}
	for i := range c.N {
		r := p.ask("l0", "many.test.", dns.TypeA, patience)
		if r.m == nil || len(r.m.Answer) != 4 {
			return fmt.Errorf("response %d is %v %v", i, r.m, r.err)
		}
		var now []string
		for _, rr := range r.m.Answer {
			now = append(now, rr.(*dns.A).A.String())
		}
		if i < 2 { // one from upstream, and the first one from the cache
			last = now
			continue
		}
		switch c.How {
		case "":
			if !slices.Equal(now, last) {
				return fmt.Errorf("the order changed from %v to %v", last, now)
			}
		case "round-robin":
			if next := append(slices.Clone(last[1:]), last[0]); !slices.Equal(now, next) && !slices.Equal(now, append([]string{last[3]}, last[:3]...)) {
				return fmt.Errorf("response %d has order %v after %v", i, now, last)
			}
		case "random":
			orders[strings.Join(now, " ")] = true
		}
		last = now
	}
	if c.How == "random" && len(orders) < 6 {
		return fmt.Errorf("%d responses came in %d orders only: %v", c.N, len(orders), orders)
	}
	if n := len(seen.get(program)); n != 1 {
		return fmt.Errorf("%d queries were sent upstream", n)
	}
	return nil
}

// Refreshed is a case for lists that are loaded again.
type Refreshed struct {
	Type  string `json:"type"` // of the group
	Allow bool   `json:"allow,omitempty"`
	Again int    `json:"again"` // how often the list is changed
}

func genRefreshed(t *rapid.T) Refreshed {
	c := Refreshed{Type: kit.Pick(t, "type", "blocklist-v2", "blocklist", "response-blocklist-name", "response-blocklist-ip", "client-blocklist"), Again: kit.Int(t, "again", 1, 2)}
	c.Allow = c.Type == "blocklist-v2" && kit.Chance(t, "allow", 50)
	return c
}

func runRefreshed(x *kit.Ctx, c Refreshed) error {
	dir := scratch()
	file := filepath.Join(dir, "list")
	g := Group{Type: c.Type, Resolvers: []string{"r0"}}
	match, other := "www.test\n", "else.test\n"
	from := []List{{Source: file, Format: "domain"}}
	switch {
	case c.Type == "blocklist":
		g.Format, g.Source, g.Refresh = "domain", file, 1
	case c.Allow:
		g.BlocklistFormat, g.Blocklist = "domain", []string{"www.test"}
		g.AllowlistSource, g.AllowlistRefresh = from, 1
	case c.Type == "response-blocklist-name":
		match, other = "mx0.example.com\nmx0.test.org\nmx0.block.net\n", "else.test\n"
		g.BlocklistSource, g.BlocklistRefresh = from, 1
	case c.Type == "response-blocklist-ip":
		match, other = "127.0.0.0/8\n", "192.0.2.0/24\n"
		from[0].Format = "cidr"
		g.BlocklistSource, g.BlocklistRefresh = from, 1
	case c.Type == "client-blocklist":
		match, other = "127.0.0.1/32\n", "192.0.2.0/24\n"
		from[0].Format = "cidr"
		g.BlocklistSource, g.BlocklistRefresh = from, 1
	default:
		g.BlocklistSource, g.BlocklistRefresh = from, 1
	}
	listed := false
	write := func() {
		text := other
		if listed {
			text = match
		}
		must(0, os.WriteFile(file+".new", []byte(text), 0o644))
		must(0, os.Rename(file+".new", file))
	}
	write()
	p, err := alone(Config{
		Resolvers: map[string]Resolver{"r0": {Address: "{UP}:{PORT0}", Protocol: "tcp", To: &Server{Proto: "tcp"}}},
		Groups:    map[string]Group{"g0": g},
		Listeners: map[string]Listener{"l0": {Address: "{IP}:{L0}", Protocol: "tcp", Resolver: "g0"}},
	}, dir)
	if err != nil {
		return err
	}
	defer p.end()
	if err := p.start(); err != nil {
		return err
	}
	x.Label("group %s", c.Type)
	x.NonTrivial()
	qtype := dns.TypeA
	if c.Type == "response-blocklist-name" {
		qtype = dns.TypeMX
	}
	for i := 0; i <= c.Again; i++ {
		for t0 := time.Now(); ; time.Sleep(20 * time.Millisecond) {
			r := p.ask("l0", "www.test.", qtype, patience)
			if r.m == nil {
				return fmt.Errorf("no response: %q %v", r.other, r.err)
			}
			blocked := r.m.Rcode != dns.RcodeSuccess
			if blocked == (listed != c.Allow) {
				break
			}
			if time.Since(t0) > patience {
				return fmt.Errorf("change %d of a list was not noticed", i)
			}
		}
		listed = !listed
		write()
	}
	return nil
}

// Slow is a case for timeouts, with resolvers that never get a response.
type Slow struct {
	Protos []string `json:"protos"`
	Secs   []int    `json:"secs"`
}

func genSlow(t *rapid.T) Slow {
	var c Slow
	for _, p := range []string{"udp", "tcp", "dot", "doh", "doq", "dtls", "doh3", "odoh"} {
		c.Protos = append(c.Protos, p)
		c.Secs = append(c.Secs, kit.Pick(t, "secs", 3, 4, 5, 1))
	}
	return c
}

func runSlow(x *kit.Ctx, c Slow) error {
	conf := Config{Resolvers: map[string]Resolver{}, Listeners: map[string]Listener{}}
	for i, proto := range c.Protos {
		r := Resolver{Address: fmt.Sprintf("{UP}:{PORT%d}", i+1), Protocol: proto, QueryTimeout: c.Secs[i], To: &Server{Tag: i + 1, Proto: proto}}
		if i+1 == bootTag {
			r.To.Tag, r.Address = 0, "{UP}:{PORT0}"
		}
		if proto != "udp" && proto != "tcp" {
			r.CA = "{CA}"
		}
		switch proto {
		case "doh3":
			r.Protocol, r.Transport = "doh", "quic"
			fallthrough
		case "doh":
			r.Address = "https://" + r.Address + "/dns-query"
		case "odoh":
			r.Target, r.Address, r.TargetConfig = "https://"+r.Address+"/dns-query", "", "{ODOH}"
		}
		id := fmt.Sprint("r", i)
		conf.Resolvers[id] = r
		conf.Listeners[fmt.Sprint("l", i)] = Listener{Address: fmt.Sprintf("{IP}:{L%d}", i), Protocol: "tcp", Resolver: id}
	}
	p, err := alone(conf, scratch())
	if err != nil {
		return err
	}
	defer p.end()
	if err := p.start(); err != nil {
		return err
	}
	x.NonTrivial()
	errs := make([]error, len(c.Protos))
	var wg sync.WaitGroup
	for i, proto := range c.Protos {
		x.Label("%s", proto)
		wg.Go(func() {
			id := fmt.Sprint("l", i)
			// It has a connection when the time starts, mostly.
			if r := p.ask(id, "www.test.", dns.TypeA, patience); r.m == nil {
				errs[i] = fmt.Errorf("%s: no response: %v", proto, r.err)
				return
			}
			t0 := time.Now()
			r := p.ask(id, "slow.test.", dns.TypeA, 60*time.Second)
			d := time.Since(t0)
			switch {
			case r.m == nil:
				errs[i] = fmt.Errorf("%s: nothing came in %v without a response from upstream and a timeout of %d s: %v", proto, d, c.Secs[i], r.err)
			case r.m.Rcode != dns.RcodeServerFailure:
				errs[i] = fmt.Errorf("%s: response %s without one from upstream", proto, kit.HeadText(r.m))
			case d < time.Duration(c.Secs[i])*time.Second-50*time.Millisecond:
				errs[i] = fmt.Errorf("%s: failed after %v with a timeout of %d s", proto, d, c.Secs[i])
			}
		})
	}
	wg.Wait()
	return errors.Join(errs...)
}

// Busy is a case where the port of a listener is in use at first.
type Busy struct {
	Protocol string `json:"protocol"`
	Wait     int    `json:"wait"` // ms
}

func genBusy(t *rapid.T) Busy {
	return Busy{Protocol: kit.Pick(t, "protocol", "udp", "tcp", "dot", "doh", "doq"), Wait: kit.Pick(t, "wait", 50, 400, 1200)}
}

func runBusy(x *kit.Ctx, c Busy) error {
	l := Listener{Address: "{IP}:{L0}", Protocol: c.Protocol, Resolver: "r0"}
	if c.Protocol != "udp" && c.Protocol != "tcp" {
		l.ServerCrt, l.ServerKey = "{SRVCRT}", "{SRVKEY}"
	}
	p, err := alone(Config{
		Resolvers: map[string]Resolver{"r0": {Address: "{UP}:{PORT0}", Protocol: "tcp", To: &Server{Proto: "tcp"}}},
		Listeners: map[string]Listener{"l0": l, "l1": {Address: "{IP}:{L1}", Protocol: "tcp", Resolver: "r0"}},
	}, scratch())
	if err != nil {
		return err
	}
	defer p.end()
	a := p.conf.Listeners["l0"].at()
	var release func() error
	if p.conf.Listeners["l0"].datagram() {
		release = must(net.ListenPacket("udp", a)).Close
	} else {
		release = must(net.Listen("tcp", a)).Close
	}
	x.Label("%s", c.Protocol)
	x.NonTrivial()
	if p.proc, err = launch(p.dir, p.args...); err != nil {
		return err
	}
	time.Sleep(time.Duration(c.Wait) * time.Millisecond)
	answers := func(via string) error {
		for t0 := time.Now(); ; time.Sleep(20 * time.Millisecond) {
			r := p.ask(via, "www.test.", dns.TypeA, time.Second)
			if r.m != nil && len(r.m.Answer) > 0 {
				return nil
			}
			select {
			case err := <-p.proc.done:
				p.proc.done <- err
				return fmt.Errorf("the program ended: %v\n%s", err, p.proc.output())
			default:
			}
			if time.Since(t0) > patience {
				return fmt.Errorf("%s does not answer: %v %v", via, r.m, r.err)
			}
		}
	}
	if err := answers("l1"); err != nil {
		return err
	}
	release()
	return answers("l0")
}

// Handed is a case with an fd-server.
type Handed struct {
	Listener     string `json:"listener"` // protocol
	Resolver     string `json:"resolver"`
	OnListener   bool   `json:"on_listener"`
	OnResolver   bool   `json:"on_resolver"`
	Down         bool   `json:"down"` // there is no server
	Abstract     bool   `json:"abstract"`
	Mode         string `json:"mode,omitempty"`
	Unrestricted bool   `json:"unrestricted"`
	Signal       string `json:"signal"`
}

func genHanded(t *rapid.T) Handed {
	c := Handed{
		Listener:   kit.Pick(t, "listener", "udp", "tcp", "dot", "doh", "doq"),
		Resolver:   kit.Pick(t, "resolver", "udp", "tcp", "dot", "doh", "doq", "dtls", "doh3", "odoh"),
		OnListener: kit.Chance(t, "onlistener", 50),
		Down:       kit.Chance(t, "down", 35), Abstract: kit.Chance(t, "abstract", 25),
		Mode: kit.Pick(t, "mode", "", "0600", "0640", "777"), Unrestricted: kit.Chance(t, "unrestricted", 40),
		Signal: kit.Pick(t, "signal", "TERM", "INT"),
	}
	c.OnResolver = !c.OnListener || kit.Chance(t, "onresolver", 50)
	return c
}

func runHanded(x *kit.Ctx, c Handed) error {
	dir := scratch()
	path := filepath.Join(dir, "fds")
	if c.Abstract {
		path = "@" + strings.TrimPrefix(dir, "/")
	}
	enc := func(p string) bool { return p != "udp" && p != "tcp" }
	l := Listener{Address: "{IP}:{L0}", Protocol: c.Listener, Resolver: "r0"}
	if enc(c.Listener) {
		l.ServerCrt, l.ServerKey = "{SRVCRT}", "{SRVKEY}"
	}
	r := Resolver{Address: "{UP}:{PORT0}", Protocol: c.Resolver, To: &Server{Proto: c.Resolver}, QueryTimeout: 30}
	if enc(c.Resolver) {
		r.CA = "{CA}"
	}
	switch c.Resolver {
	case "doh3":
		r.Protocol, r.Transport = "doh", "quic"
		fallthrough
	case "doh":
		r.Address = "https://" + r.Address + "/dns-query"
	case "odoh":
		r.Target, r.Address, r.TargetConfig = "https://"+r.Address+"/dns-query", "", "{ODOH}"
	}
	if c.OnListener {
		l.XSocket = path
	}
	if c.OnResolver {
		r.XSocket = path
	}
	p, err := alone(Config{Resolvers: map[string]Resolver{"r0": r}, Listeners: map[string]Listener{"l0": l}}, dir)
	if err != nil {
		return err
	}
	defer p.end()
	x.NonTrivial()
	x.Label("listener %s", c.Listener)
	x.Label("resolver %s", c.Resolver)
	x.LabelIf(c.Down, "no server")
	var fds *process
	if !c.Down {
		args := []string{"fd-server", path}
		if c.Mode != "" {
			args = append(args, "--mode", c.Mode)
		}
		if c.Unrestricted {
			args = append([]string{"fd-server", "--unrestricted"}, args[1:]...)
		}
		if fds, err = launch(dir, args...); err != nil {
			return err
		}
		defer fds.kill()
		for t0 := time.Now(); ; time.Sleep(time.Millisecond) {
			k, err := net.Dial("unixpacket", path)
			if err == nil {
				k.Close()
				break
			}
			if time.Since(t0) > patience {
				return fmt.Errorf("the fd-server does not accept connections: %v", err)
			}
		}
		if !c.Abstract && c.Mode != "" {
			var want os.FileMode
			fmt.Sscanf(c.Mode, "%o", &want)
			for t0 := time.Now(); ; time.Sleep(time.Millisecond) {
				if i, err := os.Stat(path); err == nil && i.Mode().Perm() == want {
					break
				}
				if time.Since(t0) > patience {
					return fmt.Errorf("the socket does not have mode %s", c.Mode)
				}
			}
		}
	}
	if p.proc, err = launch(dir, p.args...); err != nil {
		return err
	}
	if c.Down && c.OnListener {
		time.Sleep(300 * time.Millisecond)
		if wire.Bound(p.conf.Listeners["l0"].at(), p.conf.Listeners["l0"].datagram()) {
			return errors.New("the listener does not take its socket from the fd-server")
		}
		return nil
	}
	if err := p.proc.ready(p.conf); err != nil {
		if c.Down && strings.Contains(err.Error(), "ended") { // it refuses to start
			return nil
		}
		return err
	}
	a := p.ask("l0", "www.test.", dns.TypeA, patience)
	works := a.m != nil && a.m.Rcode == dns.RcodeSuccess && len(a.m.Answer) > 0
	if works == c.Down {
		return fmt.Errorf("with fd-server %v: response %v %v\n%s", !c.Down, a.m, a.err, p.proc.output())
	}
	if c.Down {
		return nil
	}
	// Its own sockets are for IP only.
	if u, err := wire.FdFrom(path, syscall.AF_UNIX, syscall.SOCK_STREAM); err != nil || u != c.Unrestricted {
		return fmt.Errorf("sockets of other kinds are handed out: %v %v", u, err)
	}
	fds.cmd.Process.Signal(signals[c.Signal])
	if err := fds.exit(); err != nil {
		return fmt.Errorf("fd-server at SIG%s: %w\n%s", c.Signal, err, fds.output())
	}
	if _, err := os.Lstat(path); err == nil {
		return errors.New("the socket of the fd-server is left after its end")
	}
	return nil
}
