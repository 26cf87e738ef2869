package wire

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"golang.org/x/sys/unix"
	"pgregory.net/rapid"
	"verif/kit"
)

// Socks is a resolver that has to use a SOCKS5 proxy.
type Socks struct {
	Proto     string      `json:"proto"`
	Target    string      `json:"target"` // name, ip4, ip6
	Bootstrap bool        `json:"bootstrap,omitempty"`
	User      string      `json:"user,omitempty"`
	Pass      string      `json:"pass,omitempty"`
	Resolve   bool        `json:"resolve,omitempty"` // the name locally
	Lookup    string      `json:"lookup,omitempty"`  // what that gives
	Named     bool        `json:"named,omitempty"`   // the proxy has a name
	Local     string      `json:"local,omitempty"`
	Via       string      `json:"via,omitempty"` // sockets from a server, or bound to an interface
	Steps     []SocksStep `json:"steps"`
}

// SocksStep is some queries at once.
type SocksStep struct {
	How   string   `json:"how"`   // what the proxy does with new connections
	At    int      `json:"at"`    // stage at which it fails
	Code  byte     `json:"code"`  // of its reply
	Bound string   `json:"bound"` // kind of address in its reply
	Slow  bool     `json:"slow,omitempty"`
	Drop  bool     `json:"drop,omitempty"` // connections are closed before
	Rest  bool     `json:"rest,omitempty"` // time passes before
	Names []string `json:"names"`
}

const (
	socksName  = "dns.test"
	socksProxy = "proxy.test"
)

func genSocks(stall bool) func(t *rapid.T) Socks {
	return func(t *rapid.T) Socks {
		c := Socks{
			Proto:  kit.Pick(t, "proto", UDP, TCP, DoT, DoH),
			Target: kit.Pick(t, "target", "name", "name", "ip4", "ip6"),
			Named:  kit.Chance(t, "named", 25),
			Local:  kit.Pick(t, "local", "", "", "any", "v4", "both"),
			Via:    kit.Pick(t, "via", "", "", "", "server", "lo"),
		}
		if kit.Chance(t, "auth", 50) {
			c.User = rapid.StringN(1, 40, 255).Draw(t, "user")
			c.Pass = rapid.StringN(1, 40, 255).Draw(t, "pass")
		}
		c.Resolve = kit.Chance(t, "resolve", 40)
		c.Lookup = kit.Pick(t, "lookup", "one", "two", "fail")
		c.Bootstrap = (c.Proto == DoT || c.Proto == DoH) && kit.Chance(t, "bootstrap", 25)
		if c.Target == "ip6" && !c.Bootstrap && c.Local == "both" {
			c.Local = "any"
		}
		hows := []string{"good", "good", "code", "close", "garbage", "method", "auth", "gone"}
		n := 0
		turn := kit.Chance(t, "turn", 50)
		c.Steps = kit.List(t, "steps", 1, 4, func(t *rapid.T) SocksStep {
			s := SocksStep{
				How:   kit.Pick(t, "how", hows...),
				At:    kit.Int(t, "at", 0, 3),
				Code:  byte(kit.Int(t, "code", 1, 9)),
				Bound: kit.Pick(t, "bound", "4", "6", "name"),
				Slow:  kit.Chance(t, "slow", 30),
				Drop:  kit.Chance(t, "drop", 30),
			}
			if stall {
				// Either it stalls now and then, or there are pauses.
				s.How = "good"
				if turn {
					s.Rest = true
				} else if n%2 == 0 {
					s.How = "stall"
				}
				s.Drop = s.Drop && s.How != "good"
			}
			many := kit.Pick(t, "many", 1, 2, 6)
			if stall {
				many = 1
			}
			s.Names = kit.List(t, "names", 1, many, func(t *rapid.T) string {
				n++
				return fmt.Sprintf("%s.q%d.test.", strings.ToLower(rapid.StringMatching(`[a-z]{1,8}`).Draw(t, "label")), n)
			})
			return s
		})
		return c
	}
}

// socksLog is what a connection asked of the proxy.
type socksLog struct {
	from    string
	methods []byte
	user    *[2]string
	cmd     byte
	dest    string
	packets []string // destinations and sources
}

// proxy is a SOCKS5 server which sends everything to one place.
type proxy struct {
	addr, to string
	mu       sync.Mutex
	step     SocksStep
	auth     bool
	logs     []*socksLog
	conns    map[io.Closer]bool
	ln       net.Listener
}

func (p *proxy) listen() error {
	if p.ln != nil {
		return nil
	}
	var err error
	for t0 := time.Now(); ; time.Sleep(time.Millisecond) {
		if p.ln, err = net.Listen("tcp", p.addr); err == nil || time.Since(t0) > patience {
			break
		}
	}
	if err != nil {
		return err
	}
	ln := p.ln
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go p.serve(c)
		}
	}()
	return nil
}

func (p *proxy) hangUp() {
	p.mu.Lock()
	defer p.mu.Unlock()
	for c := range p.conns {
		c.Close()
	}
	p.conns = map[io.Closer]bool{}
}

func (p *proxy) hold(c io.Closer) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.conns[c] = true
}

// SocksAddress encodes an address as in SOCKS5; ReadSocksAddress reads one.
func SocksAddress(host string, port uint16) []byte {
	var b []byte
	if ip := net.ParseIP(host); ip == nil {
		b = append([]byte{3, byte(len(host))}, host...)
	} else if v4 := ip.To4(); v4 != nil {
		b = append([]byte{1}, v4...)
	} else {
		b = append([]byte{4}, ip...)
	}
	return binary.BigEndian.AppendUint16(b, port)
}

func ReadSocksAddress(r io.Reader) (string, error) {
	b := make([]byte, 256)
	if _, err := io.ReadFull(r, b[:1]); err != nil {
		return "", err
	}
	n := 4
	kind := b[0]
	switch kind {
	case 1:
	case 4:
		n = 16
	case 3:
		if _, err := io.ReadFull(r, b[:1]); err != nil {
			return "", err
		}
		n = int(b[0])
	default:
		return "", fmt.Errorf("address of kind %d", kind)
	}
	if _, err := io.ReadFull(r, b[:n]); err != nil {
		return "", err
	}
	host := string(b[:n])
	if kind != 3 {
		host = net.IP(b[:n]).String()
	}
	if _, err := io.ReadFull(r, b[:2]); err != nil {
		return "", err
	}
	return net.JoinHostPort(host, fmt.Sprint(binary.BigEndian.Uint16(b))), nil
}

func (p *proxy) serve(c net.Conn) {
	p.hold(c)
	p.mu.Lock()
	s := p.step
	log := &socksLog{from: host(c.RemoteAddr().String())}
	p.logs = append(p.logs, log)
	p.mu.Unlock()
	keep := false
	defer func() {
		if !keep {
			c.Close()
		}
	}()
	set := func(f func()) { p.mu.Lock(); f(); p.mu.Unlock() }
	write := func(b []byte) {
		if !s.Slow {
			c.Write(b)
			return
		}
		for i := range b {
			c.Write(b[i : i+1])
			if i < 3 {
				time.Sleep(200 * time.Microsecond)
			}
		}
	}
	// fault says if the connection ends at a stage.
	fault := func(stage int) bool {
		if s.At != stage {
			return false
		}
		switch s.How {
		case "close":
			return true
		case "garbage":
			write([]byte("HTTP/1.1 400 Bad Request\r\n\r\n"))
			return true
		case "stall":
			keep = true
			return true
		}
		return false
	}
	if s.How == "stall" {
		defer p.hold(c)
	}
	if fault(0) {
		return
	}
	b := make([]byte, 600)
	if _, err := io.ReadFull(c, b[:2]); err != nil || b[0] != 5 {
		return
	}
	methods := make([]byte, b[1])
	if _, err := io.ReadFull(c, methods); err != nil {
		return
	}
	set(func() { log.methods = methods })
	if fault(1) {
		return
	}
	if s.How == "method" {
		write([]byte{5, []byte{0xff, 1, 0x80, 0xff}[s.At]})
		return
	}
	if p.auth {
		write([]byte{5, 2})
		if _, err := io.ReadFull(c, b[:2]); err != nil || b[0] != 1 {
			return
		}
		user := make([]byte, b[1])
		if _, err := io.ReadFull(c, user); err != nil {
			return
		}
		if _, err := io.ReadFull(c, b[:1]); err != nil {
			return
		}
		pass := make([]byte, b[0])
		if _, err := io.ReadFull(c, pass); err != nil {
			return
		}
		set(func() { log.user = &[2]string{string(user), string(pass)} })
		if fault(2) {
			return
		}
		if s.How == "auth" {
			write([]byte{1, s.Code})
			return
		}
		write([]byte{1, 0})
	} else {
		if s.How == "auth" || fault(2) {
			return
		}
		write([]byte{5, 0})
	}
	if _, err := io.ReadFull(c, b[:3]); err != nil || b[0] != 5 || b[2] != 0 {
		return
	}
	cmd := b[1]
	dest, err := ReadSocksAddress(c)
	if err != nil {
		return
	}
	set(func() { log.cmd, log.dest = cmd, dest })
	if fault(3) {
		return
	}
	if s.How == "close" || s.How == "garbage" || s.How == "stall" {
		// The stage was left out.
		return
	}
	if s.How == "code" {
		write(append([]byte{5, s.Code, 0}, SocksAddress("0.0.0.0", 0)...))
		return
	}
	switch cmd {
	case 1:
		up, err := net.Dial("tcp", p.to)
		if err != nil {
			return
		}
		p.hold(up)
		write(append([]byte{5, 0, 0}, SocksAddress(map[string]string{"4": "192.0.2.7", "6": "2001:db8::7", "name": "a.test"}[s.Bound], 4711)...))
		keep = true
		go func() { io.Copy(up, c); up.Close(); c.Close() }()
		go func() { io.Copy(c, up); up.Close(); c.Close() }()
	case 3:
		relay, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP(host(p.addr))})
		if err != nil {
			return
		}
		p.hold(relay)
		write(append([]byte{5, 0, 0}, SocksAddress(host(p.addr), uint16(relay.LocalAddr().(*net.UDPAddr).Port))...))
		keep = true
		// The association ends with the connection.
		go func() { io.Copy(io.Discard, c); c.Close(); relay.Close() }()
		go func() {
			to, _ := net.ResolveUDPAddr("udp", p.to)
			up, err := net.DialUDP("udp", nil, to)
			if err != nil {
				return
			}
			p.hold(up)
			defer up.Close()
			var client *net.UDPAddr
			b := make([]byte, 65535)
			first := true
			for {
				n, from, err := relay.ReadFromUDP(b)
				if err != nil {
					return
				}
				r := strings.NewReader(string(b[:n]))
				head := make([]byte, 3)
				io.ReadFull(r, head)
				dest, err := ReadSocksAddress(r)
				if err != nil || head[0] != 0 || head[1] != 0 || head[2] != 0 {
					dest = fmt.Sprintf("malformed packet % x", b[:n])
				}
				set(func() { log.packets = append(log.packets, dest+" from "+host(from.String())) })
				data, _ := io.ReadAll(r)
				if first {
					first = false
					client = from
					go func() {
						b := make([]byte, 65535)
						for {
							n, err := up.Read(b)
							if err != nil {
								return
							}
							back := map[string]string{"4": "192.0.2.7", "6": "2001:db8::7", "name": "a.test"}[s.Bound]
							relay.WriteToUDP(append(append([]byte{0, 0, 0}, SocksAddress(back, 53)...), b[:n]...), client)
						}
					}()
				}
				up.Write(data)
			}
		}()
	}
}

func host(addr string) string {
	h, _, err := net.SplitHostPort(addr)
	if err != nil {
		return addr
	}
	return h
}

// names answers the lookups of this system.
type names struct {
	mu    sync.Mutex
	a     map[string][]string
	asked map[string]int
}

func (s *names) dial(ctx context.Context, network, addr string) (net.Conn, error) {
	a, b := net.Pipe()
	go func() {
		defer b.Close()
		for {
			// Not a packet connection, so there are lengths.
			k := &dns.Conn{Conn: b}
			q, err := k.ReadMsg()
			if err != nil {
				return
			}
			name := strings.ToLower(strings.TrimSuffix(q.Question[0].Name, "."))
			m := new(dns.Msg).SetReply(q)
			s.mu.Lock()
			s.asked[name]++
			ips, ok := s.a[name]
			s.mu.Unlock()
			if !ok {
				m.Rcode = dns.RcodeNameError
			}
			if q.Question[0].Qtype == dns.TypeA {
				for _, ip := range ips {
					m.Answer = append(m.Answer, kit.RR(q.Question[0].Name+" 60 IN A "+ip))
				}
			}
			if k.WriteMsg(m) != nil {
				return
			}
		}
	}()
	return a, nil
}

// canBind says if sockets may be bound to the loopback interface here.
var canBind = sync.OnceValue(func() bool {
	fd, err := unix.Socket(unix.AF_INET, unix.SOCK_STREAM|unix.SOCK_CLOEXEC, 0)
	if err != nil {
		return false
	}
	defer unix.Close(fd)
	return unix.BindToDevice(fd, "lo") == nil
})

// socksReply is the answer to a query of these cases.
func socksReply(q *dns.Msg) (*dns.Msg, error) {
	m := new(dns.Msg).SetReply(q)
	var n uint32
	for _, b := range []byte(strings.ToLower(q.Question[0].Name)) {
		n = n*31 + uint32(b)
	}
	ip := make(net.IP, 4)
	binary.BigEndian.PutUint32(ip, n)
	m.Answer = []dns.RR{kit.RR(q.Question[0].Name + " 60 IN A " + ip.String())}
	return m, nil
}

func runSocks(x *kit.Ctx, c Socks) error {
	// The place of the server, which nobody listens to but to see who comes.
	trapAddr := net.JoinHostPort(Near(2), fmt.Sprint(port()))
	trapTCP, err := net.Listen("tcp", trapAddr)
	if err != nil {
		return err
	}
	defer trapTCP.Close()
	trapUDP, err := net.ListenPacket("udp", trapAddr)
	if err != nil {
		return err
	}
	defer trapUDP.Close()
	direct := make(chan string, 100)
	go func() {
		for {
			k, err := trapTCP.Accept()
			if err != nil {
				return
			}
			select {
			case direct <- "tcp":
			default:
			}
			k.Close()
		}
	}()
	go func() {
		b := make([]byte, 1000)
		for {
			if _, _, err := trapUDP.ReadFrom(b); err != nil {
				return
			}
			select {
			case direct <- "udp":
			default:
			}
		}
	}()
	_, prt, _ := net.SplitHostPort(trapAddr)

	// What is known here.
	sys := &names{a: map[string][]string{socksProxy: {here}}, asked: map[string]int{}}
	switch c.Lookup {
	case "one":
		sys.a[socksName] = []string{Near(2)}
	case "two":
		sys.a[socksName] = []string{Near(2), "192.0.2.99"}
	}
	before := net.DefaultResolver
	net.DefaultResolver = &net.Resolver{PreferGo: true, StrictErrors: true, Dial: sys.dial}
	defer func() { net.DefaultResolver = before }()

	up := &kit.Up{ID: "up", F: func(_ int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) { return socksReply(q) }}
	real := net.JoinHostPort(Near(1), fmt.Sprint(port()))
	l, err := newListener(c.Proto, "l", real, rdns.ListenOptions{}, up)
	if err != nil {
		return err
	}
	stop, err := start(l, real, datagrams(c.Proto))
	if err != nil {
		return err
	}
	defer stop()

	p := &proxy{addr: net.JoinHostPort(here, fmt.Sprint(port())), to: real, auth: c.User != "", conns: map[io.Closer]bool{}}
	defer func() {
		if p.ln != nil {
			p.ln.Close()
		}
		p.hangUp()
	}()

	// The resolver.
	opt := rdns.Socks5DialerOptions{Username: c.User, Password: c.Pass, ResolveLocal: c.Resolve, UDPTimeout: 5 * time.Second}
	stalls := slices.ContainsFunc(c.Steps, func(s SocksStep) bool { return s.How == "stall" })
	rests := slices.ContainsFunc(c.Steps, func(s SocksStep) bool { return s.Rest })
	if rests {
		opt.UDPTimeout = time.Second
	}
	switch c.Local {
	case "any":
		opt.LocalAddr = net.ParseIP(Near(3))
	case "v4":
		opt.LocalAddrV4 = net.ParseIP(Near(3))
	case "both":
		opt.LocalAddr, opt.LocalAddrV4, opt.LocalAddrV6 = net.ParseIP("127.0.0.8"), net.ParseIP(Near(3)), net.ParseIP("::1")
	}
	switch c.Via {
	case "server":
		dir, err := os.MkdirTemp("", "verif-socks")
		if err != nil {
			return err
		}
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, "s")
		srv := rdns.NewXSocketServer(path, rdns.XSocketServerOptions{})
		go srv.Start()
		defer srv.Stop()
		for t0 := time.Now(); time.Since(t0) < patience; time.Sleep(200 * time.Microsecond) {
			if k, err := net.Dial("unixpacket", path); err == nil {
				k.Close()
				break
			}
		}
		opt.NetNS = &rdns.NetNS{XSocket: path}
	case "lo":
		if canBind() {
			opt.SocketOptions = rdns.SocketOptions{BindInterface: "lo"}
		}
	}
	proxyAddr := p.addr
	if c.Named && c.Via != "server" {
		_, pp, _ := net.SplitHostPort(p.addr)
		proxyAddr = net.JoinHostPort(socksProxy, pp)
	}
	target := map[string]string{"name": socksName, "ip4": Near(2), "ip6": "2001:db8::53"}[c.Target]
	dest := target
	boot := ""
	if c.Bootstrap {
		boot = Near(2)
		dest = boot
	}
	dests := []string{dest}
	if c.Resolve && dest == socksName {
		if ips := sys.a[socksName]; ips != nil {
			dests = slices.Clone(ips)
		}
	}
	for i := range dests {
		dests[i] = net.JoinHostPort(dests[i], prt)
	}
	timeout := patience
	if stalls {
		timeout = 500 * time.Millisecond
	}
	d := rdns.NewSocks5Dialer(proxyAddr, opt)
	tlsc, err := rdns.TLSClientConfig(ourCA().file, "", "", socksName)
	if err != nil {
		return err
	}
	at := net.JoinHostPort(target, prt)
	var r rdns.Resolver
	switch c.Proto {
	case UDP, TCP:
		r, err = rdns.NewDNSClient("c", at, c.Proto, rdns.DNSClientOptions{Dialer: d, QueryTimeout: timeout, NetNS: opt.NetNS})
	case DoT:
		r, err = rdns.NewDoTClient("c", at, rdns.DoTClientOptions{Dialer: d, BootstrapAddr: boot, TLSConfig: tlsc, QueryTimeout: timeout, NetNS: opt.NetNS})
	case DoH:
		r, err = rdns.NewDoHClient("c", "https://"+at+"/dns-query", rdns.DoHClientOptions{Dialer: d, BootstrapAddr: boot, TLSConfig: tlsc, QueryTimeout: timeout, NetNS: opt.NetNS})
	}
	if err != nil {
		return err
	}
	ask := func(name string) error {
		q := kit.Q{Name: name, Type: dns.TypeA, ID: 77, RD: true}.Msg()
		type res struct {
			a   *dns.Msg
			err error
		}
		ch := make(chan res, 1)
		go func() {
			a, err := r.Resolve(q, rdns.ClientInfo{})
			ch <- res{a, err}
		}()
		select {
		case got := <-ch:
			if got.err != nil {
				return got.err
			}
			want, _ := socksReply(q)
			if got.a == nil || got.a.Id != 77 || kit.Text(bare(got.a)) != kit.Text(bare(want)) {
				return wrong{fmt.Errorf("query for %s: got\n%v\ninstead of\n%v", name, got.a, want)}
			}
			return nil
		case <-time.After(timeout + patience):
			return wrong{fmt.Errorf("query for %s: no result after %v", name, timeout+patience)}
		}
	}

	fresh := true // no connection was lost
	live := false // there may be a connection
	for i, s := range c.Steps {
		good := s.How == "good"
		if s.Rest {
			time.Sleep(1100 * time.Millisecond)
		}
		p.mu.Lock()
		p.step = s
		p.mu.Unlock()
		if s.How == "gone" {
			if p.ln != nil {
				p.ln.Close()
				p.ln = nil
			}
		} else if err := p.listen(); err != nil {
			return err
		}
		if s.Drop || !good {
			p.hangUp()
			fresh = fresh && !live
			live = false
		}
		known := up.N()
		errs := make([]error, len(s.Names))
		var wg sync.WaitGroup
		for j, n := range s.Names {
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs[j] = ask(n)
				// Connections may be lost just when they are used.
				for t0 := time.Now(); errs[j] != nil && good && (!fresh || stalls) && time.Since(t0) < patience; {
					if errors.As(errs[j], new(wrong)) {
						return
					}
					time.Sleep(5 * time.Millisecond)
					errs[j] = ask(n)
				}
			}()
		}
		wg.Wait()
		for j, err := range errs {
			if errors.As(err, new(wrong)) {
				return fmt.Errorf("step %d: %w", i, err)
			}
			if good && err != nil {
				return fmt.Errorf("step %d: query for %s through a proxy that works failed: %w", i, s.Names[j], err)
			}
			if !good && err == nil {
				return fmt.Errorf("step %d: query for %s was answered without the proxy (%s)", i, s.Names[j], s.How)
			}
		}
		if good {
			live = true
		} else {
			fresh = false
			if up.N() != known {
				return fmt.Errorf("step %d: the server got a query without the proxy (%s)", i, s.How)
			}
		}
		x.Label("proxy %s", s.How)
		x.LabelIf(good && !fresh, "after a failure")
	}

	// What was asked of the proxy.
	select {
	case how := <-direct:
		return fmt.Errorf("there was a direct connection to the server (%s)", how)
	default:
	}
	sys.mu.Lock()
	n := sys.asked[socksName]
	sys.mu.Unlock()
	if n > 0 && (!c.Resolve || dest != socksName) {
		return fmt.Errorf("the name of the server was looked up %d times", n)
	}
	from := ""
	if c.Local == "any" || c.Local == "both" || c.Local == "v4" && net.ParseIP(host(dests[0])).To4() != nil {
		from = Near(3)
	}
	if c.Local == "both" && net.ParseIP(host(dests[0])).To4() == nil {
		from = "127.0.0.8"
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	for i, k := range p.logs {
		if k.methods == nil {
			continue
		}
		if from != "" && k.from != from {
			return fmt.Errorf("connection %d to the proxy came from %s instead of %s", i, k.from, from)
		}
		if need := byte(0); c.User != "" {
			need = 2
			if !slices.Contains(k.methods, need) {
				return fmt.Errorf("connection %d to the proxy offered methods %v, without the password", i, k.methods)
			}
		} else if !slices.Contains(k.methods, need) {
			return fmt.Errorf("connection %d to the proxy offered methods %v", i, k.methods)
		}
		if k.user != nil && *k.user != [2]string{c.User, c.Pass} {
			return fmt.Errorf("connection %d logged in as %q instead of %q", i, *k.user, [2]string{c.User, c.Pass})
		}
		switch k.cmd {
		case 0:
			continue
		case 1:
			if c.Proto == UDP {
				return fmt.Errorf("connection %d is for TCP", i)
			}
			if !slices.Contains(dests, k.dest) {
				return fmt.Errorf("connection %d is to %s instead of %v", i, k.dest, dests)
			}
		case 3:
			if c.Proto != UDP {
				return fmt.Errorf("connection %d is for UDP", i)
			}
		default:
			return fmt.Errorf("connection %d has command %d", i, k.cmd)
		}
		for _, s := range k.packets {
			to, src, _ := strings.Cut(s, " from ")
			if !slices.Contains(dests, to) || from != "" && src != from {
				return fmt.Errorf("packet to %s instead of %v from %s", to, dests, from)
			}
		}
		if c.Proto == UDP && k.cmd == 3 {
			x.Label("association")
		}
	}
	if _, ok := r.(interface{ Close() error }); ok {
		x.Label("closable")
	}
	x.Label("%s", c.Proto)
	x.LabelIf(c.User != "", "login")
	x.LabelIf(c.Resolve && dest == socksName, "local lookup "+c.Lookup)
	x.LabelIf(from != "", "local address")
	x.LabelIf(c.Via != "", "via "+c.Via)
	if len(p.logs) > 0 {
		x.NonTrivial()
	}
	return nil
}

// wrong is a result that is never right.
type wrong struct{ error }

func (w wrong) Unwrap() error { return w.error }
