package wire

import (
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io/fs"
	"net"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"golang.org/x/sys/unix"
	"pgregory.net/rapid"

	"verif/kit"
)

// ---- the server that hands out sockets ----

// FdServer is a history of a socket server.
type FdServer struct {
	Open     bool     `json:"open,omitempty"` // unrestricted
	Mode     uint32   `json:"mode,omitempty"`
	Abstract bool     `json:"abstract,omitempty"`
	Before   string   `json:"before,omitempty"` // what is at the path
	Early    bool     `json:"early,omitempty"`  // stopped before it is started
	Conns    []FdConn `json:"conns,omitempty"`
}

// FdConn is one connection; they are all open at the same time.
type FdConn struct {
	Reqs []FdReq `json:"reqs"`
}

// FdReq is one request.
type FdReq struct {
	Domain uint32 `json:"domain,omitempty"`
	Type   uint32 `json:"type,omitempty"`
	Proto  uint32 `json:"proto,omitempty"`
	Raw    string `json:"raw,omitempty"` // hex of a message that is no request
}

func genFdServer(t *rapid.T) FdServer {
	c := FdServer{
		Open:     kit.Chance(t, "open", 30),
		Mode:     kit.Pick[uint32](t, "mode", 0, 0o600, 0o660, 0o777, 0o400),
		Abstract: kit.Chance(t, "abstract", 20),
		Before:   kit.Pick(t, "before", "", "", "stale", "live", "file", "stream", "dir"),
		Early:    kit.Chance(t, "early", 8),
	}
	if c.Abstract {
		c.Before = ""
	}
	c.Conns = kit.List(t, "conns", 1, 3, func(t *rapid.T) FdConn {
		return FdConn{Reqs: kit.List(t, "reqs", 1, 5, func(t *rapid.T) FdReq {
			if kit.Chance(t, "bad", 8) {
				return FdReq{Raw: kit.Pick(t, "raw", "00", "58533031", "5853303100000002000000010000", "58533032000000020000000100000000", "31305358000000020000000100000000", "00000000000000020000000100000000")}
			}
			return FdReq{
				Domain: kit.Pick[uint32](t, "domain", unix.AF_INET, unix.AF_INET6, unix.AF_INET, unix.AF_INET6, unix.AF_UNIX, unix.AF_NETLINK, 0, 1<<31+unix.AF_INET, 9999),
				Type: kit.Pick[uint32](t, "type", unix.SOCK_STREAM, unix.SOCK_DGRAM, unix.SOCK_STREAM, unix.SOCK_DGRAM, unix.SOCK_RAW, unix.SOCK_SEQPACKET, 0, 1<<8+unix.SOCK_STREAM, 1<<31+unix.SOCK_DGRAM) |
					kit.Pick[uint32](t, "flags", 0, 0, unix.SOCK_CLOEXEC, unix.SOCK_NONBLOCK, unix.SOCK_CLOEXEC|unix.SOCK_NONBLOCK),
				Proto: kit.Pick[uint32](t, "proto", 0, unix.IPPROTO_TCP, unix.IPPROTO_UDP, 0, unix.IPPROTO_TCP, unix.IPPROTO_UDP, unix.IPPROTO_ICMP, unix.IPPROTO_ICMPV6, 255, 1<<31, 262),
			}
		})}
	})
	return c
}

// want is the error number for a request, 0 for a socket.
func (r FdReq) want(open bool) (unix.Errno, [3]int) {
	if !open {
		ip := r.Domain == unix.AF_INET || r.Domain == unix.AF_INET6
		kind := r.Type &^ (unix.SOCK_CLOEXEC | unix.SOCK_NONBLOCK)
		tcp := kind == unix.SOCK_STREAM && (r.Proto == 0 || r.Proto == unix.IPPROTO_TCP)
		udp := kind == unix.SOCK_DGRAM && (r.Proto == 0 || r.Proto == unix.IPPROTO_UDP)
		if !ip || !tcp && !udp {
			return unix.EPERM, [3]int{}
		}
	}
	fd, err := unix.Socket(int(r.Domain), int(r.Type)|unix.SOCK_CLOEXEC, int(r.Proto))
	if err != nil {
		var e unix.Errno
		if !errors.As(err, &e) {
			panic(err)
		}
		return e, [3]int{}
	}
	defer unix.Close(fd)
	return 0, attributes(fd)
}

// attributes are domain, type and protocol of a socket.
func attributes(fd int) (a [3]int) {
	for i, o := range []int{unix.SO_DOMAIN, unix.SO_TYPE, unix.SO_PROTOCOL} {
		a[i], _ = unix.GetsockoptInt(fd, unix.SOL_SOCKET, o)
	}
	return a
}

var (
	fdMu    sync.Mutex
	fdCount atomic.Int64
)

func openFds() int {
	e, _ := os.ReadDir("/proc/self/fd")
	return len(e)
}

// fdAsk sends one message and reads the answer: its bytes and the descriptors.
func fdAsk(c *net.UnixConn, b []byte) ([]byte, []int, error) {
	if _, err := c.Write(b); err != nil {
		return nil, nil, err
	}
	c.SetReadDeadline(time.Now().Add(patience))
	buf, oob := make([]byte, 64), make([]byte, 256)
	n, on, _, _, err := c.ReadMsgUnix(buf, oob)
	if err != nil {
		return nil, nil, err
	}
	var fds []int
	if on > 0 {
		ms, err := unix.ParseSocketControlMessage(oob[:on])
		if err != nil {
			return nil, nil, err
		}
		for _, m := range ms {
			f, err := unix.ParseUnixRights(&m)
			if err != nil {
				return nil, nil, err
			}
			fds = append(fds, f...)
		}
	}
	return buf[:n], fds, nil
}

func runFdServer(x *kit.Ctx, c FdServer) error {
	dir, err := os.MkdirTemp("", "verif-fd")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "s")
	if c.Abstract {
		path = fmt.Sprintf("@verif-%d-%d", os.Getpid(), fdCount.Add(1))
	}
	var live *net.UnixListener
	refuse := false
	switch c.Before {
	case "stale", "live", "stream":
		network := "unixpacket"
		if c.Before == "stream" {
			network = "unix"
		}
		l, err := net.ListenUnix(network, &net.UnixAddr{Name: path, Net: network})
		if err != nil {
			return err
		}
		l.SetUnlinkOnClose(false)
		if c.Before == "stale" {
			l.Close()
		} else {
			live = l
			defer l.Close()
			refuse = true
		}
	case "file":
		if err := os.WriteFile(path, []byte("important"), 0o600); err != nil {
			return err
		}
		refuse = true
	case "dir":
		if err := os.Mkdir(path, 0o700); err != nil {
			return err
		}
		refuse = true
	}
	x.LabelIf(c.Before != "", "path taken: "+c.Before)
	before := openFds()
	s := rdns.NewXSocketServer(path, rdns.XSocketServerOptions{Unrestricted: c.Open, SocketMode: fs.FileMode(c.Mode)})
	if c.Early && !refuse {
		if err := s.Stop(); err != nil {
			return fmt.Errorf("stop before start: %v", err)
		}
	}
	done := make(chan error, 1)
	go func() { done <- s.Start() }()
	if refuse {
		select {
		case err := <-done:
			if err == nil {
				return fmt.Errorf("the server started in place of a %s", c.Before)
			}
		case <-time.After(patience):
			s.Stop()
			return fmt.Errorf("the server started in place of a %s", c.Before)
		}
		switch c.Before {
		case "file":
			if b, err := os.ReadFile(path); err != nil || string(b) != "important" {
				return fmt.Errorf("the server destroyed the file at its path: %q, %v", b, err)
			}
		case "dir":
			if st, err := os.Stat(path); err != nil || !st.IsDir() {
				return fmt.Errorf("the server destroyed the directory at its path")
			}
		default:
			network := "unixpacket"
			if c.Before == "stream" {
				network = "unix"
			}
			k, err := net.Dial(network, path)
			if err != nil {
				return fmt.Errorf("the other server can not be reached any more: %v", err)
			}
			k.Close()
			live.SetDeadline(time.Now().Add(patience))
		}
		x.NonTrivial()
		return nil
	}
	if c.Early {
		select {
		case err := <-done:
			if err != nil {
				return fmt.Errorf("start after stop: %v", err)
			}
		case <-time.After(patience):
			return errors.New("the server was stopped before it started, and runs")
		}
		if k, err := net.Dial("unixpacket", path); err == nil {
			k.Close()
			return errors.New("the server was stopped before it started, and can be reached")
		}
		x.Label("stopped before started")
		return nil
	}
	// connect
	var conns []*net.UnixConn
	for t0 := time.Now(); len(conns) < len(c.Conns); {
		k, err := net.DialUnix("unixpacket", nil, &net.UnixAddr{Name: path, Net: "unixpacket"})
		if err == nil {
			conns = append(conns, k)
			defer k.Close()
			continue
		}
		select {
		case err := <-done:
			return fmt.Errorf("the server did not start: %v", err)
		case <-time.After(time.Millisecond):
		}
		if time.Since(t0) > patience {
			return fmt.Errorf("the server can not be reached: %v", err)
		}
	}
	if c.Mode != 0 && !c.Abstract {
		for t0 := time.Now(); ; time.Sleep(time.Millisecond) { // set just after the socket is there
			st, err := os.Stat(path)
			if err != nil {
				return err
			}
			if st.Mode().Perm() == fs.FileMode(c.Mode) {
				break
			}
			if time.Since(t0) > patience {
				return fmt.Errorf("the socket has mode %v, not %o", st.Mode(), c.Mode)
			}
		}
	}
	// requests, in turns
	closed := make([]bool, len(conns))
	for round := 0; ; round++ {
		some := false
		for i, fc := range c.Conns {
			if round >= len(fc.Reqs) || closed[i] {
				continue
			}
			some = true
			r := fc.Reqs[round]
			if r.Raw != "" {
				b, _ := hex.DecodeString(r.Raw)
				resp, fds, err := fdAsk(conns[i], b)
				if err == nil && len(resp) > 0 || len(fds) > 0 {
					return fmt.Errorf("malformed request %s was answered with %x and descriptors %v", r.Raw, resp, fds)
				}
				if err != nil && errors.Is(err, os.ErrDeadlineExceeded) {
					return fmt.Errorf("connection stays open after the malformed request %s", r.Raw)
				}
				closed[i] = true
				x.Label("malformed")
				continue
			}
			b := make([]byte, 16)
			copy(b, "XS01")
			binary.BigEndian.PutUint32(b[4:], r.Domain)
			binary.BigEndian.PutUint32(b[8:], r.Type)
			binary.BigEndian.PutUint32(b[12:], r.Proto)
			resp, fds, err := fdAsk(conns[i], b)
			if err != nil {
				return fmt.Errorf("request %+v: %v", r, err)
			}
			want, attr := r.want(c.Open)
			if err := checkFd(r, resp, fds, want, attr); err != nil {
				return err
			}
			x.Label("%s", map[bool]string{true: "socket", false: want.Error()}[want == 0])
			x.NonTrivial()
		}
		if !some {
			break
		}
	}
	for _, k := range conns {
		k.Close()
	}
	if err := s.Stop(); err != nil {
		return fmt.Errorf("stop: %v", err)
	}
	select {
	case err := <-done:
		if err != nil {
			return fmt.Errorf("the server ended with %v", err)
		}
	case <-time.After(patience):
		return errors.New("the server does not end when it is stopped")
	}
	if _, err := os.Lstat(path); !c.Abstract && err == nil {
		return errors.New("the socket is left behind")
	}
	for t0 := time.Now(); openFds() > before; time.Sleep(time.Millisecond) {
		if time.Since(t0) > patience {
			return fmt.Errorf("%d open descriptors, %d before", openFds(), before)
		}
	}
	x.LabelIf(c.Open, "unrestricted")
	return nil
}

func checkFd(r FdReq, resp []byte, fds []int, want unix.Errno, attr [3]int) error {
	defer func() {
		for _, f := range fds {
			unix.Close(f)
		}
	}()
	if len(resp) != 8 || string(resp[:4]) != "XS02" {
		return fmt.Errorf("request %+v got response %x", r, resp)
	}
	if got := unix.Errno(binary.BigEndian.Uint32(resp[4:])); got != want {
		return fmt.Errorf("request %+v got error %d (%v), not %d (%v)", r, int(got), got, int(want), want)
	}
	if want != 0 {
		if len(fds) != 0 {
			return fmt.Errorf("request %+v got error %v and a descriptor", r, want)
		}
		return nil
	}
	if len(fds) != 1 {
		return fmt.Errorf("request %+v got %d descriptors", r, len(fds))
	}
	if got := attributes(fds[0]); got != attr {
		return fmt.Errorf("request %+v got a socket of domain, type and protocol %v, not %v", r, got, attr)
	}
	fl, _ := unix.FcntlInt(uintptr(fds[0]), unix.F_GETFL, 0)
	if (fl&unix.O_NONBLOCK != 0) != (r.Type&unix.SOCK_NONBLOCK != 0) {
		return fmt.Errorf("request %+v got a socket with flags %x", r, fl)
	}
	return nil
}

// ---- listeners and resolvers that get their sockets from a server ----

// Remote is a listener or resolver with a socket server which behaves in some
// way.
type Remote struct {
	Proto    string `json:"proto"`
	Listener bool   `json:"listener,omitempty"`
	How      string `json:"how"`
	From     int    `json:"from"` // the first requests are served well
	Local    bool   `json:"local,omitempty"`
	Asks     int    `json:"asks"`
}

func genRemote(t *rapid.T) Remote {
	c := Remote{
		Proto:    kit.Pick(t, "proto", transports...),
		Listener: kit.Chance(t, "listener", 40),
		How:      kit.Pick(t, "how", "good", "good", "deny", "denyfd", "silent", "close", "sig", "short", "nofd", "absent", "twofds"),
		Asks:     kit.Int(t, "asks", 1, 3),
	}
	c.Local = !c.Listener && kit.Chance(t, "local", 30)
	return c
}

func runRemote(x *kit.Ctx, c Remote) error {
	fdMu.Lock()
	defer fdMu.Unlock()
	dir, err := os.MkdirTemp("", "verif-xs")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "s")
	var mu sync.Mutex
	type req struct{ domain, typ, proto uint32 }
	var reqs []req
	var leak []*os.File
	var srv *net.UnixListener
	if c.How != "absent" {
		if srv, err = net.ListenUnix("unixpacket", &net.UnixAddr{Name: path, Net: "unixpacket"}); err != nil {
			return err
		}
		defer srv.Close()
		go func() {
			for {
				k, err := srv.AcceptUnix()
				if err != nil {
					return
				}
				go func() {
					defer k.Close()
					b := make([]byte, 64)
					n, err := k.Read(b)
					if err != nil || n != 16 || string(b[:4]) != "XS01" {
						mu.Lock()
						reqs = append(reqs, req{^uint32(0), 0, 0})
						mu.Unlock()
						return
					}
					r := req{binary.BigEndian.Uint32(b[4:]), binary.BigEndian.Uint32(b[8:]), binary.BigEndian.Uint32(b[12:])}
					mu.Lock()
					reqs = append(reqs, r)
					mu.Unlock()
					resp := []byte("XS02\x00\x00\x00\x00")
					fd := func() int {
						f, err := unix.Socket(int(r.domain), int(r.typ)|unix.SOCK_CLOEXEC, int(r.proto))
						if err != nil {
							panic(err)
						}
						return f
					}
					marker := func() int {
						var p [2]int
						if err := unix.Pipe2(p[:], unix.O_CLOEXEC|unix.O_NONBLOCK); err != nil {
							panic(err)
						}
						mu.Lock()
						leak = append(leak, os.NewFile(uintptr(p[0]), "leak"))
						mu.Unlock()
						return p[1]
					}
					var send []int
					switch c.How {
					case "good":
						send = []int{fd()}
					case "twofds":
						send = []int{fd(), marker()}
					case "deny":
						resp[7] = byte(unix.EACCES)
					case "denyfd":
						resp[7] = byte(unix.EACCES)
						send = []int{marker()}
					case "close":
						return
					case "sig":
						resp[3] = '1'
						send = []int{fd()}
					case "short":
						resp = resp[:7]
						send = []int{fd()}
					case "nofd", "silent":
					}
					var oob []byte
					if send != nil {
						oob = unix.UnixRights(send...)
					}
					k.WriteMsgUnix(resp, oob, nil)
					for _, f := range send {
						unix.Close(f)
					}
				}()
			}
		}()
	}
	good := c.How == "good" || c.How == "twofds"
	ns := &rdns.NetNS{XSocket: path}
	addr, release, err := reserve(here)
	if err != nil {
		return err
	}
	defer release()
	up := kit.Const("up", kit.R{An: []string{"a.test. 60 IN A 192.0.2.1"}})
	lopt := rdns.ListenOptions{}
	if c.Listener {
		lopt.NetNS = ns
	}
	l, err := newListener(c.Proto, "l", addr, lopt, up)
	if err != nil {
		return err
	}
	check := func() error {
		mu.Lock()
		defer mu.Unlock()
		for _, r := range reqs {
			kind := uint32(unix.SOCK_STREAM)
			if datagrams(c.Proto) {
				kind = unix.SOCK_DGRAM
			}
			if r.domain != unix.AF_INET && r.domain != unix.AF_INET6 || r.typ&^(unix.SOCK_CLOEXEC|unix.SOCK_NONBLOCK) != kind {
				return fmt.Errorf("%s asked for a socket of domain %d, type %d, protocol %d", c.Proto, r.domain, r.typ, r.proto)
			}
		}
		for _, f := range leak {
			// The other end is closed by those who do not use it.
			for t0 := time.Now(); ; time.Sleep(time.Millisecond) {
				n, err := syscall.Read(int(f.Fd()), make([]byte, 1))
				if n == 0 && err == nil {
					break
				}
				if time.Since(t0) > patience {
					return fmt.Errorf("a descriptor that came with the response (%s) stays open", c.How)
				}
			}
			f.Close()
		}
		return nil
	}
	x.Label("%s", c.How)
	x.Label("%s", c.Proto)
	x.LabelIf(c.Listener, "listener")
	x.NonTrivial()
	if c.Listener {
		works := good && c.Proto != DTLS
		if !works {
			done := make(chan error, 1)
			go func() { done <- l.Start() }()
			select {
			case err := <-done:
				if err == nil {
					return errors.New("the listener ended without an error, and has no socket")
				}
			case <-time.After(patience):
				go l.Stop()
				return fmt.Errorf("the listener started (%v) although it did not get a socket", bound(addr, datagrams(c.Proto)))
			}
			return check()
		}
	}
	stop, err := start(l, addr, datagrams(c.Proto))
	if err != nil {
		return err
	}
	defer stop()
	r, err := c.client(addr, ns)
	if err != nil {
		if !good && !c.Listener {
			if up.N() != 0 {
				return errors.New("the query bypassed the socket server")
			}
			return check()
		}
		return err
	}
	for i := 0; i < c.Asks; i++ {
		q := kit.Q{Name: "a.test.", Type: dns.TypeA, ID: uint16(i + 1), RD: true}.Msg()
		a, err := r.Resolve(q, rdns.ClientInfo{})
		mu.Lock()
		n := len(reqs)
		mu.Unlock()
		if good {
			if err != nil || a == nil || len(a.Answer) != 1 {
				return fmt.Errorf("query %d of %s with %d sockets from the server: %v, %v", i, c.Proto, n, a, err)
			}
			if n == 0 {
				return errors.New("the query was answered without a socket from the server")
			}
			calls := up.Calls()
			if src := calls[len(calls)-1].CI.SourceIP; c.Local && src.String() != "127.0.0.9" {
				return fmt.Errorf("the query came from %v instead of the local address", src)
			}
		} else if err == nil {
			return fmt.Errorf("query %d was answered without a socket (%s, %d requests)", i, c.How, n)
		}
	}
	if !good && up.N() != 0 {
		return errors.New("the query bypassed the socket server")
	}
	return check()
}

func (c Remote) client(addr string, ns *rdns.NetNS) (rdns.Resolver, error) {
	if c.Listener {
		ns = nil
	}
	var local net.IP
	if c.Local {
		local = net.ParseIP("127.0.0.9")
	}
	tlsc, err := rdns.TLSClientConfig(ourCA().file, "", "", "")
	if err != nil {
		return nil, err
	}
	to := patience
	switch c.Proto {
	case UDP, TCP:
		return rdns.NewDNSClient("c", addr, c.Proto, rdns.DNSClientOptions{LocalAddr: local, QueryTimeout: to, NetNS: ns})
	case DoT:
		return rdns.NewDoTClient("c", addr, rdns.DoTClientOptions{LocalAddr: local, TLSConfig: tlsc, QueryTimeout: to, NetNS: ns})
	case DTLS:
		d, err := rdns.DTLSClientConfig(ourCA().file, "", "")
		if err != nil {
			return nil, err
		}
		return rdns.NewDTLSClient("c", addr, rdns.DTLSClientOptions{LocalAddr: local, DTLSConfig: d, QueryTimeout: to, NetNS: ns})
	case DoQ:
		return rdns.NewDoQClient("c", addr, rdns.DoQClientOptions{LocalAddr: local, TLSConfig: tlsc, QueryTimeout: to, NetNS: ns})
	case DoH:
		return rdns.NewDoHClient("c", "https://"+addr+"/dns-query", rdns.DoHClientOptions{LocalAddr: local, TLSConfig: tlsc, QueryTimeout: to, NetNS: ns})
	}
	return rdns.NewDoHClient("c", "https://"+addr+"/dns-query", rdns.DoHClientOptions{LocalAddr: local, TLSConfig: tlsc, QueryTimeout: to, NetNS: ns, Transport: "quic"})
}
