package modify

import (
	"fmt"
	"net"
	"os"
	"strings"
	"syscall"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"pgregory.net/rapid"

	"verif/kit"
)

// Probe is a response with addresses on which a server answers at once, after
// a second or never, or refuses connections.
type Probe struct {
	WaitAll bool     `json:"wait_all,omitempty"`
	TTLMin  uint32   `json:"ttl_min,omitempty"`
	Q       kit.Q    `json:"q"`
	Records []Record `json:"records"`
	Rcode   int      `json:"rcode,omitempty"`
	Nil     bool     `json:"nil,omitempty"`
	Err     string   `json:"err,omitempty"`
}

// Record is a record of the response: an A record with a server that is
// "fast", "slow", "dead" or does "refuse", or one of another type.
type Record struct {
	Kind string `json:"kind"`
	TTL  uint32 `json:"ttl"`
}

func (r Record) addr() bool { return r.Kind != "CNAME" && r.Kind != "AAAA" }

const maxProbes = 32

func genProbe(slow bool) func(t *rapid.T) Probe {
	return func(t *rapid.T) Probe {
		c := Probe{WaitAll: kit.Chance(t, "waitall", 60), TTLMin: kit.Pick[uint32](t, "ttlmin", 0, 1, 100, 1800)}
		c.Q = genQuery(t, dns.TypeA)
		kinds := []string{"fast", "fast", "fast", "refuse", "CNAME", "AAAA", "fast"}
		if kit.Chance(t, "good", 60) {
			kinds = []string{"fast", "fast", "fast", "CNAME", "fast", "AAAA"}
		}
		hi := 8
		if slow {
			c.Q.Type = dns.TypeA
			kinds = []string{"slow", "fast", "CNAME"}
			if kit.Chance(t, "bad", 25) {
				kinds = append(kinds, "dead")
			}
		} else if kit.Chance(t, "many", 8) {
			hi = 45
		}
		c.Records = kit.List(t, "records", 1, hi, func(t *rapid.T) Record {
			return Record{kit.Pick(t, "kind", kinds...), kit.TTL(t)}
		})
		for hi == 45 && len(c.Records) < 36 {
			c.Records = append(c.Records, Record{"fast", 5})
		}
		switch kit.Int(t, "outcome", 0, 25) {
		case 0:
			c.Nil = true
		case 1:
			c.Err = "upstream failed"
		case 2:
			c.Rcode = 3
		}
		return c
	}
}

type server struct {
	ip   string
	kind string
	fd   int
	held net.Conn // fills the queue of a server that does not accept
	got  int      // what was accepted
}

func (s *server) close() {
	if s.held != nil {
		s.held.Close()
	}
	if s.got > 0 {
		syscall.Close(s.got)
	}
	if s.fd > 0 {
		syscall.Close(s.fd)
	}
}

// listen opens the server's socket. With a backlog of zero the kernel takes
// one connection and lets later ones wait until that is accepted.
func (s *server) listen(port int) (int, error) {
	backlog := 64
	if s.kind != "fast" {
		backlog = 0
	}
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return 0, err
	}
	s.fd = fd
	sa := &syscall.SockaddrInet4{Port: port}
	copy(sa.Addr[:], net.ParseIP(s.ip).To4())
	if err := syscall.Bind(fd, sa); err != nil {
		return 0, err
	}
	if err := syscall.Listen(fd, backlog); err != nil {
		return 0, err
	}
	name, err := syscall.Getsockname(fd)
	if err != nil {
		return 0, err
	}
	port = name.(*syscall.SockaddrInet4).Port
	if backlog == 0 {
		s.held, err = net.DialTimeout("tcp4", fmt.Sprintf("%s:%d", s.ip, port), 5*time.Second)
	}
	return port, err
}

// servers opens all servers on the same port of addresses of their own.
func (c Probe) servers() (list []*server, port int, err error) {
	for try := 0; try < 10; try++ {
		list, port, err = nil, 0, nil
		for i, r := range c.Records {
			s := &server{ip: fmt.Sprintf("127.%d.%d.%d", 10+i, os.Getpid()%250, 1+os.Getpid()/250%250), kind: r.Kind}
			list = append(list, s)
			if r.Kind != "fast" && r.Kind != "slow" && r.Kind != "dead" {
				continue
			}
			if port, err = s.listen(port); err != nil {
				break
			}
		}
		if err == nil {
			break
		}
		for _, s := range list {
			s.close()
		}
	}
	if port == 0 {
		port = 1
	}
	return list, port, err
}

func runProbe(x *kit.Ctx, c Probe) error {
	list, port, err := c.servers()
	if err != nil {
		x.Label("no servers: %s", err.Error())
		return nil
	}
	defer func() {
		for _, s := range list {
			s.close()
		}
	}()
	mk := func(q *dns.Msg) (*dns.Msg, error) {
		r := kit.R{Err: c.Err, Nil: c.Nil, Rcode: c.Rcode, RA: true, Ns: []string{"test. 5 IN NS ns.test."}}
		for i, rec := range c.Records {
			switch rec.Kind {
			case "CNAME":
				r.An = append(r.An, fmt.Sprintf("x.test. %d IN CNAME y%d.test.", rec.TTL, i))
			case "AAAA":
				r.An = append(r.An, fmt.Sprintf("x.test. %d IN AAAA ::ffff:0:%x", rec.TTL, i))
			default:
				r.An = append(r.An, fmt.Sprintf("x.test. %d IN A %s", rec.TTL, list[i].ip))
			}
		}
		return r.Msg(q)
	}
	up := &kit.Up{ID: "up", F: func(_ int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) { return mk(q) }}
	r := rdns.NewFastestTCP("tcp", up, rdns.FastestTCPOptions{Port: port, WaitAll: c.WaitAll, SuccessTTLMin: c.TTLMin})
	q := c.Q.Msg()
	want, werr := mk(q)
	before := kit.Text(q)
	count := map[string]int{}
	probed := 0
	for _, rec := range c.Records {
		if rec.addr() && probed < maxProbes {
			count[rec.Kind]++
			probed++
		}
	}
	// Slow servers accept a little later; the client's kernel tries again
	// after a second.
	released := make(chan bool)
	go func() {
		defer close(released)
		if count["slow"] == 0 {
			return
		}
		time.Sleep(300 * time.Millisecond)
		for _, s := range list {
			if s.kind == "slow" {
				if fd, _, err := syscall.Accept(s.fd); err == nil {
					s.got = fd
				}
			}
		}
	}()
	got, gerr := r.Resolve(q, rdns.ClientInfo{})
	<-released
	if kit.Text(q) != before || up.N() != 1 || kit.Text(up.Calls()[0].Q) != before {
		return fmt.Errorf("the query was not passed on once as it is")
	}
	if !sameErr(gerr, werr) {
		return fmt.Errorf("error %v, want %v", gerr, werr)
	}
	if werr != nil || kit.Text(got) == kit.Text(want) {
		switch {
		case werr != nil, want == nil, c.Q.Type != dns.TypeA, probed < 2:
			return nil
		case count["refuse"] > 0, c.WaitAll && count["dead"] > 0, count["fast"]+count["slow"] == 0:
			x.Label("left alone after a failure")
			return nil
		}
	}
	if want == nil || got == nil || c.Q.Type != dns.TypeA || probed < 2 {
		return fmt.Errorf("got\n%s\nwant it unchanged:\n%s", kit.Text(got), kit.Text(want))
	}
	bad := ""
	switch {
	case c.WaitAll && count["refuse"]+count["dead"] > 0:
		bad = "although a probe failed"
	case count["fast"] == 0 && count["refuse"] > 0:
		bad = "although the first result was a failure"
	case count["fast"]+count["slow"] == 0:
		bad = "although no probe succeeded"
	}
	if bad != "" {
		return fmt.Errorf("response was changed %s (%v) to\n%s", bad, count, kit.Text(got))
	}
	// The probed records, with raised TTLs, in any order; all else as it was.
	g, w := got.Copy(), want.Copy()
	g.Answer, w.Answer = nil, nil
	if kit.Text(g) != kit.Text(w) || len(got.Answer) != len(want.Answer) {
		return fmt.Errorf("more than the order was changed:\n%s\nto\n%s", kit.Text(want), kit.Text(got))
	}
	kinds := map[string]string{}
	for _, s := range list {
		kinds[s.ip] = s.kind
	}
	var order []string
	n := 0
	var gs, ws []dns.RR
	for i, rr := range want.Answer {
		if c.Records[i].addr() && n < maxProbes {
			n++
			if rr.Header().Ttl < c.TTLMin {
				rr.Header().Ttl = c.TTLMin
			}
			gs, ws = append(gs, got.Answer[i]), append(ws, rr)
			if a, ok := got.Answer[i].(*dns.A); ok {
				order = append(order, kinds[a.A.String()])
			}
		} else if kit.RRText(rr) != kit.RRText(got.Answer[i]) {
			return fmt.Errorf("record %d was changed:\n%s\nto\n%s", i, kit.Text(want), kit.Text(got))
		}
	}
	if a, b := strings.Join(kit.SortedTexts(gs), "\n"), strings.Join(kit.SortedTexts(ws), "\n"); a != b {
		return fmt.Errorf("address records\n%s\nwant in any order\n%s", a, b)
	}
	x.NonTrivial()
	x.LabelIf(count["slow"] > 0 && count["fast"] > 0, "fast and slow servers")
	x.LabelIf(len(ws) == maxProbes, "more than can be probed")
	if count["fast"] > 0 && order[0] != "fast" || count["fast"] == 0 && order[0] != "slow" {
		return fmt.Errorf("order of servers is %v", order)
	}
	if c.WaitAll {
		for i := 1; i < len(order); i++ {
			if order[i] == "fast" && order[i-1] == "slow" {
				return fmt.Errorf("order of servers is %v", order)
			}
		}
	}
	return nil
}
