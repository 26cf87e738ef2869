package script

import (
	"bufio"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"pgregory.net/rapid"

	"verif/kit"
)

const patience = 60 * time.Second

// ---- query log ----

// Logged is a history of queries through a query log.
type Logged struct {
	Format  string   `json:"format"`
	Before  string   `json:"before,omitempty"` // what is in the file
	Reopen  int      `json:"reopen,omitempty"` // a new instance takes over at this query
	Asks    []LogAsk `json:"asks"`
	Mingled bool     `json:"mingled,omitempty"` // all queries at the same time
}

// LogAsk is one query.
type LogAsk struct {
	Q  kit.Q  `json:"q"`
	IP string `json:"ip"`
	R  kit.R  `json:"r"`
}

func genLogAsk(t *rapid.T) LogAsk {
	a := LogAsk{Q: kit.GenQ(t, 0, 4), IP: kit.IP(t)}
	if kit.Chance(t, "two", 15) {
		if a.Q.EDNS == nil {
			a.Q.EDNS = &kit.E{Size: 1232}
		}
		a.Q.EDNS.Opts = append(a.Q.EDNS.Opts, kit.Opt{ECS: kit.GenECS(t)})
	}
	switch kit.Int(t, "outcome", 0, 5) {
	case 0:
		a.R = kit.R{Err: "failed"}
	case 1:
		a.R = kit.R{Nil: true}
	case 2:
		a.R = kit.R{Rcode: kit.Pick(t, "rcode", dns.RcodeNameError, dns.RcodeServerFailure, dns.RcodeRefused, 12)}
	default:
		typ := a.Q.Type
		if typ == dns.TypeANY || typ > 256 {
			typ = dns.TypeTXT
		}
		a.R = kit.R{An: kit.GenRRs(t, "an", strings.ToLower(a.Q.Name), 0, 4, typ, typ, dns.TypeCNAME, dns.TypeA, dns.TypeTXT)}
	}
	return a
}

func genLogged(t *rapid.T) Logged {
	return Logged{
		Format:  kit.Pick(t, "format", "text", "json", ""),
		Before:  kit.Pick(t, "before", "", "earlier line\n"),
		Reopen:  kit.Int(t, "reopen", 0, 4),
		Asks:    kit.List(t, "asks", 1, 6, genLogAsk),
		Mingled: kit.Chance(t, "mingled", 25),
	}
}

// upstream answers with the responses of the queries, which are told apart by
// their IDs.
func upstream(asks []LogAsk) *kit.Up {
	return &kit.Up{ID: "up", F: func(_ int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) { return asks[q.Id].R.Msg(q) }}
}

func (a LogAsk) query(i int) *dns.Msg {
	a.Q.ID = uint16(i)
	return a.Q.Msg()
}

func (a LogAsk) info() rdns.ClientInfo {
	return rdns.ClientInfo{SourceIP: net.ParseIP(a.IP), Listener: "l", Protocol: "udp"}
}

// passed checks that the query and its outcome went through unchanged.
func (a LogAsk) passed(i int, got *dns.Msg, err error, calls []kit.Call) error {
	want, wantErr := a.R.Msg(a.query(i))
	if wantErr != nil {
		if got != nil || err == nil || err.Error() != wantErr.Error() {
			return fmt.Errorf("query %d: got %v, %v instead of the error", i, got, err)
		}
	} else if err != nil {
		return fmt.Errorf("query %d: %v", i, err)
	} else if g, w := kit.Text(got), kit.Text(want); g != w {
		return fmt.Errorf("query %d: the response became\n%s\ninstead of\n%s", i, g, w)
	}
	n := 0
	for _, c := range calls {
		if c.Q.Id != uint16(i) {
			continue
		}
		n++
		if g, w := kit.Text(c.Q), kit.Text(a.query(i)); g != w {
			return fmt.Errorf("query %d became\n%s\ninstead of\n%s", i, g, w)
		}
		if !reflect.DeepEqual(c.CI, a.info()) {
			return fmt.Errorf("query %d: client info became %+v", i, c.CI)
		}
	}
	if n != 1 {
		return fmt.Errorf("query %d was forwarded %d times", i, n)
	}
	return nil
}

// expect lists the fields of the line for a query.
func (a LogAsk) expect(i int) []string {
	q := a.query(i)
	class, typ := dns.Class(q.Question[0].Qclass).String(), dns.TypeToString[q.Question[0].Qtype]
	if typ == "" {
		typ = fmt.Sprintf("TYPE%d", q.Question[0].Qtype)
	}
	out := []string{"source-ip=" + net.ParseIP(a.IP).String(), "question-name=" + q.Question[0].Name, "question-class=" + class, "question-type=" + typ}
	if a.Q.EDNS != nil {
		for _, o := range a.Q.EDNS.Opts {
			if o.ECS != nil {
				out = append(out, "ecs-addr="+net.ParseIP(o.ECS.Addr).String())
			}
		}
	}
	return out
}

// textFields splits a line of key=value pairs, the values of which may be quoted.
func textFields(line string) ([]string, error) {
	var out []string
	for line != "" {
		eq := strings.IndexByte(line, '=')
		if eq < 0 {
			return nil, fmt.Errorf("rest %q", line)
		}
		key := line[:eq]
		rest := line[eq+1:]
		if strings.HasPrefix(rest, `"`) {
			p, err := strconv.QuotedPrefix(rest)
			if err != nil {
				return nil, err
			}
			v, _ := strconv.Unquote(p)
			out = append(out, key+"="+v)
			line = strings.TrimPrefix(rest[len(p):], " ")
			continue
		}
		v, after, _ := strings.Cut(rest, " ")
		out = append(out, key+"="+v)
		line = after
	}
	return out, nil
}

// jsonFields lists the members of an object in order.
func jsonFields(line string) ([]string, error) {
	d := json.NewDecoder(strings.NewReader(line))
	if _, err := d.Token(); err != nil {
		return nil, err
	}
	var out []string
	for d.More() {
		k, err := d.Token()
		if err != nil {
			return nil, err
		}
		v, err := d.Token()
		if err != nil {
			return nil, err
		}
		out = append(out, fmt.Sprintf("%v=%v", k, v))
	}
	return out, nil
}

func runLogged(x *kit.Ctx, c Logged) error {
	dir, err := os.MkdirTemp("", "verif-log")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "q.log")
	if c.Before != "" {
		if err := os.WriteFile(file, []byte(c.Before), 0o600); err != nil {
			return err
		}
	}
	up := upstream(c.Asks)
	open := func() (rdns.Resolver, error) {
		return rdns.NewQueryLogResolver("log", up, rdns.QueryLogResolverOptions{OutputFile: file, OutputFormat: rdns.LogFormat(c.Format)})
	}
	r, err := open()
	if err != nil {
		return err
	}
	t0 := time.Now().Add(-time.Second)
	type result struct {
		m   *dns.Msg
		err error
	}
	res := make([]result, len(c.Asks))
	if c.Mingled {
		var wg sync.WaitGroup
		for i, a := range c.Asks {
			wg.Add(1)
			go func() {
				defer wg.Done()
				res[i].m, res[i].err = r.Resolve(a.query(i), a.info())
			}()
		}
		wg.Wait()
		x.Label("at the same time")
	} else {
		for i, a := range c.Asks {
			if i == c.Reopen && i > 0 {
				if r, err = open(); err != nil {
					return err
				}
				x.Label("opened again")
			}
			res[i].m, res[i].err = r.Resolve(a.query(i), a.info())
		}
	}
	for i, a := range c.Asks {
		if err := a.passed(i, res[i].m, res[i].err, up.Calls()); err != nil {
			return err
		}
	}
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	rest, ok := strings.CutPrefix(string(b), c.Before)
	if !ok {
		return fmt.Errorf("what was in the file is gone:\n%s", b)
	}
	lines := strings.Split(strings.TrimSuffix(rest, "\n"), "\n")
	if len(lines) != len(c.Asks) {
		return fmt.Errorf("%d lines for %d queries:\n%s", len(lines), len(c.Asks), rest)
	}
	left := map[string]int{}
	for i, a := range c.Asks {
		left[strings.Join(a.expect(i), "\x00")]++
	}
	for i, l := range lines {
		fields, err := textFields(l)
		if c.Format == "json" {
			fields, err = jsonFields(l)
		}
		if err != nil || len(fields) < 2 {
			return fmt.Errorf("line %q can not be read: %v", l, err)
		}
		at, ok := strings.CutPrefix(fields[0], "time=")
		when, err := time.Parse(time.RFC3339Nano, at)
		if !ok || err != nil || when.Before(t0) || when.After(time.Now().Add(time.Second)) {
			return fmt.Errorf("line %q does not start with the time", l)
		}
		got := strings.Join(fields[1:], "\x00")
		if !c.Mingled {
			if want := c.Asks[i].expect(i); got != strings.Join(want, "\x00") {
				return fmt.Errorf("line %q has %q, expected %q", l, fields[1:], want)
			}
			continue
		}
		if left[got]--; left[got] < 0 {
			return fmt.Errorf("line %q is of no query", l)
		}
	}
	x.Label("%s", "format "+c.Format)
	x.NonTrivial()
	return nil
}

// ---- syslog ----

// Syslogged is a history of queries with syslog.
type Syslogged struct {
	Network  string   `json:"network"`
	Priority int      `json:"priority"`
	Tag      string   `json:"tag,omitempty"`
	Request  bool     `json:"request,omitempty"`
	Response bool     `json:"response,omitempty"`
	Verbose  bool     `json:"verbose,omitempty"`
	Absent   bool     `json:"absent,omitempty"` // nobody takes the messages
	Asks     []LogAsk `json:"asks"`
}

func genSyslogged(t *rapid.T) Syslogged {
	return Syslogged{
		Network:  kit.Pick(t, "network", "udp", "tcp", "unix", "unixgram"),
		Priority: kit.Int(t, "priority", 0, 7),
		Tag:      kit.Pick(t, "tag", "routedns", "x"),
		Request:  !kit.Chance(t, "noreq", 30), Response: !kit.Chance(t, "noresp", 30), Verbose: kit.Chance(t, "verbose", 40),
		Absent: kit.Chance(t, "absent", 10),
		Asks:   kit.List(t, "asks", 1, 5, genLogAsk),
	}
}

func (c Syslogged) lines() []string {
	var out []string
	for i, a := range c.Asks {
		q := a.query(i)
		qname := q.Question[0].Name
		qtype := dns.TypeToString[q.Question[0].Qtype]
		if qtype == "" {
			qtype = fmt.Sprintf("TYPE%d", q.Question[0].Qtype)
		}
		if c.Request {
			out = append(out, fmt.Sprintf("id=sys qid=%d type=query client=%s qtype=%s qname=%s", i, net.ParseIP(a.IP), qtype, qname))
		}
		m, err := a.R.Msg(q)
		if !c.Response || err != nil || m == nil {
			continue
		}
		if m.Rcode != dns.RcodeSuccess {
			rcode := dns.RcodeToString[m.Rcode]
			if rcode == "" {
				rcode = strconv.Itoa(m.Rcode)
			}
			out = append(out, fmt.Sprintf("id=sys qid=%d type=answer qtype=%s qname=%s rcode=%s", i, qtype, qname, rcode))
			continue
		}
		var rrs []dns.RR
		for _, rr := range m.Answer {
			if c.Verbose || rr.Header().Rrtype == q.Question[0].Qtype {
				rrs = append(rrs, rr)
			}
		}
		for k, rr := range rrs {
			out = append(out, fmt.Sprintf("id=sys qid=%d type=answer answer-num=%d/%d qtype=%s qname=%s answer=%q", i, k+1, len(rrs), qtype, qname, strings.ReplaceAll(rr.String(), "\t", " ")))
		}
		if len(rrs) == 0 {
			out = append(out, fmt.Sprintf("id=sys qid=%d type=answer qtype=%s qname=%s rcode=NODATA", i, qtype, qname))
		}
	}
	return out
}

var syslogHead = regexp.MustCompile(`^<(\d+)>(.*?) ([^ ]+)\[(\d+)\]: (.*)$`)

func runSyslogged(x *kit.Ctx, c Syslogged) error {
	dir, err := os.MkdirTemp("", "verif-sys")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	got := make(chan string, 1000)
	addr := filepath.Join(dir, "s")
	scan := func(k net.Conn) {
		s := bufio.NewScanner(k)
		s.Buffer(nil, 1<<20)
		for s.Scan() {
			got <- s.Text()
		}
	}
	switch c.Network {
	case "udp", "unixgram":
		a := addr
		if c.Network == "udp" {
			a = "127.0.0.1:0"
		}
		k, err := net.ListenPacket(c.Network, a)
		if err != nil {
			return err
		}
		defer k.Close()
		if c.Network == "udp" {
			addr = k.LocalAddr().String()
		}
		if c.Absent {
			k.Close()
			break
		}
		go func() {
			b := make([]byte, 65536)
			for {
				n, _, err := k.ReadFrom(b)
				if err != nil {
					return
				}
				got <- strings.TrimSuffix(string(b[:n]), "\n")
			}
		}()
	default:
		a := addr
		if c.Network == "tcp" {
			a = "127.0.0.1:0"
		}
		l, err := net.Listen(c.Network, a)
		if err != nil {
			return err
		}
		defer l.Close()
		addr = l.Addr().String()
		if c.Absent {
			l.Close()
			break
		}
		go func() {
			for {
				k, err := l.Accept()
				if err != nil {
					return
				}
				defer k.Close()
				go scan(k)
			}
		}()
	}
	up := upstream(c.Asks)
	r := rdns.NewSyslog("sys", up, rdns.SyslogOptions{Network: c.Network, Address: addr, Priority: c.Priority, Tag: c.Tag, LogRequest: c.Request, LogResponse: c.Response, Verbose: c.Verbose})
	for i, a := range c.Asks {
		m, err := r.Resolve(a.query(i), a.info())
		if err := a.passed(i, m, err, up.Calls()[i:]); err != nil {
			return err
		}
	}
	x.Label("%s", c.Network)
	if c.Absent {
		x.Label("no server")
		return nil
	}
	want := c.lines()
	for i, w := range want {
		select {
		case g := <-got:
			f := syslogHead.FindStringSubmatch(g)
			if f == nil {
				return fmt.Errorf("message %q is not understood", g)
			}
			if p, _ := strconv.Atoi(f[1]); p != c.Priority {
				return fmt.Errorf("message %q has priority %d instead of %d", g, p, c.Priority)
			}
			if f[3] != c.Tag {
				return fmt.Errorf("message %q has another tag than %q", g, c.Tag)
			}
			if f[5] != w {
				return fmt.Errorf("message %d is\n%q, expected\n%q", i, f[5], w)
			}
		case <-time.After(patience):
			return fmt.Errorf("message %d is missing: %q", i, w)
		}
	}
	select {
	case g := <-got:
		return fmt.Errorf("one message too many: %q", g)
	default:
	}
	x.LabelIf(c.Verbose, "verbose")
	if len(want) > 0 {
		x.NonTrivial()
	}
	return nil
}
