// Package routing checks routers and the rate limiter.
package routing

import (
	"fmt"
	"net"
	"reflect"
	"regexp"
	"slices"
	"strings"
	"time"
	_ "time/tzdata" // for zones with daylight saving

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"pgregory.net/rapid"

	"verif/kit"
)

// Route is a route as configured.
type Route struct {
	Name     string   `json:"name,omitempty"`
	Class    string   `json:"class,omitempty"`
	Types    []string `json:"types,omitempty"`
	Weekdays []string `json:"weekdays,omitempty"`
	Before   string   `json:"before,omitempty"`
	After    string   `json:"after,omitempty"`
	Source   string   `json:"source,omitempty"`
	ECS      string   `json:"ecs,omitempty"`
	Path     string   `json:"path,omitempty"`
	Listener string   `json:"listener,omitempty"`
	Server   string   `json:"server,omitempty"`
	Invert   bool     `json:"invert,omitempty"`
	To       int      `json:"to"`
}

// Ask is a query at some time.
type Ask struct {
	Wait     int    `json:"wait"` // seconds since the one before
	Q        kit.Q  `json:"q"`
	Client   string `json:"client,omitempty"`
	Path     string `json:"path,omitempty"`
	Listener string `json:"listener,omitempty"`
	Server   string `json:"server,omitempty"`
}

// Router is a router and queries.
type Router struct {
	Routes []Route `json:"routes"`
	Zone   string  `json:"zone"`
	Asks   []Ask   `json:"asks"`
	Rs     []kit.R `json:"rs"` // what the resolvers answer
}

var days = []string{"sun", "mon", "tue", "wed", "thu", "fri", "sat"}

func minutes(s string) int {
	var h, m int
	if strings.Contains(s, ":") {
		fmt.Sscanf(s, "%d:%d", &h, &m)
	} else {
		fmt.Sscanf(s, "%d", &h)
	}
	return h*60 + m
}

// valid says whether the route can be configured.
func (r Route) valid() bool {
	for _, t := range r.Types {
		if _, ok := dns.StringToType[strings.ToUpper(t)]; !ok {
			return false
		}
	}
	for _, d := range r.Weekdays {
		if !slices.Contains(days, d) {
			return false
		}
	}
	for _, s := range []string{r.Before, r.After} {
		if s != "" && !regexp.MustCompile(`^([01]?[0-9]|2[0-3])(:[0-5]?[0-9])?$`).MatchString(s) {
			return false
		}
	}
	for _, s := range []string{r.Source, r.ECS} {
		if s != "" {
			if _, _, err := net.ParseCIDR(s); err != nil {
				return false
			}
		}
	}
	for _, s := range []string{r.Name, r.Path, r.Listener, r.Server} {
		if _, err := regexp.Compile(s); err != nil {
			return false
		}
	}
	return slices.Contains([]string{"", "IN", "INET", "CH", "HS", "NONE", "ANY"}, strings.ToUpper(r.Class))
}

var classes = map[string]uint16{"IN": 1, "INET": 1, "CH": 3, "HS": 4, "NONE": 254, "ANY": 255}

// match is the model of a route.
func (r Route) match(a Ask, now time.Time) bool {
	ok := true
	also := func(c bool) { ok = ok && c }
	class := a.Q.Class
	if class == 0 {
		class = dns.ClassINET
	}
	if len(r.Types) > 0 {
		in := false
		for _, t := range r.Types {
			in = in || dns.StringToType[strings.ToUpper(t)] == a.Q.Type
		}
		also(in)
	}
	if r.Class != "" {
		also(classes[strings.ToUpper(r.Class)] == class)
	}
	also(regexp.MustCompile(r.Name).MatchString(a.Q.Name))
	also(regexp.MustCompile(r.Path).MatchString(a.Path))
	also(regexp.MustCompile(r.Listener).MatchString(a.Listener))
	also(regexp.MustCompile(r.Server).MatchString(a.Server))
	in := func(n string, ip net.IP) bool {
		_, c, _ := net.ParseCIDR(n)
		return ip != nil && c.Contains(ip)
	}
	if r.Source != "" {
		also(in(r.Source, net.ParseIP(a.Client)))
	}
	if r.ECS != "" {
		var ip net.IP
		if a.Q.EDNS != nil {
			for _, o := range a.Q.EDNS.Opts { // the last one counts
				if o.ECS != nil {
					ip = net.ParseIP(o.ECS.Addr)
				}
			}
		}
		also(in(r.ECS, ip))
	}
	if len(r.Weekdays) > 0 {
		also(slices.Contains(r.Weekdays, days[now.Weekday()]))
	}
	t := now.Hour()*60 + now.Minute()
	if r.Before != "" {
		also(t < minutes(r.Before))
	}
	if r.After != "" {
		also(t >= minutes(r.After))
	}
	return ok != r.Invert
}

func runRouter(x *kit.Ctx, c Router) error {
	loc, err := time.LoadLocation(c.Zone)
	if err != nil {
		return err
	}
	old := time.Local
	time.Local = loc
	defer func() { time.Local = old }()
	var ups []*kit.Up
	for i, r := range c.Rs {
		ups = append(ups, kit.Const(fmt.Sprintf("r%d", i), r))
	}
	rt := rdns.NewRouter("router")
	for i, r := range c.Routes {
		n, err := rdns.NewRoute(r.Name, r.Class, r.Types, r.Weekdays, r.Before, r.After, r.Source, r.ECS, r.Path, r.Listener, r.Server, ups[r.To])
		if !r.valid() {
			x.Label("invalid route")
			if err == nil {
				return fmt.Errorf("invalid route %d was accepted", i)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("valid route %d was rejected: %v", i, err)
		}
		n.Invert(r.Invert)
		rt.Add(n)
	}
	return kit.Bubble(x, func() error {
		for i, a := range c.Asks {
			time.Sleep(time.Duration(a.Wait) * time.Second)
			want := -1
			for k, r := range c.Routes {
				if r.match(a, time.Now().In(loc)) {
					want = k
					break
				}
			}
			q := a.Q.Msg()
			ci := rdns.ClientInfo{SourceIP: net.ParseIP(a.Client), DoHPath: a.Path, Listener: a.Listener, TLSServerName: a.Server}
			if v4 := ci.SourceIP.To4(); v4 != nil && i%2 == 0 {
				ci.SourceIP = v4
			}
			var before []int
			for _, u := range ups {
				before = append(before, u.N())
			}
			got, err := rt.Resolve(q, ci)
			if kit.Text(q) != kit.Text(a.Q.Msg()) {
				return fmt.Errorf("query %d was changed", i)
			}
			for k, u := range ups {
				n := 0
				if want >= 0 && c.Routes[want].To == k {
					n = 1
				}
				if u.N()-before[k] != n {
					return fmt.Errorf("query %d at %s: resolver %d got %d queries, expected %d (route %d should match)",
						i, time.Now().In(loc).Format("Mon 15:04:05"), k, u.N()-before[k], n, want)
				}
				if n == 1 {
					call := u.Calls()[before[k]]
					if kit.Text(call.Q) != kit.Text(q) || !reflect.DeepEqual(call.CI, ci) {
						return fmt.Errorf("query %d was not passed on as it was", i)
					}
				}
			}
			if want < 0 {
				x.Label("no route")
				if err == nil {
					return fmt.Errorf("query %d matches no route but got\n%s", i, kit.Text(got))
				}
				continue
			}
			if want > 0 || len(c.Routes) > 1 && !c.Routes[1].match(a, time.Now().In(loc)) {
				x.NonTrivial()
			}
			x.Label("route %d", want)
			m, werr := c.Rs[c.Routes[want].To].Msg(q)
			if (err == nil) != (werr == nil) || kit.Text(got) != kit.Text(m) {
				return fmt.Errorf("query %d: got\n%s (%v), the resolver answered\n%s (%v)", i, kit.Text(got), err, kit.Text(m), werr)
			}
		}
		return nil
	})
}

func genTime(t *rapid.T) string {
	return fmt.Sprintf(kit.Pick(t, "fmt", "%02d:%02d", "%02d:%02d", "%d:%d"), kit.Pick(t, "h", 0, 9, 10, 12, 17, 23), kit.Pick(t, "m", 0, 1, 30, 59))
}

func genRoute(t *rapid.T, resolvers int) Route {
	r := Route{To: kit.Int(t, "to", 0, resolvers-1), Invert: kit.Chance(t, "invert", 25)}
	n := kit.Pick(t, "conditions", 1, 1, 1, 2, 2, 3, 4, 0)
	for i := 0; i < n; i++ {
		switch kit.Int(t, "cond", 0, 11) {
		case 0, 1:
			r.Name = kit.Pick(t, "name", `(^|\.)b\.com\.$`, `^a\.`, `(?i)^A\.`, `\.test\.$`, `^www`, `com`, `^\.$`)
		case 2, 3:
			r.Types = kit.List(t, "types", 1, 3, func(t *rapid.T) string { return kit.Pick(t, "type", "A", "AAAA", "mx", "TXT", "Ptr", "HTTPS") })
		case 4:
			r.Class = kit.Pick(t, "class", "IN", "INET", "ch", "ANY", "HS", "none")
		case 5:
			r.Source = kit.Pick(t, "source", "192.168.0.0/16", "10.0.0.0/8", "192.168.1.0/25", "2001:db8::/32", "0.0.0.0/0", "10.0.0.7/32", "::/0", "192.168.1.77/24")
		case 6:
			r.ECS = kit.Pick(t, "ecssource", "192.168.0.0/16", "10.0.0.0/8", "192.168.1.0/25", "2001:db8::/32", "0.0.0.0/0")
		case 7:
			r.Path = kit.Pick(t, "path", "^/dns-query$", "dns", "^$", "(?i)/P")
		case 8:
			r.Listener = kit.Pick(t, "listener", "^l1$", "l", "dot", "^$")
		case 9:
			r.Server = kit.Pick(t, "server", `^a\.test$`, `test`, "^$")
		case 10:
			r.Weekdays = kit.List(t, "weekdays", 1, 4, func(t *rapid.T) string { return kit.Pick(t, "day", days...) })
		case 11:
			if k := kit.Int(t, "times", 0, 2); k != 1 {
				r.Before = genTime(t)
			} else {
				r.After = genTime(t)
			}
			if kit.Chance(t, "both", 30) {
				r.After, r.Before = genTime(t), genTime(t)
			}
		}
	}
	if kit.Chance(t, "bad", 1) {
		switch kit.Int(t, "badkind", 0, 7) {
		case 0:
			r.Types = append(r.Types, kit.Pick(t, "badtype", "FOO", "", "A "))
		case 1:
			r.Class = "XX"
		case 2:
			r.Weekdays = append(r.Weekdays, kit.Pick(t, "badday", "monday", "Mon", ""))
		case 3:
			r.Before = kit.Pick(t, "badtime", "24:00", "12:60", "x", "-1:00", "12:-1", "12:x", ":30")
		case 4:
			r.After = kit.Pick(t, "badtime", "24:00", "12:60", "x", "-1:00", "12:-1", "12:x", ":30")
		case 5:
			r.Source = kit.Pick(t, "badnet", "10.0.0.1", "10.0.0.0/33", "x")
		case 6:
			r.ECS = kit.Pick(t, "badnet", "10.0.0.1", "10.0.0.0/33", "x")
		case 7:
			r.Name = "("
		}
	}
	return r
}

func genRouter(t *rapid.T) Router {
	c := Router{Zone: kit.Pick(t, "zone", "UTC", "America/New_York", "Asia/Kolkata", "Pacific/Auckland")}
	n := kit.Int(t, "resolvers", 1, 4)
	for i := 0; i < n; i++ {
		r := kit.R{An: []string{fmt.Sprintf("who.test. 60 IN TXT \"%d\"", i)}}
		switch kit.Int(t, "answer", 0, 9) {
		case 8:
			r = kit.R{Nil: true}
		case 9:
			r = kit.R{Err: "failed"}
		}
		c.Rs = append(c.Rs, r)
	}
	c.Routes = kit.List(t, "routes", 0, 6, func(t *rapid.T) Route { return genRoute(t, n) })
	if kit.Chance(t, "default", 60) {
		c.Routes = append(c.Routes, Route{To: kit.Int(t, "to", 0, n-1)})
	}
	c.Asks = kit.List(t, "asks", 1, 8, func(t *rapid.T) Ask {
		a := Ask{Q: kit.GenQ(t, 0, 3), Wait: kit.Pick(t, "wait", 0, 0, 1, 59, 60, 1800, 3600, 8*3600+59, 86400, 3*86400+7200, 100*86400) + 60*kit.Int(t, "more", 0, 120)}
		if kit.Chance(t, "ecs2", 15) && a.Q.EDNS != nil {
			a.Q.EDNS.Opts = append(a.Q.EDNS.Opts, kit.Opt{ECS: kit.GenECS(t)})
		}
		a.Q.Class = kit.Pick[uint16](t, "class", 0, 0, 0, 3, 4, 254, 255)
		a.Client = kit.Pick(t, "client", "192.168.1.1", "192.168.1.200", "10.0.0.7", "10.0.0.8", "2001:db8::1", "fe80::1", "::1", "")
		a.Path = kit.Pick(t, "path", "", "/dns-query", "/p")
		a.Listener = kit.Pick(t, "listener", "l1", "l2", "dot-1", "")
		a.Server = kit.Pick(t, "server", "", "a.test", "b.test")
		return a
	})
	return c
}

// ---- rate limiter ----

// Burst is a number of queries sent at once.
type Burst struct {
	Wait   int    `json:"wait"` // milliseconds since the one before
	Client string `json:"client,omitempty"`
	N      int    `json:"n"`
}

// Limit is a rate limiter and its use.
type Limit struct {
	Requests uint    `json:"requests"`
	Window   uint    `json:"window"`
	P4       uint8   `json:"p4"`
	P6       uint8   `json:"p6"`
	Alt      bool    `json:"alt,omitempty"` // there is a limit-resolver
	Bursts   []Burst `json:"bursts"`
}

func runLimit(x *kit.Ctx, c Limit) error {
	up := kit.Const("up", kit.R{An: []string{"who.test. 60 IN TXT \"up\""}})
	alt := kit.Const("alt", kit.R{Rcode: dns.RcodeRefused})
	opt := rdns.RateLimiterOptions{Requests: c.Requests, Window: c.Window, Prefix4: c.P4, Prefix6: c.P6}
	if c.Alt {
		opt.LimitResolver = alt
	}
	window, p4, p6 := int64(c.Window), int(c.P4), int(c.P6)
	if window == 0 {
		window = 60
	}
	if p4 == 0 {
		p4 = 24
	}
	if p6 == 0 {
		p6 = 56
	}
	return kit.Bubble(x, func() error {
		l := rdns.NewRateLimiter("limit", up, opt)
		used := map[string]uint{}
		for i, b := range c.Bursts {
			time.Sleep(time.Duration(b.Wait) * time.Millisecond)
			ip := net.ParseIP(b.Client)
			key := fmt.Sprint(time.Now().Unix()/window) + " "
			if v4 := ip.To4(); v4 != nil {
				key += v4.Mask(net.CIDRMask(p4, 32)).String()
			} else if ip != nil {
				key += ip.Mask(net.CIDRMask(p6, 128)).String()
			}
			ci := rdns.ClientInfo{SourceIP: ip, Listener: "l"}
			nUp, nAlt := up.N(), alt.N()
			type result struct {
				a   *dns.Msg
				err error
			}
			results := make(chan result, b.N)
			for k := 0; k < b.N; k++ {
				q := new(dns.Msg)
				q.SetQuestion(fmt.Sprintf("q%d.test.", k), dns.TypeA)
				go func() {
					a, err := l.Resolve(q, ci)
					results <- result{a, err}
				}()
			}
			passed, refused, dropped := 0, 0, 0
			for k := 0; k < b.N; k++ {
				switch r := <-results; {
				case r.err != nil:
					return fmt.Errorf("burst %d: error %v", i, r.err)
				case r.a == nil:
					dropped++
				case r.a.Rcode == dns.RcodeRefused:
					refused++
				default:
					passed++
				}
			}
			want := 0
			if c.Requests > used[key] {
				want = min(int(c.Requests-used[key]), b.N)
			}
			used[key] += uint(b.N)
			over := b.N - want
			if over > 0 && want > 0 {
				x.Label("limit reached within a burst")
			}
			if over > 0 {
				x.NonTrivial()
			}
			wantRefused, wantDropped := 0, over
			if c.Alt {
				wantRefused, wantDropped = over, 0
			}
			if passed != want || refused != wantRefused || dropped != wantDropped || up.N()-nUp != want || alt.N()-nAlt != wantRefused {
				return fmt.Errorf("burst %d of %d from %s: %d passed, %d went to the limit-resolver, %d were dropped; expected %d, %d and %d",
					i, b.N, b.Client, passed, refused, dropped, want, wantRefused, wantDropped)
			}
			for _, call := range append(up.Calls()[nUp:], alt.Calls()[nAlt:]...) {
				if !reflect.DeepEqual(call.CI, ci) {
					return fmt.Errorf("client information was changed")
				}
			}
		}
		return nil
	})
}

func genLimit(t *rapid.T) Limit {
	c := Limit{
		Requests: uint(kit.Pick(t, "requests", 1, 2, 3, 5, 10, 0)),
		Window:   uint(kit.Pick(t, "window", 0, 1, 2, 10, 60, 61, 3600, 1<<32)),
		P4:       kit.Pick[uint8](t, "p4", 0, 8, 16, 24, 25, 32),
		P6:       kit.Pick[uint8](t, "p6", 0, 32, 48, 56, 64, 128),
		Alt:      kit.Chance(t, "alt", 40),
	}
	w := int(c.Window)
	if w == 0 || w > 3600 {
		w = 60
	}
	c.Bursts = kit.List(t, "bursts", 2, 14, func(t *rapid.T) Burst {
		client := ""
		if !kit.Chance(t, "unknown", 4) {
			client = kit.Pick(t, "client", "192.0.2.1", "192.0.2.1", "192.0.2.2", "192.0.2.129", "192.0.3.1", "192.1.2.1", "193.0.2.1", "2001:db8::1", "2001:db8::2",
				"2001:db8:0:0:1::1", "2001:db8:0:1::1", "2001:db8:0:100::1", "2001:db8:1::1", "2001:db9::1", "::192.0.2.1")
		}
		return Burst{
			Wait:   kit.Pick(t, "wait", 0, 0, 0, 1, 500, 999, 1000, w*1000, w*1000-1, w*500, w*2000),
			Client: client,
			N:      kit.Int(t, "n", 1, 6),
		}
	})
	return c
}
