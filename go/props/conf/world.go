package conf

import (
	"bufio"
	"fmt"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"

	"verif/props/cache"
	"verif/props/filter"
	"verif/props/wire"
)

func must[T any](v T, err error) T {
	if err != nil {
		panic(fmt.Sprintf("verif: %v", err))
	}
	return v
}

const probePort = 9990

// world is what all cases use.
type environment struct {
	lists, web, program string
	syslog, redis       [2]string
	redisUnix           [2]string
	noBind              bool // sockets can not be bound to interfaces
}

var syslogHead = regexp.MustCompile(`^<(\d+)>.*? ([^ ]+)\[\d+\]: (.*)$`)

var world = sync.OnceValue(func() environment {
	e := environment{program: os.Getenv("VK_ROUTEDNS")}
	if e.program == "" {
		panic("verif: VK_ROUTEDNS is not set")
	}
	e.lists = filepath.Join(wire.Scratch(), "lists")
	must(0, os.MkdirAll(e.lists, 0o755))
	for name, text := range lists {
		must(0, os.WriteFile(filepath.Join(e.lists, name), []byte(text), 0o644))
	}
	geo := must(filter.WriteMMDB(e.lists, []filter.GeoNet{
		{Net: "127.210.0.0/17", Continent: 100, Country: 200, ASN: 64501},
		{Net: "127.210.128.0/17", Continent: 100, Country: 201, City: 303},
		{Net: "127.220.0.0/16", Continent: 101, Country: 200, City: 404, ASN: 64502},
		{Net: "127.0.0.0/30", Continent: 100, Country: 303, ASN: 64501},
		{Net: "2001:db8::/33", Continent: 100, ASN: 64502},
	}))
	must(0, os.Rename(geo, filepath.Join(e.lists, "geo.mmdb")))

	// Package filter has a web of its own.
	http.DefaultTransport, http.DefaultClient = &http.Transport{}, &http.Client{}
	l := must(net.Listen("tcp", ownIP[0]+":9980"))
	go http.Serve(l, http.FileServer(http.Dir(e.lists)))
	e.web = "http://" + l.Addr().String()
	for k := range 2 {
		k := side(k)
		e.syslog[k] = ownIP[k] + ":9981"
		u := must(net.ListenPacket("udp", e.syslog[k]))
		go func() {
			b := make([]byte, 65536)
			for {
				n, _, err := u.ReadFrom(b)
				if err != nil {
					return
				}
				syslogged(k, "udp", string(b[:n]))
			}
		}()
		t := must(net.Listen("tcp", e.syslog[k]))
		go func() {
			for {
				c, err := t.Accept()
				if err != nil {
					return
				}
				go func() {
					for s := bufio.NewScanner(c); s.Scan(); {
						syslogged(k, "tcp", s.Text())
					}
				}()
			}
		}()
		e.redis[k] = ownIP[k] + ":9982"
		e.redisUnix[k] = filepath.Join(wire.Scratch(), fmt.Sprint("redis", k))
		for _, l := range []net.Listener{must(net.Listen("tcp", e.redis[k])), must(net.Listen("unix", e.redisUnix[k]))} {
			go cache.ServeRedis(l, func(args []string) {
				n := 2
				switch strings.ToLower(args[0]) {
				case "auth", "hello":
					n = len(args)
				case "client", "ping", "command":
					n = 1
				}
				stored.note(k, l.Addr().Network()+" "+strings.Join(args[:min(n, len(args))], " "))
			})
		}
		go serveSocks(k, must(net.Listen("tcp", fmt.Sprintf("%s:%d", upIP[k], socksPort))))
		p := must(net.Listen("tcp", fmt.Sprintf("%s:%d", upIP[k], probePort)))
		go func() {
			for {
				c, err := p.Accept()
				if err != nil {
					return
				}
				c.Close()
			}
		}()
	}
	d := net.Dialer{Control: func(_, _ string, c syscall.RawConn) (err error) {
		c.Control(func(fd uintptr) {
			err = syscall.SetsockoptString(int(fd), syscall.SOL_SOCKET, syscall.SO_BINDTODEVICE, "lo")
		})
		return err
	}}
	if c, err := d.Dial("tcp", l.Addr().String()); err != nil {
		e.noBind = true
	} else {
		c.Close()
	}
	return e
})

func syslogged(k side, network, s string) {
	if m := syslogHead.FindStringSubmatch(strings.TrimRight(s, "\n")); m != nil {
		s = m[1] + " " + m[2] + ": " + m[3]
	}
	logged.note(k, network+" "+s)
}
