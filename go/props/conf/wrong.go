package conf

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verif/kit"
	"verif/props/wire"
)

// Wrong is a configuration with a mistake.
type Wrong struct {
	Conf  Config         `json:"conf"` // without
	What  string         `json:"what"` // the kind of mistake
	Text  string         `json:"text"` // with
	Front bool           `json:"front,omitempty"`
	Files map[string]int `json:"files,omitempty"`
	Args  []string       `json:"args,omitempty"` // in place of files
}

// pick draws one of many, the last of them as often as the first.
func pick[T any](t *rapid.T, name string, list ...T) T {
	return list[int(hash(fmt.Sprint(kit.Int(t, name, 0, 1<<24))))%len(list)]
}

// oneOf are types of groups with one resolver and what they need besides it.
var oneOf = map[string]string{
	"blocklist": "blocklist = [\"x\"]", "blocklist-v2": "blocklist = [\"x\"]", "response-blocklist-ip": "blocklist = [\"10.0.0.0/8\"]",
	"response-blocklist-cidr": "blocklist = [\"10.0.0.0/8\"]", "response-blocklist-name": "blocklist = [\"x\"]", "client-blocklist": "blocklist = [\"10.0.0.0/8\"]",
	"replace": "replace = [{from = \"a\", to = \"b\"}]", "ttl-modifier": "ttl-min = 3", "truncate-retry": "retry-resolver = \"r0\"", "request-dedup": "", "fastest-tcp": "",
	"ecs-modifier": "ecs-op = \"delete\"", "edns0-modifier": "edns0-op = \"delete\"", "syslog": "network = \"udp\"\naddress = \"127.0.0.1:9\"", "cache": "", "prefetch": "",
	"response-minimize": "", "response-collapse": "", "rate-limiter": "requests = 3", "query-log": "", "dns64": "",
}

var manyOf = []string{"round-robin", "fail-rotate", "fail-back", "fastest", "load-balance", "random"}

func types1() (out []string) {
	for k := range oneOf {
		out = append(out, k)
	}
	slices.Sort(out)
	return out
}

func group(id, typ, resolvers, more string) string {
	return fmt.Sprintf("[groups.%s]\ntype = %q\nresolvers = %s\n%s\n", id, typ, resolvers, more)
}

func resolver(proto, addr, more string) string {
	return fmt.Sprintf("[resolvers.bad]\nprotocol = %q\naddress = %q\n%s\n", proto, addr, more)
}

func listener(proto, more string) string {
	return fmt.Sprintf("[listeners.bad]\nprotocol = %q\naddress = \"{IP}:{L8}\"\n%s\n", proto, more)
}

func route(s string) string {
	return "[routers.bad]\nroutes = [{" + s + "}, {resolver = \"r0\"}]\n"
}

// mistakes draw a text that can not be part of any configuration.
var mistakes = map[string]func(t *rapid.T) string{
	"no such element": func(t *rapid.T) string {
		switch pick(t, "where", 0, 1, 2, 3, 4, 5, 6, 7) {
		case 0:
			return group("bad", pick(t, "type", manyOf...), `["r0", "nowhere"]`, "")
		case 1:
			typ := pick(t, "type", types1()...)
			return group("bad", typ, `["nowhere"]`, oneOf[typ])
		case 2:
			return group("bad", pick(t, "type", "blocklist-v2", "response-blocklist-name", "client-blocklist"), `["r0"]`, "blocklist-resolver = \"nowhere\"")
		case 3:
			return group("bad", "blocklist-v2", `["r0"]`, "allowlist-resolver = \"nowhere\"")
		case 4:
			return group("bad", "rate-limiter", `["r0"]`, "limit-resolver = \"nowhere\"\nrequests = 2")
		case 5:
			return group("bad", "truncate-retry", `["r0"]`, "retry-resolver = \"nowhere\"")
		case 6:
			return route(`name = "x", resolver = "nowhere"`)
		}
		return listener(pick(t, "proto", "udp", "tcp"), pick(t, "to", "resolver = \"nowhere\"", ""))
	},
	"loop": func(t *rapid.T) string {
		typ := pick(t, "type", "round-robin", "cache", "ttl-modifier", "fail-back")
		switch pick(t, "how", 0, 1, 2, 3, 4) {
		case 0:
			return group("bad", typ, `["bad"]`, "")
		case 1:
			return group("bad", typ, `["bad2"]`, "") + group("bad2", typ, `["bad"]`, "")
		case 2:
			return group("bad", typ, `["bad2"]`, "") + group("bad2", typ, `["bad3"]`, "") + "[routers.bad3]\nroutes = [{name = \"x\", resolver = \"r0\"}, {resolver = \"bad\"}]\n"
		case 3:
			return group("bad", pick(t, "list", "blocklist-v2", "client-blocklist"), `["r0"]`, "blocklist-resolver = \"bad2\"") + group("bad2", typ, `["bad"]`, "")
		}
		return "[routers.bad]\nroutes = [{resolver = \"bad2\"}]\n[routers.bad2]\nroutes = [{resolver = \"bad\"}]\n"
	},
	"name taken": func(t *rapid.T) string {
		switch pick(t, "how", 0, 1, 2, 3, 4) {
		case 0:
			return "[groups.r0]\ntype = \"drop\"\n"
		case 1:
			return "[resolvers.r0]\nprotocol = \"udp\"\naddress = \"127.0.0.1:53\"\n"
		case 2:
			return "[routers.r0]\nroutes = [{resolver = \"bad\"}]\n[groups.bad]\ntype = \"drop\"\n"
		case 3:
			return "[groups.bad]\ntype = \"drop\"\n[routers.bad]\nroutes = [{resolver = \"r0\"}]\n"
		}
		return "[groups.bad]\ntype = \"drop\"\n[groups.bad]\ntype = \"drop\"\n"
	},
	"number of resolvers": func(t *rapid.T) string {
		typ := pick(t, "type", types1()...)
		more := "[resolvers.bad2]\nprotocol = \"udp\"\naddress = \"127.0.0.1:9\"\n"
		return group("bad", typ, pick(t, "n", `["r0", "bad2"]`, `[]`), oneOf[typ]) + more
	},
	"no such kind": func(t *rapid.T) string {
		what := pick(t, "what", "nothing", "UDP", "", "udp2", "cache2", "tls")
		switch pick(t, "where", 0, 1, 2) {
		case 0:
			return group("bad", what, `["r0"]`, "")
		case 1:
			return resolver(what, "127.0.0.1:53", "")
		}
		return listener(what, "resolver = \"r0\"")
	},
	"value of an option": func(t *rapid.T) string {
		return pick(t, "option",
			group("bad", "ttl-modifier", `["r0"]`, "ttl-select = \"best\""),
			group("bad", "ecs-modifier", `["r0"]`, "ecs-op = \"change\""),
			group("bad", "edns0-modifier", `["r0"]`, "edns0-op = \"change\""),
			group("bad", "syslog", `["r0"]`, "priority = \"low\"\nnetwork = \"udp\"\naddress = \"127.0.0.1:9\""),
			group("bad", "cache", `["r0"]`, "cache-answer-shuffle = \"sorted\""),
			group("bad", "cache", `["r0"]`, "cache-rcode-max-ttl = {x = 4}"),
			group("bad", "cache", `["r0"]`, "backend = {type = \"disk\"}"),
			group("bad", "query-log", `["r0"]`, "output-format = \"xml\""),
			group("bad", "query-log", `["r0"]`, "output-file = \"{DIR}/no/such/file\""),
			group("bad", "dns64", `["r0"]`, "dns64-prefix = [\"64:ff9b::/97\"]"),
			group("bad", "dns64", `["r0"]`, "dns64-prefix = [\"64:ff9b::\"]"),
			group("bad", "dns64", `["r0"]`, "dns64-prefix = [\"10.0.0.0/32\"]"),
			group("bad", "truncate-retry", `["r0"]`, ""),
			group("bad", "replace", `["r0"]`, "replace = [{from = \"a(\", to = \"b\"}]"),
			group("bad", "lua", `["r0"]`, ""),
			group("bad", "lua", `["r0"]`, "lua-script = \"function Resolve(\""),
			group("bad", "lua", `["r0"]`, "lua-script = \"x = 1\""),
			group("bad", "lua", `["r0"]`, "lua-script = \"nothing()\""),
			group("bad", "lua", `["r0"]`, "lua-script-source = \"{DIR}/nothing\""),
			group("bad", "static-responder", `[]`, "answer = [\"nonsense\"]"),
			group("bad", "static-responder", `[]`, "ns = [\"x. IN A 1.2.3\"]"),
			group("bad", "static-responder", `[]`, "extra = [\"x. 60 IN AAAA 10.0.0.1\"]"),
			group("bad", "static-template", `[]`, "answer = [\"{{ .Question\"]"),
			group("bad", "static-responder", `[]`, "edns0-ede = {code = 15, text = \"{{ x\"}"),
			group("bad", "blocklist-v2", `["r0"]`, "blocklist = [\"x\"]\nedns0-ede = {code = 15, text = \"{{ x\"}"),
			group("bad", "response-blocklist-ip", `["r0"]`, "blocklist = [\"10.0.0.0/8\"]\nedns0-ede = {code = 15, text = \"{{ x\"}"),
			resolver("doh", "https://127.0.0.1/dns-query", "doh = {method = \"PUT\"}"),
			resolver("doh", "https://127.0.0.1/dns-query", "doh = {idle-timeout = -1}"),
			resolver("doh", "https://127.0.0.1/dns-query", "transport = \"sctp\""),
			resolver("doh", "https://127.0.0.1/dns-query{?dns}", "enable-0rtt = true"),
			resolver("doh", "https://127.0.0.1/dns-query", "enable-0rtt = true\ntransport = \"quic\""),
			resolver("doh", "https://127.0.0.1/dns-query{?dns}", "enable-0rtt = true\ntransport = \"quic\"\ndoh = {method = \"POST\"}"),
			resolver("udp", "127.0.0.1:53", "netns = \"a\"\nxsocket = \"/b\""),
			listener("udp", "resolver = \"r0\"\nnetns = \"a\"\nxsocket = \"/b\""),
			listener("udp", "resolver = \"r0\"\nip-version = 5"),
			listener("doh", "resolver = \"r0\"\ntransport = \"quic\"\nno-tls = true"),
			listener("doh", "resolver = \"r0\"\nno-tls = true\nfrontend = {trusted-proxy = \"10.0.0.1\"}"),
			listener("odoh", "resolver = \"r0\"\nserver-crt = \"{SRVCRT}\"\nserver-key = \"{SRVKEY}\"\nkey-seed = \"short\""),
			listener("odoh", "resolver = \"r0\"\nserver-crt = \"{SRVCRT}\"\nserver-key = \"{SRVKEY}\"\nkey-seed = \"zz112233445566778899aabbccddeeff\""),
			listener("udp", "resolver = \"r0\"\nallowed-net = [\"10.0.0.0/33\"]"),
			listener("tcp", "resolver = \"r0\"\nallowed-net = [\"127.0.0.0/8\", \"10.0.0.1\"]"),
		)
	},
	"certificate": func(t *rapid.T) string {
		where := pick(t, "listener", "", "dot", "dtls", "doh", "doq", "odoh", "admin")
		pair := "resolver = \"r0\"\nserver-crt = \"{SRVCRT}\"\nserver-key = \"{SRVKEY}\"\n"
		if where != "" {
			return listener(where, pick(t, "what",
				pair+"mutual-tls = true",
				pair+"ca = \"{DIR}/nothing\"",
				pair+"mutual-tls = true\nca = \"{SRVKEY}\"",
				"resolver = \"r0\"\nserver-crt = \"{DIR}/nothing\"\nserver-key = \"{SRVKEY}\"",
				"resolver = \"r0\"\nserver-crt = \"{SRVCRT}\"\nserver-key = \"{DIR}/nothing\"",
				"resolver = \"r0\"\nserver-crt = \"{SRVCRT}\"\nserver-key = \"{KEY}\"",
				"resolver = \"r0\"\nserver-crt = \"{SRVKEY}\"\nserver-key = \"{SRVKEY}\""))
		}
		proto, addr := pick(t, "resolver", "dot", "dtls", "doh", "doq", "odoh"), "127.0.0.1:853"
		more := ""
		switch proto {
		case "doh":
			addr = "https://127.0.0.1/dns-query"
		case "odoh":
			addr, more = "", "target = \"https://127.0.0.1/dns-query\"\n"
		}
		return resolver(proto, addr, more+pick(t, "what",
			"ca = \"{DIR}/nothing\"",
			"ca = \"{KEY}\"",
			"client-crt = \"{DIR}/nothing\"\nclient-key = \"{KEY}\"",
			"client-crt = \"{CRT}\"\nclient-key = \"{DIR}/nothing\"",
			"client-crt = \"{CRT}\"\nclient-key = \"{SRVKEY}\"",
			"client-crt = \"{KEY}\"\nclient-key = \"{KEY}\""))
	},
	"list": func(t *rapid.T) string {
		names := []string{"blocklist-v2", "response-blocklist-name"}
		ips := []string{"response-blocklist-ip", "response-blocklist-cidr", "client-blocklist"}
		all := append(slices.Clone(names), ips...)
		switch pick(t, "how", 0, 1, 2, 3, 4, 5, 6, 7, 8) {
		case 0: // format
			typ := pick(t, "type", all...)
			return group("bad", typ, `["r0"]`, "blocklist = [\"x\"]\nblocklist-format = \"csv\"")
		case 1:
			return group("bad", pick(t, "type", all...), `["r0"]`, "blocklist-source = [{source = \"{LISTS}/empty\", format = \"csv\"}]")
		case 2:
			return group("bad", "blocklist-v2", `["r0"]`, pick(t, "allow", "allowlist = [\"x\"]\nallowlist-format = \"csv\"",
				"allowlist-source = [{source = \"{LISTS}/empty\", format = \"csv\"}]", "allowlist-source = [{source = \"{DIR}/nothing\"}]",
				"allowlist = [\"x\"]\nallowlist-source = [{source = \"{LISTS}/empty\"}]", "allowlist = [\"x(\"]"))
		case 3: // both
			return group("bad", pick(t, "type", all...), `["r0"]`, "blocklist = [\"10.0.0.0/8\"]\nblocklist-source = [{source = \"{LISTS}/empty\"}]")
		case 4: // nothing there
			return group("bad", pick(t, "type", all...), `["r0"]`, pick(t, "source", "blocklist-source = [{source = \"{DIR}/nothing\"}]",
				"blocklist-source = [{source = \"{LISTS}/empty\"}, {source = \"{DIR}/nothing\"}]",
				"blocklist-source = [{source = \"ftp://127.0.0.1/x\"}]"))
		case 5: // rules
			return group("bad", pick(t, "type", ips...), `["r0"]`, pick(t, "rule", "blocklist = [\"10.0.0.0/33\"]", "blocklist = [\"10.0.0.0/8\", \"example.com\"]",
				"location-db = \"{LISTS}/geo.mmdb\"\nblocklist-format = \"location\"\nblocklist = [\"x\"]", "location-db = \"{LISTS}/geo.mmdb\"\nblocklist-format = \"asn\"\nblocklist = [\"x\"]",
				"location-db = \"{DIR}/nothing\"\nblocklist-format = \"location\"\nblocklist = [\"100\"]", "location-db = \"{DIR}/nothing\"\nblocklist-format = \"asn\"\nblocklist = [\"100\"]"))
		case 6:
			return group("bad", pick(t, "type", names...), `["r0"]`, pick(t, "rule", "blocklist = [\"x(\"]", "blocklist = [\"x\", \"[a\"]",
				"blocklist-format = \"mac\"\nblocklist = [\"01:23:45\"]", "blocklist-format = \"domain\"\nblocklist = [\"a.*.b\"]"))
		case 7:
			return group("bad", "blocklist", `["r0"]`, pick(t, "old", "blocklist = [\"x(\"]", "format = \"csv\"\nblocklist = [\"x\"]", "source = \"{DIR}/nothing\"",
				"source = \"{LISTS}/regexp\"\nblocklist = [\"x\"]", "source = \"{LISTS}/empty\"\nformat = \"csv\"", "source = \"ftp://127.0.0.1/x\""))
		}
		return group("bad", pick(t, "type", ips...), `["r0"]`, "blocklist-source = [{source = \"{LISTS}/domain\", format = \"cidr\"}]")
	},
	"route": func(t *rapid.T) string {
		return route(pick(t, "route",
			`name = "x(", resolver = "r0"`, `source = "10.0.0.0/33", resolver = "r0"`, `source = "10.0.0.1", resolver = "r0"`, `ecs-source = "x", resolver = "r0"`,
			`type = "NONE1", resolver = "r0"`, `types = ["A", "NONE1"], resolver = "r0"`, `class = "NOWHERE", resolver = "r0"`, `weekdays = ["monday"], resolver = "r0"`,
			`weekdays = ["mon", "mo"], resolver = "r0"`, `after = "24:00", resolver = "r0"`, `before = "12:60", resolver = "r0"`, `after = "noon", resolver = "r0"`,
			`before = "-1:00", resolver = "r0"`, `doh-path = "x(", resolver = "r0"`, `servername = "x(", resolver = "r0"`, `listener = "x(", resolver = "r0"`, `name = "x"`))
	},
	"syntax": func(t *rapid.T) string {
		return pick(t, "toml", "[groups.bad\n", "[groups.bad]\ntype = drop\n", "[groups.bad]\ntype = \"drop\n", "[groups.bad]\ntype = 5\n", "[groups.bad]\ntype = \"drop\"\ntype = \"drop\"\n",
			group("bad", "cache", `"r0"`, ""), group("bad", "cache", `["r0"]`, "cache-size = \"big\""), group("bad", "ttl-modifier", `["r0"]`, "ttl-min = -5"),
			group("bad", "edns0-modifier", `["r0"]`, "edns0-op = \"add\"\nedns0-code = 70000"), group("bad", "cache", `["r0"]`, "cache-harden-below-nxdomain = \"yes\""),
			resolver("udp", "127.0.0.1:53", "edns0-udp-size = 70000"), "[routers.bad]\nroutes = \"r0\"\n", "}\n", "= 4\n")
	},
	"bootstrap": func(t *rapid.T) string {
		return "[bootstrap-resolver]\naddress = \"127.0.0.1:53\"\n" + pick(t, "how", "protocol = \"none\"\n", "protocol = \"dot\"\nca = \"{DIR}/nothing\"\n", "")
	},
	"arguments": func(t *rapid.T) string { return "" },
}

func genWrong(t *rapid.T) Wrong {
	c := Wrong{Conf: genConfig(t, pick(t, "n", 1, 2, 3))}
	var all []string
	for k := range mistakes {
		all = append(all, k)
	}
	slices.Sort(all)
	c.What = pick(t, "what", all...)
	c.Text = mistakes[c.What](t)
	if c.What == "bootstrap" {
		c.Conf.Bootstrap = nil
		for id, r := range c.Conf.Resolvers {
			if strings.Contains(r.Address, "up.test") && r.BootstrapAddr == "" { // can not be found without it
				c.Conf.Resolvers[id] = Resolver{Address: "{UP}:{PORT9}", Protocol: "udp", To: &Server{Tag: 9, Proto: "udp"}}
			}
		}
	}
	if c.What == "arguments" {
		c.Args = pick(t, "args", []string{}, []string{"{CONF}", "{DIR}/nothing.toml"}, []string{"{DIR}/nothing.toml"}, []string{"--log-level", "7", "{CONF}"},
			[]string{"--log-level", "x", "{CONF}"}, []string{"--nonsense", "{CONF}"}, []string{"fd-server"}, []string{"fd-server", "--mode", "8", "{DIR}/x"},
			[]string{"fd-server", "--mode", "1777", "{DIR}/x"}, []string{"fd-server", "{DIR}/no/dir/x"}, []string{"fd-server", "{DIR}/x", "{DIR}/y"}, []string{"fd-server", "-l", "9", "{DIR}/x"})
	}
	c.Front = kit.Chance(t, "front", 30)
	if kit.Chance(t, "split", 30) {
		c.Files = map[string]int{}
		for _, id := range c.Conf.ids() {
			if n := kit.Int(t, "file", 0, 2); n > 0 {
				c.Files[id] = n
			}
		}
	}
	return c
}

func runWrong(x *kit.Ctx, c Wrong) error {
	x.Label("%s", c.What)
	x.NonTrivial()
	dir := scratch()
	defer os.RemoveAll(dir)
	base := ports(10)
	conf, err := c.Conf.forSide(program, dir, base)
	if err != nil {
		return fmt.Errorf("verif: %w", err)
	}
	files := conf.write(dir, c.Files)
	text := c.Conf.fill(c.Text, program, dir, base)
	f := filepath.Join(dir, "wrong.toml")
	args := files
	if c.What == "arguments" {
		args = nil
		for _, a := range c.Args {
			if a == "{CONF}" {
				args = append(args, files...)
			} else {
				args = append(args, strings.ReplaceAll(a, "{DIR}", dir))
			}
		}
	} else {
		must(0, os.WriteFile(f, []byte(text), 0o644))
		if c.Front {
			args = append([]string{f}, args...)
		} else {
			args = append(args, f)
		}
	}
	p, err := launch(dir, args...)
	if err != nil {
		return err
	}
	defer p.kill()
	var all strings.Builder
	for _, f := range files {
		all.Write(must(os.ReadFile(f)))
		all.WriteString("\n---\n")
	}
	select {
	case err := <-p.done:
		p.done <- err
		if err == nil {
			return fmt.Errorf("the program ended with success in spite of a mistake (%s):\n%s\n%q with\n%s", c.What, text, args, all.String())
		}
		if s := p.output(); strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") {
			return fmt.Errorf("the program crashed at a mistake (%s):\n%s\n%s\nwith\n%s", c.What, text, s, all.String())
		}
	case <-time.After(wire.Patience):
		return fmt.Errorf("the program runs in spite of a mistake (%s):\n%s\n%q with\n%s", c.What, text, args, all.String())
	}
	return nil
}
