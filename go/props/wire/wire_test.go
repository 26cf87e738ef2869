package wire

import (
	"io"
	"log"
	"os"
	"testing"

	"verif/kit"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard) // net/http
	n := m.Run()
	os.RemoveAll(scratch())
	os.Exit(n)
}

func TestT01(t *testing.T) {
	kit.Main(t, "T01", kit.Prop[Through]{Name: "through", Rule: "more than one query", Quick: 6000, Thorough: 100000, Gen: genThrough, Run: runThrough})
}

func TestT02(t *testing.T) {
	kit.Main(t, "T02", kit.Prop[Upstream]{Name: "upstream", Rule: "more than two queries and more than one connection", Quick: 20000, Thorough: 400000, Gen: genUpstream, Run: runUpstream},
		kit.Prop[WebUpstream]{Name: "doh", Rule: "more than one query", Quick: 6000, Thorough: 100000, Gen: genWebUpstream, Run: runWebUpstream},
		kit.Prop[QuicUpstream]{Name: "doq", Rule: "more than one query", Quick: 800, Thorough: 15000, Gen: genQuicUpstream, Run: runQuicUpstream},
		kit.Prop[Lost]{Name: "lost", Rule: "all cases", Quick: 8, Thorough: 80, Gen: genLost, Run: runLost})
}

func TestT03(t *testing.T) {
	kit.Main(t, "T03", kit.Prop[Handled]{Name: "handled", Rule: "truncated, padded or not allowed", Quick: 40000, Thorough: 1000000, Gen: genHandled, Run: runHandled})
}

func TestT06(t *testing.T) {
	kit.Main(t, "T06", kit.Prop[Web]{Name: "web", Rule: "a query is forwarded by a proxy or has to be from an allowed network", Quick: 6000, Thorough: 150000, Gen: genWeb(false), Run: runWeb})
}

func TestT08(t *testing.T) {
	kit.Main(t, "T08", kit.Prop[Target]{Name: "target", Rule: "a sealed query is answered", Quick: 8000, Thorough: 200000, Gen: genTarget(false), Run: runTarget},
		kit.Prop[Proxied]{Name: "proxy", Rule: "the request is passed on", Quick: 20000, Thorough: 400000, Gen: genProxied(false), Run: runProxied},
		kit.Prop[Oblivious]{Name: "client", Rule: "a query reaches the target", Quick: 6000, Thorough: 120000, Gen: genOblivious, Run: runOblivious})
}

func TestT04(t *testing.T) {
	kit.Main(t, "T04", kit.Prop[Handled]{Name: "handler", Rule: "client not allowed, or response cut or padded", Quick: 30000, Thorough: 600000, Gen: genACL, Run: runHandled},
		kit.Prop[Rough]{Name: "sockets", Rule: "client not allowed, or something that is no query is sent", Quick: 1500, Thorough: 30000, Gen: genRough(true, transports...), Run: runRough},
		kit.Prop[Web]{Name: "doh", Rule: "a query is forwarded by a proxy or has to be from an allowed network", Quick: 3000, Thorough: 60000, Gen: genWeb(true), Run: runWeb},
		kit.Prop[Target]{Name: "odoh target", Rule: "a sealed query is answered", Quick: 3000, Thorough: 60000, Gen: genTarget(true), Run: runTarget},
		kit.Prop[Proxied]{Name: "odoh proxy", Rule: "the request is passed on", Quick: 10000, Thorough: 200000, Gen: genProxied(true), Run: runProxied})
}

func TestT05(t *testing.T) {
	kit.Main(t, "T05", kit.Prop[Rough]{Name: "rough", Rule: "something that is no query is sent", Quick: 4000, Thorough: 80000, Gen: genRough(false, transports...), Run: runRough})
}

func TestT07(t *testing.T) {
	kit.Main(t, "T07", kit.Prop[Auth]{Name: "certificates", Rule: "a certificate is wrong, or clients have to have one, or the name is not that of the address", Quick: 8000, Thorough: 200000, Gen: genAuth, Run: runAuth})
}

// T09: sockets from other network namespaces.
func TestT09(t *testing.T) {
	kit.Main(t, "T09",
		kit.Prop[FdServer]{Name: "server", Rule: "a request is answered, or the path is taken", Quick: 4000, Thorough: 80000, Gen: genFdServer, Run: runFdServer},
		kit.Prop[Remote]{Name: "remote", Rule: "all cases", Quick: 1600, Thorough: 30000, Gen: genRemote, Run: runRemote},
	)
}

// T10: resolvers behind a SOCKS5 proxy.
func TestT10(t *testing.T) {
	kit.Main(t, "T10",
		kit.Prop[Socks]{Name: "socks", Rule: "the proxy was contacted", Quick: 3000, Thorough: 60000, Gen: genSocks(false), Run: runSocks},
		kit.Prop[Socks]{Name: "stalls", Rule: "the proxy was contacted", Quick: 32, Thorough: 1200, ShrinkTime: 60e9, Gen: genSocks(true), Run: runSocks},
	)
}

// T11: early data.
func TestT11(t *testing.T) {
	kit.Main(t, "T11",
		kit.Prop[Early]{Name: "listener", Rule: "0-RTT data arrived", Quick: 600, Thorough: 12000, Gen: genEarly(true), Run: runEarlyListener},
		kit.Prop[Early]{Name: "resolver", Rule: "0-RTT data arrived", Quick: 400, Thorough: 8000, Gen: genEarly(false), Run: runEarlyResolver},
	)
}
