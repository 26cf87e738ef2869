package filter

import (
	"testing"

	"verif/kit"
)

const matched = "some query matches a list"

func TestB01(t *testing.T) {
	var checks []kit.Check
	for _, f := range []string{"domain", "domain-subdomain", "regexp", "hosts", "mac"} {
		checks = append(checks, kit.Prop[Query]{Name: f, Rule: matched, Quick: 16000, Thorough: 500000, Gen: genQuery([]string{f}, false), Run: runQuery})
	}
	kit.Main(t, "B01", checks...)
}

func TestB02(t *testing.T) {
	kit.Main(t, "B02", kit.Prop[Query]{Name: "decision", Rule: matched, Quick: 40000, Thorough: 1000000,
		Gen: genQuery([]string{"domain", "domain-subdomain", "regexp", "hosts", "mac"}, true), Run: runQuery})
}

const offending = "some response has an offending record, or none is left"

func TestB03(t *testing.T) {
	kit.Main(t, "B03", kit.Prop[Response]{Name: "addresses", Rule: offending, Quick: 30000, Thorough: 800000, Gen: genResponseIP, Run: runResponseIP})
}

func TestB04(t *testing.T) {
	kit.Main(t, "B04", kit.Prop[Response]{Name: "names", Rule: offending, Quick: 30000, Thorough: 800000, Gen: genResponseName, Run: runResponseName})
}

func TestB05(t *testing.T) {
	kit.Main(t, "B05", kit.Prop[Client]{Name: "clients", Rule: "some client is on a list", Quick: 30000, Thorough: 800000, Gen: genClient, Run: runClient})
}

func TestB06(t *testing.T) {
	kit.Main(t, "B06",
		kit.Prop[Reload]{Name: "reload", Rule: "a refresh changes the rules or fails", Quick: 6000, Thorough: 200000, Gen: genReload, Run: runReload},
		kit.Prop[Swap]{Name: "swap", Rule: "a list was replaced while queries ran", Quick: 1500, Thorough: 40000, Gen: genSwap, Run: runSwap},
	)
}
