package modify

import (
	"testing"
	"time"

	"verif/kit"
)

const rule = "the response or the query sent upstream differs from the original"

func one(kinds ...string) kit.Prop[Case] {
	return kit.Prop[Case]{Name: kinds[0], Rule: rule, Quick: 20000, Thorough: 600000, Gen: genCase(kinds...), Run: run}
}

func TestM01(t *testing.T) {
	kit.Main(t, "M01", one("ttl"),
		kit.Prop[Random]{Name: "random", Rule: "several responses with TTLs", Quick: 3000, Thorough: 60000, Gen: genRandom, Run: runRandom})
}

func TestM02(t *testing.T) { kit.Main(t, "M02", one("replace")) }
func TestM03(t *testing.T) { kit.Main(t, "M03", one("ecs")) }
func TestM04(t *testing.T) { kit.Main(t, "M04", one("edns0")) }
func TestM05(t *testing.T) { kit.Main(t, "M05", one("truncate-retry", "minimize", "collapse", "drop")) }
func TestM06(t *testing.T) { kit.Main(t, "M06", one("static"), one("template")) }
func TestM07(t *testing.T) { kit.Main(t, "M07", one("dns64")) }
func TestM08(t *testing.T) {
	kit.Main(t, "M08", kit.Prop[Case]{Name: "chain", Rule: rule, Quick: 30000, Thorough: 800000, Gen: genChain, Run: run},
		kit.Prop[Crowd]{Name: "crowd", Rule: "every case", Quick: 6000, Thorough: 150000, Gen: genCrowd, Run: runCrowd})
}

func TestM09(t *testing.T) {
	const rule = "the response has several addresses and the probes succeeded"
	kit.Main(t, "M09",
		kit.Prop[Probe]{Name: "probe", Rule: rule, Quick: 3000, Thorough: 40000, Gen: genProbe(false), Run: runProbe},
		kit.Prop[Probe]{Name: "slow", Rule: rule, Quick: 64, Thorough: 1200, Gen: genProbe(true), Run: runProbe, ShrinkTime: 20 * time.Second},
	)
}
