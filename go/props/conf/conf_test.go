package conf

import (
	"testing"
	"time"

	"verif/kit"
)

func TestO01(t *testing.T) {
	kit.Main(t, "O01",
		kit.Prop[Case]{Name: "wiring", Rule: "two or more different responses", Quick: 3200, Thorough: 60000, Gen: genCase, Run: runCase, ShrinkTime: 60 * time.Second},
		kit.Prop[Stored]{Name: "redis", Rule: "all cases", Quick: 64, Thorough: 1600, Gen: genStored, Run: runStored, ShrinkTime: 60 * time.Second},
		kit.Prop[Shuffled]{Name: "shuffle", Rule: "all cases", Quick: 48, Thorough: 800, Gen: genShuffled, Run: runShuffled, ShrinkTime: 60 * time.Second},
		kit.Prop[Refreshed]{Name: "refresh", Rule: "all cases", Quick: 64, Thorough: 800, Gen: genRefreshed, Run: runRefreshed, ShrinkTime: 60 * time.Second},
		kit.Prop[Slow]{Name: "timeout", Rule: "all cases", Quick: 16, Thorough: 160, Gen: genSlow, Run: runSlow, ShrinkTime: 60 * time.Second},
		kit.Prop[Busy]{Name: "busy", Rule: "all cases", Quick: 48, Thorough: 800, Gen: genBusy, Run: runBusy, ShrinkTime: 60 * time.Second},
		kit.Prop[Handed]{Name: "fd-server", Rule: "all cases", Quick: 160, Thorough: 4000, Gen: genHanded, Run: runHanded, ShrinkTime: 60 * time.Second},
	)
}

func TestO02(t *testing.T) {
	kit.Main(t, "O02",
		kit.Prop[Wrong]{Name: "mistakes", Rule: "all cases", Quick: 12000, Thorough: 300000, Gen: genWrong, Run: runWrong, ShrinkTime: 60 * time.Second},
	)
}
