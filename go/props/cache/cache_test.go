package cache

import (
	"testing"

	"verif/kit"
)

const rule = "the history has at least two upstream queries and one answer from the cache"

func TestC01(t *testing.T) {
	kit.Main(t, "C01",
		kit.Prop[Case]{Name: "keys", Rule: rule, Quick: 24000, Thorough: 600000, Gen: genKeys, Run: run},
		kit.Prop[Parallel]{Name: "parallel", Rule: "at least one answer came from the cache while others were being stored", Quick: 1500, Thorough: 30000, Gen: genParallel, Run: runParallel},
	)
}

func TestC02(t *testing.T) {
	kit.Main(t, "C02",
		kit.Prop[Case]{Name: "lifetime", Rule: rule, Quick: 40000, Thorough: 1000000, Gen: genLife, Run: run},
	)
}

func TestC03(t *testing.T) {
	kit.Main(t, "C03",
		kit.Prop[Case]{Name: "capacity", Rule: rule, Quick: 24000, Thorough: 400000, Gen: genCapacity, Run: run},
		kit.Prop[Case]{Name: "below-nxdomain", Rule: rule, Quick: 24000, Thorough: 400000, Gen: genHarden, Run: run},
		kit.Prop[Case]{Name: "shuffle", Rule: rule, Quick: 12000, Thorough: 200000, Gen: genShuffle, Run: run},
	)
}

func TestC04(t *testing.T) {
	kit.Main(t, "C04",
		kit.Prop[Saved]{Name: "restart", Rule: rule, Quick: 8000, Thorough: 150000, Gen: genSaved, Run: runSaved},
		kit.Prop[Observed]{Name: "observed", Rule: "the file was saved more than once while it was being read", Quick: 64, Thorough: 1500, Gen: genObserved, Run: runObserved},
	)
}

func TestC05(t *testing.T) {
	kit.Main(t, "C05",
		kit.Prop[Redis]{Name: "redis", Rule: rule, Quick: 8000, Thorough: 150000, Gen: genRedis, Run: runRedis},
		kit.Prop[Burst]{Name: "burst", Rule: "all cases", Quick: 160, Thorough: 3000, Gen: genBurst, Run: runBurst},
	)
}

func TestC06(t *testing.T) {
	kit.Main(t, "C06",
		kit.Prop[Refresh]{Name: "refresh", Rule: "an entry was refreshed before it expired", Quick: 12000, Thorough: 300000, Gen: genRefresh, Run: runRefresh},
		kit.Prop[Popular]{Name: "popular", Rule: "a query was prefetched", Quick: 12000, Thorough: 300000, Gen: genPopular, Run: runPopular},
	)
}
