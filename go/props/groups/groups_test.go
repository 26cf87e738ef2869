package groups

import (
	"testing"

	"verif/kit"
)

const failRule = "several members and queries, and at least one query was retried on another member"

func TestG01(t *testing.T) {
	kit.Main(t, "G01",
		kit.Prop[Fail]{Name: "failover", Rule: failRule, Quick: 20000, Thorough: 400000, Gen: genFail("fail-rotate", "fail-back"), Run: runFail},
		kit.Prop[Crowd]{Name: "concurrent", Rule: "at least one member works", Quick: 8000, Thorough: 150000, Gen: genCrowd("fail-rotate", "fail-back"), Run: runCrowd},
	)
}

func TestG02(t *testing.T) {
	kit.Main(t, "G02",
		kit.Prop[Fail]{Name: "spread", Rule: failRule, Quick: 20000, Thorough: 400000, Gen: genFail("random", "load-balance"), Run: runFail},
		kit.Prop[Crowd]{Name: "concurrent", Rule: "at least one member works", Quick: 8000, Thorough: 150000, Gen: genCrowd("random", "load-balance", "round-robin"), Run: runCrowd},
		kit.Prop[Rotation]{Name: "rotation", Rule: "more queries than members, and a member failed", Quick: 4000, Thorough: 60000, Gen: genRotation, Run: runRotation},
		kit.Prop[Share]{Name: "share", Rule: "every case", Quick: 64, Thorough: 1500, Gen: genShare, Run: runShare},
		kit.Prop[Draw]{Name: "draw", Rule: "more than one member", Quick: 300, Thorough: 8000, Gen: genDraw, Run: runDraw},
	)
}

func TestG03(t *testing.T) {
	kit.Main(t, "G03",
		kit.Prop[Race]{Name: "fastest", Rule: "more than one member", Quick: 20000, Thorough: 400000, Gen: genRace, Run: runRace},
	)
}

func TestG04(t *testing.T) {
	kit.Main(t, "G04",
		kit.Prop[Dup]{Name: "dedup", Rule: "at least one query was answered with the response to another's", Quick: 20000, Thorough: 400000, Gen: genDup, Run: runDup},
	)
}

func TestG05(t *testing.T) {
	kit.Main(t, "G05",
		kit.Prop[Weigh]{Name: "weigh", Rule: "several members, which change", Quick: 4000, Thorough: 60000, Gen: genWeigh, Run: runWeigh},
	)
}
