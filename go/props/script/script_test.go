package script

import (
	"testing"

	"verif/kit"
)

// O03: scripts.
func TestO03(t *testing.T) {
	kit.Main(t, "O03",
		kit.Prop[Answer]{Name: "answer", Rule: "the response has records or EDNS options", Quick: 32000, Thorough: 200000, Gen: genAnswer, Run: runAnswer},
		kit.Prop[Read]{Name: "read", Rule: "the response has records or EDNS options", Quick: 20000, Thorough: 100000, Gen: genRead, Run: runRead},
		kit.Prop[Edit]{Name: "edit", Rule: "the script changes the query or the response", Quick: 32000, Thorough: 200000, Gen: genEdit, Run: runEdit},
	)
}

// O04: what a script does stays in the script.
func TestO04(t *testing.T) {
	kit.Main(t, "O04",
		kit.Prop[Flow]{Name: "flow", Rule: "all cases", Quick: 20000, Thorough: 80000, Gen: genFlow, Run: runFlow},
		kit.Prop[Load]{Name: "load", Rule: "all cases", Quick: 20000, Thorough: 60000, Gen: genLoad, Run: runLoad},
	)
}

// O05: logs of queries.
func TestO05(t *testing.T) {
	kit.Main(t, "O05",
		kit.Prop[Logged]{Name: "querylog", Rule: "all cases", Quick: 32000, Thorough: 150000, Gen: genLogged, Run: runLogged},
		kit.Prop[Syslogged]{Name: "syslog", Rule: "a message is due", Quick: 30000, Thorough: 100000, Gen: genSyslogged, Run: runSyslogged},
	)
}
