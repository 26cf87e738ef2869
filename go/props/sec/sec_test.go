package sec

import (
	"testing"

	"verif/kit"
)

const rule = "the response is false, or secure by a chain of at least two zones"

func TestD01(t *testing.T) {
	kit.Main(t, "D01", kit.Prop[Case]{Name: "right", Rule: rule, Quick: 30000, Thorough: 200000, Gen: gen(none), Run: run},
		kit.Prop[Case]{Name: "together", Rule: rule, Quick: 4000, Thorough: 40000, Gen: genTogether, Run: runTogether})
}

func TestD02(t *testing.T) {
	kit.Main(t, "D02", kit.Prop[Case]{Name: "forged", Rule: rule, Quick: 40000, Thorough: 300000, Gen: gen(positive | keys | none), Run: run})
}

func TestD03(t *testing.T) {
	kit.Main(t, "D03", kit.Prop[Case]{Name: "denials", Rule: rule, Quick: 40000, Thorough: 300000, Gen: gen(negative | none), Run: run})
}

func TestD04(t *testing.T) {
	kit.Main(t, "D04", kit.Prop[Case]{Name: "unsigned", Rule: rule, Quick: 40000, Thorough: 300000, Gen: gen(unsigned | none), Run: run})
}
