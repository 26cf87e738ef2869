package routing

import (
	"testing"

	"verif/kit"
)

func TestR01(t *testing.T) {
	kit.Main(t, "R01", kit.Prop[Router]{Name: "router", Rule: "a route other than the first matches, or not every one does", Quick: 20000, Thorough: 600000, Gen: genRouter, Run: runRouter})
}

func TestR02(t *testing.T) {
	kit.Main(t, "R02", kit.Prop[Limit]{Name: "limit", Rule: "the limit is exceeded", Quick: 12000, Thorough: 400000, Gen: genLimit, Run: runLimit})
}
