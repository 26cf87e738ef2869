package sec

// twins are numbers of keys with the same tag as another one, as TestTwins finds
// them.
var twins = map[string]int{
	"evil ksk0": 99853,
	"evil ksk1": 10033949,
	"evil ksk2": 20069612,
	"evil ksk3": 30357672,
	"evil ksk4": 40093272,
	"evil ksk5": 50062540,
	"evil zsk0": 45689,
	"evil zsk1": 10038405,
	"evil zsk2": 20030453,
	"evil zsk3": 30043095,
	"evil zsk4": 40040397,
	"evil zsk5": 50040445,
	"kind ksk0": 16330,
	"kind ksk1": 10196851,
	"kind ksk2": 20060975,
	"kind ksk3": 30107371,
	"kind ksk4": 40080798,
	"kind ksk5": 50031937,
	"kind zsk0": 108463,
	"kind zsk1": 10019962,
	"kind zsk2": 20079073,
	"kind zsk3": 30053476,
	"kind zsk4": 40030017,
	"kind zsk5": 50072418,
}
