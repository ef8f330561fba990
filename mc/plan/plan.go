// Package plan says in which build variants a property is explored.
package plan

// Plan of one property.
type Plan struct {
	Variants []string
	Level    string
}

var (
	plain = []string{"plain"}
	dq    = []string{"plain", "seg3", "seg4"}
)

// Of lists the properties.
var Of = map[string]Plan{
	"P01": {Variants: dq}, "P02": {Variants: plain}, "P03": {Variants: plain}, "P04": {Variants: plain}, "P05": {Variants: plain},
	"P06": {Variants: dq}, "P07": {Variants: plain}, "P08": {Variants: plain}, "P09": {Variants: plain}, "P10": {Variants: plain}, "P11": {Variants: plain}, "P12": {Variants: plain}, "P13": {Variants: plain}, "P14": {Variants: plain}, "P15": {Variants: plain}, "P16": {Variants: plain}, "P17": {Variants: plain},
	"P18": {Variants: plain}, "P19": {Variants: plain}, "P20": {Variants: plain}, "P21": {Variants: plain}, "P22": {Variants: plain}, "P23": {Variants: []string{"plain", "seg3"}}, "P24": {Variants: plain}, "P25": {Variants: plain}, "P26": {Variants: plain}, "P27": {Variants: plain}, "P28": {Variants: plain}, "P29": {Variants: plain},
	"P30": {Variants: []string{"sched"}}, "P31": {Variants: []string{"sched"}}, "P32": {Variants: []string{"sched"}}, "P33": {Variants: []string{"race"}}, "P34": {Variants: []string{"sched"}},
	"P35": {Variants: []string{"plain", "seg3"}},
	"P36": {Variants: plain}, "P37": {Variants: plain}, "P38": {Variants: []string{"race"}}, "P39": {Variants: plain}, "P40": {Variants: []string{"work"}},
}

// Assumptions common to every check.
var Assumptions = []string{
	"the Go compiler, runtime and standard library of the sandbox",
	"state fingerprints (128 bit) do not collide",
	"elements are opaque to generic containers, so exploring distinct identities up to renaming covers all element values; code that looks into them by a conversion to an interface is covered as far as the short histories over values of other types reach",
}
