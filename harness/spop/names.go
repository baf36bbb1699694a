package spop

import "github.com/dropmorepackets/haproxy-go/internal/vsym"

// vsymNames checks the names of the codes of one kind; text renders a code,
// known are all known codes.
func vsymNames(known []int, text func(int) string, code int) {
	s := text(code)
	isKnown := false
	for _, k := range known {
		if vsym.Fork(k == code) {
			isKnown = true
			vsym.Cover("known")
		} else {
			vsym.Assert(text(k) != s, "two codes have the same name")
		}
	}
	if !isKnown {
		vsym.Cover("unknown")
	}
	vsym.Assert(s != "", "code without a name")
}

// Names of the SPOP error codes, for every code.
//
//vsym C31 expect:known,unknown time:60/300
func VSym_ErrorNames() {
	known := []int{99}
	for i := 0; i <= 13; i++ {
		known = append(known, i)
	}
	vsymNames(known, func(i int) string { return vsymCode(ErrorNone, i).String() }, int(vsym.U64("code")))
}

func vsymCode[T ~int](_ T, i int) T { return T(i) }
