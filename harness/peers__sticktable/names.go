package sticktable

import "github.com/dropmorepackets/haproxy-go/internal/vsym"

// vsymNames checks the names of the codes of one kind; text renders a code,
// known are all known codes.
func vsymNames(known []int, text func(int) string, code int) {
	s := text(code)
	isKnown := false
	for _, k := range known {
		if vsym.Fork(k == code) {
			isKnown = true
			vsym.Cover("known")
		} else {
			vsym.Assert(text(k) != s, "two codes have the same name")
		}
	}
	if !isKnown {
		vsym.Cover("unknown")
	}
	vsym.Assert(s != "", "code without a name")
}

// Names of key and data types, for every code.
//
//vsym C31 expect:known,unknown time:60/300
func VSym_TypeNames() {
	var known []int
	if vsym.Choose("kind", 2) == 0 {
		for i := 0; i <= 8; i++ {
			known = append(known, i)
		}
		vsymNames(known, func(i int) string { return KeyType(i).String() }, int(vsym.U64("code")))
		return
	}
	for i := 0; i <= 26; i++ {
		known = append(known, i)
	}
	vsymNames(known, func(i int) string { return DataType(i).String() }, int(vsym.U64("code")))
}
