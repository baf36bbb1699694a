package peers

import "github.com/dropmorepackets/haproxy-go/internal/vsym"

// vsymNames checks the names of the codes of one kind; text renders a code,
// known are all known codes.
func vsymNames(known []int, text func(int) string, code int) {
	s := text(code)
	isKnown := false
	for _, k := range known {
		if vsym.Fork(k == code) {
			isKnown = true
			vsym.Cover("known")
		} else {
			vsym.Assert(text(k) != s, "two codes have the same name")
		}
	}
	if !isKnown {
		vsym.Cover("unknown")
	}
	vsym.Assert(s != "", "code without a name")
}

// Names of the peer protocol codes, for every code.
//
//vsym C31 expect:known,unknown time:60/300
func VSym_PeerNames() {
	switch vsym.Choose("kind", 5) {
	case 0:
		vsymNames([]int{200, 300, 501, 502, 503, 504}, func(i int) string { return HandshakeStatus(i).String() }, int(vsym.U64("code")))
	case 1:
		vsymNames([]int{0, 1, 10, 255}, func(i int) string { return MessageClass(i).String() }, int(vsym.U8("code")))
	case 2:
		vsymNames([]int{0, 1, 2, 3, 4}, func(i int) string { return ControlMessageType(i).String() }, int(vsym.U8("code")))
	case 3:
		vsymNames([]int{0, 1}, func(i int) string { return ErrorMessageType(i).String() }, int(vsym.U8("code")))
	case 4:
		vsymNames([]int{128, 129, 130, 131, 132, 133, 134}, func(i int) string { return StickTableUpdateMessageType(i).String() }, int(vsym.U8("code")))
	}
}
