package encoding

import (
	"github.com/dropmorepackets/haproxy-go/internal/vsym"
)

// Arbitrary actions are written behind arbitrary existing bytes into a buffer
// of arbitrary size and compared with the SPOE encoding.
//
//vsym C03 name:one quick:actions=1,name=4000,val=70000,buf=5000 thorough:actions=1,name=70000,val=3000000,buf=100000 expect:done time:60/400
//vsym C03 name:two quick:actions=2,name=300,val=300,buf=40,kinds=3 thorough:actions=2,name=3000,val=3000,buf=3000 expect:done time:120/600
//vsym C03 name:three thorough-only quick:actions=3,name=5,val=5,buf=9,kinds=5 expect:done time:60/600
func VSym_Actions() {
	n := vsym.Param("actions", 1)
	bufLen := vsym.Int("bufLen", 0, vsym.Param("buf", 30))
	off := vsym.Int("off", 0, vsym.Param("buf", 30))
	vsym.Assume(off <= bufLen)
	buf := vsym.Bytes("buf", bufLen)
	pre := make([]byte, off)
	copy(pre, buf)
	w := NewActionWriter(buf, off)
	var as []vsymAct
	for i := 0; i < n; i++ {
		a := vsymAnyAct(vsym.Param("name", 20), vsym.Param("val", 20), vsym.Param("kinds", 12))
		as = append(as, a)
		vsym.Assert(a.write(w) == nil, "adding an action failed")
	}
	out := w.Bytes()
	vsym.Assert(w.Off() == len(out), "Off is not the number of bytes")
	vsym.Assert(len(out) >= off, "existing bytes lost")
	vsym.AssertEqBytes(out[:off], pre, "existing bytes changed")
	rest := out[off:]
	for i := range as {
		rest = as[i].check(rest)
	}
	vsym.Assert(len(rest) == 0, "extra bytes behind the actions")
	vsym.Cover("done")
	vsym.Observe("len", uint64(len(out)))
}
