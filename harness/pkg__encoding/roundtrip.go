package encoding

import (
	"github.com/dropmorepackets/haproxy-go/internal/vsym"
)

// A list of arbitrary entries is written at an arbitrary position, compared
// with the wire format and read back.
//
//vsym C02 name:one quick:entries=1,name=4000,val=70000,off=300 thorough:entries=1,name=70000,val=3000000,off=5000 expect:done time:60/400
//vsym C02 name:two quick:entries=2,name=300,val=300,off=3 thorough:entries=2,name=3000,val=3000,off=3 expect:done time:60/400
//vsym C02 name:three thorough-only quick:entries=3,name=5,val=5,off=0 expect:done time:60/600
func VSym_KVRoundTrip() {
	n := vsym.Param("entries", 1)
	start := vsym.Int("off", 0, vsym.Param("off", 3))
	var es []vsymKV
	need := start
	for i := 0; i < n; i++ {
		e := vsymAnyKV(vsym.Param("name", 20), vsym.Param("val", 20))
		es = append(es, e)
		need += e.size()
	}
	buf := make([]byte, need+vsym.Int("spare", 0, 9))
	pre := vsym.Bytes("pre", start)
	copy(buf, pre)
	w := NewKVWriter(buf, start)
	for i := range es {
		vsym.Assert(es[i].write(w) == nil, "write into a large enough buffer failed")
	}
	out := w.Bytes()
	vsym.Assert(w.Off() == need, "Off is not the end of the entries")
	vsym.Assert(len(out) == need, "reported bytes are not exactly the entries")
	vsym.AssertEqBytes(out[:start], pre, "bytes before the start position")
	rest := out[start:]
	for i := range es {
		rest = es[i].checkWire(rest, "wire")
	}
	vsym.Assert(len(rest) == 0, "extra bytes after the entries")

	s := NewKVScanner(out[start:], n)
	k := &KVEntry{}
	for i := range es {
		vsym.Assert(s.Next(k), "scanner stopped early")
		es[i].checkEntry(k)
	}
	vsym.Assert(!s.Next(k), "scanner returned an extra entry")
	vsym.Assert(s.Error() == nil, "scanner reported an error at the end")
	vsym.Assert(s.RemainingBuf() == 0, "scanner left bytes over")
	vsym.Cover("done")
	vsym.Observe("len", uint64(len(out)))
}
