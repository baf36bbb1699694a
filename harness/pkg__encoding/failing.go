package encoding

import (
	"net/netip"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
)

// A pair written into a buffer of any size: it is accepted exactly if it
// fits, a rejected one leaves the output as it was, and a smaller one can
// still be added.
//
//vsym C06 name:kv quick:name=4000,val=70000 thorough:name=70000,val=3000000 expect:fits,rejected,next time:60/400
func VSym_KVFull() {
	size := vsym.Int("size", 0, vsym.Param("name", 20)+vsym.Param("val", 20))
	start := vsym.Int("off", 0, 300)
	vsym.Assume(start <= size)
	buf := vsym.Bytes("buf", size)
	before := make([]byte, start)
	copy(before, buf)
	e := vsymAnyKV(vsym.Param("name", 20), vsym.Param("val", 20))
	w := NewKVWriter(buf, start)
	err := e.write(w)
	out := w.Bytes()
	vsym.Assert(w.Off() == len(out), "Off is not the number of bytes")
	vsym.Assert(len(out) >= start, "existing output lost")
	vsym.AssertEqBytes(out[:start], before, "existing output changed")
	if e.size() > size-start {
		vsym.Assert(err != nil, "pair without room accepted")
		vsym.Assert(len(out) == start, "rejected pair changes the output")
		vsym.Cover("rejected")
	} else {
		vsym.Assert(err == nil, "pair with room rejected")
		vsym.Assert(len(e.checkWire(out[start:], "wire")) == 0, "extra bytes")
		vsym.Cover("fits")
	}
	// a small one behind it
	at := len(out)
	var f vsymKV
	f.kind = []int{1, 4, 8}[vsym.Choose("next", 3)]
	f.fill(3, 3)
	err = f.write(w)
	out = w.Bytes()
	if f.size() > size-at {
		vsym.Assert(err != nil && len(out) == at, "next pair without room")
		return
	}
	vsym.Assert(err == nil, "next pair with room rejected")
	vsym.AssertEqBytes(out[:start], before, "existing output changed by the next pair")
	vsym.Assert(len(f.checkWire(out[at:], "next")) == 0, "extra bytes behind the next pair")
	vsym.Cover("next")
}

// Addresses that are neither IPv4 nor IPv6.
//
//vsym C06 name:addr quick:name=4000 thorough:name=70000 expect:kv,action time:60/300
func VSym_BadAddr() {
	size := vsym.Int("size", 0, vsym.Param("name", 20)+10)
	start := vsym.Int("off", 0, 300)
	vsym.Assume(start <= size)
	buf := vsym.Bytes("buf", size)
	before := make([]byte, start)
	copy(before, buf)
	name := vsym.String("name", vsym.Int("nameLen", 0, vsym.Param("name", 20)))
	if vsym.Choose("writer", 2) == 0 {
		w := NewKVWriter(buf, start)
		vsym.Assert(w.SetAddr(name, netip.Addr{}) != nil, "invalid address accepted")
		vsym.AssertEqBytes(w.Bytes(), before, "rejected address changes the output")
		vsym.Cover("kv")
		f := vsymKV{kind: 1, name: "xy", num: 1}
		err := f.write(w)
		vsym.Assert((err == nil) == (f.size() <= size-start), "write behind a rejected address")
		if err == nil {
			vsym.Assert(len(f.checkWire(w.Bytes()[start:], "next")) == 0, "extra bytes")
		}
		return
	}
	w := NewActionWriter(buf, start)
	sc := vsymConv(VarScopeProcess, byte(vsym.Int("scope", 0, 4)))
	vsym.Assert(w.SetAddr(sc, name, netip.Addr{}) != nil, "invalid address accepted")
	vsym.Assert(w.Off() == start, "rejected address changes the length")
	vsym.AssertEqBytes(w.Bytes(), before, "rejected address changes the output")
	a := vsymAnyAct(300, 300, 3)
	vsym.Assert(a.write(w) == nil, "action behind a rejected address")
	out := w.Bytes()
	vsym.AssertEqBytes(out[:start], before, "existing output changed")
	vsym.Assert(len(a.check(out[start:])) == 0, "extra bytes")
	vsym.Cover("action")
}
