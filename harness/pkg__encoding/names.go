package encoding

import (
	"github.com/dropmorepackets/haproxy-go/internal/vsym"
)

// All comparisons with the name of a scanned entry agree with byte equality.
//
//vsym C29 name:short quick:len=12 thorough:len=40 expect:equal,different time:60/300
func VSym_Names() {
	max := vsym.Param("len", 8)
	name := vsym.Bytes("name", vsym.Concrete(vsym.Int("nameLen", 0, max)))
	cand := vsym.Bytes("cand", vsym.Concrete(vsym.Int("candLen", 0, max)))
	vsymNames(name, cand)
}

// Longer names and candidates of the same length.
//
//vsym C29 name:long quick:min=13,max=40 thorough:min=41,max=300 expect:equal,different time:60/300
func VSym_NamesLong() {
	n := vsym.Concrete(vsym.Int("len", vsym.Param("min", 1), vsym.Param("max", 8)))
	vsymNames(vsym.Bytes("name", n), vsym.Bytes("cand", n))
}

func vsymNames(name, cand []byte) {
	wire := append(vsymVarint(uint64(len(name))), name...)
	wire = append(wire, 0)
	s := NewKVScanner(wire, 1)
	k := &KVEntry{}
	vsym.Assert(s.Next(k), "entry rejected")
	want := vsym.EqBytes(name, cand)
	a := k.NameEquals(string(cand))
	b := k.NameEqualBytes(cand)
	c := k.NameEqualUnsafe(string(cand))
	vsym.Assert(a == want, "NameEquals")
	vsym.Assert(b == want, "NameEqualBytes")
	vsym.Assert(c == want, "NameEqualUnsafe")
	vsym.AssertEqBytes(k.NameBytes(), name, "name changed by a comparison")
	// the comparisons do not change what the entry or the next comparison says
	vsym.Assert(k.NameEquals(string(name)) && k.NameEqualBytes(name) && k.NameEqualUnsafe(string(name)), "entry differs from its own name")
	if vsym.Fork(want) {
		vsym.Cover("equal")
	} else {
		vsym.Cover("different")
	}
}
