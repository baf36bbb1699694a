package sticktable

import "github.com/dropmorepackets/haproxy-go/internal/vsym"

// An entry update is encoded into a buffer of any size and decoded again.
//
//vsym C18 name:keys quick:data=0,key=5000 thorough:data=0,key=100000 expect:fits,rejected time:60/300
//vsym C18 name:one quick:data=1,key=20,dict=300 thorough:data=1,key=300,dict=30000 expect:fits,rejected time:100/400
//vsym C18 name:types quick:data=9,key=4,dict=4 thorough:data=9,key=300,dict=300 expect:fits,rejected time:60/400
//vsym C18 name:two quick:data=2,key=20,dict=20 thorough:data=2,key=300,dict=300 expect:fits,rejected time:60/400
//vsym C18 name:three thorough-only quick:data=3,key=4,dict=4 expect:fits,rejected time:60/600
func VSym_Entry() {
	nd := vsym.Param("data", 1)
	reps := []int{0, 1, 13, 3, 19} // one data type of every kind
	def := &Definition{}
	var vals []vsymVal
	key := 0
	if nd == 9 { // every data type
		t := vsym.Choose("type", 27)
		if vsymArray(t) {
			return // see C30
		}
		def.DataTypes = append(def.DataTypes, DataTypeDefinition{DataType: DataType(t)})
		vals = append(vals, vsymAnyVal(int(vsymKinds[t]), vsym.Param("dict", 4), true))
	} else {
		if nd < 3 {
			key = vsym.Choose("keyKind", 5)
		}
		for i := 0; i < nd; i++ {
			t := reps[vsym.Choose("kind", 5)]
			def.DataTypes = append(def.DataTypes, DataTypeDefinition{DataType: DataType(t)})
			vals = append(vals, vsymAnyVal(int(vsymKinds[t]), vsym.Param("dict", 4), nd > 1))
		}
	}
	k := vsymAnyKey(key, vsym.Param("key", 10))
	def.KeyType, def.KeyLength = k.typ, k.size
	e := &EntryUpdate{StickTable: def, Key: k.key()}
	e.LocalUpdateID = vsym.U32("updateID")
	e.Expiry = vsym.U32("expiry")
	e.WithLocalUpdateID = vsym.Choose("withID", 2) == 1
	e.WithExpiry = vsym.Choose("withExpiry", 2) == 1
	for i := range vals {
		e.Data = append(e.Data, vals[i].data())
	}
	var parts [][]byte
	if e.WithLocalUpdateID {
		parts = append(parts, vsymU32(e.LocalUpdateID))
	}
	if e.WithExpiry {
		parts = append(parts, vsymU32(e.Expiry))
	}
	parts = append(parts, k.wire())
	for i := range vals {
		parts = append(parts, vals[i].wire())
	}
	wire := vsymCat(parts...)
	id, exp := e.LocalUpdateID, e.Expiry

	room := vsym.Int("room", 0, vsym.Param("key", 10)+vsym.Param("dict", 4)*3+100)
	vsym.Assume(room <= len(wire)+3)
	buf := make([]byte, room)
	n, err := e.Marshal(buf)
	// encoding leaves the entry as it is
	vsym.Assert(e.LocalUpdateID == id && e.Expiry == exp && len(e.Data) == len(vals), "entry changed by encoding")
	k.same(e.Key, "changed by encoding")
	for i := range vals {
		vals[i].same(e.Data[i], "changed by encoding")
	}
	if room < len(wire) {
		vsym.Assert(err != nil, "entry does not fit but is encoded")
		vsym.Cover("rejected")
		return
	}
	vsym.Assert(err == nil, "entry fits but is rejected")
	vsym.Assert(n == len(wire), "encoded length")
	vsym.AssertEqBytes(buf[:n], wire, "encoded entry")
	vsym.Cover("fits")

	got := &EntryUpdate{StickTable: def, WithLocalUpdateID: e.WithLocalUpdateID, WithExpiry: e.WithExpiry}
	base := vsym.U32("base")
	got.LocalUpdateID = base
	used, err := got.Unmarshal(buf)
	vsym.Assert(err == nil, "encoded entry is rejected")
	vsym.Assert(used == n, "decoder consumes the wrong number of bytes")
	if e.WithLocalUpdateID {
		vsym.Assert(got.LocalUpdateID == id, "decoded update id")
	} else {
		vsym.Assert(got.LocalUpdateID == base, "update id changed without one in the message")
	}
	if e.WithExpiry {
		vsym.Assert(got.Expiry == exp, "decoded expiry")
	} else {
		vsym.Assert(got.Expiry == 0, "expiry without one in the message")
	}
	k.same(got.Key, "decoded")
	vsym.Assert(len(got.Data) == len(vals), "number of decoded values")
	for i := range vals {
		vals[i].same(got.Data[i], "decoded")
	}
}

// Binary keys always take the key size of the table on the wire.
//
//vsym C18 name:binary quick:key=40 thorough:key=200 expect:padded,rejected time:60/300
func VSym_BinaryKey() {
	max := vsym.Param("key", 10)
	str := vsym.Bytes("bin", vsym.Int("binLen", 0, max))
	size := vsym.Int("keySize", 0, max)
	room := vsym.Int("room", 0, max)
	buf := vsym.Bytes("buf", room)
	k := BinaryKey(str)
	n, err := k.Marshal(buf, uint64(size))
	if len(str) > size || size > room {
		vsym.Assert(err != nil, "key that does not fit is encoded")
		vsym.Cover("rejected")
		return
	}
	if len(str) < size && err != nil {
		return // rejecting is as good as padding
	}
	vsym.Assert(err == nil, "key fits but is rejected")
	vsym.Assert(n == size, "encoded key does not have the key size")
	want := make([]byte, size)
	copy(want, str)
	vsym.AssertEqBytes(buf[:n], want, "encoded key")
	vsym.Cover("padded")
}
