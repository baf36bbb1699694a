package sticktable

import "github.com/dropmorepackets/haproxy-go/internal/vsym"

// Every data type number has the value kind HAProxy uses, exactly the rate
// types have parameters, and values are not shared.
//
//vsym C30 expect:known,unknown time:60/300
func VSym_DataTypes() {
	t := DataType(int(vsym.U64("type")))
	known := -1
	for i := 0; i < 27; i++ {
		if vsym.Fork(t == DataType(i)) {
			known = i
		}
	}
	d := t.New()
	if known < 0 {
		vsym.Assert(d == nil, "unknown data type has a value")
		vsym.Assert(!t.IsDelay(), "unknown data type has parameters")
		def := &Definition{KeyType: KeyTypeSignedInteger, KeyLength: 4, DataTypes: []DataTypeDefinition{{DataType: t}}}
		e := &EntryUpdate{StickTable: def}
		_, err := e.Unmarshal(vsym.Bytes("in", 30))
		vsym.Assert(err != nil, "entry with an unknown data type accepted")
		vsym.Cover("unknown")
		return
	}
	vsym.Cover("known")
	vsym.Assert(t.IsDelay() == vsymRate(known), "parameters of a rate type")
	vsym.Assert(d != nil, "known data type without a value")
	kind := vsymKind(d)
	switch known {
	case 22:
		vsym.Assert(kind == vsymUint, "value kind of array type 22 (gpt)")
	case 23:
		vsym.Assert(kind == vsymUint, "value kind of array type 23 (gpc)")
	case 24:
		vsym.Assert(kind == vsymFreq, "value kind of array type 24 (gpc_rate)")
	default:
		vsym.Assert(kind == int(vsymKinds[known]), "value kind of a data type")
	}
	// a second value is fresh
	v := vsymAnyVal(kind, 3, true)
	buf := make([]byte, 40)
	n, err := v.data().Marshal(buf)
	vsym.Assert(err == nil, "value rejected")
	_, err = d.Unmarshal(buf[:n])
	vsym.Assert(err == nil, "encoded value rejected")
	v.same(d, "decoded")
	f := t.New()
	zero := vsymVal{kind: kind}
	zero.same(f, "fresh")
	v.same(d, "first")
}

// Key types.
//
//vsym C30 name:keys expect:known,unknown time:60/300
func VSym_KeyTypes() {
	t := KeyType(int(vsym.U64("type")))
	known := -1
	for i, k := range vsymKeyTypes {
		if vsym.Fork(t == k) {
			known = i
		}
	}
	if known < 0 {
		def := &Definition{KeyType: t, KeyLength: vsym.U64("keyLength")}
		e := &EntryUpdate{StickTable: def}
		_, err := e.Unmarshal(vsym.Bytes("in", 30))
		vsym.Assert(err != nil, "entry with an unknown key type accepted")
		vsym.Cover("unknown")
		return
	}
	a := vsymAnyKey(known, 5)
	d := t.New()
	w := a.wire()
	n, err := d.Unmarshal(vsymCat(w, []byte{1, 2}), a.size)
	vsym.Assert(err == nil && n == len(w), "key rejected")
	a.same(d, "decoded")
	f := t.New()
	b := vsymAnyKey(known, 5)
	_, _ = f.Unmarshal(b.wire(), b.size)
	a.same(d, "first")
	vsym.Cover("known")
}
