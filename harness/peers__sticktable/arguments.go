package sticktable

import (
	"net/netip"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
)

// Encoding leaves a definition as it is, also if it does not fit.
//
//vsym C37 name:definition quick:types=2,room=20 thorough:types=3,room=40 expect:encoded,refused time:60/300
func VSym_DefinitionArgument() {
	n := vsym.Param("types", 3)
	d := &Definition{StickTableID: uint64(vsym.U8("id")), Name: vsym.String("name", 2), KeyType: vsymKeyTypes[vsym.Choose("key", 5)], KeyLength: uint64(vsym.U16("length")), Expiry: 3}
	for i := 0; i < n; i++ { // in any order
		t := []DataType{0, 3, 10, 25}[vsym.Choose("type", 4)]
		d.DataTypes = append(d.DataTypes, DataTypeDefinition{DataType: t, Counter: uint64(vsym.Int("counter", 0, 239)), Period: uint64(vsym.Int("period", 0, 239))})
	}
	before := *d
	before.DataTypes = append([]DataTypeDefinition{}, d.DataTypes...)
	buf := make([]byte, vsym.Int("room", 0, vsym.Param("room", 30)))
	if _, err := d.Marshal(buf); err == nil {
		vsym.Cover("encoded")
	} else {
		vsym.Cover("refused")
	}
	vsymSameDef(d, &before, "encoded definition changes")
}

// The same for entries and the definition they belong to.
//
//vsym C37 name:entry quick:values=1,room=60 thorough:values=2,room=60 expect:encoded,refused time:60/300
func VSym_EntryArgument() {
	k := vsymAnyKey(vsym.Choose("key", 5), 5)
	def := &Definition{StickTableID: 4, Name: "t", KeyType: k.typ, KeyLength: k.size}
	if k.typ == KeyTypeBinary {
		def.KeyLength += uint64(vsym.Choose("shorter", 3))
	}
	e := &EntryUpdate{StickTable: def, Key: k.key(), WithLocalUpdateID: vsym.Bool("id"), LocalUpdateID: vsym.U32("id"), WithExpiry: vsym.Bool("timed"), Expiry: vsym.U32("expiry")}
	var vals []vsymVal
	for i := 0; i < vsym.Param("values", 2); i++ {
		t := []DataType{0, 1, 13, 3, 19}[vsym.Choose("type", 5)]
		v := vsymAnyVal(int(vsymKinds[t]), 4, true)
		v.str = vsym.Copy(v.str)
		vals = append(vals, v)
		e.Data = append(e.Data, v.data())
		def.DataTypes = append(def.DataTypes, DataTypeDefinition{DataType: t, Counter: 1, Period: 2})
	}
	beforeDef := *def
	beforeDef.DataTypes = append([]DataTypeDefinition{}, def.DataTypes...)
	before := *e
	buf := make([]byte, vsym.Int("room", 0, vsym.Param("room", 40)))
	for i := 0; i < 2; i++ { // twice, to the same effect
		n, err := e.Marshal(buf)
		if err == nil {
			vsym.Cover("encoded")
			out := vsym.Copy(buf[:n])
			m, err := e.Marshal(buf)
			vsym.Assert(err == nil, "an entry can be encoded only once")
			vsym.AssertEqBytes(buf[:m], out, "encoding an entry again")
		} else {
			vsym.Cover("refused")
		}
	}
	vsym.Assert(e.StickTable == def, "entry has another definition")
	vsymSameDef(def, &beforeDef, "definition of an encoded entry changes")
	vsym.Assert(e.WithLocalUpdateID == before.WithLocalUpdateID && e.LocalUpdateID == before.LocalUpdateID, "id of an encoded entry changes")
	vsym.Assert(e.WithExpiry == before.WithExpiry && e.Expiry == before.Expiry, "expiry of an encoded entry changes")
	k.same(e.Key, "encoded entry changes")
	vsym.Assert(len(e.Data) == len(vals), "encoded entry changes")
	for i := range vals {
		vals[i].same(e.Data[i], "encoded entry changes")
	}
}

// Addresses in any form, and keys and values with bytes behind them that belong
// to someone else, stay as they are.
//
//vsym C37 name:values quick:len=4 thorough:len=8 expect:four,mapped,six,binary,dictionary time:60/200
func VSym_ValueArguments() {
	buf := make([]byte, vsym.Int("room", 0, 24))
	size := uint64(vsym.Choose("size", 6)) * 4
	switch what := vsym.Choose("what", 5); what {
	case 0, 1, 2:
		var a [16]byte
		copy(a[12:], vsym.Bytes("address", 4))
		addr := netip.AddrFrom4([4]byte(a[12:]))
		if what > 0 {
			if what == 1 {
				a[10], a[11] = 255, 255
			} else {
				a[0] = 32
			}
			addr = netip.AddrFrom16(a)
			if vsym.Choose("zone", 2) == 1 {
				addr = addr.WithZone("x")
			}
		}
		k4, k6 := IPv4AddressKey(addr), IPv6AddressKey(addr)
		_, _ = k4.Marshal(buf, size)
		_, _ = k6.Marshal(buf, size)
		_, _ = k4.String(), k6.String()
		vsym.Assert(netip.Addr(k4) == addr && netip.Addr(k6) == addr, "encoded address changes")
		vsym.Cover([]string{"four", "mapped", "six"}[what])
	case 3, 4:
		n := vsym.Choose("length", vsym.Param("len", 4)+1)
		b := vsym.Bytes("bytes", n+3)
		own := vsym.Copy(b)
		if what == 3 {
			k := BinaryKey(own[:n])
			_, _ = k.Marshal(buf, size)
			_ = k.String()
			vsym.AssertEqBytes(k, b[:n], "encoded key changes")
			vsym.Cover("binary")
		} else {
			d := DictData{ID: uint64(vsym.Choose("id", 2)), Value: own[:n]}
			_, _ = d.Marshal(buf)
			_ = d.String()
			vsym.AssertEqBytes(d.Value, b[:n], "encoded value changes")
			vsym.Cover("dictionary")
		}
		vsym.AssertEqBytes(own, b, "bytes of the caller change")
	}
}

// Decoding leaves the input and the definition as they are.
//
//vsym C37 name:decode quick:len=6 thorough:len=10 expect:definition,entry time:60/400
func VSym_DecodeArguments() {
	b := vsym.Bytes("input", vsym.Choose("length", vsym.Param("len", 8)+1))
	given := vsym.Copy(b)
	if vsym.Choose("what", 2) == 0 {
		var d Definition
		_, _ = d.Unmarshal(given)
		vsym.Cover("definition")
	} else {
		def := &Definition{StickTableID: 4, Name: "t", KeyType: vsymKeyTypes[vsym.Choose("key", 5)], KeyLength: vsym.U64("length"), Expiry: 3}
		for i := 0; i < 2; i++ {
			t := []DataType{0, 1, 13, 3, 19}[vsym.Choose("type", 5)]
			def.DataTypes = append(def.DataTypes, DataTypeDefinition{DataType: t, Counter: 1, Period: 2})
		}
		before := *def
		before.DataTypes = append([]DataTypeDefinition{}, def.DataTypes...)
		e := EntryUpdate{StickTable: def, WithExpiry: vsym.Bool("timed")}
		_, _ = e.Unmarshal(given)
		vsym.Assert(e.StickTable == def, "entry has another definition")
		vsymSameDef(def, &before, "definition changes while decoding")
		vsym.Cover("entry")
	}
	vsym.AssertEqBytes(given, b, "input is changed by decoding it")
}
