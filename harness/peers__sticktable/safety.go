package sticktable

import (
	"net/netip"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
)

// Definitions from arbitrary bytes in the middle of a larger buffer. What
// lies behind them does not matter.
//
//vsym C19 name:short quick:len=7 thorough:len=11 expect:error,ok time:100/500
func VSym_DefinitionBytes() {
	n := vsym.Int("len", 0, vsym.Param("len", 8))
	all := vsym.Bytes("in", n+20)
	b := all[4 : 4+n]
	vsymDecodeDef(b)
}

// Definitions with any pair of data type bits and arbitrary surroundings.
//
//vsym C19 name:bits quick:tail=2,bits=12,pairs=0 thorough:tail=5,bits=64,pairs=1 expect:error,ok time:90/400
func VSym_DefinitionBits() {
	i := vsym.Choose("bit1", vsym.Param("bits", 64))
	mask := uint64(1) << i
	j := 0
	if vsym.Param("pairs", 1) == 0 {
		j = []int{i, 2, 18}[vsym.Choose("other bit", 3)]
	} else if j = vsym.Choose("bit2", vsym.Param("bits", 64)); j < i {
		return
	}
	mask |= uint64(1) << j
	head := vsym.Bytes("head", 4)
	tail := vsym.Bytes("tail", vsym.Int("len", 0, vsym.Param("tail", 8)))
	all := vsymCat([]byte{head[0], 0, head[1], head[2]}, vsym.RefVarint(mask), tail, []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10})
	n := len(all) - 10
	vsymDecodeDef(all[:n])
}

// Announced lengths in long inputs.
//
//vsym C19 name:long quick:len=70000,ints=10 thorough:len=3000000,ints=10 expect:error,ok time:60/300
func VSym_DefinitionLong() {
	n := vsym.Int("len", 0, vsym.Param("len", 8))
	all := vsym.Bytes("in", n+20)
	b := all[4 : 4+n]
	_, k := vsym.RefDecode(b)
	if k < 1 || k > 2 || vsymShortLen(b[k:], vsym.Param("ints", 3)) < 0 {
		return
	}
	// the fields behind the name are kept short
	l, kk := vsym.RefDecode(b[k:])
	if kk > 0 && l < uint64(n-k-kk) {
		p := k + kk + int(l)
		for i := 0; i < 4 && p+i < n; i++ {
			vsym.Assume(b[p+i] < 240)
		}
		if n-p >= 3 {
			vsym.Assume(b[p+2] < 4)
		}
	}
	vsymDecodeDef(b)
}

func vsymDecodeDef(b []byte) {
	vsym.LimitAlloc(len(b)*2 + 4096)
	var d Definition
	n, err := d.Unmarshal(b)
	vsym.LimitAlloc(0)
	vsym.Assert(n <= len(b), "more bytes used than given")
	vsymRefDef(b, &d, n, err)
	// d2 holds another definition already
	d2 := Definition{StickTableID: 7, Name: "old", KeyType: KeyTypeBinary, KeyLength: 9, Expiry: 5}
	d2.DataTypes = []DataTypeDefinition{{DataType: 13, Counter: 3, Period: 4}, {DataType: 1}}
	n2, err2 := d2.Unmarshal(vsym.Copy(b))
	vsym.Assert((err == nil) == (err2 == nil), "result depends on more than the input")
	if err != nil {
		vsym.Cover("error")
		return
	}
	vsym.Assert(n >= 0 && n == n2, "length depends on more than the input")
	vsymSameDef(&d, &d2, "depends on more than the input")
	vsym.Cover("ok")
}

// Entry updates from arbitrary bytes for arbitrary definitions.
//
//vsym C19 name:entry quick:min=11,len=300,types=1,ints=2 thorough:len=40000,types=1,ints=3 expect:error,ok time:100/400
//vsym C19 name:entry2 quick:len=8,types=2,ints=1000 thorough:len=16,types=2,ints=1000 expect:error,ok time:60/400
func VSym_EntryBytes() {
	def := &Definition{}
	def.KeyType = vsymKeyTypes[vsym.Choose("keyType", 5)] // others: C30
	def.KeyLength = vsym.U64("keyLength")
	reps := []int{0, 1, 13, 3, 19}
	for i := 0; i < vsym.Param("types", 1); i++ {
		def.DataTypes = append(def.DataTypes, DataTypeDefinition{DataType: DataType(reps[vsym.Choose("kind", 5)])})
	}
	n := vsym.Int("len", vsym.Param("min", 0), vsym.Param("len", 8))
	all := vsym.Bytes("in", n+20)
	b := all[4 : 4+n]
	e := &EntryUpdate{StickTable: def}
	e.WithLocalUpdateID = vsym.Choose("withID", 2) == 1
	e.WithExpiry = vsym.Choose("withExpiry", 2) == 1
	if max := vsym.Param("ints", 3); n > 10 {
		// keep the integers short
		pos := 0
		if e.WithLocalUpdateID {
			pos += 4
		}
		if e.WithExpiry {
			pos += 4
		}
		switch {
		case vsym.Fork(def.KeyType == KeyTypeString):
			k := vsymShortLen(b[pos:], max)
			if k < 0 {
				return
			}
			l, _ := vsym.RefDecode(b[pos:])
			if k > 0 && l <= uint64(n-pos-k) && !vsymShort(b[pos+k+int(l):], 3, max) {
				return
			}
		case vsym.Fork(def.KeyType == KeyTypeBinary):
			if def.KeyLength <= uint64(n-pos) && !vsymShort(b[pos+int(def.KeyLength):], 3, max) {
				return
			}
		case vsym.Fork(def.KeyType == KeyTypeIPv6Address):
			if n-pos >= 16 && !vsymShort(b[pos+16:], 3, max) {
				return
			}
		case n-pos >= 4:
			if !vsymShort(b[pos+4:], 3, max) {
				return
			}
		}
	}
	e2 := *e
	old := StringKey("old")
	e2.Key = &old
	e2.Data = []MapData{&FreqData{CurrentTick: 1}}
	vsym.LimitAlloc(n*2 + 4096)
	used, err := e.Unmarshal(b)
	vsym.LimitAlloc(0)
	vsym.Assert(used <= n, "more bytes used than given")
	used2, err2 := e2.Unmarshal(vsym.Copy(b))
	vsym.Assert((err == nil) == (err2 == nil), "result depends on more than the input")
	if err != nil {
		vsym.Cover("error")
		return
	}
	vsym.Assert(used >= 0 && used == used2, "length depends on more than the input")
	vsym.Assert(e.LocalUpdateID == e2.LocalUpdateID && e.Expiry == e2.Expiry, "ids depend on more than the input")
	vsymSameKey(e.Key, e2.Key)
	vsymRefEntry(b, e, used)
	vsym.Assert(len(e.Data) == len(e2.Data) && len(e.Data) == len(def.DataTypes), "number of values")
	for i := range e.Data {
		vsymSameData(e.Data[i], e2.Data[i])
	}
	vsym.Cover("ok")
}

// vsymShort reports whether the first cnt integers at b are at most max bytes
// long, as far as they are complete.
func vsymShort(b []byte, cnt, max int) bool {
	for i := 0; i < cnt; i++ {
		k := vsymShortLen(b, max)
		if k <= 0 {
			return k == 0
		}
		b = b[k:]
	}
	return true
}

// vsymShortLen gives the length of the integer at b, 0 if it is cut within
// its first max bytes, and -1 if it is longer than max bytes.
func vsymShortLen(b []byte, max int) int {
	if max > 10 {
		_, k := vsym.RefDecode(b)
		return k
	}
	for k := 0; k < max; k++ {
		if k == len(b) {
			return 0
		}
		if k == 0 && b[k] < 240 || k > 0 && b[k] < 128 {
			return k + 1
		}
	}
	if len(b) == max {
		return 0
	}
	return -1
}

// vsymUseKey makes k hold some earlier key.
func vsymUseKey(k MapKey) {
	switch x := k.(type) {
	case *SignedIntegerKey:
		*x = SignedIntegerKey(vsym.U32("old"))
	case *IPv4AddressKey:
		*x = IPv4AddressKey(netip.AddrFrom4([4]byte(vsym.Bytes("old", 4))))
	case *IPv6AddressKey:
		*x = IPv6AddressKey(netip.AddrFrom16([16]byte(vsym.Bytes("old", 16))))
	case *StringKey:
		*x = StringKey(vsym.String("old", 3))
	case *BinaryKey:
		*x = BinaryKey(vsym.Bytes("old", 3))
	}
}

// vsymUseData makes d hold some earlier value.
func vsymUseData(d MapData) {
	switch x := d.(type) {
	case *SignedIntegerData:
		*x = SignedIntegerData(vsym.U32("old"))
	case *UnsignedIntegerData:
		*x = UnsignedIntegerData(vsym.U32("old"))
	case *UnsignedLongLongData:
		*x = UnsignedLongLongData(vsym.U64("old"))
	case *FreqData:
		x.CurrentTick, x.CurrentPeriod, x.LastPeriod = vsym.U64("old"), vsym.U64("old"), vsym.U64("old")
	case *DictData:
		x.ID, x.Value = vsym.U64("old"), vsym.Bytes("old", 3)
	}
}

// Keys and values decoded on their own from arbitrary bytes.
//
//vsym C19 name:values quick:len=70000,ints=3 thorough:len=3000000,ints=10 expect:error,ok time:60/300
//vsym C19 name:valuesshort quick:len=12,ints=1000 thorough:len=22,ints=1000 expect:error,ok time:60/300
func VSym_ValueBytes() {
	n := vsym.Int("len", 0, vsym.Param("len", 8))
	all := vsym.Bytes("in", n+20)
	b := all[4 : 4+n]
	if !vsymShort(b, 3, vsym.Param("ints", 3)) {
		return
	}
	vsym.LimitAlloc(n*2 + 4096)
	var used, used2 int
	var err, err2 error
	if vsym.Choose("what", 2) == 0 {
		kt := vsymKeyTypes[vsym.Choose("key", 5)]
		size := vsym.U64("keySize")
		k, k2 := kt.New(), kt.New()
		vsymUseKey(k2)
		used, err = k.Unmarshal(b, size)
		vsym.LimitAlloc(0)
		vsymRefKey(b, size, k, used, err)
		used2, err2 = k2.Unmarshal(vsym.Copy(b), size)
		if err == nil && err2 == nil {
			vsymSameKey(k, k2)
		}
	} else {
		dt := DataType([]int{0, 1, 13, 3, 19}[vsym.Choose("data", 5)])
		d, d2 := dt.New(), dt.New()
		vsymUseData(d2)
		used, err = d.Unmarshal(b)
		vsym.LimitAlloc(0)
		vsymRefData(b, d, used, err)
		used2, err2 = d2.Unmarshal(vsym.Copy(b))
		if err == nil && err2 == nil {
			vsymSameData(d, d2)
		}
	}
	vsym.Assert((err == nil) == (err2 == nil), "result depends on more than the input")
	vsym.Assert(used <= n, "more bytes used than given")
	if err != nil {
		vsym.Cover("error")
		return
	}
	vsym.Assert(used >= 0 && used == used2, "length depends on more than the input")
	vsym.Cover("ok")
}
