package sticktable

import (
	"net/netip"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
)

const (
	vsymSint = iota
	vsymUint
	vsymUll
	vsymFreq
	vsymDict
	vsymOther
)

// vsymKinds is the value kind of every data type in HAProxy's
// stktable_data_types.
var vsymKinds = [27]byte{
	vsymSint, vsymUint, vsymUint, vsymFreq, vsymUint, vsymFreq, vsymUint,
	vsymUint, vsymFreq, vsymUint, vsymFreq, vsymUint, vsymFreq, vsymUll,
	vsymFreq, vsymUll, vsymFreq, vsymUint, vsymFreq, vsymDict, vsymUint,
	vsymFreq, vsymUint, vsymUint, vsymFreq, vsymUint, vsymFreq,
}

func vsymArray(t int) bool { return t >= 22 && t <= 24 }

func vsymRate(t int) bool {
	return t >= 0 && t < 27 && !vsymArray(t) && vsymKinds[t] == vsymFreq
}

func vsymKind(d MapData) int {
	switch d.(type) {
	case *SignedIntegerData:
		return vsymSint
	case *UnsignedIntegerData:
		return vsymUint
	case *UnsignedLongLongData:
		return vsymUll
	case *FreqData:
		return vsymFreq
	case *DictData:
		return vsymDict
	}
	return vsymOther
}

// vsymVal is an arbitrary data value.
type vsymVal struct {
	kind    int
	a, b, c uint64
	str     []byte
}

// small: one-byte integers.
func vsymNum(name string, small bool) uint64 {
	if small {
		return uint64(vsym.Int(name, 0, 239))
	}
	return vsym.U64(name)
}

func vsymAnyVal(kind, maxStr int, small bool) (v vsymVal) {
	v.kind = kind
	switch kind {
	case vsymSint:
		if small {
			v.a = vsymNum("val", true)
		} else {
			v.a = uint64(int64(int32(vsym.U32("val"))))
		}
	case vsymUint:
		if small {
			v.a = vsymNum("val", true)
		} else {
			v.a = uint64(vsym.U32("val"))
		}
	case vsymUll:
		v.a = vsymNum("val", small)
	case vsymFreq:
		wide := 3
		if !small {
			wide = vsym.Choose("wide", 3)
		}
		v.a = vsymNum("tick", wide != 0)
		v.b = vsymNum("cur", wide != 1)
		v.c = vsymNum("last", wide != 2)
	case vsymDict:
		v.a = vsymNum("id", small)
		v.str = vsym.Bytes("dict", vsym.Int("dictLen", 0, maxStr))
		// an entry without an id has no value
		vsym.Assume(v.a != 0 || len(v.str) == 0)
	}
	return
}

func (v *vsymVal) data() MapData {
	switch v.kind {
	case vsymSint:
		d := SignedIntegerData(int32(v.a))
		return &d
	case vsymUint:
		d := UnsignedIntegerData(uint32(v.a))
		return &d
	case vsymUll:
		d := UnsignedLongLongData(v.a)
		return &d
	case vsymFreq:
		return &FreqData{CurrentTick: v.a, CurrentPeriod: v.b, LastPeriod: v.c}
	default:
		return &DictData{ID: v.a, Value: v.str}
	}
}

func vsymCat(bs ...[]byte) []byte {
	n := 0
	for _, b := range bs {
		n += len(b)
	}
	out := make([]byte, n)
	pos := 0
	for _, b := range bs {
		pos = vsym.Put(out, pos, b)
	}
	return out
}

// wire is HAProxy's encoding of the value.
func (v *vsymVal) wire() []byte {
	switch v.kind {
	case vsymFreq:
		return vsymCat(vsym.RefVarint(v.a), vsym.RefVarint(v.b), vsym.RefVarint(v.c))
	case vsymDict:
		if v.a == 0 {
			return []byte{0}
		}
		id := vsym.RefVarint(v.a)
		if len(v.str) == 0 {
			return vsymCat(vsym.RefVarint(uint64(len(id))), id)
		}
		l := vsym.RefVarint(uint64(len(v.str)))
		return vsymCat(vsym.RefVarint(uint64(len(id)+len(l)+len(v.str))), id, l, v.str)
	default:
		return vsym.RefVarint(v.a)
	}
}

// same compares a decoded value.
func (v *vsymVal) same(d MapData, what string) {
	vsym.Assert(vsymKind(d) == v.kind, what+": value of the wrong kind")
	switch d := d.(type) {
	case *SignedIntegerData:
		vsym.Assert(int32(*d) == int32(v.a), what+": signed value")
	case *UnsignedIntegerData:
		vsym.Assert(uint32(*d) == uint32(v.a), what+": unsigned value")
	case *UnsignedLongLongData:
		vsym.Assert(uint64(*d) == v.a, what+": 64-bit value")
	case *FreqData:
		vsym.Assert(d.CurrentTick == v.a && d.CurrentPeriod == v.b && d.LastPeriod == v.c, what+": rate value")
	case *DictData:
		vsym.Assert(d.ID == v.a, what+": dictionary id")
		vsym.AssertEqBytes(d.Value, v.str, what+": dictionary value")
	}
}

// vsymK is an arbitrary key.
type vsymK struct {
	typ  KeyType
	size uint64
	num  uint32
	a4   [4]byte
	a16  [16]byte
	str  []byte
}

var vsymKeyTypes = [5]KeyType{KeyTypeSignedInteger, KeyTypeIPv4Address, KeyTypeIPv6Address, KeyTypeString, KeyTypeBinary}

func vsymAnyKey(which, maxStr int) (k vsymK) {
	k.typ = vsymKeyTypes[which]
	switch which {
	case 0:
		k.num = vsym.U32("key")
		k.size = 4
	case 1:
		copy(k.a4[:], vsym.Bytes("ip4", 4))
		k.size = 4
	case 2:
		copy(k.a16[:], vsym.Bytes("ip6", 16))
		k.size = 16
	case 3:
		k.str = vsym.Bytes("str", vsym.Int("strLen", 0, maxStr))
		k.size = uint64(maxStr)
	case 4:
		k.str = vsym.Bytes("bin", vsym.Int("binLen", 0, maxStr))
		k.size = uint64(len(k.str))
	}
	return
}

func (k *vsymK) key() MapKey {
	switch k.typ {
	case KeyTypeSignedInteger:
		v := SignedIntegerKey(int32(k.num))
		return &v
	case KeyTypeIPv4Address:
		v := IPv4AddressKey(netip.AddrFrom4(k.a4))
		return &v
	case KeyTypeIPv6Address:
		v := IPv6AddressKey(netip.AddrFrom16(k.a16))
		return &v
	case KeyTypeString:
		v := StringKey(string(k.str))
		return &v
	default:
		v := BinaryKey(vsym.Copy(k.str))
		return &v
	}
}

func (k *vsymK) wire() []byte {
	switch k.typ {
	case KeyTypeSignedInteger:
		return []byte{byte(k.num >> 24), byte(k.num >> 16), byte(k.num >> 8), byte(k.num)}
	case KeyTypeIPv4Address:
		return k.a4[:]
	case KeyTypeIPv6Address:
		return k.a16[:]
	case KeyTypeString:
		return vsymCat(vsym.RefVarint(uint64(len(k.str))), k.str)
	default:
		return k.str
	}
}

func (k *vsymK) same(m MapKey, what string) {
	switch v := m.(type) {
	case *SignedIntegerKey:
		vsym.Assert(k.typ == KeyTypeSignedInteger && uint32(*v) == k.num, what+": integer key")
	case *IPv4AddressKey:
		vsym.Assert(k.typ == KeyTypeIPv4Address, what+": key type")
		vsym.Assert(netip.Addr(*v) == netip.AddrFrom4(k.a4), what+": IPv4 key")
	case *IPv6AddressKey:
		vsym.Assert(k.typ == KeyTypeIPv6Address, what+": key type")
		vsym.Assert(netip.Addr(*v) == netip.AddrFrom16(k.a16), what+": IPv6 key")
	case *StringKey:
		vsym.Assert(k.typ == KeyTypeString, what+": key type")
		vsym.AssertEqBytes([]byte(string(*v)), k.str, what+": string key")
	case *BinaryKey:
		vsym.Assert(k.typ == KeyTypeBinary, what+": key type")
		vsym.AssertEqBytes([]byte(*v), k.str, what+": binary key")
	default:
		vsym.Assert(false, what+": unknown key")
	}
}

func vsymU32(v uint32) []byte {
	return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}

func vsymSameDef(a, b *Definition, what string) {
	vsym.Assert(a.StickTableID == b.StickTableID, what+": table id")
	vsym.AssertEqBytes([]byte(a.Name), []byte(b.Name), what+": name")
	vsym.Assert(a.KeyType == b.KeyType, what+": key type")
	vsym.Assert(a.KeyLength == b.KeyLength, what+": key length")
	vsym.Assert(a.Expiry == b.Expiry, what+": expiry")
	vsym.Assert(len(a.DataTypes) == len(b.DataTypes), what+": number of data types")
	for i := range a.DataTypes {
		vsym.Assert(a.DataTypes[i] == b.DataTypes[i], what+": data type")
	}
}

func vsymSameKey(a, b MapKey) {
	const what = "key depends on more than the input"
	switch x := a.(type) {
	case *SignedIntegerKey:
		y, ok := b.(*SignedIntegerKey)
		vsym.Assert(ok && *x == *y, what)
	case *IPv4AddressKey:
		y, ok := b.(*IPv4AddressKey)
		vsym.Assert(ok && *x == *y, what)
	case *IPv6AddressKey:
		y, ok := b.(*IPv6AddressKey)
		vsym.Assert(ok && *x == *y, what)
	case *StringKey:
		y, ok := b.(*StringKey)
		vsym.Assert(ok, what)
		vsym.AssertEqBytes([]byte(string(*x)), []byte(string(*y)), what)
	case *BinaryKey:
		y, ok := b.(*BinaryKey)
		vsym.Assert(ok, what)
		vsym.AssertEqBytes([]byte(*x), []byte(*y), what)
	default:
		vsym.Assert(false, "decoded key of unknown type")
	}
}

func vsymSameData(a, b MapData) {
	const what = "value depends on more than the input"
	k := vsymKind(a)
	vsym.Assert(k == vsymKind(b) && k != vsymOther, what)
	switch x := a.(type) {
	case *SignedIntegerData:
		vsym.Assert(*x == *b.(*SignedIntegerData), what)
	case *UnsignedIntegerData:
		vsym.Assert(*x == *b.(*UnsignedIntegerData), what)
	case *UnsignedLongLongData:
		vsym.Assert(*x == *b.(*UnsignedLongLongData), what)
	case *FreqData:
		vsym.Assert(*x == *b.(*FreqData), what)
	case *DictData:
		y := b.(*DictData)
		vsym.Assert(x.ID == y.ID, what)
		vsym.AssertEqBytes(x.Value, y.Value, what)
	}
}
