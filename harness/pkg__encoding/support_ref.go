package encoding

import "github.com/dropmorepackets/haproxy-go/internal/vsym"

// vsymEntry is one entry decoded from raw bytes by the reference decoder.
type vsymEntry struct {
	name  []byte
	kind  byte
	flag  bool
	num   uint64
	val   []byte
	used  int  // bytes of the entry
	bad   bool // cut off or of unknown type
	weird bool // contains an integer longer than any 64-bit value
}

func vsymRefEntry(b []byte) (e vsymEntry) {
	l, n := vsymDecode(b)
	if n < 0 {
		e.weird = true
		return
	}
	if n == 0 || l >= uint64(len(b)-n) { // the type byte follows the name
		e.bad = true
		return
	}
	e.name = b[n : n+int(l)]
	p := n + int(l)
	e.kind = b[p] & 15
	e.flag = b[p]&16 != 0
	p++
	switch e.kind {
	case 0, 1:
	case 2, 3, 4, 5:
		v, n := vsymDecode(b[p:])
		if n < 0 {
			e.weird = true
			return
		}
		if n == 0 {
			e.bad = true
			return
		}
		e.num = v
		p += n
	case 6, 7:
		n := 4
		if e.kind == 7 {
			n = 16
		}
		if len(b)-p < n {
			e.bad = true
			return
		}
		e.val = b[p : p+n]
		p += n
	case 8, 9:
		v, n := vsymDecode(b[p:])
		if n < 0 {
			e.weird = true
			return
		}
		if n == 0 || v > uint64(len(b)-p-n) {
			e.bad = true
			return
		}
		p += n
		e.val = b[p : p+int(v)]
		p += int(v)
	default:
		e.bad = true
		return
	}
	e.used = p
	return
}

// same checks a reported entry against the reference.
func (e *vsymEntry) same(k *KVEntry) {
	vsym.AssertEqBytes(k.NameBytes(), e.name, "entry name")
	vsym.Assert(byte(k.Type()) == e.kind, "entry type")
	switch e.kind {
	case 0:
		vsym.Assert(k.Value() == nil, "null entry has a value")
	case 1:
		vsym.Assert(k.ValueBool() == e.flag, "entry bool")
		v, ok := k.Value().(bool)
		vsym.Assert(ok && v == e.flag, "entry bool value")
	case 2, 3, 4, 5:
		vsym.Assert(uint64(k.ValueInt()) == e.num, "entry integer")
		switch v := k.Value().(type) {
		case int32:
			vsym.Assert(e.kind == 2 && v == int32(e.num), "entry int32 value")
		case uint32:
			vsym.Assert(e.kind == 3 && v == uint32(e.num), "entry uint32 value")
		case int64:
			vsym.Assert(e.kind == 4 && v == int64(e.num), "entry int64 value")
		case uint64:
			vsym.Assert(e.kind == 5 && v == e.num, "entry uint64 value")
		default:
			vsym.Assert(false, "entry integer has no integer value")
		}
	case 6, 7:
		vsym.AssertEqBytes(k.ValueBytes(), e.val, "entry address bytes")
		vsym.AssertEqBytes(k.ValueAddr().AsSlice(), e.val, "entry address")
	default:
		vsym.AssertEqBytes(k.ValueBytes(), e.val, "entry bytes")
		switch v := k.Value().(type) {
		case string:
			vsym.Assert(e.kind == 8, "entry has a string value")
			vsym.AssertEqBytes([]byte(v), e.val, "entry string value")
		case []byte:
			vsym.Assert(e.kind == 9, "entry has a binary value")
			vsym.AssertEqBytes(v, e.val, "entry binary value")
		default:
			vsym.Assert(false, "string or binary entry has neither value")
		}
	}
}
