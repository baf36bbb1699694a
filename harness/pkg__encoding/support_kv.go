package encoding

import (
	"net/netip"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
)

// vsymKV is one key/value pair with an arbitrary name and value.
type vsymKV struct {
	kind int // data type number
	name string
	num  uint64
	str  []byte
	addr netip.Addr
	a4   [4]byte
	a16  [16]byte
}

func vsymAnyKV(maxName, maxVal int) vsymKV {
	var e vsymKV
	e.kind = vsym.Choose("kind", 10)
	e.fill(maxName, maxVal)
	return e
}

func (e *vsymKV) fill(maxName, maxVal int) {
	e.name = vsym.String("name", vsym.Int("nameLen", 0, maxName))
	switch e.kind {
	case 1:
		if vsym.Bool("bool") {
			e.num = 1
		}
	case 2, 3:
		e.num = uint64(vsym.U32("num32"))
	case 4, 5:
		e.num = vsym.U64("num64")
	case 6:
		copy(e.a4[:], vsym.Bytes("ip4", 4))
		e.addr = netip.AddrFrom4(e.a4)
	case 7:
		copy(e.a16[:], vsym.Bytes("ip6", 16))
		e.addr = netip.AddrFrom16(e.a16)
	case 8, 9:
		e.str = vsym.Bytes("val", vsym.Int("valLen", 0, maxVal))
	}
}

func (e *vsymKV) write(w *KVWriter) error {
	switch e.kind {
	case 0:
		return w.SetNull(e.name)
	case 1:
		return w.SetBool(e.name, e.num != 0)
	case 2:
		return w.SetInt32(e.name, int32(e.num))
	case 3:
		return w.SetUInt32(e.name, uint32(e.num))
	case 4:
		return w.SetInt64(e.name, int64(e.num))
	case 5:
		return w.SetUInt64(e.name, e.num)
	case 6, 7:
		return w.SetAddr(e.name, e.addr)
	case 8:
		return w.SetString(e.name, string(e.str))
	default:
		return w.SetBinary(e.name, e.str)
	}
}

// head, payload: wire bytes of the value, without the name.
func (e *vsymKV) wire() (head, payload []byte) {
	switch e.kind {
	case 0:
		return []byte{0}, nil
	case 1:
		return []byte{byte(e.num)<<4 | 1}, nil
	case 2:
		return append([]byte{2}, vsymVarint(uint64(int64(int32(e.num))))...), nil
	case 3:
		return append([]byte{3}, vsymVarint(uint64(uint32(e.num)))...), nil
	case 4, 5:
		return append([]byte{byte(e.kind)}, vsymVarint(e.num)...), nil
	case 6:
		return []byte{6}, e.a4[:]
	case 7:
		return []byte{7}, e.a16[:]
	default:
		return append([]byte{byte(e.kind)}, vsymVarint(uint64(len(e.str)))...), e.str
	}
}

// size is the number of bytes of the entry on the wire.
func (e *vsymKV) size() int {
	h, p := e.wire()
	return len(vsymVarint(uint64(len(e.name)))) + len(e.name) + len(h) + len(p)
}

// checkWire compares the entry's wire format with the start of b and returns the rest.
func (e *vsymKV) checkWire(b []byte, what string) []byte {
	nl := vsymVarint(uint64(len(e.name)))
	h, p := e.wire()
	vsym.Assert(len(b) >= len(nl)+len(e.name)+len(h)+len(p), what+": entry too short")
	vsym.AssertEqBytes(b[:len(nl)], nl, what+": name length")
	b = b[len(nl):]
	vsym.AssertEqBytes(b[:len(e.name)], []byte(e.name), what+": name")
	b = b[len(e.name):]
	vsym.AssertEqBytes(b[:len(h)], h, what+": type and value")
	b = b[len(h):]
	vsym.AssertEqBytes(b[:len(p)], p, what+": value bytes")
	return b[len(p):]
}

// checkEntry compares a scanned entry with the written one.
func (e *vsymKV) checkEntry(k *KVEntry) {
	vsym.AssertEqBytes(k.NameBytes(), []byte(e.name), "scanned name")
	vsym.Assert(k.Type() == DataType(e.kind), "scanned type")
	switch e.kind {
	case 0:
		vsym.Assert(k.Value() == nil, "scanned null value")
	case 1:
		vsym.Assert(k.ValueBool() == (e.num != 0), "scanned bool")
		v, ok := k.Value().(bool)
		vsym.Assert(ok && v == (e.num != 0), "scanned bool value")
	case 2:
		vsym.Assert(k.ValueInt() == int64(int32(e.num)), "scanned int32")
		v, ok := k.Value().(int32)
		vsym.Assert(ok && v == int32(e.num), "scanned int32 value")
	case 3:
		vsym.Assert(k.ValueInt() == int64(uint32(e.num)), "scanned uint32")
		v, ok := k.Value().(uint32)
		vsym.Assert(ok && v == uint32(e.num), "scanned uint32 value")
	case 4:
		vsym.Assert(k.ValueInt() == int64(e.num), "scanned int64")
		v, ok := k.Value().(int64)
		vsym.Assert(ok && v == int64(e.num), "scanned int64 value")
	case 5:
		vsym.Assert(k.ValueInt() == int64(e.num), "scanned uint64")
		v, ok := k.Value().(uint64)
		vsym.Assert(ok && v == e.num, "scanned uint64 value")
	case 6, 7:
		v, ok := k.Value().(netip.Addr)
		vsym.Assert(ok && v == e.addr, "scanned address value")
		vsym.Assert(k.ValueAddr() == e.addr, "scanned address")
		vsym.AssertEqBytes(k.ValueBytes(), e.addr.AsSlice(), "scanned address bytes")
	case 8:
		v, ok := k.Value().(string)
		vsym.Assert(ok, "scanned string has wrong dynamic type")
		vsym.AssertEqBytes([]byte(v), e.str, "scanned string value")
		vsym.AssertEqBytes(k.ValueBytes(), e.str, "scanned string bytes")
	case 9:
		v, ok := k.Value().([]byte)
		vsym.Assert(ok, "scanned binary has wrong dynamic type")
		vsym.AssertEqBytes(v, e.str, "scanned binary value")
		vsym.AssertEqBytes(k.ValueBytes(), e.str, "scanned binary bytes")
	}
}
