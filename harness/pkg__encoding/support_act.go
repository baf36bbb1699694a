package encoding

import (
	"net/netip"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
)

// vsymAct is an action with an arbitrary scope, name and value.
type vsymAct struct {
	kind  int // 0-9: value of that type, 10: unset, 11: string given as bytes
	scope byte
	kv    vsymKV
}

func vsymConv[T ~byte](_ T, b byte) T { return T(b) }

func vsymAnyAct(maxName, maxVal, kinds int) vsymAct {
	var a vsymAct
	a.scope = byte(vsym.Int("scope", 0, 4))
	if kinds < 12 {
		a.kind = []int{8, 6, 10, 1, 4}[vsym.Choose("action", kinds)]
	} else {
		a.kind = vsym.Choose("action", 12)
	}
	a.kv.name = vsym.String("name", vsym.Int("nameLen", 0, maxName))
	a.kv.kind = a.kind
	switch a.kind {
	case 11:
		a.kv.kind = 8
		fallthrough
	case 8, 9:
		a.kv.str = vsym.Bytes("val", vsym.Int("valLen", 0, maxVal))
	case 1:
		if vsym.Bool("bool") {
			a.kv.num = 1
		}
	case 2, 3:
		a.kv.num = uint64(vsym.U32("num32"))
	case 4, 5:
		a.kv.num = vsym.U64("num64")
	case 6:
		copy(a.kv.a4[:], vsym.Bytes("ip4", 4))
		a.kv.addr = netip.AddrFrom4(a.kv.a4)
	case 7:
		copy(a.kv.a16[:], vsym.Bytes("ip6", 16))
		a.kv.addr = netip.AddrFrom16(a.kv.a16)
	}
	return a
}

func (a *vsymAct) write(w *ActionWriter) error {
	sc := vsymConv(VarScopeProcess, a.scope)
	e := &a.kv
	switch a.kind {
	case 0:
		return w.SetNull(sc, e.name)
	case 1:
		return w.SetBool(sc, e.name, e.num != 0)
	case 2:
		return w.SetInt32(sc, e.name, int32(e.num))
	case 3:
		return w.SetUInt32(sc, e.name, uint32(e.num))
	case 4:
		return w.SetInt64(sc, e.name, int64(e.num))
	case 5:
		return w.SetUInt64(sc, e.name, e.num)
	case 6, 7:
		return w.SetAddr(sc, e.name, e.addr)
	case 8:
		return w.SetString(sc, e.name, string(e.str))
	case 9:
		return w.SetBinary(sc, e.name, e.str)
	case 10:
		return w.Unset(sc, e.name)
	default:
		return w.SetStringBytes(sc, e.name, e.str)
	}
}

// check compares the start of b with the wire format of the action and
// returns the rest.
func (a *vsymAct) check(b []byte) []byte {
	e := &a.kv
	nl := vsymVarint(uint64(len(e.name)))
	vsym.Assert(len(b) >= 3+len(nl)+len(e.name), "action cut off")
	if a.kind == 10 {
		vsym.Assert(b[0] == 2 && b[1] == 2, "unset action header")
	} else {
		vsym.Assert(b[0] == 1 && b[1] == 3, "set action header")
	}
	vsym.Assert(b[2] == a.scope, "action scope")
	b = b[3:]
	vsym.AssertEqBytes(b[:len(nl)], nl, "action name length")
	b = b[len(nl):]
	vsym.AssertEqBytes(b[:len(e.name)], []byte(e.name), "action name")
	b = b[len(e.name):]
	if a.kind == 10 {
		return b
	}
	h, p := e.wire()
	vsym.Assert(len(b) >= len(h)+len(p), "action value cut off")
	if a.kind == 2 || a.kind == 3 || a.kind == 5 {
		// every 64-bit integer type represents the value
		vsym.Assert(b[0] == h[0] || b[0] == 4, "action integer type")
	} else {
		vsym.Assert(b[0] == h[0], "action value type")
	}
	vsym.AssertEqBytes(b[1:len(h)], h[1:], "action value or length")
	b = b[len(h):]
	vsym.AssertEqBytes(b[:len(p)], p, "action value bytes")
	return b[len(p):]
}
