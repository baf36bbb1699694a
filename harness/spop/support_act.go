package spop

import (
	"net/netip"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// vsymAct writes one action of the given kind with any value and returns its
// encoding.
func vsymAct(w *encoding.ActionWriter, kind int, name string, small bool) []byte {
	v := vsym.U64("value")
	if small {
		// its length is covered by other actions
		vsym.Assume(v < 240)
	}
	set := func(typ byte, val ...[]byte) []byte {
		return vsymCat(append([][]byte{{1, 3, 2}, vsymStr(name), {typ}}, val...)...)
	}
	var err error
	var wire []byte
	switch kind {
	case 0:
		err = w.SetInt64(encoding.VarScopeTransaction, name, int64(v))
		wire = set(4, vsym.RefVarint(v))
	case 1:
		err = w.SetString(encoding.VarScopeTransaction, name, "value")
		wire = set(8, vsymStr("value"))
	case 2:
		err = w.SetBool(encoding.VarScopeTransaction, name, v&1 == 1)
		wire = set(1)
		if v&1 == 1 {
			wire[len(wire)-1] = 17
		}
	case 3:
		err = w.Unset(encoding.VarScopeTransaction, name)
		wire = vsymCat([]byte{2, 2, 2}, vsymStr(name))
	case 4:
		a := [4]byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
		err = w.SetAddr(encoding.VarScopeTransaction, name, netip.AddrFrom4(a))
		wire = set(6, a[:])
	case 5:
		err = w.SetNull(encoding.VarScopeTransaction, name)
		wire = set(0)
	}
	vsym.Assert(err == nil, "action is rejected")
	return wire
}
