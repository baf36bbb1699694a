package sticktable

import (
	"net/netip"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
)

// The decoders below are written from HAProxy's description of the protocol
// and say what the beginning of b holds.

// vsymCut: a field is not complete, so it must not be decoded.
const vsymCut = -1

// vsymAnything: nothing is said about the input.
const vsymAnything = -2

// vsymRefInt reads an integer. Ten bytes may exceed 64 bits.
func vsymRefInt(b []byte, at int) (uint64, int) {
	v, k := vsym.RefDecode(b[at:])
	if k <= 0 {
		return 0, vsymCut
	}
	if k == 10 {
		return 0, vsymAnything
	}
	return v, at + k
}

// vsymRefKey checks what was decoded as the key at the beginning of b and
// returns its length. A negative used is not compared.
func vsymRefKey(b []byte, size uint64, got MapKey, used int, err error) int {
	n := 0
	from := 0
	switch got.(type) {
	case *SignedIntegerKey, *IPv4AddressKey:
		n = 4
	case *IPv6AddressKey:
		n = 16
	case *StringKey:
		l, k := vsymRefInt(b, 0)
		if k == vsymAnything {
			return vsymAnything
		}
		n = vsymCut
		if k > 0 && l <= uint64(len(b)-k) {
			from, n = k, k+int(l)
		}
	case *BinaryKey:
		n = vsymCut
		if size <= uint64(len(b)) {
			n = int(size)
		}
	}
	if n > len(b) {
		n = vsymCut
	}
	if n == vsymCut {
		vsym.Assert(err != nil, "a key that is not complete is decoded")
		vsym.Cover("key cut")
		return n
	}
	if err != nil {
		return n
	}
	vsym.Assert(used < 0 || used == n, "length of a decoded key")
	switch x := got.(type) {
	case *SignedIntegerKey:
		v := uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
		vsym.Assert(uint32(*x) == v, "decoded key")
	case *IPv4AddressKey:
		vsym.Assert(*x == IPv4AddressKey(netip.AddrFrom4([4]byte(b))), "decoded key")
	case *IPv6AddressKey:
		vsym.Assert(*x == IPv6AddressKey(netip.AddrFrom16([16]byte(b))), "decoded key")
	case *StringKey:
		vsym.AssertEqBytes([]byte(string(*x)), b[from:n], "decoded key")
	case *BinaryKey:
		vsym.AssertEqBytes([]byte(*x), b[:n], "decoded key")
	}
	vsym.Cover("key whole")
	return n
}

// vsymRefData is the same for values.
func vsymRefData(b []byte, got MapData, used int, err error) int {
	v, n := vsymRefInt(b, 0)
	first := n
	var v2, v3 uint64
	from := 0
	switch got.(type) {
	case *FreqData:
		if n > 0 {
			v2, n = vsymRefInt(b, n)
		}
		if n > 0 {
			v3, n = vsymRefInt(b, n)
		}
	case *DictData:
		if n <= 0 || v == 0 {
			break
		}
		if v > uint64(len(b)-n) {
			n = vsymCut
			break
		}
		end := n + int(v)
		v2, n = vsymRefInt(b[:end], n)
		if n <= 0 || n == end {
			from = end
			break
		}
		v3, n = vsymRefInt(b[:end], n)
		if n > 0 {
			from = n
			switch {
			case v3 > uint64(end-n):
				n = vsymCut
			case v3 < uint64(end-n):
				n = vsymAnything
			default:
				n = end
			}
		}
	}
	if n == vsymAnything {
		return n
	}
	if n == vsymCut {
		vsym.Assert(err != nil, "a value that is not complete is decoded")
		vsym.Cover("value cut")
		return n
	}
	if err != nil {
		return n
	}
	vsym.Assert(used < 0 || used == n, "length of a decoded value")
	switch x := got.(type) {
	case *SignedIntegerData:
		vsym.Assert(uint32(*x) == uint32(v), "decoded value")
	case *UnsignedIntegerData:
		vsym.Assert(uint32(*x) == uint32(v), "decoded value")
	case *UnsignedLongLongData:
		vsym.Assert(uint64(*x) == v, "decoded value")
	case *FreqData:
		vsym.Assert(x.CurrentTick == v && x.CurrentPeriod == v2 && x.LastPeriod == v3, "decoded value")
	case *DictData:
		vsym.Assert(x.ID == v2, "decoded id of a dictionary entry")
		if first == n {
			vsym.Assert(len(x.Value) == 0, "dictionary value out of nothing")
		} else {
			vsym.AssertEqBytes(x.Value, b[from:n], "decoded dictionary value")
		}
	}
	vsym.Cover("value whole")
	return n
}

// vsymRefDef checks what was decoded as the definition at the beginning of b.
func vsymRefDef(b []byte, got *Definition, used int, err error) {
	id, n := vsymRefInt(b, 0)
	var l, kt, kl, mask, exp uint64
	name := 0
	if n > 0 {
		l, n = vsymRefInt(b, n)
	}
	if n > 0 {
		name = n
		if l > uint64(len(b)-n) {
			n = vsymCut
		} else {
			n += int(l)
		}
	}
	if n > 0 {
		kt, n = vsymRefInt(b, n)
	}
	if n > 0 {
		kl, n = vsymRefInt(b, n)
	}
	if n > 0 {
		mask, n = vsymRefInt(b, n)
	}
	if n > 0 {
		exp, n = vsymRefInt(b, n)
	}
	if n == vsymAnything {
		return
	}
	if n == vsymCut {
		vsym.Assert(err != nil, "a definition that is not complete is decoded")
		vsym.Cover("definition cut")
		return
	}
	if err != nil {
		// an unknown data type, or one without its parameters (see below)
		return
	}
	vsym.Assert(got.StickTableID == id && uint64(got.KeyType) == kt && got.KeyLength == kl && got.Expiry == exp, "decoded definition")
	vsym.AssertEqBytes([]byte(got.Name), b[name:name+int(l)], "decoded name")
	seen, last := uint64(0), -1
	for _, dt := range got.DataTypes {
		t := int(dt.DataType)
		vsym.Assert(t > last && t < 64, "order of the decoded data types")
		last = t
		seen |= 1 << t
		if t < 27 && vsymRate(t) {
			var c, p uint64
			c, n = vsymRefInt(b, n)
			if n > 0 {
				p, n = vsymRefInt(b, n)
			}
			if n == vsymAnything {
				return
			}
			vsym.Assert(n > 0, "a definition that is not complete is decoded")
			vsym.Assert(dt.Counter == c && dt.Period == p, "decoded parameters")
			vsym.Cover("parameters")
		}
	}
	vsym.Assert(seen == mask, "decoded data types")
	vsym.Assert(used == n, "length of a decoded definition")
	vsym.Cover("definition whole")
}

// vsymRefEntry checks an entry that was decoded from b.
func vsymRefEntry(b []byte, e *EntryUpdate, used int) {
	at := 0
	if e.WithLocalUpdateID {
		at += 4
	}
	if e.WithExpiry {
		at += 4
	}
	vsym.Assert(at <= len(b), "an entry that is not complete is decoded")
	k := vsymRefKey(b[at:], e.StickTable.KeyLength, e.Key, -1, nil)
	for _, d := range e.Data {
		if k < 0 {
			return
		}
		at += k
		k = vsymRefData(b[at:], d, -1, nil)
	}
	if k < 0 {
		return
	}
	vsym.Assert(used == at+k, "length of a decoded entry")
	vsym.Cover("entry whole")
}
