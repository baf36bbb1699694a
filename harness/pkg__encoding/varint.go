package encoding

import (
	"bytes"
	"errors"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
)

// Encoding of every 64-bit value into a buffer of every size up to 12 bytes.
//
//vsym C01 expect:fits,short
func VSym_VarintPut() {
	v := vsym.U64("v")
	n := vsym.Int("n", 0, 12)
	n = vsym.Concrete(n)
	orig := vsym.Bytes("buf", n)
	buf := vsymCopy(orig)
	want := vsymVarint(v)
	m, err := PutVarint(buf, v)
	if len(want) > n {
		vsym.Cover("short")
		vsym.Assert(err != nil, "encoding into a short buffer succeeded")
		vsym.Assert(errors.Is(err, ErrInsufficientSpace), "wrong error for a short buffer")
		return
	}
	vsym.Cover("fits")
	vsym.Assert(err == nil, "encoding failed although the buffer is large enough")
	vsym.Assert(m == len(want), "wrong encoded length")
	vsym.AssertEqBytes(buf[:m], want, "encoded bytes")
	vsym.AssertEqBytes(buf[m:], orig[m:], "bytes past the encoding were touched")
	vsym.Observe("n", uint64(m))
	vsym.ObserveBytes("enc", buf[:m])
}

// Round trip of every 64-bit value, followed by arbitrary bytes, through both
// decoders.
//
//vsym C01 expect:done
func VSym_VarintRoundTrip() {
	v := vsym.U64("v")
	buf := make([]byte, 16)
	m, err := PutVarint(buf, v)
	vsym.Assert(err == nil, "encode error")
	tail := vsym.Bytes("tail", 3)
	copy(buf[m:], tail)
	in := buf[:m+3]
	got, k, err := Varint(in)
	vsym.Assert(err == nil, "Varint error")
	vsym.AssertEq(got, v, "Varint value")
	vsym.Assert(k == m, "Varint length")
	r := bytes.NewReader(in)
	got, err = ReadVarint(r)
	vsym.Assert(err == nil, "ReadVarint error")
	vsym.AssertEq(got, v, "ReadVarint value")
	vsym.Assert(r.Len() == 3, "ReadVarint consumed the wrong number of bytes")
	vsym.Cover("done")
	vsym.Observe("m", uint64(m))
}

// Both decoders on arbitrary input.
//
//vsym C01 quick:max=11 thorough:max=16 expect:value,short
func VSym_VarintDecode() {
	n := vsym.Concrete(vsym.Int("n", 0, vsym.Param("max", 11)))
	in := vsym.Bytes("in", n)
	keep := vsymCopy(in)
	want, k := vsymDecode(in)
	got, m, err := Varint(in)
	r := bytes.NewReader(in)
	rgot, rerr := ReadVarint(r)
	vsym.AssertEqBytes(in, keep, "decoder changed its input")
	switch {
	case k > 0:
		vsym.Cover("value")
		vsym.Assert(err == nil, "Varint rejected a complete integer")
		vsym.AssertEq(got, want, "Varint value")
		vsym.Assert(m == k, "Varint length")
		vsym.Assert(rerr == nil, "ReadVarint rejected a complete integer")
		vsym.AssertEq(rgot, want, "ReadVarint value")
		vsym.Assert(r.Len() == n-k, "ReadVarint consumed the wrong number of bytes")
		vsym.Observe("v", got)
	case k == 0:
		vsym.Cover("short")
		vsym.Assert(err != nil, "Varint accepted an unterminated integer")
		vsym.Assert(errors.Is(err, ErrUnterminatedSequence), "Varint: wrong error for an unterminated integer")
		vsym.Assert(rerr != nil, "ReadVarint accepted an unterminated integer")
	}
}
