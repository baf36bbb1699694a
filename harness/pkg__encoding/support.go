package encoding

import "github.com/dropmorepackets/haproxy-go/internal/vsym"

// vsymVarint is the SPOE/peers variable-length integer format, written from
// the protocol documentation.
func vsymVarint(v uint64) []byte {
	if v < 240 {
		return []byte{byte(v)}
	}
	out := make([]byte, 0, 10)
	out = append(out, byte(v&15)|240)
	v = (v - 240) >> 4
	for v >= 128 {
		out = append(out, byte(v&127)|128)
		v = (v - 128) >> 7
	}
	return append(out, byte(v))
}

// vsymDecode decodes a variable-length integer; n is the number of bytes used,
// 0 if the input ends before the integer does and -1 if the input is longer
// than any 64-bit value.
func vsymDecode(b []byte) (v uint64, n int) {
	if len(b) == 0 {
		return 0, 0
	}
	v = uint64(b[0])
	if v < 240 {
		return v, 1
	}
	shift := uint(4)
	for i := 1; i < len(b); i++ {
		if i > 9 {
			return 0, -1
		}
		v += uint64(b[i]) << shift
		shift += 7
		if b[i] < 128 {
			return v, i + 1
		}
	}
	return 0, 0
}

func vsymCopy(b []byte) []byte {
	c := make([]byte, len(b))
	copy(c, b)
	return c
}

func vsymMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

var _ = vsym.Cover
