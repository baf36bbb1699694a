package testutil

import (
	"io"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
)

// Any sequence of reads from a repeat reader over any data returns the
// endless repetition of the data.
//
//vsym C32 name:repeat quick:len=5,buf=9,reads=3 thorough:len=9,buf=20,reads=4 expect:data,empty time:60/400
func VSym_RepeatReader() {
	n := vsym.Int("len", 0, vsym.Param("len", 4))
	data := vsym.Bytes("data", n)
	want := vsym.Copy(data)
	r := NewRepeatReader(data)
	at := 0
	for i := 0; i < vsym.Param("reads", 3); i++ {
		m := vsym.Int("buf", 0, vsym.Param("buf", 4))
		all := vsym.Bytes("all", m+4)
		behind := vsym.Copy(all[m:])
		k, err := r.Read(all[:m])
		vsym.AssertEqBytes(all[m:], behind, "bytes behind the buffer")
		if n == 0 {
			vsym.Assert(k == 0 && err == io.EOF, "no end of input for empty data")
			vsym.Cover("empty")
			continue
		}
		vsym.Assert(err == nil, "error for non-empty data")
		vsym.Assert(k >= 0 && k <= m && (k > 0 || m == 0), "number of bytes read")
		for j := 0; j < k; j++ {
			vsym.Assert(all[j] == want[at], "wrong byte")
			at++
			if at == n {
				at = 0
			}
		}
		if k > n {
			vsym.Cover("data")
		}
	}
	vsym.AssertEqBytes(data, want, "data changed")
}

// Large data and large reads that wrap around once.
//
//vsym C32 name:repeatlong quick:len=100000 thorough:len=3000000 expect:wrap time:60/300
func VSym_RepeatReaderLong() {
	n := vsym.Int("len", 1, vsym.Param("len", 4))
	data := vsym.Bytes("data", n)
	r := NewRepeatReader(data)
	m1 := vsym.Int("first", 0, vsym.Param("len", 4))
	m2 := vsym.Int("second", 0, vsym.Param("len", 4))
	vsym.Assume(m1 <= n && m2 <= n)
	b1 := make([]byte, m1)
	k1, err := r.Read(b1)
	vsym.Assert(err == nil && k1 <= m1 && (k1 > 0 || m1 == 0), "first read")
	vsym.AssertEqBytes(b1[:k1], data[:k1], "first read")
	b2 := make([]byte, m2)
	k2, err := r.Read(b2)
	vsym.Assert(err == nil && k2 <= m2 && (k2 > 0 || m2 == 0), "second read")
	if k1+k2 <= n {
		vsym.AssertEqBytes(b2[:k2], data[k1:k1+k2], "second read")
		return
	}
	vsym.AssertEqBytes(b2[:n-k1], data[k1:], "second read up to the end")
	vsym.AssertEqBytes(b2[n-k1:k2], data[:k2-(n-k1)], "second read from the start")
	vsym.Cover("wrap")
}
