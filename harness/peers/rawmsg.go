package peers

import (
	"bufio"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
)

// A message of any class and type with any announced length, of which any
// part has arrived, followed by another message.
//
//vsym C16 name:small quick:len=12 thorough:len=20 expect:short,full,cut,next,huge time:60/300
//vsym C16 name:message quick:len=200000 thorough:len=3000000 expect:short,full,cut,next,huge time:150/600
func VSym_RawMessage() {
	class := vsym.U8("class")
	typ := vsym.U8("type")
	announced := vsym.U64("announced")
	lenBytes := vsym.RefVarint(announced)
	n := vsym.Int("arrived", 0, vsym.Param("len", 100))
	payload := vsym.Bytes("payload", n)
	var in []byte
	in = append(in, class, typ)
	long := vsym.Fork(typ >= 128)
	if long {
		in = append(in, lenBytes...)
	}
	head := len(in)
	all := make([]byte, head+n)
	vsym.Put(all, vsym.Put(all, 0, in), payload)
	conn := vsymNewConn(all)
	conn.segment(vsym.Param("len", 10))
	br := bufio.NewReader(conn)
	limit := 2*n + 16*1024*1024 // any fixed limit is fine
	vsym.LimitAlloc(limit)
	var m rawMessage
	_, err := m.ReadFrom(br)
	vsym.LimitAlloc(0)
	if !long {
		vsym.Assert(err == nil, "message without payload rejected")
		vsym.Assert(byte(m.MessageClass) == class && m.MessageType == typ, "class and type")
		vsym.Assert(len(m.Data) == 0, "payload of a message without one")
		vsymRest(br, payload)
		vsym.Cover("short")
		return
	}
	if announced > uint64(n) {
		vsym.Assert(err != nil, "message that was cut off accepted")
		vsym.Cover("cut")
		if announced > 1<<62 {
			vsym.Cover("huge")
		}
		return
	}
	k := int(announced)
	vsym.Assert(err == nil, "complete message rejected")
	vsym.Assert(byte(m.MessageClass) == class && m.MessageType == typ, "class and type")
	vsym.AssertEqBytes(m.Data, payload[:k], "payload")
	vsymRest(br, payload[k:])
	vsym.Cover("full")
	if k < n {
		vsym.Cover("next")
	}
}

// vsymRest asserts that the reader continues with want.
func vsymRest(br *bufio.Reader, want []byte) {
	for i := 0; i < 3; i++ {
		b, err := br.ReadByte()
		if i >= len(want) {
			vsym.Assert(err != nil, "bytes behind the input")
			return
		}
		vsym.Assert(err == nil && b == want[i], "consumes more or less than the message")
	}
}

// Any bytes in any segmentation: the reader agrees with the format on two
// consecutive messages.
//
//vsym C16 name:bytes quick:len=9 thorough:len=16 expect:first,second,error time:100/500
func VSym_RawMessageBytes() {
	n := vsym.Int("len", 0, vsym.Param("len", 10))
	in := vsym.Bytes("in", n)
	conn := vsymNewConn(in)
	conn.segment(vsym.Param("len", 10))
	br := bufio.NewReader(conn)
	at := 0
	for i := 0; i < 2; i++ {
		var m rawMessage
		_, err := m.ReadFrom(br)
		if n-at < 2 {
			vsym.Assert(err != nil, "cut header accepted")
			vsym.Cover("error")
			return
		}
		class, typ := in[at], in[at+1]
		at += 2
		var want []byte
		if typ >= 128 {
			v, k := vsym.RefDecode(in[at:n])
			if k < 0 {
				return // overlong lengths are not specified
			}
			if k == 0 || v > uint64(n-at-k) {
				vsym.Assert(err != nil, "cut message accepted")
				vsym.Cover("error")
				return
			}
			want = in[at+k : at+k+int(v)]
			at += k + int(v)
		}
		vsym.Assert(err == nil, "complete message rejected")
		vsym.Assert(byte(m.MessageClass) == class && m.MessageType == typ, "class and type")
		vsym.AssertEqBytes(m.Data, want, "payload")
		if i == 0 {
			vsym.Cover("first")
		} else {
			vsym.Cover("second")
		}
	}
}
