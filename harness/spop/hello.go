package spop

import (
	"context"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// vsymHelloReply checks an AGENT-HELLO.
func vsymHelloReply(f []byte, size uint64) {
	vsym.Assert(f[4] == 101, "reply is no AGENT-HELLO")
	vsym.AssertEqBytes(f[5:11], []byte{0, 0, 0, 1, 0, 0}, "flags and ids of the AGENT-HELLO")
	b := f[11:]
	seen := 0
	for len(b) > 0 {
		l := int(b[0])
		vsym.Assert(l < 240 && len(b) >= l+2, "malformed AGENT-HELLO")
		name := string(b[1 : 1+l])
		b = b[1+l:]
		typ := b[0]
		v, n := vsym.RefDecode(b[1:])
		vsym.Assert(n > 0, "malformed AGENT-HELLO")
		b = b[1+n:]
		switch name {
		case "version", "capabilities":
			vsym.Assert(typ == 8 && uint64(len(b)) >= v, "malformed AGENT-HELLO")
			want := "2.0"
			if name == "capabilities" {
				want = ""
			}
			vsym.Assert(string(b[:v]) == want, name+" in the AGENT-HELLO")
			b = b[v:]
		case "max-frame-size":
			vsym.Assert(typ == 3 && v == size, "frame size in the AGENT-HELLO")
		default:
			vsym.Assert(false, "unexpected entry in the AGENT-HELLO")
		}
		seen++
	}
	vsym.Assert(seen == 3, "entry is missing in the AGENT-HELLO")
}

// vsymHelloSession runs a session with the given first frame and a NOTIFY
// behind it.
func vsymHelloSession(first []byte) (conn *vsymConn, calls int) {
	conn = vsymNewConn(vsymCat(first, vsymFrame(3, 1, 1, 1, vsymMessage("m"))))
	conn.end = nil
	vsymServe(nil, func(context.Context, *encoding.ActionWriter, *encoding.Message) { calls++ }, conn)
	vsym.Settle()
	return
}

// vsymNoHello checks that a session was refused.
func vsymNoHello(conn *vsymConn, calls int, what string) {
	vsym.Assert(conn.isClosed(), what+": session is not ended")
	vsym.Assert(calls == 0, what+": handler is invoked")
	frames, rest := vsymFrames(conn.out)
	vsym.Assert(len(rest) == 0, what+": torn frame")
	for _, f := range frames {
		vsym.Assert(f[4] != 101 && f[4] != 103, what+": AGENT-HELLO or ACK is sent")
	}
}

// Every offered frame size, in every integer type, in any place.
//
//vsym C09 name:size quick:cpus=2 thorough:cpus=2 sync expect:accepted,small,large,type time:60/300
func VSym_HelloSize() {
	kind := byte(vsym.Choose("kind", 10))
	v := vsym.U64("size")
	var val []byte
	var size int64
	good := true
	switch kind {
	case 2:
		size = int64(int32(v))
		val = vsym.RefVarint(uint64(size))
	case 3:
		size = int64(uint32(v))
		val = vsym.RefVarint(uint64(uint32(v)))
	case 4, 5:
		size = int64(v)
		val = vsym.RefVarint(v)
	case 0:
		good = false
	case 1:
		good = false
	case 6:
		good, val = false, make([]byte, 4)
	case 7:
		good, val = false, make([]byte, 16)
	case 8, 9:
		good, val = false, []byte{3, '5', '0', '0'}
	}
	offer := vsymCat(vsymStr("max-frame-size"), []byte{kind}, val)
	others := vsymCat(vsymKVStr("supported-versions", "2.0"), vsymKVStr("engine-id", "e"))
	var kvs []byte
	if vsym.Choose("place", 2) == 0 {
		kvs = vsymCat(offer, others)
	} else {
		kvs = vsymCat(others, offer)
	}
	conn, calls := vsymHelloSession(vsymFrame(1, 1, 0, 0, kvs))
	switch {
	case !good:
		vsymNoHello(conn, calls, "size of a wrong type")
		vsym.Cover("type")
	case size < 256:
		vsymNoHello(conn, calls, "size below 256")
		vsym.Cover("small")
	case size > 1<<31-1:
		vsymNoHello(conn, calls, "size above 2^31-1")
		vsym.Cover("large")
	default:
		vsym.Assert(!conn.isClosed(), "session with a valid HELLO is ended")
		frames, rest := vsymFrames(conn.out)
		vsym.Assert(len(rest) == 0 && len(frames) == 2, "number of frames sent")
		vsymHelloReply(frames[0], uint64(size))
		vsym.Assert(frames[1][4] == 103 && calls == 1, "session does not work")
		vsym.Cover("accepted")
	}
}

// Every first frame that is no HELLO, and HELLOs without a size.
//
//vsym C09 name:first quick:cpus=2,len=6 thorough:cpus=2,len=12 sync expect:type,missing time:60/300
func VSym_HelloFirst() {
	if vsym.Choose("which", 2) == 0 {
		typ := vsym.U8("type")
		vsym.Assume(typ != 1)
		payload := vsymCat(vsymKVStr("supported-versions", "2.0"), vsymKVU32("max-frame-size", 5000))
		if vsym.Choose("payload", 2) == 1 {
			payload = vsym.Bytes("bytes", vsym.Int("len", 0, vsym.Param("len", 6)))
		}
		conn, calls := vsymHelloSession(vsymFrame(typ, vsym.U32("flags"), 0, 0, payload))
		vsymNoHello(conn, calls, "first frame is no HELLO")
		vsym.Cover("type")
		return
	}
	// any other name
	name := vsym.String("name", vsym.Choose("name length", 16))
	vsym.Assume(name != "max-frame-size" && name != "healthcheck")
	kvs := vsymCat(vsymStr(name), []byte{3}, vsym.RefVarint(5000))
	conn, calls := vsymHelloSession(vsymFrame(1, 1, 0, 0, vsymKVStr("supported-versions", "2.0"), kvs))
	vsymNoHello(conn, calls, "HELLO without a frame size")
	vsym.Cover("missing")
}

// HELLO data that is cut off or followed by any bytes, and any bytes as HELLO.
//
//vsym C09 name:malformed quick:cpus=2,len=4 thorough:cpus=2,len=10 sync expect:cut,accepted,rejected time:80/400
func VSym_HelloMalformed() {
	valid := vsymCat(vsymKVU32("max-frame-size", 5000), vsymKVStr("supported-versions", "2.0"))
	switch vsym.Choose("which", 2) {
	case 0:
		// without a last entry there is still a valid HELLO
		end := len(vsymKVU32("max-frame-size", 5000))
		cut := vsym.Choose("cut", len(valid))
		conn, calls := vsymHelloSession(vsymFrame(1, 1, 0, 0, valid[:cut]))
		if cut == end {
			vsym.Assert(!conn.isClosed() && calls == 1, "valid HELLO is rejected")
			return
		}
		vsymNoHello(conn, calls, "cut-off HELLO")
		vsym.Cover("cut")
	case 1:
		tail := vsym.Bytes("tail", vsym.Int("len", 0, vsym.Param("len", 6)))
		conn, calls := vsymHelloSession(vsymFrame(1, 1, 0, 0, vsymKVU32("max-frame-size", 5000), tail))
		if vsym.Fork(vsymValidKVs(tail)) {
			vsym.Assert(!conn.isClosed() && calls == 1, "valid HELLO is rejected")
			frames, _ := vsymFrames(conn.out)
			vsym.Assert(len(frames) == 2, "number of frames sent")
			vsymHelloReply(frames[0], 5000)
			vsym.Cover("accepted")
		} else {
			vsymNoHello(conn, calls, "malformed HELLO")
			vsym.Cover("rejected")
		}
	}
}

// vsymValidKVs says whether b is a list of complete pairs.
func vsymValidKVs(b []byte) bool {
	for len(b) > 0 {
		l, n := vsym.RefDecode(b)
		if n <= 0 || l > uint64(len(b)-n) {
			return false
		}
		b = b[n+int(l):]
		if len(b) == 0 {
			return false
		}
		t := b[0] & 15
		b = b[1:]
		switch {
		case t <= 1:
		case t <= 5:
			_, n := vsym.RefDecode(b)
			if n <= 0 {
				return false
			}
			b = b[n:]
		case t == 6, t == 7:
			size := 4
			if t == 7 {
				size = 16
			}
			if len(b) < size {
				return false
			}
			b = b[size:]
		case t <= 9:
			l, n := vsym.RefDecode(b)
			if n <= 0 || l > uint64(len(b)-n) {
				return false
			}
			b = b[n+int(l):]
		default:
			return false
		}
	}
	return true
}

// A HELLO with a health-check flag of either value, in any place.
//
//vsym C09 name:health quick:cpus=2 thorough:cpus=2 sync expect:check,nocheck time:60/300
func VSym_HelloHealth() {
	on := vsym.Bool("flag")
	flag := vsymCat(vsymStr("healthcheck"), []byte{1})
	if on {
		flag[len(flag)-1] = 17
	}
	size := uint32(vsym.Int("size", 256, 1<<31-1))
	offer := vsymKVU32("max-frame-size", size)
	var kvs []byte
	if vsym.Choose("place", 2) == 0 {
		kvs = vsymCat(offer, flag)
	} else {
		kvs = vsymCat(flag, offer)
	}
	conn, calls := vsymHelloSession(vsymFrame(1, 1, 0, 0, kvs))
	frames, rest := vsymFrames(conn.out)
	vsym.Assert(len(rest) == 0 && len(frames) > 0, "no AGENT-HELLO")
	vsymHelloReply(frames[0], uint64(size))
	if on {
		vsym.Assert(conn.isClosed(), "health check does not end the session")
		vsym.Assert(calls == 0, "handler is invoked on a health check")
		for _, f := range frames[1:] {
			vsym.Assert(f[4] != 101 && f[4] != 103, "more than an AGENT-HELLO on a health check")
		}
		vsym.Cover("check")
	} else {
		vsym.Assert(!conn.isClosed() && calls == 1 && len(frames) == 2, "session ended although it is no health check")
		vsym.Cover("nocheck")
	}
}
