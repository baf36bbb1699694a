package spop

import (
	"context"
	"errors"
	"io"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// A frame is decoded as sent, whatever the segmentation, and nothing behind it
// is consumed.
//
//vsym C08 name:read quick:max=4000,small=6 thorough:max=65000,small=12 expect:read,again time:100/400
func VSym_FrameRead() {
	typ, flags := vsym.U8("type"), vsym.U32("flags")
	stream, id := vsym.U64("stream"), vsym.U64("frame")
	n := 0
	seg := vsym.Choose("segmentation", 3)
	if seg > 0 {
		vsym.Assume(stream >= 240 && stream < 2288 && id < 240)
	}
	if seg == 2 {
		n = vsym.Int("length", 0, vsym.Param("small", 6))
	} else {
		n = vsym.Int("length", 0, vsym.Param("max", 4000))
	}
	payload := vsym.Bytes("payload", n)
	wire := vsymFrame(typ, flags, stream, id, payload)
	next := vsymFrame(9, 7, 5, 3, []byte{1, 2})
	conn := vsymNewConn(vsymCat(wire, next))
	switch seg {
	case 1:
		conn.cuts = []int{vsym.Int("cut", 1, vsym.Param("max", 4000)+40)}
	case 2:
		conn.onebyt = true
	}
	f := acquireFrame()
	_, err := f.ReadFrom(conn)
	vsym.Assert(err == nil, "frame is rejected")
	vsym.Assert(byte(f.frameType) == typ && uint32(f.meta.Flags) == flags, "type or flags")
	vsym.Assert(f.meta.StreamID == stream && f.meta.FrameID == id, "stream or frame id")
	vsym.AssertEqBytes(f.buf.ReadBytes(), payload, "payload")
	vsym.Cover("read")
	if vsym.Choose("release", 2) == 1 {
		releaseFrame(f)
	}
	g := acquireFrame()
	_, err = g.ReadFrom(conn)
	vsym.Assert(err == nil, "second frame is rejected")
	vsym.Assert(byte(g.frameType) == 9 && uint32(g.meta.Flags) == 7 && g.meta.StreamID == 5 && g.meta.FrameID == 3, "header of the second frame")
	vsym.AssertEqBytes(g.buf.ReadBytes(), []byte{1, 2}, "payload of the second frame")
	h := acquireFrame()
	_, err = h.ReadFrom(conn)
	vsym.Assert(errors.Is(err, io.EOF), "end of the stream is not reported")
	vsym.Cover("again")
}

// A frame is rejected exactly if it is longer than the limit, before any of it
// is read or memory is reserved for it.
//
//vsym C08 name:limit quick:arrive=300 thorough:arrive=70000 expect:rejected,cut,read time:60/300
func VSym_FrameLimit() {
	limit := uint32(vsym.Int("limit", 256, 1<<31-1))
	n := vsym.U32("length")
	arrive := vsym.Int("arrive", 0, vsym.Param("arrive", 300))
	conn := vsymNewConn(vsymCat(vsymBE32(n), make([]byte, arrive)))
	f := acquireFrame()
	if n > limit {
		vsym.LimitAlloc(4096)
	} else {
		vsym.Assume(n < 1<<20)
	}
	_, err := f.readFrom(conn, limit)
	vsym.LimitAlloc(0)
	switch {
	case n > limit:
		vsym.Assert(err != nil, "frame beyond the limit is accepted")
		vsym.Assert(len(conn.in) == arrive, "payload of a rejected frame is read")
		vsym.Cover("rejected")
	case uint32(arrive) < n:
		vsym.Assert(err != nil, "cut-off frame is accepted")
		vsym.Cover("cut")
	case n < 7:
		vsym.Assert(err != nil, "frame without a complete header is accepted")
	default:
		vsym.Assert(err == nil, "frame within the limit is rejected")
		vsym.Assert(len(conn.in) == arrive-int(n), "consumed bytes")
		vsym.Assert(len(f.buf.ReadBytes()) == int(n)-7, "payload length")
		vsym.Cover("read")
	}
}

// Any bytes: what is accepted is what they say.
//
//vsym C08 name:any quick:len=20 thorough:len=28 expect:accepted,short,cut time:100/400
func VSym_FrameAny() {
	n := vsym.Int("len", 0, vsym.Param("len", 20))
	in := vsym.Bytes("in", n)
	conn := vsymNewConn(in)
	if n > 1 && vsym.Choose("segmentation", 2) == 1 {
		conn.onebyt = true
	}
	if vsym.Choose("used", 2) == 1 {
		// a frame that was used before
		f := acquireFrame()
		_, _ = f.ReadFrom(vsymNewConn(vsymFrame(1, 1, 1<<40, 1<<41, []byte("abcdefgh"))))
		releaseFrame(f)
	}
	f := acquireFrame()
	_, err := f.ReadFrom(conn)
	if n < 4 {
		vsym.Assert(err != nil, "frame without a length is accepted")
		return
	}
	l := uint32(in[0])<<24 | uint32(in[1])<<16 | uint32(in[2])<<8 | uint32(in[3])
	if vsym.Fork(uint64(l) > uint64(n-4)) {
		vsym.Assert(err != nil, "cut-off frame is accepted")
		vsym.Cover("cut")
		return
	}
	body := in[4 : 4+l]
	if l < 5 {
		vsym.Assert(err != nil, "frame that is too short is accepted")
		vsym.Cover("short")
		return
	}
	stream, a := vsym.RefDecode(body[5:])
	if a <= 0 {
		vsym.Assert(err != nil, "frame without a stream id is accepted")
		vsym.Cover("short")
		return
	}
	id, b := vsym.RefDecode(body[5+a:])
	if b <= 0 {
		vsym.Assert(err != nil, "frame without a frame id is accepted")
		return
	}
	vsym.Assert(err == nil, "complete frame is rejected")
	vsym.Assert(byte(f.frameType) == body[0], "type")
	vsym.AssertEqBytes(vsymBE32(uint32(f.meta.Flags)), body[1:5], "flags")
	vsym.Assert(f.meta.StreamID == stream && f.meta.FrameID == id, "ids")
	vsym.AssertEqBytes(f.buf.ReadBytes(), body[5+a+b:], "payload")
	vsym.Assert(len(conn.in) == n-4-int(l), "consumed bytes")
	vsym.Cover("accepted")
}

// Writing a frame and reading it back is the identity.
//
//vsym C08 name:write quick:max=2000 thorough:max=60000 expect:identity time:60/300
func VSym_FrameWrite() {
	f := acquireFrame()
	f.frameType = frameType(vsym.U8("type"))
	f.meta = frameMetadata{Flags: frameFlag(vsym.U32("flags")), StreamID: vsym.U64("stream"), FrameID: vsym.U64("frame")}
	vsym.Assert(f.encodeHeader() == nil, "header is rejected")
	payload := vsym.Bytes("payload", vsym.Int("length", 0, vsym.Param("max", 2000)))
	vsym.Assert(len(f.buf.WriteBytes()) >= len(payload), "no room for the payload")
	copy(f.buf.WriteNBytes(len(payload)), payload)
	conn := vsymNewConn(nil)
	n, err := f.WriteTo(conn)
	vsym.Assert(err == nil, "writing fails")
	vsym.AssertEqBytes(conn.out, vsymFrame(byte(f.frameType), uint32(f.meta.Flags), f.meta.StreamID, f.meta.FrameID, payload), "frame on the wire")
	vsym.Assert(int(n) == len(conn.out), "number of bytes written")
	typ, meta := f.frameType, f.meta
	if vsym.Choose("release", 2) == 1 {
		releaseFrame(f)
	}
	conn.in = conn.out
	g := acquireFrame()
	_, err = g.ReadFrom(conn)
	vsym.Assert(err == nil && g.frameType == typ && g.meta == meta, "frame read back")
	vsym.AssertEqBytes(g.buf.ReadBytes(), payload, "payload read back")
	vsym.Cover("identity")
}

// The limit in force is 64K-1 bytes for the HELLO and the negotiated size
// afterwards.
//
//vsym C08 name:session quick:cpus=2,small=300 thorough:cpus=2,small=70000 sync expect:hello,rejected,accepted,large time:60/300
func VSym_FrameSession() {
	size := uint32(vsym.Int("size", 256, 1<<20))
	calls := 0
	handler := func(_ context.Context, _ *encoding.ActionWriter, m *encoding.Message) { calls++ }
	switch vsym.Choose("which", 3) {
	case 0:
		// a HELLO that is too long
		n := vsym.U32("hello length")
		vsym.Assume(n > 64<<10-1)
		conn := vsymNewConn(vsymCat(vsymBE32(n), make([]byte, 1000)))
		conn.end = nil
		vsymServe(nil, handler, conn)
		vsym.LimitAlloc(1 << 20)
		vsym.Settle()
		vsym.LimitAlloc(0)
		vsym.Assert(conn.isClosed() && len(conn.in) == 1000, "HELLO beyond the limit is read")
		frames, rest := vsymFrames(conn.out)
		vsym.Assert(len(rest) == 0 && (len(frames) == 0 || frames[0][4] != 101), "HELLO beyond the limit is answered")
		vsym.Cover("hello")
	case 1:
		conn := vsymNewConn(vsymHelloFrame(size))
		conn.end = nil
		conn.feed = make(chan []byte)
		vsymServe(nil, handler, conn)
		vsym.Settle()
		n := vsym.U32("length")
		vsym.Assume(n > size)
		vsym.LimitAlloc(1 << 20)
		conn.feed <- vsymCat(vsymBE32(n), make([]byte, 1000))
		vsym.Settle()
		vsym.LimitAlloc(0)
		vsym.Assert(conn.isClosed(), "frame beyond the negotiated size does not end the session")
		vsym.Assert(len(conn.in) == 1000, "frame beyond the negotiated size is read")
		vsym.Assert(calls == 0, "handler is invoked for a frame beyond the negotiated size")
		vsym.Cover("rejected")
	case 2:
		// exactly the negotiated size
		if vsym.Choose("large", 2) == 1 {
			size = 100000
		} else {
			vsym.Assume(size < uint32(vsym.Param("small", 300)))
		}
		head := vsymCat([]byte{3}, vsymBE32(1), []byte{5, 6}, vsymStr("m"), []byte{1}, vsymStr("k"), []byte{9})
		room := int(size) - len(head)
		n := room - len(vsym.RefVarint(uint64(room)))
		l := vsym.RefVarint(uint64(n))
		vsym.Assume(len(l)+n == room)
		body := vsymCat(head, l, make([]byte, n))
		conn := vsymNewConn(vsymCat(vsymHelloFrame(size), vsymBE32(size), body))
		conn.end = nil
		vsymServe(nil, handler, conn)
		vsym.Settle()
		vsym.Assert(!conn.isClosed() && calls == 1, "frame of the negotiated size is rejected")
		replies := vsymReplies(conn)
		vsym.Assert(len(replies) == 1, "number of replies")
		vsym.AssertEqBytes(replies[0], vsymAck(5, 6), "ACK")
		if size == 100000 {
			vsym.Cover("large")
		}
		vsym.Cover("accepted")
	}
}
