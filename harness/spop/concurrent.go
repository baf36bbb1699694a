package spop

import (
	"bytes"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// vsymUseFrames writes or reads a frame of its own.
func vsymUseFrames(what int, mark byte) {
	s := &vsymSink{failAt: -1}
	switch what {
	case 0:
		_, err := (&AgentHelloFrame{Version: string([]byte{mark}), MaxFrameSize: uint32(mark), Capabilities: []string{"a", string([]byte{mark})}}).WriteTo(s)
		vsym.Assert(err == nil, "HELLO is not written")
		vsym.AssertEqBytes(s.out, vsymFrame(101, 1, 0, 0, vsymKVStr("version", string([]byte{mark})), vsymKVU32("max-frame-size", uint32(mark)), vsymKVStr("capabilities", string([]byte{'a', ',', mark}))), "HELLO")
		vsym.Cover("hello")
	case 1:
		_, err := (&AckFrame{StreamID: uint64(mark), FrameID: uint64(mark) + 1, ActionWriterCallback: func(w *encoding.ActionWriter) error {
			return w.SetInt64(encoding.VarScopeSession, "n", int64(mark))
		}}).WriteTo(s)
		vsym.Assert(err == nil, "ACK is not written")
		vsym.AssertEqBytes(s.out, vsymAck(uint64(mark), uint64(mark)+1, vsymSetVar(1, "n", int64(mark))), "ACK")
		vsym.Cover("ack")
	case 2:
		f := acquireFrame()
		_, err := f.ReadFrom(bytes.NewReader(vsymFrame(3, 1, uint64(mark), 5, []byte{mark, 1, mark})))
		vsym.Assert(err == nil && f.meta.StreamID == uint64(mark) && f.meta.FrameID == 5, "frame is not read")
		vsym.AssertEqBytes(f.buf.ReadBytes(), []byte{mark, 1, mark}, "payload")
		releaseFrame(f)
		vsym.Cover("read")
	case 3:
		_, err := (&AgentDisconnectFrame{ErrCode: errorCode(mark % 4)}).WriteTo(s)
		vsym.Assert(err == nil, "DISCONNECT is not written")
		text := []string{"normal", "I/O error", "a timeout occurred", "frame is too big"}[mark%4]
		vsym.AssertEqBytes(s.out, vsymFrame(102, 1, 0, 0, vsymKVU32("status-code", uint32(mark%4)), vsymKVStr("message", text)), "DISCONNECT")
		vsym.Cover("disconnect")
	}
}

// Frames are written and read by several goroutines at the same time.
//
//vsym C38 name:frames quick:preempt=3 thorough:preempt=5 stress expect:hello,ack,read,disconnect time:100/500
func VSym_ConcurrentFrames() {
	a := vsym.Choose("first", 4)
	b := vsym.Choose("second", a+1)
	x, y := vsym.Int("mark", 1, 100), vsym.Int("other mark", 101, 200)
	ends := make(chan bool, 2)
	if vsym.Choose("pools", 2) == 1 {
		vsym.Pools()
	}
	vsym.Races()
	vsym.Explore(vsym.Param("preempt", 1))
	go func() {
		vsymUseFrames(a, byte(x))
		ends <- true
	}()
	go func() {
		vsymUseFrames(b, byte(y))
		ends <- true
	}()
	<-ends
	<-ends
}
