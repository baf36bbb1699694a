package spop

import (
	"github.com/dropmorepackets/haproxy-go/internal/vsym"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// Writing a frame leaves it as it is: written again it is the same.
//
//vsym C37 name:frames quick:caps=3 thorough:caps=4 expect:hello,disconnect,ack time:60/200
func VSym_FrameArguments() {
	a, b := &vsymSink{failAt: -1}, &vsymSink{failAt: -1}
	switch vsym.Choose("frame", 3) {
	case 0:
		f := &AgentHelloFrame{Version: vsym.String("version", 3), MaxFrameSize: vsym.U32("size")}
		var caps []string
		for i := vsym.Choose("capabilities", vsym.Param("caps", 3)+1); i > 0; i-- {
			caps = append(caps, vsym.String("capability", 2))
		}
		f.Capabilities = append([]string{}, caps...)
		before := *f
		_, _ = f.WriteTo(a)
		_, _ = f.WriteTo(b)
		vsym.Assert(f.Version == before.Version && f.MaxFrameSize == before.MaxFrameSize && len(f.Capabilities) == len(caps), "frame changes")
		for i := range caps {
			vsym.Assert(f.Capabilities[i] == caps[i], "capabilities change")
		}
		vsym.Cover("hello")
	case 1:
		f := &AgentDisconnectFrame{ErrCode: errorCode(vsym.Choose("code", 100))}
		before := *f
		_, _ = f.WriteTo(a)
		_, _ = f.WriteTo(b)
		vsym.Assert(*f == before, "frame changes")
		vsym.Cover("disconnect")
	case 2:
		n := vsym.U32("number")
		calls := 0
		f := &AckFrame{FrameID: vsym.U64("frame"), StreamID: vsym.U64("stream"), ActionWriterCallback: func(w *encoding.ActionWriter) error {
			calls++
			return w.SetUInt32(encoding.VarScopeSession, "n", n)
		}}
		id, stream := f.FrameID, f.StreamID
		_, _ = f.WriteTo(a)
		_, _ = f.WriteTo(b)
		vsym.Assert(f.FrameID == id && f.StreamID == stream && f.ActionWriterCallback != nil, "frame changes")
		vsym.Assert(calls == 2, "callback is not called once per frame")
		vsym.Cover("ack")
	}
	vsym.AssertEqBytes(a.out, b.out, "writing a frame again")
}
