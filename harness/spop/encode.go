package spop

import (
	"errors"
	"io"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// vsymEncode writes a frame and checks the outcome: the frame, or an error and
// nothing written.
func vsymEncode(f io.WriterTo, want []byte, err error) {
	s := &vsymSink{failAt: -1}
	n, got := f.WriteTo(s)
	vsym.Assert(n == int64(len(s.out)), "number of bytes reported")
	if err != nil {
		vsym.Assert(errors.Is(got, err), "error of the callback is lost")
		vsym.Assert(len(s.out) == 0, "something is written in spite of an error")
		return
	}
	if vsym.Fork(len(want)-4 > maxFrameSize) {
		vsym.Assert(got != nil, "no error for a frame that is too large")
		vsym.Assert(len(s.out) == 0, "part of a frame that is too large is written")
		vsym.Cover("toolarge")
		return
	}
	vsym.Assert(got == nil, "frame is refused")
	vsym.AssertEqBytes(s.out, want, "frame on the wire")
	vsym.Cover("written")
}

// Every AGENT-HELLO.
//
//vsym C34 name:hello quick:caps=3,str=20,frames=1 thorough:caps=5,str=300,frames=1 expect:written time:60/300
//vsym C34 name:large quick:caps=1,str=70000,frames=1 thorough:caps=2,str=300000,frames=1 expect:written,toolarge time:60/300
//vsym C34 name:sequence quick:caps=1,str=8,frames=2 thorough:caps=1,str=20,frames=3 expect:written time:60/300
func VSym_EncodeAgentHello() {
	for i := 0; i < vsym.Param("frames", 1); i++ {
		// one of the fields takes any value, the others short ones
		caps := vsym.Choose("capabilities", vsym.Param("caps", 2)+1)
		wide := vsym.Choose("wide", 2+caps)
		text := func(i int) string {
			if i == wide {
				return vsym.String("text", vsym.Int("text length", 0, vsym.Param("str", 20)))
			}
			return vsym.String("short text", vsym.Choose("short length", 2)*2)
		}
		h := AgentHelloFrame{Version: text(0), MaxFrameSize: vsym.U32("size")}
		if wide != 1 {
			vsym.Assume(h.MaxFrameSize < 240)
		}
		var list []byte
		for j := 0; j < caps; j++ {
			c := text(2 + j)
			if j > 0 {
				list = append(list, ',')
			}
			list = append(list, c...)
			h.Capabilities = append(h.Capabilities, c)
		}
		want := vsymFrame(101, 1, 0, 0, vsymKVStr("version", h.Version), vsymKVU32("max-frame-size", h.MaxFrameSize),
			vsymStr("capabilities"), []byte{8}, vsym.RefVarint(uint64(len(list))), list)
		vsymEncode(&h, want, nil)
	}
}

// Every AGENT-DISCONNECT.
//
//vsym C34 name:disconnect expect:written
func VSym_EncodeAgentDisconnect() {
	d := AgentDisconnectFrame{}
	known := []struct {
		code int
		text string
	}{{0, "normal"}, {1, "I/O error"}, {2, "a timeout occurred"}, {3, "frame is too big"}, {4, "invalid frame received"},
		{5, "version value not found"}, {6, "max-frame-size value not found"}, {7, "capabilities value not found"},
		{8, "unsupported version"}, {9, "max-frame-size too big or too small"}, {10, "fragmentation not supported"},
		{11, "invalid interlaced frames"}, {12, "frame-id not found"}, {13, "resource allocation error"},
		{99, "an unknown error occurred"}}
	i := vsym.Choose("code", len(known)+1)
	if i < len(known) {
		d.ErrCode += vsymCode(d.ErrCode, known[i].code)
		_ = known[i].text
	} else {
		d.ErrCode += vsymCode(d.ErrCode, vsym.Int("other", 14, 98))
	}
	s := &vsymSink{failAt: -1}
	n, err := d.WriteTo(s)
	vsym.Assert(err == nil && n == int64(len(s.out)), "frame is refused")
	vsym.AssertEqBytes(s.out, vsymFrame(102, 1, 0, 0, vsymKVU32("status-code", uint32(d.ErrCode)), vsymKVStr("message", d.ErrCode.String())), "frame on the wire")
	vsym.Cover("written")
}

func vsymCode[T ~int](_ T, v int) T { return T(v) }

// Every ACK: its ids and the actions of the callback, or nothing if the callback
// fails or the frame gets too large.
//
//vsym C34 name:ack quick:acts=2,frames=1 thorough:acts=4,frames=1 expect:written,failed time:60/300
//vsym C34 name:acks quick:acts=1,frames=2 thorough:acts=2,frames=3 expect:written,failed,toolarge time:60/300
func VSym_EncodeAck() {
	for i := 0; i < vsym.Param("frames", 1); i++ {
		var wire []byte
		var fail error
		n := vsym.Choose("actions", vsym.Param("acts", 2)+1)
		a := AckFrame{StreamID: vsym.U64("stream"), FrameID: vsym.U64("frame")}
		// one of the numbers takes any value, the others small ones
		wide := 3
		if vsym.Param("frames", 1) == 1 {
			wide = vsym.Choose("wide", 3)
		}
		last := i == vsym.Param("frames", 1)-1
		vsym.Assume(wide == 0 || a.StreamID < 240)
		vsym.Assume(wide == 1 || a.FrameID < 240)
		large := vsym.Param("frames", 1) > 1 && vsym.Choose("large", 2) == 1
		if vsym.Choose("failing", 2) == 1 {
			fail = vsymSinkErr
			vsym.Cover("failed")
		}
		a.ActionWriterCallback = func(w *encoding.ActionWriter) error {
			for j := 0; j < n; j++ {
				kind := 1
				if last {
					kind = vsym.Choose("action", 6)
				}
				wire = vsymCat(wire, vsymAct(w, kind, "name", j > 0 || wide != 2))
			}
			if large {
				v := vsym.String("long", vsym.Int("long length", 60000, 70000))
				vsym.Assert(w.SetString(encoding.VarScopeTransaction, "l", v) == nil, "action is rejected")
				wire = vsymCat(wire, []byte{1, 3, 2}, vsymStr("l"), []byte{8}, vsymStr(v))
			}
			return fail
		}
		s := &vsymSink{failAt: -1}
		got, err := a.WriteTo(s)
		vsym.Assert(got == int64(len(s.out)), "number of bytes reported")
		want := vsymFrame(103, 1, a.StreamID, a.FrameID, wire)
		switch {
		case fail != nil:
			vsym.Assert(errors.Is(err, fail), "error of the callback is lost")
			vsym.Assert(len(s.out) == 0, "something is written in spite of an error")
		case vsym.Fork(len(want)-4 > maxFrameSize):
			vsym.Assert(err != nil && len(s.out) == 0, "frame that is too large is written")
			vsym.Cover("toolarge")
		default:
			vsym.Assert(err == nil, "frame is refused")
			vsym.AssertEqBytes(s.out, want, "frame on the wire")
			vsym.Cover("written")
		}
	}
}

// A connection that fails in the middle of a frame: the error is reported, with
// the number of bytes that were taken, and nothing follows.
//
//vsym C34 name:broken expect:broken time:60/300
func VSym_EncodeBroken() {
	var f io.WriterTo
	var want []byte
	switch vsym.Choose("frame", 3) {
	case 0:
		h := &AgentHelloFrame{Version: "2.0", MaxFrameSize: vsym.U32("size")}
		f, want = h, vsymFrame(101, 1, 0, 0, vsymKVStr("version", "2.0"), vsymKVU32("max-frame-size", h.MaxFrameSize), vsymKVStr("capabilities", ""))
	case 1:
		d := &AgentDisconnectFrame{ErrCode: ErrorTimeout}
		f, want = d, vsymFrame(102, 1, 0, 0, vsymKVU32("status-code", 2), vsymKVStr("message", "a timeout occurred"))
	case 2:
		v := vsym.U64("value")
		vsym.Assume(v < 240)
		a := &AckFrame{StreamID: vsym.U64("stream"), FrameID: vsym.U64("frame"), ActionWriterCallback: func(w *encoding.ActionWriter) error {
			return w.SetInt64(encoding.VarScopeTransaction, "name", int64(v))
		}}
		vsym.Assume(a.StreamID < 240)
		f, want = a, vsymFrame(103, 1, a.StreamID, a.FrameID, []byte{1, 3, 2}, vsymStr("name"), []byte{4}, vsym.RefVarint(v))
	}
	s := &vsymSink{failAt: vsym.Int("fail at", 0, 100)}
	vsym.Assume(s.failAt < len(want))
	n, err := f.WriteTo(s)
	vsym.Assert(errors.Is(err, vsymSinkErr), "failed write is not reported")
	vsym.Assert(len(s.out) == s.failAt && n == int64(s.failAt), "number of bytes reported")
	vsym.AssertEqBytes(s.out, want[:s.failAt], "bytes before the failure")
	vsym.Cover("broken")
}
