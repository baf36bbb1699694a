package peers

import (
	"bytes"
	"errors"
	"io"
	"os"
	"strconv"
	"strings"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
)

// vsymToken is a name without white space.
func vsymToken(name string, min, max int) string {
	b := vsym.Bytes(name, min+vsym.Choose(name+" length", max-min+1))
	for _, c := range b {
		vsym.Assume(c > ' ' && c < 127)
	}
	return string(b)
}

// vsymPid is a decimal number and its value.
func vsymPid(name string) (string, int) {
	switch vsym.Choose(name+" digits", 4) {
	case 0:
		d := vsym.U8(name)
		vsym.Assume(d < 10)
		return string([]byte{'0' + d}), int(d)
	case 1:
		a, b := vsym.U8(name+" a"), vsym.U8(name+" b")
		vsym.Assume(a < 10 && b < 10)
		return string([]byte{'0' + a, '7', '0' + b}), int(a)*100 + 70 + int(b)
	case 2:
		return "4194304", 4194304
	}
	return "2147483647", 2147483647
}

// A well-formed hello in any segmentation, followed by messages.
//
//vsym C24 name:wellformed quick:name=2 thorough:name=4 sync expect:reported time:150/500
func VSym_Hello() {
	ident := "HAProxyS"
	ver := "2.1"
	remote, local := "a", "b"
	pidS, pid := "1", 1
	relS, rel := "0", 0
	max := vsym.Param("name", 3)
	switch vsym.Choose("wide", 6) {
	case 5:
		long := strings.Repeat("x", []int{300, 500}[vsym.Choose("long", 2)])
		switch vsym.Choose("field", 3) {
		case 0:
			ver = long
		case 1:
			remote = long
		case 2:
			local = long
		}
	case 0:
		ident = vsymToken("ident", 1, max)
		ver = vsymToken("version", 1, max)
	case 1:
		remote = vsymToken("remote", 1, max+1)
	case 2:
		local = vsymToken("local", 1, max+1)
	case 3:
		pidS, pid = vsymPid("pid")
	case 4:
		relS, rel = vsymPid("rel")
	}
	in := []byte(ident + " " + ver + "\n" + remote + "\n" + local + " " + pidS + " " + relS + "\n")
	in = append(in, 0, 0) // a request that needs an answer
	in = append(in, vsymDef(7, "t", 6, 9, 2, 5)...)
	in = append(in, vsymMsg(10, 0x80, vsymBE32(77), []byte{1, 'k', 5})...)
	conn := vsymNewConn(in)
	if len(in) < 200 {
		conn.segment(12)
	}
	conn.end = nil
	h := &vsymHandler{}
	vsymServe(nil, []*vsymHandler{h}, conn)
	vsym.Settle()
	vsym.Assert(len(h.calls) > 0 && h.calls[0].hello != nil, "hello not reported")
	hs := h.calls[0].hello
	vsym.Assert(hs.ProtocolIdentifier == ident && hs.Version == ver, "identifier and version")
	vsym.Assert(hs.RemotePeer == remote && hs.LocalPeerIdentifier == local, "peer names")
	vsym.Assert(hs.ProcessID == pid && hs.RelativeProcessID == rel, "process ids")
	vsym.Assert(len(h.calls) == 2 && h.calls[1].e != nil && h.calls[1].e.LocalUpdateID == 77, "update behind the hello")
	vsym.AssertEqBytes(conn.out, []byte("200\n\x00\x02"), "answer")
	vsym.Assert(h.closed == 0, "session ended")
	vsym.Cover("reported")
}

// Hellos that are cut off, lack a field or have a process id that is no
// number are not accepted.
//
//vsym C24 name:malformed quick:name=3 thorough:name=6 sync expect:cut,field,number time:100/300
func VSym_HelloMalformed() {
	var in []byte
	valid := []byte("HAProxyS 2.1\nremote\nlocal 1 0\n")
	switch vsym.Choose("how", 3) {
	case 0:
		in = valid[:vsym.Choose("cut", len(valid))]
		vsym.Cover("cut")
	case 1:
		in = []byte([]string{
			"HAProxyS\nremote\nlocal 1 0\n",
			"\nremote\nlocal 1 0\n",
			"HAProxyS 2.1\nremote\nlocal 1\n",
			"HAProxyS 2.1\nremote\nlocal\n",
			"HAProxyS 2.1\nremote\n\n",
			"HAProxyS 2.1\nlocal 1 0\n\n",
		}[vsym.Choose("missing", 6)])
		vsym.Cover("field")
	case 2:
		c := vsym.U8("char")
		vsym.Assume(c > ' ' && c < 127 && (c < '0' || c > '9') && c != '+' && c != '-')
		if vsym.Choose("second", 2) == 0 {
			in = []byte("HAProxyS 2.1\nremote\nlocal " + string([]byte{c}) + " 0\n")
		} else {
			in = []byte("HAProxyS 2.1\nremote\nlocal 1 " + string([]byte{c}) + "\n")
		}
		vsym.Cover("number")
	}
	whole := len(in) > 0 && in[len(in)-1] == '\n' && bytes.Count(in, []byte("\n")) == 3
	if whole {
		in = append(in, vsymDef(7, "t", 6, 9, 2, 5)...)
		in = append(in, vsymMsg(10, 0x80, vsymBE32(77), []byte{1, 'k', 5})...)
	}
	conn := vsymNewConn(in)
	conn.segment(12)
	h := &vsymHandler{}
	vsymServe(nil, []*vsymHandler{h}, conn)
	vsym.Settle()
	vsym.Assert(!bytes.HasPrefix(conn.out, []byte("200")), "success status for a malformed hello")
	for _, c := range h.calls {
		vsym.Assert(c.e == nil, "update of a session with a malformed hello")
	}
	vsym.Assert(h.closed == 1 && conn.isClosed(), "session with a malformed hello goes on")
}

// A handshake that is written is read back with the same fields, and nothing
// behind it is consumed.
//
//vsym C24 name:roundtrip quick:name=2 thorough:name=4 expect:same time:100/300
func VSym_HelloRoundTrip() {
	h := Handshake{ProtocolIdentifier: "HAProxyS", Version: "2.1", RemotePeer: "a", LocalPeerIdentifier: "b", ProcessID: 1}
	max := vsym.Param("name", 3)
	switch vsym.Choose("wide", 5) {
	case 0:
		h.ProtocolIdentifier = vsymToken("ident", 1, max)
		h.Version = vsymToken("version", 1, max)
	case 1:
		h.RemotePeer = vsymToken("remote", 1, max+1)
	case 2:
		h.LocalPeerIdentifier = vsymToken("local", 1, max+1)
	case 3:
		h.ProcessID = int(vsym.U8("pid"))
		if vsym.Choose("large", 2) == 1 {
			h.ProcessID += 2147483392 // up to the largest 32-bit number
		}
	case 4:
		h.RelativeProcessID = int(vsym.U8("rel"))
	}
	var buf bytes.Buffer
	n, err := h.WriteTo(&buf)
	vsym.Assert(err == nil && n == int64(buf.Len()), "bytes written")
	want := h.ProtocolIdentifier + " " + h.Version + "\n" + h.RemotePeer + "\n" + h.LocalPeerIdentifier + " " +
		strconv.Itoa(h.ProcessID) + " " + strconv.Itoa(h.RelativeProcessID) + "\n"
	vsym.Assert(buf.String() == want, "handshake format")
	buf.WriteByte('x')
	var g Handshake
	_, err = g.ReadFrom(&buf)
	vsym.Assert(err == nil, "own handshake rejected")
	vsym.Assert(g == h, "handshake changed")
	rest, err := io.ReadAll(&buf)
	vsym.Assert(err == nil && string(rest) == "x", "bytes behind the handshake")
	vsym.Cover("same")
}

// A handler that sends updates as soon as it learns about the session.
//
//vsym C24 name:early sync expect:sent
func VSym_HelloEarlyUpdate() {
	conn := vsymNewConn([]byte(vsymHello))
	conn.end = nil
	h := &vsymHandler{}
	id := vsym.U8("table")
	vsym.Assume(id < 240)
	h.onHello = vsymSendSwitch(uint64(id))
	vsymServe(nil, []*vsymHandler{h}, conn)
	vsym.Settle()
	vsym.AssertEqBytes(conn.out, []byte{'2', '0', '0', '\n', 10, 0x83, 1, id}, "status before updates")
	vsym.Cover("sent")
}

// A handshake made for a peer names that peer, this host and this process, and
// is accepted as it is.
//
//vsym C24 name:made quick:name=3 thorough:name=8 sync expect:accepted time:30/200
func VSym_HelloMade() {
	max := vsym.Param("name", 3)
	remote := vsymToken("remote", 1, max)
	other := NewHandshake("other")
	made := NewHandshake(remote)
	other.Version, other.LocalPeerIdentifier = "9", "nobody"
	host, _ := os.Hostname()
	vsym.Assert(made.ProtocolIdentifier == "HAProxyS" && made.Version == "2.1", "identifier and version")
	vsym.Assert(made.RemotePeer == remote && made.LocalPeerIdentifier == host, "peer names")
	vsym.Assert(made.ProcessID == os.Getpid() && made.RelativeProcessID == 0, "process ids")
	var buf bytes.Buffer
	n, err := made.WriteTo(&buf)
	vsym.Assert(err == nil && n == int64(buf.Len()), "bytes written")
	in := append([]byte(nil), buf.Bytes()...)
	in = append(in, 0, 0)
	conn := vsymNewConn(in)
	conn.end = nil
	h := &vsymHandler{}
	vsymServe(nil, []*vsymHandler{h}, conn)
	vsym.Settle()
	vsym.Assert(len(h.calls) == 1 && h.calls[0].hello != nil, "hello not reported")
	vsym.Assert(*h.calls[0].hello == *made, "hello")
	vsym.AssertEqBytes(conn.out, []byte("200\n\x00\x02"), "answer")
	vsym.Cover("accepted")
}

// vsymFlaky takes up a part of one write and reports an error for it.
type vsymFlaky struct {
	failAt, part int
	calls        int
	failed       bool
	out          []byte
}

var vsymErrFlaky = errors.New("flaky")

func (f *vsymFlaky) Write(p []byte) (int, error) {
	f.calls++
	if f.calls-1 == f.failAt {
		f.failed = true
		n := vsym.Min(f.part, len(p))
		f.out = append(f.out, p[:n]...)
		return n, vsymErrFlaky
	}
	f.out = append(f.out, p...)
	return len(p), nil
}

// A handshake that cannot be written whole is reported as such, and nothing
// follows what was lost.
//
//vsym C24 name:torn quick:name=2 thorough:name=4 expect:torn,whole time:30/100
func VSym_HelloTorn() {
	max := vsym.Param("name", 2)
	hs := &Handshake{
		ProtocolIdentifier: "HAProxyS", Version: "2.1",
		RemotePeer: vsymToken("remote", 1, max), LocalPeerIdentifier: vsymToken("local", 1, max),
		ProcessID: vsym.Choose("pid", 3) * 99, RelativeProcessID: 7,
	}
	full := new(bytes.Buffer)
	_, err := hs.WriteTo(full)
	vsym.Assert(err == nil, "writing fails")
	f := &vsymFlaky{failAt: vsym.Choose("fail", 12), part: vsym.Choose("part", 3)}
	n, err := hs.WriteTo(f)
	vsym.Assert(n == int64(len(f.out)), "number of bytes written")
	if f.failed {
		vsym.Assert(errors.Is(err, vsymErrFlaky), "failure to write is not reported")
		vsym.Cover("torn")
	} else {
		vsym.Assert(err == nil && len(f.out) == full.Len(), "writing fails")
		vsym.Cover("whole")
	}
	vsym.Assert(len(f.out) <= full.Len(), "number of bytes written")
	vsym.AssertEqBytes(f.out, full.Bytes()[:len(f.out)], "bytes written")
}
