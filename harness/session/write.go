package session

import (
	prtp "github.com/pion/rtp"
	psrtp "github.com/pion/srtp/v3"

	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/srtp"
)

// The packet being sent.
var out struct {
	hsize, psize int
	sent         int
	badHeader    bool
	failed       bool
}

//verif:model (github.com/pion/rtp.Header).MarshalSize
func marshalSize(h prtp.Header) int { return out.hsize }

//verif:model (github.com/pion/rtp.Header).MarshalTo
func marshalTo(h prtp.Header, b []byte) (int, error) {
	vAssert(len(b) >= out.hsize, "there is room for the header")
	if vAny[bool]() {
		out.badHeader = true
		return 0, vErr("header")
	}
	vFill(b[:out.hsize], "hdr", 0)
	return out.hsize, nil
}

func (c *conn) Write(b []byte) (int, error) {
	out.sent++
	vAssert(len(b) == out.hsize+out.psize, "the datagram consists of the header and the payload")
	vAssert(vIsStream(b[:out.hsize], "hdr", 0), "the datagram starts with the header")
	vAssert(vIsStream(b[out.hsize:], "pay", 0), "the datagram ends with the payload")
	if vAny[bool]() {
		out.failed = true
		return 0, vErr("conn")
	}
	return len(b), nil
}

// Any history of packets written to a session.
//
//verif:check C28=assert+lock C08=assert
func Write() {
	start()
	w, err := sess.OpenWriteStream()
	vAssert(err == nil && w != nil, "a session can be written to")
	for vLoop() {
		writeOne(w)
	}
}

func writeOne(w rtp.WriteStream) {
	out.hsize, out.psize = vRange(12, 1500), vRange(0, 100000)
	out.badHeader, out.failed, out.sent = false, false, 0
	n, err := w.WriteRTP(&prtp.Header{}, vStream[[]byte]("pay", 0, out.psize))
	vAssert(vLocksHeld() == 0, "no lock is held after a write")
	if out.badHeader || out.failed {
		vAssert(err != nil, "a failed write is reported")
	} else {
		vAssert(err == nil && n == out.hsize+out.psize, "the size of the datagram is reported")
	}
	if !out.badHeader {
		vAssert(out.sent == 1, "a packet is sent once")
	} else {
		vAssert(out.sent == 0, "nothing is sent for a malformed header")
	}
}

// The native SRTP session.
var sec struct {
	ssrc     uint32
	r        *psrtp.ReadStreamSRTP
	w        *psrtp.WriteStreamSRTP
	failed   bool
	closed   int
	from, to int
	hdr      prtp.Header
	sent     int
}

//verif:model github.com/pion/srtp/v3.NewSessionSRTP
func newSRTP(c any, conf *psrtp.Config) (*psrtp.SessionSRTP, error) {
	if vAny[bool]() {
		return nil, vErr("srtp")
	}
	return &psrtp.SessionSRTP{}, nil
}

//verif:model (*github.com/pion/srtp/v3.SessionSRTP).AcceptStream
func srtpAccept(s *psrtp.SessionSRTP) (*psrtp.ReadStreamSRTP, uint32, error) {
	if vAny[bool]() {
		return nil, 0, vErr("srtp")
	}
	sec.ssrc = vAny[uint32]()
	sec.r = &psrtp.ReadStreamSRTP{}
	return sec.r, sec.ssrc, nil
}

//verif:model (*github.com/pion/srtp/v3.SessionSRTP).OpenWriteStream
func srtpOpen(s *psrtp.SessionSRTP) (*psrtp.WriteStreamSRTP, error) {
	if vAny[bool]() {
		return nil, vErr("srtp")
	}
	sec.w = &psrtp.WriteStreamSRTP{}
	return sec.w, nil
}

//verif:model (*github.com/pion/srtp/v3.SessionSRTP).Close
func srtpClose(s *psrtp.SessionSRTP) error {
	sec.closed++
	if vAny[bool]() {
		sec.failed = true
		return vErr("srtp")
	}
	return nil
}

// Read returns a whole decrypted packet, or fails if it does not fit.
//
//verif:model (*github.com/pion/srtp/v3.ReadStreamSRTP).Read
func srtpRead(r *psrtp.ReadStreamSRTP, b []byte) (int, error) {
	vAssert(r == sec.r, "a stream reads its own packets")
	size = vRange(12, 1500)
	if len(b) < size || vAny[bool]() {
		sec.failed = true
		return 0, vErr("srtp")
	}
	arrived++
	vFill(b[:size], "net", arrived*span)
	return size, nil
}

//verif:model (*github.com/pion/srtp/v3.WriteStreamSRTP).WriteRTP
func srtpWrite(w *psrtp.WriteStreamSRTP, h *prtp.Header, payload []byte) (int, error) {
	vAssert(w == sec.w, "a stream writes its own packets")
	sec.sent++
	vAssert(h.SSRC == sec.hdr.SSRC && h.SequenceNumber == sec.hdr.SequenceNumber && h.Timestamp == sec.hdr.Timestamp && h.PayloadType == sec.hdr.PayloadType && h.Marker == sec.hdr.Marker, "the header is that of the packet")
	vAssert(len(payload) == out.psize && vIsStream(payload, "pay", 0), "the payload is that of the packet")
	if vAny[bool]() {
		sec.failed = true
		return 0, vErr("srtp")
	}
	return len(payload), nil
}

// Packets read from and written to an encrypted session.
//
//verif:check C28=assert C08=assert C02=panic unroll track
func Encrypted() {
	s, err := srtp.NewSession(nil, &conn{}, &srtp.Config{})
	if err != nil {
		vAssert(s == nil, "a failed call returns no session")
		return
	}
	r, ssrc, err := s.AcceptStream()
	if err != nil {
		vAssert(r == nil, "a failed call returns no stream")
	} else {
		vAssert(ssrc == sec.ssrc, "the source announced is that of the stream")
		for i := 0; i < 2; i++ {
			readEncrypted(r)
		}
	}
	w, err := s.OpenWriteStream()
	if err != nil {
		vAssert(w == nil, "a failed call returns no stream")
	} else {
		sec.failed = false
		sec.hdr = prtp.Header{SSRC: vAny[uint32](), SequenceNumber: vAny[uint16](), Timestamp: vAny[uint32](), PayloadType: vAny[uint8](), Marker: vAny[bool]()}
		h := sec.hdr
		out.psize = vRange(0, 100000)
		_, err := w.WriteRTP(&h, vStream[[]byte]("pay", 0, out.psize))
		vAssert(sec.sent == 1, "a packet is sent once")
		vAssert((err != nil) == sec.failed, "a failed write is reported")
	}
	sec.failed = false
	err = s.Close()
	vAssert(sec.closed == 1, "closing a session closes the native one")
	vAssert((err != nil) == sec.failed, "a failed close is reported")
}

func readEncrypted(r rtp.ReadStream) {
	sec.failed = false
	buf := make([]byte, vRange(0, 2000))
	var h prtp.Header
	before := arrived
	n, err := r.ReadRTP(&h, buf)
	if err != nil {
		vAssert(sec.failed || !usable[arrived], "only a failed read or a malformed packet is reported as an error")
		return
	}
	k := arrived
	vAssert(!sec.failed && k == before+1 && usable[k], "a failed read is reported")
	w := hdrs[k]
	vAssert(h.SSRC == w.SSRC && h.SequenceNumber == w.SequenceNumber && h.Timestamp == w.Timestamp && h.PayloadType == w.PayloadType && h.Marker == w.Marker, "the header is that of the packet")
	vAssert(n == lens[k], "the whole payload is returned")
	vAssert(vIsStream(buf[:n], "net", k*span+offs[k]), "the payload is that of the packet")
}
