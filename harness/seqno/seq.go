package seqno

import (
	prtp "github.com/pion/rtp"

	"github.com/livekit/media-sdk/rtp"
)

// Timestamps are decided elsewhere (C14): here any value may come back.
//
//verif:model (*github.com/livekit/media-sdk/rtp.SeqWriter).CurTS
func curTS(s *rtp.SeqWriter, ts, inc uint32) uint32 { return vAny[uint32]() }

// seqSink checks the packets that leave a sequence writer.
type seqSink struct {
	next    uint16
	started bool
	ssrc    uint32
	fail    bool // outcome of the next write
	typ     byte
	marker  bool
	payload int
	calls   int
	ts      uint32 // timestamp of the last packet
}

func (s *seqSink) String() string { return "sink" }
func (s *seqSink) WriteRTP(h *prtp.Header, payload []byte) (int, error) {
	vAssert(vLocksHeld() > 0, "packets are sent under the writer's lock")
	if !s.started {
		s.started = true
		s.next = h.SequenceNumber
		s.ssrc = h.SSRC
	}
	vAssert(h.SequenceNumber == s.next, "sequence numbers are consecutive")
	vAssert(h.SSRC == s.ssrc, "the source identifier is the writer's")
	vAssert(h.Version == 2, "the version is 2")
	vAssert(h.PayloadType == s.typ, "the payload type is the stream's")
	vAssert(h.Marker == s.marker, "the marker is the caller's")
	vAssert(len(payload) == s.payload, "the payload is the caller's")
	vAssert(vIsStream(payload, "p", 0), "the payload is the caller's")
	s.ts = h.Timestamp
	s.calls++
	if s.fail {
		return 0, vNonNil[error]()
	}
	s.next++
	return len(payload), nil
}

// Any history of writes on a stream and of events from other streams of the same sequence writer.
//
//verif:check C13=assert C03=panic track coarse
func Sequence() {
	s := &seqSink{}
	w := rtp.NewSeqWriter(s)
	t1 := vAny[byte]()
	s1 := w.NewStream(t1, vAny[int]())
	joinSendEvent(s, w)
	for vLoop() {
		joinStep(s, w, s1, t1)
	}
}

func joinStep(s *seqSink, w *rtp.SeqWriter, s1 *rtp.Stream, t1 byte) {
	switch vAny[int]() {
	case 0:
		joinSendEvent(s, w)
	case 1:
		joinSend(s, s1, t1)
	case 2:
		s1.Delay(vAny[uint32]())
	case 3:
		s1.ResetTimestamp(vAny[uint32]())
	}
}

func joinSendEvent(s *seqSink, w *rtp.SeqWriter) {
	p := vStream[[]byte]("p", 0, vRange(0, 1<<40))
	s.fail = vAny[bool]()
	s.marker = vAny[bool]()
	s.payload = len(p)
	calls := s.calls
	ev := &rtp.Event{Type: vAny[byte](), Timestamp: vAny[uint32](), Payload: p, Marker: s.marker}
	s.typ = ev.Type
	ts := ev.Timestamp
	err := w.WriteEvent(ev)
	vAssert(s.ts == ts, "an event is sent with its timestamp")
	vAssert(s.calls == calls+1, "each write sends exactly one packet")
	vAssert((err != nil) == s.fail, "a failed send is reported")
}

func joinSend(s *seqSink, st *rtp.Stream, typ byte) {
	p := vStream[[]byte]("p", 0, vRange(0, 1<<40))
	s.fail = vAny[bool]()
	s.marker = vAny[bool]()
	s.payload = len(p)
	calls := s.calls
	s.typ = typ
	var err error
	if vAny[bool]() {
		err = st.WritePayload(p, s.marker)
	} else {
		err = st.WritePayloadAtCurrent(p, s.marker)
	}
	vAssert(s.calls == calls+1, "each write sends exactly one packet")
	vAssert((err != nil) == s.fail, "a failed send is reported")
}
