package rtp

import (
	"sync/atomic"

	prtp "github.com/pion/rtp"

	"github.com/livekit/media-sdk/rtp"
)

// Whether other streams of the same writer are active: then they may raise the shared maximum between any two
// accesses of this one.
var others bool

//verif:model (*sync/atomic.Uint32).CompareAndSwap
func casMax(p *atomic.Uint32, old, new uint32) bool {
	interfere(p)
	cur := p.Load()
	if cur != old {
		return false
	}
	vAssert(new >= cur, "the shared maximum timestamp never decreases")
	p.Swap(new)
	return true
}

//verif:model (*sync/atomic.Uint32).Store
func storeMax(p *atomic.Uint32, v uint32) {
	interfere(p)
	vAssert(v >= p.Load(), "the shared maximum timestamp never decreases")
	p.Swap(v)
}

func interfere(p *atomic.Uint32) {
	if others && vAny[bool]() {
		v := vAny[uint32]()
		vAssume(v > p.Load())
		p.Swap(v)
	}
}

type tsSink struct {
	ts   uint32
	sent int
	fail bool
}

func (s *tsSink) String() string { return "sink" }
func (s *tsSink) WriteRTP(h *prtp.Header, payload []byte) (int, error) {
	s.ts = h.Timestamp
	s.sent++
	if s.fail {
		return 0, vNonNil[error]()
	}
	return len(payload), nil
}

// Any history on one stream of a writer, with other streams active or not, below the 32-bit wrap-around.
//
//verif:check C14=assert C03=panic
func StreamAlone() { streamHistory(false) }

//verif:check C14=assert C03=panic
func StreamAmongOthers() { streamHistory(true) }

func streamHistory(oth bool) {
	others = oth
	s := &tsSink{}
	w := rtp.NewSeqWriter(s)
	rate := vRange(0, 50<<20)
	dur := uint32(rate / rtp.DefFramesPerSec)
	st := w.NewStream(vAny[byte](), rate)
	if vAny[bool]() {
		dur = vAny[uint32]()
		vAssume(dur <= 1<<20)
		st = w.NewStreamWithDur(vAny[byte](), dur)
	}
	vAssert(st.GetCurrentTimestamp() == 0, "a stream starts at zero")
	follow := 0
	for vLoop() {
		before := st.GetCurrentTimestamp()
		vAssume(int(before) < 1<<32-26<<20)
		sent := s.sent
		s.fail = vAny[bool]()
		switch vAny[int]() {
		case 0:
			err := st.WritePayload(nil, false)
			vAssert(s.sent == sent+1, "one packet is sent per write")
			vAssert((err != nil) == s.fail, "a failed send is reported")
			checkSent(s, before, follow)
			if err == nil {
				vAssert(st.GetCurrentTimestamp() == s.ts+dur, "after a regular write the timestamp advances by one packet")
				follow = 0
			} else {
				vAssert(st.GetCurrentTimestamp() == s.ts, "after a failed write the timestamp does not advance")
			}
		case 1:
			err := st.WritePayloadAtCurrent(nil, false)
			vAssert(s.sent == sent+1, "one packet is sent per write")
			vAssert((err != nil) == s.fail, "a failed send is reported")
			checkSent(s, before, follow)
			vAssert(st.GetCurrentTimestamp() == s.ts, "after a write at the current time the timestamp does not advance")
			if err == nil {
				follow = 1
			}
		case 2:
			d := vAny[uint32]()
			vAssume(int(before)+int(d) < 1<<32-26<<20)
			st.Delay(d)
			checkDelay(st, before, d)
			follow = 0
		case 3:
			n := vRange(0, 1<<30)
			vAssume(int(before)+n*int(dur) < 1<<32-26<<20)
			st.DelayN(n)
			checkDelay(st, before, uint32(n)*dur)
			follow = 0
		case 4:
			ts := vAny[uint32]()
			// (set back in time, the stream is one that has to catch up with its own past)
			vAssume(others || ts >= before)
			st.ResetTimestamp(ts)
			vAssert(st.GetCurrentTimestamp() == ts, "the timestamp can be set")
			follow = 0
		}
	}
}

func checkSent(s *tsSink, before uint32, follow int) {
	if !others || follow == 1 {
		vAssert(s.ts == before, "a packet is sent at the stream's current timestamp")
	} else {
		vAssert(s.ts >= before, "a packet is never sent before the stream's current timestamp")
	}
}

func checkDelay(st *rtp.Stream, before, d uint32) {
	if !others {
		vAssert(st.GetCurrentTimestamp() == before+d, "a delay adds exactly the requested duration")
	} else {
		vAssert(st.GetCurrentTimestamp() >= before+d, "a delay adds at least the requested duration")
	}
}
