package buffers

import (
	"time"

	wmedia "github.com/pion/webrtc/v4/pkg/media"

	"github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/rtp"

	prtp "github.com/pion/rtp"
)

// Collecting frames: each is kept as a copy.
//
//verif:check C07=assert C03=panic track
func Frames() {
	var list []media.PCM16Sample
	rate := vAny[int]()
	w := media.NewPCM16FrameWriter(&list, rate)
	vAssert(w.SampleRate() == rate, "the rate is the one given")
	a := vStream[media.PCM16Sample]("a", 0, vRange(0, 1<<20))
	b := vStream[media.PCM16Sample]("b", 0, vRange(0, 1<<20))
	vAssert(w.WriteSample(a) == nil, "frames are accepted")
	vAssert(w.WriteSample(b) == nil, "frames are accepted")
	vAssert(len(list) == 2 && len(list[0]) == len(a) && len(list[1]) == len(b), "frames are kept as they are")
	vAssert(vIsStream(list[0], "a", 0) && vIsStream(list[1], "b", 0), "frames are kept as they are")
	if len(a) > 0 {
		x := list[0][0]
		a[0] = vAny[int16]()
		vAssert(list[0][0] == x, "the list does not share the caller's memory")
	}
	vAssert(w.Close() == nil, "close succeeds")
}

// Collecting samples.
//
//verif:check C07=assert C03=panic track
func Samples() {
	var buf media.PCM16Sample
	rate := vAny[int]()
	w := media.NewPCM16BufferWriter(&buf, rate)
	vAssert(w.SampleRate() == rate, "the rate is the one given")
	n := 0
	for vLoop() {
		k := vRange(0, 1<<20)
		vAssert(w.WriteSample(vStream[media.PCM16Sample]("s", n, k)) == nil, "samples are accepted")
		n += k
		vAssert(len(buf) == n && vIsStream(buf, "s", 0), "samples are appended in order")
	}
	vAssert(w.Close() == nil, "close succeeds")
	vAssert(w.WriteSample(vAny[media.PCM16Sample]()) == nil && len(buf) == n, "nothing is written after close")
}

// Reading them back.
//
//verif:check C03=panic track
func ReadBack() {
	n := vRange(0, 1<<30)
	r := media.NewPCM16BufferReader(vStream[media.PCM16Sample]("s", 0, n))
	at := 0
	for vLoop() {
		buf := make(media.PCM16Sample, vRange(0, 1<<20))
		k, err := r.ReadSample(buf)
		vAssert(err == nil && 0 <= k && k <= len(buf) && at+k <= n, "a read returns what is left")
		vAssert(vIsStream(buf[:k], "s", at), "samples are read in order")
		at += k
	}
}

// A frame as a writer.
//
//verif:check C03=panic track
func Frame() {
	var s media.PCM16Sample
	if vAny[bool]() {
		s = make(media.PCM16Sample, 0, vRange(0, 1<<20))
	}
	n := 0
	for vLoop() {
		k := vRange(0, 1<<20)
		vAssert(s.WriteSample(vStream[media.PCM16Sample]("s", n, k)) == nil, "samples are accepted")
		n += k
		vAssert(len(s) == n && vIsStream(s, "s", 0), "samples are appended in order")
	}
	s.Clear()
	vAssert(len(s) == n, "clearing keeps the length")
	if n > 0 {
		vAssert(s[vRange(0, n-1)] == 0, "cleared samples are zero")
	}
	vAssert(s.Close() == nil, "close succeeds")
}

type out struct {
	calls int
	fail  bool
	dur   time.Duration
}

func (o *out) WriteSample(s wmedia.Sample) error {
	o.calls++
	vAssert(vIsStream(s.Data, "d", 0), "the data is the caller's")
	vAssert(s.Duration == o.dur, "the duration is the one configured")
	if o.fail {
		return vErr("out")
	}
	return nil
}

// Handing frames to a media track.
//
//verif:check C07=assert C08=assert C03=panic track
func TrackWriter() {
	o := &out{fail: vAny[bool](), dur: vAny[time.Duration]()}
	rate := vAny[int]()
	w := media.FromSampleWriter[g722.Sample](o, rate, o.dur)
	vAssert(w.SampleRate() == rate, "the rate is the one given")
	err := w.WriteSample(vStream[g722.Sample]("d", 0, vRange(0, 1<<20)))
	vAssert(o.calls == 1, "each frame is written once")
	vAssert((err != nil) == o.fail, "the error of the track is returned")
	vAssert(w.Close() == nil, "close succeeds")
}

type frames struct {
	calls int
	fail  bool
}

func (f *frames) String() string  { return "frames" }
func (f *frames) SampleRate() int { return 8000 }
func (f *frames) WriteSample(s g722.Sample) error {
	f.calls++
	vAssert(vIsStream(s, "d", 0), "the payload is the packet's")
	if f.fail {
		return vErr("frames")
	}
	return nil
}

// Packets to frames.
//
//verif:check C02=panic C08=assert C03=panic track
func StreamIn() {
	f := &frames{fail: vAny[bool]()}
	h := rtp.NewMediaStreamIn[g722.Sample](f)
	var hdr *prtp.Header
	if vAny[bool]() {
		hdr = &prtp.Header{Marker: vAny[bool](), PayloadType: vAny[byte]()}
	}
	err := h.HandleRTP(hdr, vStream[[]byte]("d", 0, vRange(0, 1<<20)))
	vAssert(f.calls == 1, "each packet is one frame")
	vAssert((err != nil) == f.fail, "the error of the writer is returned")
}

type conn struct {
	calls int
	fail  bool
	typ   byte
}

func (c *conn) String() string { return "conn" }
func (c *conn) WriteRTP(h *prtp.Header, p []byte) (int, error) {
	c.calls++
	vAssert(vIsStream(p, "d", 0), "the payload is the frame's")
	vAssert(!h.Marker && h.PayloadType == c.typ, "the header is the stream's")
	if c.fail {
		return 0, vErr("conn")
	}
	return len(p), nil
}

// Frames to packets.
//
//verif:check C13=assert C14=assert C08=assert C03=panic track
func StreamOut() {
	c := &conn{fail: vAny[bool](), typ: vAny[byte]()}
	sw := rtp.NewSeqWriter(c)
	clock := vRange(50, 1<<20)
	st := sw.NewStream(c.typ, clock)
	rate := vAny[int]()
	w := rtp.NewMediaStreamOut[g722.Sample](st, rate)
	vAssert(w.SampleRate() == rate, "the rate is the one given")
	ts := st.GetCurrentTimestamp()
	err := w.WriteSample(vStream[g722.Sample]("d", 0, vRange(0, 1<<20)))
	vAssert(c.calls == 1, "each frame is one packet")
	vAssert((err != nil) == c.fail, "the error of the connection is returned")
	if err == nil {
		vAssert(st.GetCurrentTimestamp() == ts+uint32(clock/50), "the clock advances by the duration of a frame")
	} else {
		vAssert(st.GetCurrentTimestamp() == ts, "a failed write does not move the clock")
	}
	vAssert(w.Close() == nil, "close succeeds")
}

//verif:model (github.com/pion/rtp.Header).Clone
func cloneHeader(h prtp.Header) prtp.Header {
	c := h
	c.CSRC, c.Extensions = nil, nil // copied
	return c
}

// Keeping packets.
//
//verif:check C07=assert C03=panic track
func PacketBuffer() {
	var b rtp.Buffer
	for i := 0; i < 2; i++ {
		h := &prtp.Header{SequenceNumber: uint16(i), Timestamp: vAny[uint32]()}
		ts := h.Timestamp
		p := vStream[[]byte]("d", 0, vRange(0, 1<<20))
		n, err := b.WriteRTP(h, p)
		vAssert(err == nil && n == len(p), "packets are accepted")
		vAssert(len(b) == i+1, "packets are appended")
		q := b[i]
		vAssert(q.SequenceNumber == uint16(i) && q.Timestamp == ts && len(q.Payload) == n && vIsStream(q.Payload, "d", 0), "packets are kept as they are")
		h.Timestamp = vAny[uint32]()
		vAssert(q.Timestamp == ts, "the header is a copy")
		if n > 0 {
			x := q.Payload[0]
			p[0] = vAny[byte]()
			vAssert(q.Payload[0] == x, "the payload is a copy")
		}
	}
}
