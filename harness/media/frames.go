package media

import (
	"github.com/livekit/media-sdk"
)

// frameSink checks what the frame splitter hands over against the stream of samples written to it.
type frameSink struct {
	size    int
	pos     int // stream samples handed over so far
	closed  int
	closing bool
	short   bool
	fails   bool // writes may fail
	failed  bool // a write of this call failed
}

func (s *frameSink) String() string  { return "sink" }
func (s *frameSink) SampleRate() int { return 48000 }
func (s *frameSink) WriteSample(f media.PCM16Sample) error {
	vAssert(s.closed == 0, "nothing is written after close")
	vAssert(vIsStream(f, "a", s.pos), "samples are handed over once each and in order")
	vAssert(!s.short, "nothing follows a short frame")
	if !s.closing {
		vAssert(len(f) == s.size, "a frame written before close has exactly the configured size")
	} else {
		vAssert(len(f) > 0 && len(f) <= s.size, "the last frame is not empty and not longer than a full frame")
		if len(f) != s.size {
			s.short = true
		}
	}
	vAssert(!s.failed, "no write follows a failed write in the same call")
	s.pos += len(f)
	if s.fails {
		if err := vFail(); err != nil {
			s.failed = true
			return err
		}
	}
	return nil
}
func (s *frameSink) Close() error {
	s.closed++
	return vFail()
}

// Any history of writes through the frame splitter followed by close, with a sink that never fails.
//
//verif:check C20=assert C03=panic track
func SplitFrames() {
	size := vAny[int]()
	vAssume(size > 0)
	s := &frameSink{size: size}
	w := media.FullFrames[media.PCM16Sample, int16](s, size)
	vAssert(w.SampleRate() == 48000, "the splitter reports the rate of its sink")
	tail := 0
	for vLoop() {
		in := vStream[media.PCM16Sample]("a", tail, vRange(0, 1<<40))
		err := w.WriteSample(in)
		tail += len(in)
		vAssert(err == nil, "a write succeeds when the sink does")
		vAssert(s.pos <= tail && tail-s.pos < size, "all full frames are handed over at once")
		vAssert(s.closed == 0, "the sink is not closed before close")
	}
	s.closing = true
	w.Close()
	vAssert(s.pos == tail, "close hands over all remaining samples")
	vAssert(s.closed == 1, "close closes the sink exactly once")
}

// The same with a sink that may fail at any write.
//
//verif:check C20=assert C03=panic C08=assert C09=assert track
func SplitFramesFailing() {
	size := vAny[int]()
	vAssume(size > 0)
	s := &frameSink{size: size, fails: true}
	w := media.FullFrames[media.PCM16Sample, int16](s, size)
	tail := 0
	for vLoop() {
		in := vStream[media.PCM16Sample]("a", tail, vRange(0, 1<<40))
		s.failed = false
		err := w.WriteSample(in)
		tail += len(in)
		if s.failed {
			vAssert(err != nil, "a failed write is reported")
		} else {
			vAssert(err == nil, "a write succeeds when the sink does")
			vAssert(tail-s.pos < size, "all full frames are handed over at once")
		}
		vAssert(s.pos <= tail, "no sample is handed over twice")
		vAssert(s.closed == 0, "the sink is not closed before close")
	}
	s.closing = true
	s.failed = false
	err := w.Close()
	if s.failed {
		vAssert(err != nil, "a failed flush is reported by close")
	} else {
		vAssert(s.pos == tail, "close hands over all remaining samples")
	}
	vAssert(s.closed == 1, "close closes the sink exactly once, even after a failed flush")
}
