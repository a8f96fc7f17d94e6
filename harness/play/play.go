package play

import (
	"context"
	"time"

	"github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/tones"
)

var (
	tickCh   = make(chan time.Time)
	doneCh   = make(chan struct{})
	errDone  = vErr("canceled")
	tickers  int
	stopped  int
	tickStep time.Duration
)

//verif:model time.NewTicker
func newTicker(d time.Duration) *time.Ticker {
	tickers++
	tickStep = d
	return &time.Ticker{C: tickCh}
}

//verif:model (*time.Ticker).Stop
func stopTicker(t *time.Ticker) { stopped++ }

// A context that may be cancelled at any time.
type anyCtx struct{}

func (c *anyCtx) Deadline() (deadline time.Time, ok bool) { return }
func (c *anyCtx) Done() <-chan struct{}                   { return doneCh }
func (c *anyCtx) Value(key any) any                       { return nil }
func (c *anyCtx) Err() error {
	if vRecvs(doneCh) > 0 {
		return errDone
	}
	return nil
}

var _ context.Context = (*anyCtx)(nil)

// list follows the frames of a list.
type list struct {
	n      int
	failed int
	err    error
}

func (s *list) String() string  { return "list" }
func (s *list) SampleRate() int { return 48000 }
func (s *list) WriteSample(f int) error {
	vAssert(s.failed == 0, "no frame follows an error")
	vAssert(vRecvs(doneCh) == 0, "no frame is written after the context is cancelled")
	vAssert(f == vElem[int]("f", s.n), "the frames are written once each and in order")
	s.n++
	vAssert(vRecvs(tickCh) == s.n, "one tick is awaited per frame")
	if err := vFail(); err != nil {
		s.failed++
		s.err = err
		return err
	}
	return nil
}

// A list of frames of any length.
//
//verif:check C21=assert C08=assert C03=panic track
func PlayList() {
	frames := vStream[[]int]("f", 0, vRange(0, 1<<40))
	s := &list{}
	d := vAny[time.Duration]()
	err := media.PlayAudio[int](&anyCtx{}, s, d, frames)
	vAssert(tickers == stopped, "the ticker is stopped on every way out")
	vAssert(tickers == 0 || tickStep == d, "a tick lasts a frame")
	switch {
	case vRecvs(doneCh) > 0:
		vAssert(err == errDone, "the context's error is returned")
	case s.failed > 0:
		vAssert(err == s.err, "the writer's error is returned")
	default:
		vAssert(err == nil, "playing a list succeeds")
		vAssert(s.n == len(frames), "every frame is written")
	}
}

// speaker counts frames of sound.
type speaker struct {
	rate   int
	n      int
	failed int
	err    error
}

func (s *speaker) String() string  { return "speaker" }
func (s *speaker) SampleRate() int { return s.rate }
func (s *speaker) WriteSample(f media.PCM16Sample) error {
	vAssert(s.failed == 0, "no frame follows an error")
	vAssert(vRecvs(doneCh) == 0, "no frame is written after the context is cancelled")
	vAssert(len(f) == s.rate/50, "each frame has the duration of a tick")
	s.n++
	vAssert(vRecvs(tickCh) == s.n, "one tick is awaited per frame")
	if err := vFail(); err != nil {
		s.failed++
		s.err = err
		return err
	}
	return nil
}

// The sound itself is decided apart (GenerateTone).
//
//verif:model (github.com/livekit/media-sdk.PCM16Sample).Clear
func clearSample(s media.PCM16Sample) {}

//verif:model github.com/livekit/media-sdk/tones.Generate
func generate(buf media.PCM16Sample, ts, dur time.Duration, amp int16, freq []tones.Hz) time.Duration {
	return ts + dur
}

// Any list of tones, including none.
//
//verif:check C21=assert C08=assert C03=panic
func PlayTones() {
	list := vSym[[]tones.Tone]("tones")
	s := &speaker{rate: vRange(0, 1<<20)}
	err := tones.Play(&anyCtx{}, s, vAny[int16](), list)
	vAssert(tickers == stopped, "the ticker is stopped on every way out")
	vAssert(tickers == 0 || tickStep == 20*time.Millisecond, "a tick lasts a frame")
	switch {
	case vRecvs(doneCh) > 0:
		vAssert(err == errDone, "the context's error is returned")
	case s.failed > 0:
		vAssert(err == s.err, "the writer's error is returned")
	default:
		vAssert(err == nil && len(list) == 0, "tones are played until the context is cancelled")
	}
}
