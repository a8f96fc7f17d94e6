package dtmf

import (
	"context"
	"time"

	prtp "github.com/pion/rtp"

	"github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/tones"
)

var (
	tickCh   = make(chan time.Time)
	doneCh   = make(chan struct{})
	errDone  = vErr("canceled")
	tickers  int
	stopped  int
	tickStep time.Duration
)

//verif:model time.NewTicker
func newTicker(d time.Duration) *time.Ticker {
	tickers++
	tickStep = d
	return &time.Ticker{C: tickCh}
}

//verif:model (*time.Ticker).Stop
func stopTicker(t *time.Ticker) { stopped++ }

// The sound itself does not matter here (C12, C16).
//
//verif:model github.com/livekit/media-sdk/tones.Generate
func generate(buf media.PCM16Sample, ts, dur time.Duration, amp int16, freq []tones.Hz) time.Duration {
	vAssert(len(freq) == 2, "a digit is played with its pair of frequencies")
	return ts + dur
}

// A context that may be cancelled at any time.
type anyCtx struct{}

func (c *anyCtx) Deadline() (deadline time.Time, ok bool) { return }
func (c *anyCtx) Done() <-chan struct{}                   { return doneCh }
func (c *anyCtx) Value(key any) any                       { return nil }
func (c *anyCtx) Err() error {
	if vRecvs(doneCh) > 0 {
		return errDone
	}
	return nil
}

var _ context.Context = (*anyCtx)(nil)

// audio is the audio side: it counts frames and the time they take.
type audio struct {
	rate   int
	frames int
	failed int
	fails  bool
}

func (a *audio) String() string  { return "audio" }
func (a *audio) SampleRate() int { return a.rate }
func (a *audio) WriteSample(s media.PCM16Sample) error {
	vAssert(a.failed == 0, "no frame follows an error")
	vAssert(vRecvs(doneCh) == 0, "no frame is written after the context is cancelled")
	vAssert(len(s) == a.rate/50, "each frame has the duration of a tick")
	a.frames++
	vAssert(vRecvs(tickCh) == a.frames, "one tick is awaited per frame")
	if a.fails {
		if err := vFail(); err != nil {
			a.failed++
			return err
		}
	}
	return nil
}

// events is the RTP side: it follows the event being sent.
type events struct {
	started int    // packets were sent before
	inEvent int    // an event is being sent
	ts      uint32 // its timestamp
	code    byte
	frames  int // packets of the event before the final one
	dur     int // duration reported last
	ends    int // final packets of the event
	past    int // when the last event ended, including pause
	exact   bool
	digits  string // the digits being sent, if they are followed
	next    int    // the next digit
	pause   int    // pauses asked for since the last event
	failed  int
	fails   bool
}

// nextDigit skips what is no digit and compares the event with the digit found.
func (s *events) nextDigit(code byte) {
	for s.next < len(s.digits) {
		d := s.digits[s.next]
		s.next++
		if d == 'w' {
			s.pause += 4000
			continue
		}
		c, freq := dtmf.Tone(d)
		if len(freq) == 0 {
			// silence of a digit's length follows, of which only the pause moves the clock
			s.pause += 2000
			continue
		}
		vAssert(c == code, "digits are sent in order")
		return
	}
	vAssert(code == 0 && false, "an event is sent for a digit only")
}

func (s *events) String() string { return "events" }
func (s *events) WriteRTP(h *prtp.Header, payload []byte) (int, error) {
	vAssert(s.failed == 0, "no packet follows an error")
	vAssert(vRecvs(doneCh) == 0, "no packet is sent after the context is cancelled")
	vAssert(len(payload) == 4, "an event packet has four bytes")
	dur := int(payload[2])*256 + int(payload[3])
	end := payload[1] >= 128
	if s.inEvent == 0 {
		vAssert(h.Marker, "the first packet of an event is marked")
		if s.exact {
			s.nextDigit(payload[0])
			vAssert(int(h.Timestamp) == s.past+s.pause, "an event starts exactly after the one before, its pause and the pauses asked for")
			s.pause = 0
		}
		s.inEvent = 1
		s.ts = h.Timestamp
		s.code = payload[0]
		s.frames = 0
		s.ends = 0
		s.dur = 0
		s.started = 1
	} else {
		vAssert(!h.Marker, "only the first packet of an event is marked")
		vAssert(h.Timestamp == s.ts, "all packets of an event have the same timestamp")
		vAssert(payload[0] == s.code, "all packets of an event have the same code")
	}
	if !end {
		vAssert(s.ends == 0, "nothing but repetitions follows the final packet")
		vAssert(dur > s.dur, "the reported duration grows")
		s.dur = dur
		s.frames++
	} else {
		if s.ends == 0 {
			vAssert(dur > s.dur, "the reported duration grows")
			vAssert(s.frames > 0, "an event has several packets")
		} else {
			vAssert(dur == s.dur, "the final packet is repeated as it is")
		}
		s.dur = dur
		s.ends++
		if s.ends == 3 {
			s.inEvent = 0
			s.past = int(s.ts) + 4000
		}
	}
	if s.fails {
		if err := vFail(); err != nil {
			s.failed++
			return 0, err
		}
	}
	return len(payload), nil
}

//verif:model (github.com/livekit/media-sdk.PCM16Sample).Clear
func clearSample(s media.PCM16Sample) {}

// Any string of digits, to events only.
//
//verif:check C17=assert C21=assert C03=panic
func SendEvents() {
	ev := &events{}
	st := rtp.NewSeqWriter(ev).NewStream(101, 8000)
	err := dtmf.Write(&anyCtx{}, nil, st, vRange32(), vSym[string]("digits"))
	finish(err, &audio{}, ev)
}

// Any string of digits, when writing or sending may fail.
//
//verif:check C21=assert C08=assert C03=panic
func SendEventsFailing() {
	ev := &events{fails: true}
	st := rtp.NewSeqWriter(ev).NewStream(101, 8000)
	err := dtmf.Write(&anyCtx{}, nil, st, vRange32(), vSym[string]("digits"))
	finish(err, &audio{}, ev)
}

//verif:check C21=assert C08=assert C03=panic
func SendAudioFailing() {
	a := &audio{rate: vRange(0, 1<<20), fails: true}
	err := dtmf.Write(&anyCtx{}, a, nil, 0, vSym[string]("digits"))
	finish(err, a, &events{})
}

// Any character, to audio and events.
//
//verif:check C17=assert C21=assert C08=assert C03=panic unroll
func SendBoth() {
	digits := vSym[string]("digits")
	vAssume(len(digits) == 1)
	ts := vRange32()
	ev := &events{exact: true, digits: digits, past: int(ts), fails: true}
	a := &audio{rate: vRange(0, 1<<20), fails: true}
	st := rtp.NewSeqWriter(ev).NewStream(101, 8000)
	err := dtmf.Write(&anyCtx{}, a, st, ts, digits)
	finish(err, a, ev)
}

// Any three characters, to events only, followed digit by digit.
//
//verif:check C17=assert C21=assert C03=panic unroll
func SendThree() {
	digits := vSym[string]("digits")
	vAssume(len(digits) == 3)
	ts := vRange32()
	ev := &events{exact: true, digits: digits, past: int(ts)}
	st := rtp.NewSeqWriter(ev).NewStream(101, 8000)
	st.ResetTimestamp(vRange32())
	err := dtmf.Write(&anyCtx{}, nil, st, ts, digits)
	finish(err, &audio{}, ev)
	if err == nil {
		for ev.next < len(digits) {
			d := digits[ev.next]
			ev.next++
			_, freq := dtmf.Tone(d)
			vAssert(d == 'w' || len(freq) == 0, "every digit is sent")
			if d == 'w' {
				ev.pause += 4000
			} else {
				ev.pause += 2000
			}
		}
		vAssert(int(st.GetCurrentTimestamp()) == ev.past+ev.pause, "the clock ends after the last digit and its pause")
		vAssert(vRecvs(tickCh) > 0, "digits take time")
	}
}

// Any string of digits, to audio only.
//
//verif:check C21=assert C03=panic
func SendAudio() {
	a := &audio{rate: vRange(0, 1<<20)}
	err := dtmf.Write(&anyCtx{}, a, nil, 0, vSym[string]("digits"))
	finish(err, a, &events{})
}

func vRange32() uint32 {
	ts := vAny[uint32]()
	vAssume(ts < 1<<30)
	return ts
}

func finish(err error, a *audio, ev *events) {
	vAssert(tickers == 1 && stopped == 1, "the ticker is stopped on every way out")
	vAssert(tickStep == 20*time.Millisecond, "a tick lasts a frame")
	if vRecvs(doneCh) > 0 {
		vAssert(err == errDone, "the context's error is returned")
	} else if a.failed+ev.failed > 0 {
		vAssert(err != nil, "a failed write is reported")
	} else {
		vAssert(err == nil, "sending all digits succeeds")
		vAssert(ev.inEvent == 0, "no event is left unfinished")
	}
}
