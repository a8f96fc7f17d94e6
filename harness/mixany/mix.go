package mixany

import (
	"io"
	"time"

	"github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/mixer"
	"github.com/livekit/media-sdk/ring"
)

//verif:model time.NewTicker
func newTicker(d time.Duration) *time.Ticker {
	vCheck("panic", d > 0, "a ticker has a positive period")
	return &time.Ticker{C: make(chan time.Time)}
}

//verif:model (*time.Ticker).Stop
func stopTicker(t *time.Ticker) {}

//verif:model time.Now
func now() time.Time { return time.Time{} }

//verif:model (time.Time).IsZero
func isZero(t time.Time) bool { return vAny[bool]() }

//verif:model (time.Time).Sub
func sub(t, u time.Time) time.Duration { return vAny[time.Duration]() }

//verif:model (time.Time).Before
func before(t, u time.Time) bool { return vAny[bool]() }

//verif:model (time.Time).After
func after(t, u time.Time) bool { return vAny[bool]() }

//verif:model time.Since
func since(t time.Time) time.Duration { return vAny[time.Duration]() }

//verif:model (time.Time).Add
func add(t time.Time, d time.Duration) time.Time { return t }

// Ring buffers of any state; their operations are checked on their own.
//
//verif:model (*github.com/livekit/media-sdk/ring.Buffer[T]).Len
func ringLen(b *ring.Buffer[int16]) int { return vRange(0, 1<<40) }

//verif:model (*github.com/livekit/media-sdk/ring.Buffer[T]).Write
func ringWrite(b *ring.Buffer[int16], p []int16) (int, error) {
	return len(p), nil
}

//verif:model (*github.com/livekit/media-sdk/ring.Buffer[T]).Read
func ringRead(b *ring.Buffer[int16], p []int16) (int, error) {
	n := vRange(0, len(p))
	for i := 0; i < n; i++ {
		p[i] = vAny[int16]()
	}
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

var ticked, again bool

// Two ticks.
//
//verif:model recv time.Time
func recvTick() time.Time {
	vAssume(!again)
	again = ticked
	ticked = true
	return time.Time{}
}

type out struct {
	rate int
	size int
}

func (o *out) String() string  { return "out" }
func (o *out) SampleRate() int { return o.rate }
func (o *out) WriteSample(f media.PCM16Sample) error {
	vAssert(len(f) == o.size, "a mixed frame has the configured duration")
	return vFail()
}

// A mixer for any rate, with an input in any state.
//
//verif:check C12=range+assert C03=panic narrow
func Mix() {
	o := &out{rate: vAny[int]()}
	vAssume(o.rate >= 0)
	o.size = o.rate / 50
	m, err := mixer.NewMixer(o, 20*time.Millisecond, 1, mixer.WithInputBufferFrames(1))
	vAssert(err == nil && m != nil, "a mono mixer is created")
	m.NewInput()
	vRunGo(0)
}

// Writing to an input, at any time.
//
//verif:check C03=panic
func Inputs() {
	o := &out{rate: vAny[int]()}
	vAssume(o.rate >= 50)
	m, _ := mixer.NewMixer(o, 20*time.Millisecond, 1, mixer.WithInputBufferFrames(vAny[int]()))
	in := m.NewInput()
	other := m.NewInput()
	vAssert(in.SampleRate() == o.rate, "an input has the rate of the output")
	in.WriteSample(vAny[media.PCM16Sample]())
	m.RemoveInput(other)
	in.Close()
	in.Close()
	other.Close()
	in.WriteSample(vAny[media.PCM16Sample]())
	m.NewInput().WriteSample(vAny[media.PCM16Sample]())
	m.Stop()
	m.Stop()
	in.Close()
	vAssert(m.NewInput() == nil, "a stopped mixer has no new inputs")
}
