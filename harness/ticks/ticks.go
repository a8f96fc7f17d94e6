package ticks

import (
	"time"

	"github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/mixer"
)

const frame = 20 * time.Millisecond

//verif:model time.NewTicker
func newTicker(d time.Duration) *time.Ticker {
	vAssert(d == frame, "the ticker has the duration of a frame")
	return &time.Ticker{C: make(chan time.Time)}
}

//verif:model (*time.Ticker).Stop
func stopTicker(t *time.Ticker) {}

// The clock: any time may pass between two ticks.
var clock int

//verif:model time.Now
func now() time.Time { return vTime[time.Time](clock) }

//verif:model (time.Time).IsZero
func isZero(t time.Time) bool { return vZeroTime(t) }

//verif:model (time.Time).Sub
func sub(t, u time.Time) time.Duration { return time.Duration(vNanos(t) - vNanos(u)) }

//verif:model (time.Time).Before
func before(t, u time.Time) bool { return vNanos(t) < vNanos(u) }

//verif:model (time.Time).After
func after(t, u time.Time) bool { return vNanos(t) > vNanos(u) }

//verif:model (time.Time).Equal
func equal(t, u time.Time) bool { return vNanos(t) == vNanos(u) }

//verif:model (time.Time).Compare
func compare(t, u time.Time) int {
	switch {
	case vNanos(t) < vNanos(u):
		return -1
	case vNanos(t) > vNanos(u):
		return 1
	}
	return 0
}

//verif:model time.Since
func since(t time.Time) time.Duration { return time.Duration(clock - vNanos(t)) }

//verif:model time.Until
func until(t time.Time) time.Duration { return time.Duration(vNanos(t) - clock) }

//verif:model (time.Time).Add
func add(t time.Time, d time.Duration) time.Time { return vTime[time.Time](vNanos(t) + int(d)) }

// out counts the frames.
type out struct{}

var (
	frames int // since the last tick
	ticked bool
	// When the last frame that was mixed was due, counted from the first tick or from the last time the limit was hit.
	// If the limit is hit by half a frame or more, but not a whole one, counting may restart or not.
	due, dueMax int
	limit  int
)

func (o *out) String() string  { return "out" }
func (o *out) SampleRate() int { return 50 }
func (o *out) WriteSample(f media.PCM16Sample) error {
	frames++
	return vFail()
}

// The frames mixed by the last tick are those that were due.
func check() {
	vAssert(frames <= limit, "at most the configured number of frames is mixed at once")
	if !ticked {
		vAssert(frames == 1, "the first tick mixes a frame")
		ticked = true
		due, dueMax = clock, clock
		return
	}
	due += frames * int(frame)
	dueMax += frames * int(frame)
	vAssert(clock-due > -int(frame), "no frame is mixed before it is due")
	if frames == limit && clock-dueMax >= int(frame) {
		vReach("limit")
		due, dueMax = clock, clock
		return
	}
	vAssert(clock-dueMax < int(frame), "every frame that is due is mixed")
	if frames == limit && clock-dueMax >= int(frame)/2 {
		dueMax = clock
	}
}

var (
	tick  int
	ticks int // number of ticks to look at
)

//verif:model recv time.Time
func recvTick() time.Time {
	if tick > 0 {
		check()
	}
	if tick == ticks {
		vReach("ticks")
		vAssume(false)
	}
	tick++
	frames = 0
	d := vAny[int]()
	vAssume(d >= 0)
	clock += d
	return time.Time{}
}

// Ticks at any times, with at most n frames at once.
func run(n, k int) {
	limit, ticks = n, k
	m, err := mixer.NewMixer(&out{}, frame, 1, mixer.WithInputBufferFrames(limit))
	vAssert(err == nil && m != nil, "a mono mixer is created")
	vRunGo(0)
}

//verif:check C43=assert unroll
func One() { run(1, 3) }

//verif:check C43=assert unroll
func Two() { run(2, 3) }

//verif:check C43=assert unroll
func Three() { run(3, 3) }

//verif:check C43=assert unroll
func Default() {
	limit, ticks = 5, 3
	m, err := mixer.NewMixer(&out{}, frame, 1)
	vAssert(err == nil && m != nil, "a mono mixer is created")
	vRunGo(0)
}
