package mixer

import (
	"time"

	"github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/mixer"
)

var (
	tickCh  = make(chan time.Time)
	tickers int
	stopped int
	mixes   int // number of mixes since the last tick, if the clock is not arbitrary
)

//verif:model time.NewTicker
func newTicker(d time.Duration) *time.Ticker {
	tickers++
	return &time.Ticker{C: tickCh}
}

//verif:model (*time.Ticker).Stop
func stopTicker(t *time.Ticker) { stopped++ }

// The clock: every tick is on time.
var clock int

//verif:model time.Now
func now() time.Time { return vTime[time.Time](clock) }

//verif:model (time.Time).IsZero
func isZero(t time.Time) bool { return vZeroTime(t) }

//verif:model (time.Time).Sub
func sub(t, u time.Time) time.Duration { return time.Duration(vNanos(t) - vNanos(u)) }

//verif:model (time.Time).Before
func before(t, u time.Time) bool { return vNanos(t) < vNanos(u) }

//verif:model (time.Time).After
func after(t, u time.Time) bool { return vNanos(t) > vNanos(u) }

//verif:model (time.Time).Equal
func equal(t, u time.Time) bool { return vNanos(t) == vNanos(u) }

//verif:model (time.Time).Compare
func compare(t, u time.Time) int {
	switch {
	case vNanos(t) < vNanos(u):
		return -1
	case vNanos(t) > vNanos(u):
		return 1
	}
	return 0
}

//verif:model time.Since
func since(t time.Time) time.Duration { return time.Duration(clock - vNanos(t)) }

//verif:model time.Until
func until(t time.Time) time.Duration { return time.Duration(vNanos(t) - clock) }

//verif:model (time.Time).Add
func add(t time.Time, d time.Duration) time.Time { return vTime[time.Time](vNanos(t) + int(d)) }

// out checks the frames that come out of the mixer.
type out struct {
	rate   int
	size   int
	frames int
	want   [8]int // the expected sums, if known
	exact  bool
	closed int
	fails  bool
}

func (o *out) String() string  { return "out" }
func (o *out) SampleRate() int { return o.rate }
func (o *out) WriteSample(f media.PCM16Sample) error {
	o.frames++
	vAssert(len(f) == o.size, "a mixed frame has the configured duration")
	if o.exact {
		for i, v := range f {
			w := o.want[i]
			if w > 32767 {
				w = 32767
			} else if w < -32767 {
				w = -32767
			}
			vAssert(int(v) == w, "a mixed sample is the clamped sum of its inputs")
		}
	}
	if o.fails {
		return vFail()
	}
	return nil
}

// script is what happens before each tick.
var script struct {
	step    int
	o       *out
	m       *mixer.Mixer
	a, b, c *mixer.Input
	x, y, z media.PCM16Sample
}

//verif:model recv time.Time
func recvTick() time.Time {
	s := &script
	switch s.step {
	case 0:
		s.a.WriteSample(s.x[:2])
		s.b.WriteSample(s.y[:2])
		s.c.WriteSample(s.z)
		s.o.want[0] = int(s.x[0]) + int(s.y[0]) + int(s.z[0])
		s.o.want[1] = int(s.x[1]) + int(s.y[1]) + int(s.z[1])
	case 1:
		vAssert(s.o.frames == 1, "one frame is mixed by the first tick")
		s.a.WriteSample(s.x[2:])
		s.b.WriteSample(s.y[2:])
		s.o.want[0] = int(s.x[2]) + int(s.y[2])
		s.o.want[1] = int(s.y[3])
	case 2:
		vAssert(s.o.frames == 2, "one frame is mixed by the second tick")
		s.m.RemoveInput(s.a)
		s.m.RemoveInput(s.b)
		s.m.RemoveInput(s.c)
		s.o.want[0], s.o.want[1] = 0, 0
	case 3:
		vAssert(s.o.frames == 3, "one frame is mixed by the third tick")
		vReach("three mixes")
		vAssume(false)
	}
	s.step++
	clock += int(20 * time.Millisecond)
	return time.Time{}
}

// Three inputs with any samples, one of them shorter in the second frame and one empty.
//
//verif:check C12=range+assert C03=panic narrow track solo unroll
func Values() {
	o := &out{rate: 100, size: 2, exact: true}
	m, err := mixer.NewMixer(o, 20*time.Millisecond, 1, mixer.WithInputBufferFrames(1))
	vAssert(err == nil && m != nil, "a mono mixer is created")
	s := &script
	s.o, s.m = o, m
	s.a, s.b, s.c = m.NewInput(), m.NewInput(), m.NewInput()
	s.x = vStream[media.PCM16Sample]("x", 0, 3)
	s.y = vStream[media.PCM16Sample]("y", 0, 4)
	s.z = vStream[media.PCM16Sample]("z", 0, 2)
	vRunGo(0)
}
