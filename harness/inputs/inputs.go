package inputs

import (
	"time"

	"github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/mixer"
)

const (
	frame  = 20 * time.Millisecond
	size   = 2 // samples per frame
	frames = 3 // frames an input may hold
	start  = frames/2 + 1
)

//verif:model time.NewTicker
func newTicker(d time.Duration) *time.Ticker { return &time.Ticker{C: make(chan time.Time)} }

//verif:model (*time.Ticker).Stop
func stopTicker(t *time.Ticker) {}

// The clock: every tick is on time.
var clock int

//verif:model time.Now
func now() time.Time { return vTime[time.Time](clock) }

//verif:model (time.Time).IsZero
func isZero(t time.Time) bool { return vZeroTime(t) }

//verif:model (time.Time).Sub
func sub(t, u time.Time) time.Duration { return time.Duration(vNanos(t) - vNanos(u)) }

//verif:model (time.Time).Before
func before(t, u time.Time) bool { return vNanos(t) < vNanos(u) }

//verif:model (time.Time).After
func after(t, u time.Time) bool { return vNanos(t) > vNanos(u) }

//verif:model (time.Time).Equal
func equal(t, u time.Time) bool { return vNanos(t) == vNanos(u) }

//verif:model (time.Time).Compare
func compare(t, u time.Time) int {
	switch {
	case vNanos(t) < vNanos(u):
		return -1
	case vNanos(t) > vNanos(u):
		return 1
	}
	return 0
}

//verif:model time.Since
func since(t time.Time) time.Duration { return time.Duration(clock - vNanos(t)) }

//verif:model time.Until
func until(t time.Time) time.Duration { return time.Duration(vNanos(t) - clock) }

//verif:model (time.Time).Add
func add(t time.Time, d time.Duration) time.Time { return vTime[time.Time](vNanos(t) + int(d)) }

// source is an input and what it is expected to do.
type source struct {
	in       *mixer.Input
	name     string
	pos, end int // the samples that are held
	waiting  bool
	attached bool
}

// write passes the next n samples to the input.
func (s *source) write(n int) {
	err := s.in.WriteSample(vStream[media.PCM16Sample](s.name, s.end, n))
	vAssert(err == nil, "writing to an input succeeds")
	s.end += n
	if s.end-s.pos > size*frames {
		s.pos = s.end - size*frames
	}
}

// next is the number of samples that the input adds to the next frame.
func (s *source) next() int {
	if s.waiting && s.end-s.pos < start*size {
		return 0
	}
	s.waiting = false
	n := s.end - s.pos
	if n > size {
		n = size
	}
	if n == 0 {
		s.waiting = true
	}
	return n
}

var (
	srcs  [2]source
	n     int
	mixed int
	steps int
	tick  int
	act   func()
)

type out struct{}

func (o *out) String() string  { return "out" }
func (o *out) SampleRate() int { return 100 }
func (o *out) WriteSample(f media.PCM16Sample) error {
	mixed++
	vAssert(len(f) == size, "a frame has the configured duration")
	var want [size]int
	for i := 0; i < n; i++ {
		s := &srcs[i]
		if !s.attached {
			continue
		}
		k := s.next()
		for j := 0; j < k; j++ {
			want[j] += int(vElem[int16](s.name, s.pos+j))
		}
		s.pos += k
	}
	for j := 0; j < size; j++ {
		w := want[j]
		if w > 32767 {
			w = 32767
		} else if w < -32767 {
			w = -32767
		}
		vAssert(int(f[j]) == w, "each attached input adds its next samples to the frame, each of them once")
	}
	return nil
}

//verif:model recv time.Time
func recvTick() time.Time {
	vAssert(mixed == tick, "each tick mixes one frame")
	if tick == steps {
		vReach("ticks")
		vAssume(false)
	}
	tick++
	clock += int(frame)
	act()
	return time.Time{}
}

func setup(k, ticks int, f func()) *mixer.Mixer {
	n, steps, act = k, ticks, f
	m, err := mixer.NewMixer(&out{}, frame, 1, mixer.WithInputBufferFrames(frames))
	vAssert(err == nil && m != nil, "a mono mixer is created")
	for i := 0; i < n; i++ {
		attach(m, i)
	}
	return m
}

func attach(m *mixer.Mixer, i int) {
	srcs[i] = source{in: m.NewInput(), name: names[i], waiting: true, attached: true}
	vAssert(srcs[i].in != nil, "a running mixer has new inputs")
}

var names = [2]string{"x", "y"}

func amount() int {
	switch vRange(0, 5) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 2
	case 3:
		return 3
	case 4:
		return 4
	}
	return 7
}

// One input that receives any amount of samples before each tick.
//
//verif:check C30=assert C03=panic track solo unroll
func Any() {
	setup(1, 4, func() { srcs[0].write(amount()) })
	vRunGo(0)
}

// Two inputs, one of them removed or closed at any time.
//
//verif:check C30=assert C03=panic track solo unroll
func Remove() {
	var m *mixer.Mixer
	m = setup(2, 4, func() {
		srcs[0].write(2)
		srcs[1].write(3)
		i := 0
		switch vRange(0, 4) {
		case 0:
			return
		case 1:
			i = 1
			m.RemoveInput(srcs[i].in)
		case 2:
			m.RemoveInput(srcs[i].in)
		case 3:
			i = 1
			vAssert(srcs[i].in.Close() == nil, "an input is closed")
		case 4:
			vAssert(srcs[i].in.Close() == nil, "an input is closed")
		}
		srcs[i].attached = false
	})
	vRunGo(0)
}

// An input that is added later, while another one has been playing.
//
//verif:check C30=assert C03=panic track solo unroll
func Add() {
	var m *mixer.Mixer
	m = setup(1, 4, func() {
		switch vRange(0, 2) {
		case 0:
			srcs[0].write(1)
		case 1:
			srcs[0].write(2)
		case 2:
			srcs[0].write(5)
		}
		if tick == 2 {
			n = 2
			attach(m, 1)
		}
		if tick >= 2 {
			srcs[1].write(4)
		}
	})
	vRunGo(0)
}

// Statistics.
//
//verif:check C30=assert C03=panic track solo unroll
func Counts() {
	st := &mixer.Stats{}
	m, err := mixer.NewMixer(&out{}, frame, 1, mixer.WithInputBufferFrames(frames), mixer.WithStats(st))
	vAssert(err == nil && m != nil, "a mono mixer is created")
	n, steps = 1, 3
	attach(m, 0)
	dropped, lost := 0, 0
	act = func() {
		mix := uint64(tick - 1)
		vAssert(st.Mixes.Load() == mix && st.OutputFrames.Load() == mix && st.OutputSamples.Load() == mix*size, "the frames mixed are counted")
		k := amount()
		if d := srcs[0].end + k - srcs[0].pos - size*frames; d > 0 {
			dropped++
			lost += d
		}
		srcs[0].write(k)
		vAssert(st.InputFrames.Load() == uint64(tick) && st.InputSamples.Load() == uint64(srcs[0].end), "the samples written are counted")
		vAssert(st.InputFramesDropped.Load() == uint64(dropped) && st.InputSamplesDropped.Load() == uint64(lost), "the samples dropped are counted")
		vAssert(st.Tracks.Load() == 1 && st.TracksTotal.Load() == 1, "the inputs are counted")
	}
	vRunGo(0)
}
