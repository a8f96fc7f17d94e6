package swap

import (
	"sync/atomic"

	"github.com/livekit/media-sdk"
)

// ---- the environment: another goroutine uses the same switch, before or after any access to its state

// The rate of the switch. The other goroutine may set it, if it is not set.
var (
	racing    bool
	rate      int32
	rateOther bool
)

func otherRate() {
	if racing && vLocksHeld() == 0 && rate == -1 && vAny[bool]() {
		rate = 16000
		rateOther = true
	}
}

//verif:model (*sync/atomic.Int32).Load
func rateLoad(a *atomic.Int32) int32 {
	otherRate()
	v := rate
	otherRate()
	return v
}

//verif:model (*sync/atomic.Int32).Store
func rateStore(a *atomic.Int32, v int32) {
	otherRate()
	rate = v
	otherRate()
}

//verif:model (*sync/atomic.Int32).Swap
func rateSwap(a *atomic.Int32, v int32) int32 {
	otherRate()
	old := rate
	rate = v
	otherRate()
	return old
}

//verif:model (*sync/atomic.Int32).CompareAndSwap
func rateCAS(a *atomic.Int32, old, v int32) bool {
	otherRate()
	ok := rate == old
	if ok {
		rate = v
	}
	otherRate()
	return ok
}

// The writer of the switch. The other goroutine may replace it once, and then owns the previous one.
var (
	ptr    *media.PCM16Writer
	taken  *media.PCM16Writer
	third  media.PCM16Writer
	closes bool // the other goroutine closes the switch
	joined bool
)

func otherSwap() {
	if racing && vLocksHeld() == 0 && !joined && vAny[bool]() {
		joined = true
		taken = ptr
		ptr = &third
		if closes {
			ptr = nil
		}
	}
}

type ptrT = atomic.Pointer[media.PCM16Writer]

//verif:model (*sync/atomic.Pointer[T]).Load
func ptrLoad(a *ptrT) *media.PCM16Writer {
	otherSwap()
	v := ptr
	otherSwap()
	return v
}

//verif:model (*sync/atomic.Pointer[T]).Store
func ptrStore(a *ptrT, v *media.PCM16Writer) {
	otherSwap()
	ptr = v
	otherSwap()
}

//verif:model (*sync/atomic.Pointer[T]).Swap
func ptrSwap(a *ptrT, v *media.PCM16Writer) *media.PCM16Writer {
	otherSwap()
	old := ptr
	ptr = v
	otherSwap()
	return old
}

//verif:model (*sync/atomic.Pointer[T]).CompareAndSwap
func ptrCAS(a *ptrT, old, v *media.PCM16Writer) bool {
	otherSwap()
	ok := ptr == old
	if ok {
		ptr = v
	}
	otherSwap()
	return ok
}

// sink counts who owns it.
type sink struct {
	closed int
	n      int
}

func (s *sink) String() string                        { return "sink" }
func (s *sink) SampleRate() int                       { return 48000 }
func (s *sink) WriteSample(v media.PCM16Sample) error { return nil }
func (s *sink) Close() error                          { s.closed++; return nil }

// ---- the rate is set once, whoever sets it

//verif:check C24=assert panics
func Rate() {
	w := media.NewSwitchWriter(-1)
	racing = true
	w.SetSampleRate(48000)
	racing = false
	vReach("set")
	vAssert(!rateOther, "the rate is set by one call only")
	vAssert(w.SampleRate() == 48000, "the rate is the one that was set")
}

// ---- every writer that is replaced is handed to one caller, which closes it

func own(w media.PCM16Writer) {
	if w != nil {
		w.(*sink).n++
	}
}

func ownPtr(w *media.PCM16Writer) {
	if w != nil {
		own(*w)
	}
}

//verif:check C24=assert C09=assert track
func Replace() {
	a, b, c := &sink{}, &sink{}, &sink{}
	w := media.NewSwitchWriter(48000)
	w.Swap(a)
	third = c
	racing = true
	old := w.Swap(b)
	racing = false
	own(old)
	ownPtr(taken)
	own(w.Get())
	vAssert(a.n == 1 && b.n == 1, "each writer is attached or was returned to one caller")
	vAssert(!joined || c.n == 1, "each writer is attached or was returned to one caller")
}

//verif:check C24=assert C09=assert track
func Detach() {
	a, c := &sink{}, &sink{}
	w := media.NewSwitchWriter(48000)
	w.Swap(a)
	third = c
	racing = true
	old := w.Swap(nil)
	racing = false
	own(old)
	ownPtr(taken)
	own(w.Get())
	vAssert(a.n == 1, "the writer is returned to one caller")
	vAssert(!joined || c.n == 1, "each writer is attached or was returned to one caller")
}

//verif:check C24=assert C09=assert track
func Close() {
	a, c := &sink{}, &sink{}
	w := media.NewSwitchWriter(48000)
	w.Swap(a)
	third = c
	racing = true
	err := w.Close()
	racing = false
	vAssert(err == nil, "the writer is closed")
	ownPtr(taken)
	own(w.Get())
	vAssert(a.n+a.closed == 1, "the writer is closed by the switch, or returned to one caller")
	vAssert(!joined || c.n+c.closed == 1, "the writer is closed by the switch, or still attached")
	vAssert(a.closed+c.closed <= 1, "one writer is closed")
}

// ---- the switch can be closed while it is used

//verif:check C24=assert C03=panic track
func Use() {
	a := &sink{}
	w := media.NewSwitchWriter(48000)
	w.Swap(a)
	closes, racing = true, true
	switch vRange(0, 3) {
	case 0:
		vAssert(w.WriteSample(nil) == nil, "the sample is written or dropped")
	case 1:
		g := w.Get()
		vAssert(g == nil || g.(*sink) == a, "the writer is the one that is attached")
	case 2:
		vAssert(w.Close() == nil, "the switch is closed once")
	default:
		b := &sink{}
		old := w.Swap(b)
		vAssert(old == nil || old.(*sink) == a, "the previous writer is returned")
	}
}
