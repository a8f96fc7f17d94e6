package media

import (
	"github.com/livekit/media-sdk"
)

// Native resampler library, as its C interface is documented.
type soxr struct{ deleted bool }

var nat struct {
	created, deleted int
	in, out          int // samples consumed and produced so far
	inRate, outRate  float64
	failCreate       bool
	failProcess      bool
	flushed          bool
}

//verif:model github.com/livekit/media-sdk._Cfunc_soxr_create
func soxrCreate(in, out float64, ch uint32, e **byte, io, q, rt *int) *soxr {
	vCheck("native", ch == 1, "the native resampler handles one channel")
	if nat.failCreate && vAny[bool]() {
		*e = vNonNil[*byte]()
		return nil
	}
	*e = nil
	nat.created++
	nat.inRate, nat.outRate = in, out
	return &soxr{}
}

//verif:model github.com/livekit/media-sdk._Cfunc_soxr_delete
func soxrDelete(p *soxr) {
	vCheck("native", p != nil && !p.deleted, "native resampler deleted twice")
	p.deleted = true
	nat.deleted++
}

//verif:model github.com/livekit/media-sdk._Cfunc_soxr_process
func soxrProcess(p *soxr, in *int16, ilen uint64, idone *uint64, out *int16, olen uint64, odone *uint64) *byte {
	vCheck("native", p != nil && !p.deleted, "native resampler used after deletion")
	src := vSliceAt[[]int16](in, int(ilen))
	vCheck("native", vIsStream(src, "in", nat.in), "input is passed to the native resampler once and in order")
	dst := vSliceAt[[]int16](out, int(olen))
	if nat.failProcess && vAny[bool]() {
		return vNonNil[*byte]()
	}
	n := vRange(0, int(ilen))
	m := vRange(0, int(olen))
	nat.in += n
	vHavoc(dst[:m])
	nat.out += m
	if idone != nil {
		*idone = uint64(n)
	}
	if odone != nil {
		*odone = uint64(m)
	}
	return nil
}

//verif:model github.com/livekit/media-sdk._Cfunc_GoString
func cString(p *byte) string {
	if p == nil {
		return ""
	}
	s := vAny[string]()
	vAssume(s != "" && s != "0")
	return s
}

//verif:model github.com/livekit/media-sdk._Cfunc_soxr_io_spec
func soxrIO(a, b int) (z int) { return }

//verif:model github.com/livekit/media-sdk._Cfunc_soxr_quality_spec
func soxrQ(a, b int) (z int) { return }

//verif:model github.com/livekit/media-sdk._Cfunc_soxr_runtime_spec
func soxrRT(a int) (z int) { return }

// outSink receives resampled samples.
type outSink struct {
	rate   int
	pos    int
	closed int
	fails  bool
	failed bool
}

func (s *outSink) String() string  { return "sink" }
func (s *outSink) SampleRate() int { return s.rate }
func (s *outSink) WriteSample(f media.PCM16Sample) error {
	vAssert(s.closed == 0, "nothing is written after close")
	vAssert(len(f) > 0, "no empty frames are emitted")
	s.pos += len(f)
	if s.fails && vAny[bool]() {
		s.failed = true
		return vErr("sink")
	}
	return nil
}
func (s *outSink) Close() error {
	s.closed++
	if s.fails && vAny[bool]() {
		s.failed = true
		return vErr("sink")
	}
	return nil
}

// Any history of writes through a converting writer, closed or not, then collected as garbage.
//
//verif:check C22=assert+native C09=assert C24=assert C03=panic join
func ResampleHistory() {
	src, dst := vRange(1, 1<<20), vRange(1, 1<<20)
	vAssume(src != dst)
	s := &outSink{rate: dst}
	w := media.ResampleWriter(s, src)
	vAssert(w.SampleRate() == src, "the converter reports the rate at which it expects input")
	vAssert(nat.inRate == float64(src) && nat.outRate == float64(dst), "the converter goes from the source rate to the rate of its writer")
	for vLoop() {
		joinStep(w, s)
	}
	if vAny[bool]() {
		joinClose(w, s)
		if vAny[bool]() {
			w.WriteSample(vStream[media.PCM16Sample]("in", nat.in, vRange(0, 1<<30)))
		}
	}
	vRunGo(0) // garbage collection hook
	vAssert(nat.created == 1 && nat.deleted == 1, "every native resampler is freed exactly once")
}

func joinStep(w media.WriteCloser[media.PCM16Sample], s *outSink) {
	total := nat.in
	n := vRange(0, 1<<30)
	err := w.WriteSample(vStream[media.PCM16Sample]("in", total, n))
	vAssert(err == nil, "a write succeeds when the resampler and the writer do")
	vAssert(nat.in == total+n, "all input of a write is consumed")
	vAssert(s.pos <= nat.out, "no sample is emitted twice")
}

func joinClose(w media.WriteCloser[media.PCM16Sample], s *outSink) {
	err := w.Close()
	vAssert(err == nil, "close succeeds when the writer's does")
	vAssert(nat.deleted == 1, "close frees the native resampler")
	vAssert(s.closed == 1, "close closes the writer exactly once")
	vAssert(s.pos == nat.out, "close writes all resampled samples")
}

func joinWrite(w media.WriteCloser[media.PCM16Sample], s *outSink, in media.PCM16Sample) {
	err := w.WriteSample(in)
	if s.failed {
		vAssert(err != nil, "write reports errors of its writer")
	}
}

// Closing a converter whose writer or resampler fails.
//
//verif:check C08=assert C09=assert C22=native join
func ResampleFailing() {
	src, dst := vRange(1, 1<<20), vRange(1, 1<<20)
	vAssume(src != dst)
	s := &outSink{rate: dst, fails: true}
	w := media.ResampleWriter(s, src)
	joinWrite(w, s, vStream[media.PCM16Sample]("in", nat.in, vRange(0, 1<<30)))
	s.failed = false
	nat.failProcess = vAny[bool]()
	err := w.Close()
	if s.failed {
		vAssert(err != nil, "close reports an error of its writer")
	}
	vAssert(s.closed == 1, "close closes the writer exactly once, even after errors")
	vAssert(nat.deleted == 1, "close frees the native resampler")
}

// A resampler that cannot be created.
//
//verif:check C22=native+assert
func ResampleCreateFails() {
	src, dst := vRange(1, 1<<20), vRange(1, 1<<20)
	vAssume(src != dst)
	s := &outSink{rate: dst}
	nat.failCreate = true
	w := media.ResampleWriter(s, src)
	vAssert(nat.created == 1 && w != nil, "a converter has a native resampler")
}
