package writers

import (
	"bufio"
	"errors"
	"io"
	"time"

	"github.com/at-wat/ebml-go/mkvcore"
	mkv "github.com/at-wat/ebml-go/webm"
	gog722 "github.com/gotranspile/g722"

	"github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/webm"
)

// sink is the writer at the end of a chain. It may fail at any call.
type sink[T any] struct {
	rate   int
	closed int
	writes int
	failed bool // a call failed since this was last cleared
}

func (s *sink[T]) String() string  { return "sink" }
func (s *sink[T]) SampleRate() int { return s.rate }
func (s *sink[T]) WriteSample(f T) error {
	vAssert(s.closed == 0, "nothing is written after close")
	s.writes++
	if vAny[bool]() {
		s.failed = true
		return vErr("sink")
	}
	return nil
}
func (s *sink[T]) Close() error {
	vAssert(s.closed == 0, "the writer is closed once")
	s.closed++
	if vAny[bool]() {
		s.failed = true
		return vErr("sink")
	}
	return nil
}

// through drives a wrapper around a sink: any writes, then close.
func through[T, S any](w media.WriteCloser[T], s *sink[S]) {
	for vLoop() {
		joinWrite(w, s)
	}
	joinClose(w, s)
}

func joinWrite[T, S any](w media.WriteCloser[T], s *sink[S]) {
	s.failed = false
	n := s.writes
	err := w.WriteSample(vAny[T]())
	if s.failed {
		vAssert(err != nil, "a failed write is reported")
	} else if err == nil {
		vAssert(s.writes == n+1, "a successful write reaches the writer")
	}
	vAssert(s.writes <= n+1, "a write reaches the writer once")
	vAssert(s.closed == 0, "the writer is not closed by a write")
}

func joinClose[T, S any](w media.WriteCloser[T], s *sink[S]) {
	s.failed = false
	n := s.writes
	err := w.Close()
	vAssert(s.closed == 1, "close closes the writer exactly once")
	vAssert(s.writes == n, "nothing is written by close")
	if s.failed {
		vAssert(err != nil, "a failed close is reported")
	} else {
		vAssert(err == nil, "close succeeds when the writer's does")
	}
}

// resampled stands for a converting writer (checked on its own).
type resampled struct {
	media.PCM16Writer
	rate int
}

func (r *resampled) SampleRate() int { return r.rate }

//verif:model github.com/livekit/media-sdk.ResampleWriter
func resampleWriter(w media.PCM16Writer, rate int) media.PCM16Writer {
	if w.SampleRate() == rate {
		return w
	}
	return &resampled{w, rate}
}

//verif:model github.com/livekit/media-sdk/g711.DecodeULawTo
func decodeULaw(dst media.PCM16Sample, src g711.ULawSample) {
	vCheck("panic", len(dst) >= len(src), "there is no room for the samples")
}

//verif:model github.com/livekit/media-sdk/g711.EncodeULawTo
func encodeULaw(dst g711.ULawSample, src media.PCM16Sample) {
	vCheck("panic", len(dst) >= len(src), "there is no room for the samples")
}

//verif:model github.com/livekit/media-sdk/g711.DecodeALawTo
func decodeALaw(dst media.PCM16Sample, src g711.ALawSample) {
	vCheck("panic", len(dst) >= len(src), "there is no room for the samples")
}

//verif:model github.com/livekit/media-sdk/g711.EncodeALawTo
func encodeALaw(dst g711.ALawSample, src media.PCM16Sample) {
	vCheck("panic", len(dst) >= len(src), "there is no room for the samples")
}

//verif:check C09=assert C08=assert C24=assert C29=assert C03=panic join
func ULawDecode() {
	s := &sink[media.PCM16Sample]{rate: vRange(1, 1<<20)}
	w := g711.DecodeULaw(s)
	vAssert(w.SampleRate() == 8000, "the decoder works at the rate of the codec")
	through(w, s)
}

//verif:check C09=assert C08=assert C24=assert C29=assert C03=panic join
func ULawEncode() {
	s := &sink[g711.ULawSample]{rate: 8000}
	w := g711.EncodeULaw(s)
	vAssert(w.SampleRate() == 8000, "the encoder works at the rate of the codec")
	through(w, s)
}

//verif:check C09=assert C08=assert C24=assert C29=assert C03=panic join
func ALawDecode() {
	s := &sink[media.PCM16Sample]{rate: vRange(1, 1<<20)}
	w := g711.DecodeALaw(s)
	vAssert(w.SampleRate() == 8000, "the decoder works at the rate of the codec")
	through(w, s)
}

//verif:check C09=assert C08=assert C24=assert C29=assert C03=panic join
func ALawEncode() {
	s := &sink[g711.ALawSample]{rate: 8000}
	w := g711.EncodeALaw(s)
	vAssert(w.SampleRate() == 8000, "the encoder works at the rate of the codec")
	through(w, s)
}

// The G.722 library, as it is implemented.
var g722Flags gog722.Flags

//verif:model github.com/gotranspile/g722.NewEncoder
func newG722Encoder(rate int, f gog722.Flags) *gog722.Encoder {
	vAssert(rate == 64000, "the rate is the one used in RTP")
	g722Flags = f
	return &gog722.Encoder{}
}

//verif:model github.com/gotranspile/g722.NewDecoder
func newG722Decoder(rate int, f gog722.Flags) *gog722.Decoder {
	vAssert(rate == 64000, "the rate is the one used in RTP")
	g722Flags = f
	return &gog722.Decoder{}
}

//verif:model (*github.com/gotranspile/g722.Encoder).Encode
func g722Encode(e *gog722.Encoder, dst []byte, src []int16) int {
	n := len(src)
	if g722Flags&gog722.FlagSampleRate8000 == 0 {
		vCheck("panic", n%2 == 0, "the library reads beyond the end of a frame with an odd number of samples")
		n /= 2
	}
	vCheck("panic", len(dst) >= n, "there is no room for the encoded samples")
	return n
}

//verif:model (*github.com/gotranspile/g722.Decoder).Decode
func g722Decode(e *gog722.Decoder, dst []int16, src []byte) int {
	n := len(src)
	if g722Flags&gog722.FlagSampleRate8000 == 0 {
		n *= 2
	}
	vCheck("panic", len(dst) >= n, "there is no room for the decoded samples")
	return n
}

//verif:check C09=assert C08=assert C24=assert C29=assert C03=panic C02=panic join
func G722Decode() {
	s := &sink[media.PCM16Sample]{rate: vRange(1, 1<<20)}
	w := g722.Decode(s)
	if s.rate == 8000 {
		vAssert(w.SampleRate() == 8000, "the decoder works at half the rate of the codec")
	} else {
		vAssert(w.SampleRate() == 16000, "the decoder works at the rate of the codec")
	}
	through(w, s)
}

//verif:check C09=assert C08=assert C24=assert C29=assert C03=panic join
func G722Encode() {
	s := &sink[g722.Sample]{rate: 8000}
	if vAny[bool]() {
		s.rate = 16000
	}
	w := g722.Encode(s)
	vAssert(w.SampleRate() == s.rate, "the encoder works at the rate of its writer")
	through(w, s)
}

// A fan-out writes to and closes every writer, even after errors.
//
//verif:check C09=assert C08=assert C03=panic join
func MultiWriter() {
	a := &sink[int]{rate: 48000}
	b := &sink[int]{rate: 48000}
	c := &sink[int]{rate: 48000}
	w := media.MultiWriter[int]{a, b, c}
	vAssert(w.SampleRate() == 48000, "the rate is that of the writers")
	for vLoop() {
		joinMulti(w, a, b, c)
	}
	a.failed, b.failed, c.failed = false, false, false
	err := w.Close()
	vAssert(a.closed == 1 && b.closed == 1 && c.closed == 1, "close closes every writer exactly once")
	if a.failed || b.failed || c.failed {
		vAssert(err != nil, "a failed close is reported")
	} else {
		vAssert(err == nil, "close succeeds when all writers' do")
	}
}

func joinMulti(w media.MultiWriter[int], a, b, c *sink[int]) {
	n := a.writes
	vAssert(b.writes == n && c.writes == n, "every sample reaches every writer")
	a.failed, b.failed, c.failed = false, false, false
	err := w.WriteSample(vAny[int]())
	vAssert(a.writes == n+1 && b.writes == n+1 && c.writes == n+1, "every sample reaches every writer")
	if a.failed || b.failed || c.failed {
		vAssert(err != nil, "a failed write is reported")
	} else {
		vAssert(err == nil, "a write succeeds when all writers' do")
	}
}

// A switch with one writer attached, replaced at any time.
//
//verif:check C09=assert C08=assert C24=assert C03=panic join
func SwitchWriter() {
	rate := vRange(1, 1<<20)
	a := &sink[media.PCM16Sample]{rate: vRange(1, 1<<20)}
	b := &sink[media.PCM16Sample]{rate: vRange(1, 1<<20)}
	w := media.NewSwitchWriter(rate)
	vAssert(w.SampleRate() == rate, "the switch has the rate it was created with")
	vAssert(w.WriteSample(nil) == nil, "an empty switch drops samples")
	old := w.Swap(a)
	vAssert(old == nil, "there is no previous writer")
	vAssert(w.Get().SampleRate() == rate, "the attached writer takes samples of the rate of the switch")
	joinSwitch(w, a)
	old = w.Swap(b)
	vAssert(old != nil && old.SampleRate() == rate, "the previous writer is returned")
	vAssert(w.Get().SampleRate() == rate, "the attached writer takes samples of the rate of the switch")
	vAssert(a.closed == 0, "the previous writer is left to the caller")
	n := a.writes
	joinSwitch(w, b)
	vAssert(a.writes == n, "the previous writer gets no more samples")
	b.failed = false
	err := w.Close()
	vAssert(b.closed == 1 && a.closed == 0, "close closes the attached writer only")
	vAssert((err != nil) == b.failed, "close reports the error of the writer")
	vAssert(w.WriteSample(nil) == nil, "samples are dropped after close")
	vAssert(w.Close() == nil, "another close does nothing")
	old.Close()
	vAssert(a.closed == 1, "the previous writer can be closed")
}

func joinSwitch(w *media.SwitchWriter, s *sink[media.PCM16Sample]) {
	s.failed = false
	n := s.writes
	err := w.WriteSample(vAny[media.PCM16Sample]())
	vAssert(s.writes == n+1, "a sample reaches the attached writer once")
	vAssert((err != nil) == s.failed, "the error of the writer is reported")
	w.Disable()
	vAssert(w.WriteSample(nil) == nil && s.writes == n+1, "a disabled switch drops samples")
	w.Enable()
}

// The rate of a switch can be set once.
//
//verif:check C24=assert panics
func SwitchRate() {
	w := media.NewSwitchWriter(-1)
	rate := vRange(1, 1<<20)
	w.SetSampleRate(rate)
	vAssert(w.SampleRate() == rate, "the rate is the one that was set")
	w.SetSampleRate(vRange(1, 1<<20))
	vAssert(false, "the rate can be set only once")
}

// A writer attached before the rate is known is refused.
//
//verif:check C24=assert panics
func SwitchNoRate() {
	w := media.NewSwitchWriter(-1)
	w.Swap(&sink[media.PCM16Sample]{rate: vRange(1, 1<<20)})
	vAssert(false, "no writer can be attached before the rate is set")
}

// Files: bufio keeps data until it is full or flushed, and repeats its first error.
var (
	bufW   io.Writer
	bufErr error
	bufLen int
)

//verif:model bufio.NewWriter
func newBufio(w io.Writer) *bufio.Writer {
	bufW = w
	return &bufio.Writer{}
}

func joinFlush() error {
	if bufErr != nil {
		return bufErr
	}
	if bufLen == 0 {
		return nil
	}
	n := bufLen
	bufLen = 0
	_, bufErr = bufW.Write(make([]byte, n))
	return bufErr
}

//verif:model (*bufio.Writer).Write
func bufioWrite(b *bufio.Writer, p []byte) (int, error) {
	if bufErr != nil {
		return 0, bufErr
	}
	bufLen += len(p)
	if vAny[bool]() {
		if err := joinFlush(); err != nil {
			return 0, err
		}
	}
	return len(p), nil
}

//verif:model (*bufio.Writer).Flush
func bufioFlush(b *bufio.Writer) error { return joinFlush() }

type file struct {
	size   int
	closed int
	good   bool
	failed bool
}

func (f *file) Write(p []byte) (int, error) {
	vAssert(f.closed == 0, "nothing is written after close")
	f.size += len(p)
	if !f.good && vAny[bool]() {
		f.failed = true
		return 0, vErr("disk")
	}
	return len(p), nil
}

func (f *file) Close() error {
	vAssert(f.closed == 0, "the file is closed once")
	f.closed++
	if !f.good && vAny[bool]() {
		f.failed = true
		return vErr("disk")
	}
	return nil
}

// frame is a frame of any size.
type frame struct{ n int }

func (f frame) Size() int { return f.n }
func (f frame) CopyTo(dst []byte) (int, error) {
	vAssert(len(dst) >= f.n, "there is room for the frame")
	return f.n, nil
}

// A file that never fails gets all the data.
//
//verif:check C09=assert C08=assert C03=panic join
func FileWriter() {
	f := &file{good: true}
	rate := vRange(1, 1<<20)
	w := media.NewFileWriter[frame](f, rate)
	vAssert(w.SampleRate() == rate, "the writer has the given rate")
	total := 0
	for vLoop() {
		n := vRange(0, 1<<30)
		vAssert(joinFrame(w, n) == nil, "a write succeeds when the file's does")
		total += n
	}
	vAssert(w.Close() == nil, "close succeeds when the file's does")
	vAssert(f.closed == 1, "close closes the file exactly once")
	vAssert(f.size == total, "close writes all buffered data")
}

//verif:check C09=assert C08=assert C03=panic join
func FileWriterFailing() {
	f := &file{}
	w := media.NewFileWriter[frame](f, 48000)
	for vLoop() {
		f.failed = false
		err := joinFrame(w, vRange(0, 1<<30))
		vAssert(!f.failed || err != nil, "a failed write is reported")
		vAssert(f.closed == 0, "the file is not closed by a write")
	}
	f.failed = false
	sticky := bufErr != nil
	err := w.Close()
	vAssert(f.closed == 1, "close closes the file exactly once, even after errors")
	vAssert((err != nil) == (f.failed || sticky), "a failed flush or close is reported")
}

func joinFrame(w media.WriteCloser[frame], n int) error {
	return w.WriteSample(frame{n})
}

// Containers: frames are written in the background, at any time until close.
type blocks struct {
	w       io.WriteCloser
	pending int
	closed  int
}

//verif:model github.com/at-wat/ebml-go/webm.NewSimpleBlockWriter
func newBlocks(w io.WriteCloser, tracks []mkv.TrackEntry, opts ...mkvcore.BlockWriterOption) ([]mkv.BlockWriteCloser, error) {
	vAssert(len(tracks) == 1, "there is one track")
	if _, err := w.Write(make([]byte, 10)); err != nil {
		return nil, err
	}
	return []mkv.BlockWriteCloser{&blocks{w: w}}, nil
}

func (b *blocks) flush() {
	if b.pending == 0 {
		return
	}
	n := b.pending
	b.pending = 0
	_, err := b.w.Write(make([]byte, n))
	vAssert(err == nil, "the library panics in the background if it is given an error")
}

func (b *blocks) Write(keyframe bool, ts int64, data []byte) (int, error) {
	vAssert(b.closed == 0, "nothing is written after close")
	b.pending += len(data)
	if vAny[bool]() {
		b.flush()
	}
	return len(data), nil
}

func (b *blocks) Close() error {
	vAssert(b.closed == 0, "the container is closed once")
	b.closed++
	b.flush()
	b.w.Close()
	return nil
}

//verif:check C09=assert C08=assert C03=panic join
func WebmWriter() {
	f := &file{}
	rate := vRange(1, 1<<20)
	w := webm.NewWriter[frame](f, "A_OPUS", 1, rate, 20*time.Millisecond)
	vAssert(w.SampleRate() == rate, "the writer has the given rate")
	ok, total := !f.failed, 10
	for vLoop() {
		n := vRange(0, 1<<30)
		err := joinFrame(w, n)
		vAssert(err == nil || f.failed, "a write succeeds when the file's does")
		vAssert(err != nil || !f.failed, "a failed write is reported")
		if err != nil {
			ok = false
		}
		total += n
		vAssert(f.closed == 0, "the file is not closed by a write")
	}
	err := w.Close()
	vAssert(f.closed == 1, "close closes the file exactly once")
	vAssert((err != nil) == f.failed, "close reports the error of the file")
	if ok && !f.failed {
		vAssert(f.size == total, "close writes all frames")
	}
}

var _ = errors.Is

//verif:model github.com/livekit/media-sdk.RegisterCodec
func registerCodec(c media.Codec) {}

// Encoders for streams of another rate are refused.
//
//verif:check C29=assert C24=assert panics
func EncodersRefuse() {
	rate := vRange(1, 1<<20)
	vAssume(rate != 8000)
	switch vRange(0, 2) {
	case 0:
		g711.EncodeULaw(&sink[g711.ULawSample]{rate: rate})
	case 1:
		g711.EncodeALaw(&sink[g711.ALawSample]{rate: rate})
	default:
		vAssume(rate != 16000)
		g722.Encode(&sink[g722.Sample]{rate: rate})
	}
	vAssert(false, "an encoder refuses streams of another rate")
}
