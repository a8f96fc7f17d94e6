package pipe

import (
	"io"
	"sync"

	"github.com/livekit/media-sdk"
)

// env is the other goroutines using the pipe, which interfere whenever the analysed one waits.
var env struct {
	r *media.PipeReader[media.PCM16Sample, int16]
	w *media.PipeWriter[media.PCM16Sample, int16]

	rclosed, wclosed int // how the halves were closed: 0 not, 1 without an error, 2 with an error
	closeR, closeW   int // what is done while the analysed call waits
	interfered       bool
}

var rerr, werr = vErr("reader closed"), vErr("writer closed")

func newPipe() {
	env.r, env.w = media.Pipe[media.PCM16Sample, int16](48000)
	vAssert(env.w.SampleRate() == 48000, "the pipe has the given sample rate")
}

func doClose(r, w int) {
	if env.rclosed == 0 {
		env.rclosed = r
	}
	switch r {
	case 1:
		vAssert(env.r.Close() == nil, "closing succeeds")
	case 2:
		vAssert(env.r.CloseWithError(rerr) == nil, "closing succeeds")
	}
	if env.wclosed == 0 {
		env.wclosed = w
	}
	switch w {
	case 1:
		vAssert(env.w.Close() == nil, "closing succeeds")
	case 2:
		vAssert(env.w.CloseWithError(werr) == nil, "closing succeeds")
	}
}

// checkRead checks the error of a read on a closed pipe.
func checkRead(n int, err error) {
	vAssert(n == 0, "a read on a closed pipe returns no samples")
	switch {
	case env.rclosed != 0:
		vAssert(err == io.ErrClosedPipe, "a read after closing the reader reports a closed pipe")
	case env.wclosed == 1:
		vAssert(err == io.EOF, "a read after closing the writer reports the end of the stream")
	case env.wclosed == 2:
		vAssert(err == werr, "a read after closing the writer with an error reports the error")
	default:
		vAssert(false, "an open pipe does not report an error")
	}
}

// checkWrite checks the error of a write on a closed pipe.
func checkWrite(err error) {
	switch {
	case env.wclosed != 0:
		vAssert(err == io.ErrClosedPipe, "a write after closing the writer reports a closed pipe")
	case env.rclosed == 1:
		vAssert(err == io.ErrClosedPipe, "a write after closing the reader reports a closed pipe")
	case env.rclosed == 2:
		vAssert(err == rerr, "a write after closing the reader with an error reports the error")
	default:
		vAssert(false, "an open pipe does not report an error")
	}
}

// The signal that the pipe was closed: somebody closed it just before.
//
//verif:model recv struct{}
func recvDone() struct{} {
	if env.rclosed == 0 && env.wclosed == 0 {
		env.interfered = true
		doClose(env.closeR, env.closeW)
	}
	return struct{}{}
}

var first *sync.Mutex // the outermost lock held by the analysed call
var released int

//verif:model (*sync.Mutex).Lock
func lock(m *sync.Mutex) {
	if first == nil {
		first = m
	}
}

//verif:model (*sync.Mutex).Unlock
func unlock(m *sync.Mutex) {
	if first == m {
		first = nil
		released++
	}
}

// The stream of the analysed write, and what readers took from it.
var wr struct {
	pos, total int
	offered    bool
	epoch      int
	last       int // length of the chunk a reader holds
	waiting    bool
}

//verif:model send github.com/livekit/media-sdk.PCM16Sample
func sendChunk(b media.PCM16Sample) {
	vAssert(!wr.waiting, "the next chunk is offered after the reader took the previous one")
	vAssert(len(b) == wr.total-wr.pos && vIsStream(b, "w", wr.pos), "exactly the samples not yet read are offered")
	vAssert(!wr.offered || len(b) > 0, "nothing is offered after all samples were read")
	vAssert(first != nil, "a chunk is offered with the write lock held")
	vAssert(!wr.offered || wr.epoch == released, "the write lock is kept between chunks")
	wr.epoch = released
	wr.offered = true
	wr.last = len(b)
	wr.waiting = true
}

//verif:model recv int
func recvCount() int {
	vAssert(wr.waiting, "the count is that of an offered chunk")
	n := vRange(0, wr.last)
	wr.pos += n
	wr.waiting = false
	return n
}

// The stream of the environment's write, and what the analysed read takes from it.
var rd struct {
	buf   media.PCM16Sample
	off   int
	n     int
	given bool
	took  bool
	count int
}

//verif:model recv github.com/livekit/media-sdk.PCM16Sample
func recvChunk() media.PCM16Sample {
	vAssert(!rd.given, "a read takes one chunk")
	rd.given = true
	return vStream[media.PCM16Sample]("r", rd.off, rd.n)
}

//verif:model send int
func sendCount(n int) {
	vAssert(rd.given && !rd.took, "the number of samples read is reported once, after taking a chunk")
	rd.took = true
	rd.count = n
	vAssert(n >= 0 && n <= len(rd.buf) && n <= rd.n, "no more samples are read than offered and wanted")
	vAssert(n == len(rd.buf) || n == rd.n, "as many samples are read as offered and wanted")
	vAssert(vIsStream(rd.buf[:n], "r", rd.off), "the samples are copied before the writer goes on")
}

func reset() {
	wr.pos, wr.total, wr.offered, wr.waiting = 0, vRange(0, 1<<40), false, false
	rd.off, rd.n, rd.given, rd.took = vRange(0, 1<<40), vRange(0, 1<<40), false, false
	rd.buf = make(media.PCM16Sample, vRange(0, 1<<40))
}

func reset0() {
	wr.pos, wr.total, wr.offered, wr.waiting, wr.last, wr.epoch = 0, 0, false, false, 0, 0
	rd.off, rd.n, rd.given, rd.took, rd.count = 0, 0, false, false, 0
	rd.buf = nil
	released = 0
}

func write() {
	reset()
	err := env.w.WriteSample(vStream[media.PCM16Sample]("w", 0, wr.total))
	vAssert(first == nil, "the write lock is released")
	vAssert(!wr.waiting, "a reader that took a chunk is waited for")
	if err == nil {
		vAssert(wr.pos == wr.total && wr.offered, "a write succeeds after readers took all its samples")
		vAssert(env.rclosed == 0 && env.wclosed == 0, "a write on a closed pipe fails")
	} else {
		checkWrite(err)
	}
}

func read() {
	reset()
	n, err := env.r.ReadSample(rd.buf)
	vAssert(rd.given == rd.took, "a writer whose chunk was taken is told the number of samples read")
	if err == nil {
		vAssert(rd.given && n == rd.count, "a read returns the number of samples taken from the writer")
		vAssert(vIsStream(rd.buf[:n], "r", rd.off), "the samples are those written, in order")
		vAssert(env.rclosed == 0 && env.wclosed == 0, "a read on a closed pipe fails")
	} else {
		vAssert(!rd.given, "a read that took samples succeeds")
		checkRead(n, err)
	}
}

// how chooses which halves are closed and with what.
func how() (r, w int) {
	if vAny[bool]() {
		r = 1
		if vAny[bool]() {
			r = 2
		}
	}
	if r == 0 || vAny[bool]() {
		w = 1
		if vAny[bool]() {
			w = 2
		}
	}
	return
}

// A write while any readers read, closed by anyone at any time.
//
//verif:check C25=assert C03=panic track
func Write() {
	newPipe()
	env.closeR, env.closeW = how()
	write()
}

// A read while any writers write, closed by anyone at any time.
//
//verif:check C25=assert C03=panic track
func Read() {
	newPipe()
	env.closeR, env.closeW = how()
	read()
}

// Calls after the pipe was closed, possibly more than once: the first error counts.
//
//verif:check C25=assert C03=panic track
func Closed() {
	newPipe()
	doClose(how())
	doClose(how())
	vReach("closed twice")
	write()
	read()
	vReach("used after close")
}

// Whoever learns that the pipe was closed sees the error right away.
//
//verif:model close struct{}
func joinClosing() {
	if !env.interfered {
		f, n := first, released
		first = nil
		write()
		read()
		reset0()
		first, released = f, n
	}
}
