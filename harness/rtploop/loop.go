package rtploop

import (
	"time"

	"github.com/pion/interceptor"
	prtp "github.com/pion/rtp"

	"github.com/livekit/media-sdk/jitter"
	"github.com/livekit/media-sdk/rtp"
)

// handler is the receiver at the end of a chain.
type handler struct {
	closed, calls int
	failed        bool
	fails         int
}

func (h *handler) String() string { return "handler" }
func (h *handler) HandleRTP(hdr *rtp.Header, payload []byte) error {
	vAssert(h.closed == 0, "nothing is handed over after close")
	h.calls++
	if vAny[bool]() {
		h.failed = true
		h.fails++
		return vErr("handler")
	}
	return nil
}
func (h *handler) Close() { h.closed++ }

// reader returns any packets until it fails.
type reader struct{ failed bool }

func (r *reader) ReadRTP() (*prtp.Packet, interceptor.Attributes, error) {
	vAssert(!r.failed, "the reader is not used after an error")
	if vAny[bool]() {
		r.failed = true
		return nil, nil, vErr("reader")
	}
	return &prtp.Packet{}, nil, nil
}

// A reader of packets in front of a handler, until the reader or the handler fails.
//
//verif:check C08=assert C09=assert C03=panic
func HandleLoop() {
	h := &handler{}
	r := &reader{}
	err := rtp.HandleLoop(r, h)
	vAssert(err != nil, "the error that ended the loop is reported")
	vAssert(r.failed || h.failed, "the loop ends with an error")
	vAssert(h.closed == 1, "the handler is closed exactly once")
}

// Packets are kept by the jitter buffer and handed over in any number by later calls.
var (
	bufFn     jitter.PacketFunc
	bufClosed int
)

//verif:model github.com/livekit/media-sdk/jitter.NewBuffer
func newBuffer(d prtp.Depacketizer, lat time.Duration, fn jitter.PacketFunc, opts ...jitter.Option) *jitter.Buffer {
	bufFn = fn
	return &jitter.Buffer{}
}

//verif:model (*github.com/livekit/media-sdk/jitter.Buffer).Push
func push(b *jitter.Buffer, p *prtp.Packet) {
	vAssert(bufClosed == 0, "nothing is pushed after close")
	switch vRange(0, 2) {
	case 1:
		bufFn([]jitter.ExtPacket{{Packet: &prtp.Packet{}}})
	case 2:
		bufFn([]jitter.ExtPacket{{Packet: &prtp.Packet{}}, {Packet: &prtp.Packet{}}})
	}
}

//verif:model (*github.com/livekit/media-sdk/jitter.Buffer).Close
func closeBuf(b *jitter.Buffer) { bufClosed++ }

//verif:model recv error
func recvError() error { return vErr("handler") }

// A jitter buffer in front of a handler: an error of the handler is returned by the packet that caused it.
//
//verif:check C09=assert C08=assert C03=panic solo
func Jitter() {
	h := &handler{}
	j := rtp.HandleJitter(h)
	for vLoop() {
		joinPacket(j, h)
	}
	j.Close()
	vAssert(h.closed == 1, "close closes the handler exactly once")
	vAssert(bufClosed == 1, "close stops the jitter buffer")
}

func joinPacket(j rtp.HandlerCloser, h *handler) {
	h.failed = false
	err := j.HandleRTP(&prtp.Header{}, vAny[[]byte]())
	vAssert(h.closed == 0, "the handler is not closed by a packet")
	vAssert((err != nil) == h.failed, "an error of the handler is reported by the packet that caused it")
}
