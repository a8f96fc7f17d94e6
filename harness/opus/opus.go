package opus

import (
	gopus "gopkg.in/hraban/opus.v2"

	"github.com/livekit/protocol/logger"

	"github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/opus"
)

// The native codec, as its Go wrapper is documented.
var nat struct {
	rate, channels       int // of the last decoder or encoder created
	packet               int // channels of the packet to decode
	n                    int // samples per channel of the last decoded packet
	failed, corrupt, bad bool
}

//verif:model github.com/livekit/media-sdk/opus._Cfunc_opus_packet_get_nb_channels
func packetChannels(p *byte) int32 { return int32(nat.packet) }

//verif:model gopkg.in/hraban/opus.v2.NewDecoder
func newDecoder(rate, channels int) (*gopus.Decoder, error) {
	if vAny[bool]() {
		nat.failed = true
		return nil, vErr("native")
	}
	nat.rate, nat.channels = rate, channels
	return &gopus.Decoder{}, nil
}

//verif:model (*gopkg.in/hraban/opus.v2.Decoder).Decode
func decode(d *gopus.Decoder, data []byte, pcm []int16) (int, error) {
	vCheck("panic", d != nil, "the native decoder does not exist")
	vAssert(nat.channels == nat.packet, "the native decoder is the one for the channels of the packet")
	if nat.bad = vAny[bool](); nat.bad {
		nat.failed = true
		return 0, vErr("native")
	}
	if nat.corrupt = vAny[bool](); nat.corrupt {
		return 0, gopus.ErrInvalidPacket
	}
	if nat.channels == 2 {
		vAssert(cap(pcm)%2 == 0, "the buffer holds whole samples")
		nat.n = vRange(0, cap(pcm)/2)
	} else if nat.channels == 1 {
		nat.n = vRange(0, cap(pcm))
	} else {
		vAssert(false, "the native decoder is for mono or stereo")
	}
	run = 0
	return nat.n, nil
}

//verif:model gopkg.in/hraban/opus.v2.NewEncoder
func newEncoder(rate, channels int, app gopus.Application) (*gopus.Encoder, error) {
	if vAny[bool]() {
		return nil, vErr("native")
	}
	nat.rate, nat.channels = rate, channels
	return &gopus.Encoder{}, nil
}

//verif:model (*gopkg.in/hraban/opus.v2.Encoder).Encode
func encode(d *gopus.Encoder, pcm []int16, data []byte) (int, error) {
	if vAny[bool]() {
		nat.failed = true
		return 0, vErr("native")
	}
	return vRange(0, cap(data)), nil
}

//verif:model github.com/livekit/media-sdk.MonoToStereo
func monoToStereo(dst, src media.PCM16Sample) {
	vCheck("panic", len(dst) >= 2*len(src), "the destination of the conversion is too small")
}

//verif:model github.com/livekit/media-sdk.StereoToMono
func stereoToMono(dst, src media.PCM16Sample) {
	vCheck("panic", len(dst) >= len(src)/2, "the destination of the conversion is too small")
}

type log struct{ logger.Logger }

func (*log) Debugw(msg string, kv ...any)            {}
func (*log) Errorw(msg string, err error, kv ...any) {}
func (*log) Warnw(msg string, err error, kv ...any)  {}
func (*log) Infow(msg string, kv ...any)             {}

// sink is the writer of decoded or encoded frames.
type sink[T any] struct {
	rate, closed, writes int
	failed               bool
}

func (s *sink[T]) String() string  { return "sink" }
func (s *sink[T]) SampleRate() int { return s.rate }
func (s *sink[T]) WriteSample(f T) error {
	vAssert(s.closed == 0, "nothing is written after close")
	s.writes++
	if p, ok := any(f).(media.PCM16Sample); ok {
		if target == 2 {
			vAssert(len(p) == 2*nat.n, "frames have the requested number of channels")
		} else {
			vAssert(len(p) == nat.n, "frames have the requested number of channels")
		}
	}
	if vAny[bool]() {
		s.failed = true
		return vErr("sink")
	}
	return nil
}
func (s *sink[T]) Close() error {
	s.closed++
	if vAny[bool]() {
		s.failed = true
		return vErr("sink")
	}
	return nil
}

var (
	target int
	run    int // corrupt packets in a row
)

// anyRate is one of the rates supported by the codec.
func anyRate() int {
	switch vRange(0, 4) {
	case 0:
		return 8000
	case 1:
		return 12000
	case 2:
		return 16000
	case 3:
		return 24000
	}
	return 48000
}

// Any history of packets through a decoder.
//
//verif:check C02=panic C03=panic C08=assert C09=assert C24=assert
func Decode() {
	target = vRange(1, 2)
	s := &sink[media.PCM16Sample]{rate: anyRate()}
	w, err := opus.Decode(s, target, &log{})
	vAssert(err == nil, "mono and stereo are supported")
	vAssert(w.SampleRate() == s.rate, "the decoder has the rate of its writer")
	joinDecode(w, s)
	if nat.rate == 0 {
		return // as before the packet
	}
	for vLoop() {
		joinDecode(w, s)
	}
	s.failed = false
	err = w.Close()
	vAssert(s.closed == 1, "close closes the writer exactly once")
	vAssert((err != nil) == s.failed, "close reports the error of the writer")
}

// joinDecode decodes one packet.
func joinDecode(w opus.Writer, s *sink[media.PCM16Sample]) {
	nat.packet = 1
	if vAny[bool]() {
		nat.packet = 2
	}
	nat.failed, nat.corrupt, nat.bad, s.failed = false, false, false, false
	n := s.writes
	in := vAny[opus.Sample]()
	err := w.WriteSample(in)
	vAssert(s.closed == 0, "the writer is not closed by a write")
	if len(in) == 0 {
		vAssert(err == nil && s.writes == n, "an empty packet is dropped")
		return
	}
	if nat.failed || s.failed {
		vAssert(err != nil, "a failed call is reported")
	} else if nat.corrupt {
		vAssert(s.writes == n, "nothing is written for a corrupt packet")
		if err == nil {
			run++
			vAssert(run <= 8, "only a few corrupt packets in a row are tolerated")
		}
	} else {
		vAssert(err == nil && s.writes == n+1, "every frame is written once")
		vAssert(nat.rate == s.rate, "the frame was decoded at the rate of the writer")
	}
	nat.failed, nat.corrupt, nat.bad, s.failed = false, false, false, false
}

// A decoder for any other number of channels is refused.
//
//verif:check C24=assert C03=panic
func DecodeChannels() {
	n := vAny[int]()
	vAssume(n != 1 && n != 2)
	w, err := opus.Decode(&sink[media.PCM16Sample]{rate: 48000}, n, &log{})
	vAssert(err != nil && w == nil, "other numbers of channels are refused")
}

// Any history of frames through an encoder.
//
//verif:check C03=panic C08=assert C09=assert C24=assert join
func Encode() {
	s := &sink[opus.Sample]{rate: vRange(8000, 48000)}
	ch := vRange(1, 2)
	w, err := opus.Encode(s, ch, &log{})
	if err != nil {
		vAssert(w == nil, "a failed call returns no encoder")
		return
	}
	vAssert(w.SampleRate() == s.rate && nat.rate == s.rate, "the encoder has the rate of its writer")
	vAssert(nat.channels == ch, "the encoder has the given number of channels")
	for vLoop() {
		joinEncode(w, s)
	}
	s.failed = false
	err = w.Close()
	vAssert(s.closed == 1, "close closes the writer exactly once")
	vAssert((err != nil) == s.failed, "close reports the error of the writer")
}

func joinEncode(w media.PCM16Writer, s *sink[opus.Sample]) {
	nat.failed, s.failed = false, false
	n := s.writes
	err := w.WriteSample(vAny[media.PCM16Sample]())
	vAssert(s.closed == 0, "the writer is not closed by a write")
	if nat.failed || s.failed {
		vAssert(err != nil, "a failed call is reported")
	} else {
		vAssert(err == nil && s.writes == n+1, "every frame is written once")
	}
}
