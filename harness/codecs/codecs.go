package codecs

import (
	"io"

	"github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/opus"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"
)

// The companding tables are decided by no rule here (C41): any values.
//
//verif:model github.com/livekit/media-sdk/g711.buildLinTable
func buildLin(table []int16, f func(byte) int) { vFill(table, "lin", 0) }

//verif:model github.com/livekit/media-sdk/g711.buildLawTable
func buildLaw(table []byte, f func(byte) int, mask int) { vFill(table, "law", 0) }

func frameSize[F interface {
	~[]byte
	media.Frame
}]() {
	s := vStream[F]("s", 0, vRange(0, 1<<40))
	dst := make([]byte, vRange(0, 1<<41))
	n, err := s.CopyTo(dst)
	vAssert(s.Size() == len(s), "a frame's size is the number of its bytes")
	if len(dst) < s.Size() {
		vAssert(n == 0 && err == io.ErrShortBuffer, "a short buffer is refused")
	} else {
		vAssert(n == s.Size() && err == nil, "a frame's size is the number of bytes copied")
		vAssert(vIsStream(dst[:n], "s", 0), "the frame's bytes are copied")
	}
}

// Frames of every codec.
//
//verif:check C29=assert+panic C03=panic track
func ULawFrame() { frameSize[g711.ULawSample]() }

//verif:check C29=assert+panic C03=panic track
func ALawFrame() { frameSize[g711.ALawSample]() }

//verif:check C29=assert+panic C03=panic track
func G722Frame() { frameSize[g722.Sample]() }

//verif:check C29=assert+panic C03=panic track
func OpusFrame() { frameSize[opus.Sample]() }

// Companding frames of any length.
//
//verif:check C29=assert+panic C03=panic C02=panic
func ULawConvert() {
	s := vAny[g711.ULawSample]()
	d := s.Decode()
	vAssert(len(d) == len(s), "one sample per byte")
	var e g711.ULawSample
	if vAny[bool]() {
		e = vAny[g711.ULawSample]()
	}
	e.Encode(d)
	vAssert(len(e) == len(d), "one byte per sample")
	d = vAny[media.PCM16Sample]()
	e.Encode(d)
	vAssert(len(e) == len(d), "one byte per sample")
}

//verif:check C29=assert+panic C03=panic C02=panic
func ALawConvert() {
	s := vAny[g711.ALawSample]()
	d := s.Decode()
	vAssert(len(d) == len(s), "one sample per byte")
	var e g711.ALawSample
	if vAny[bool]() {
		e = vAny[g711.ALawSample]()
	}
	e.Encode(d)
	vAssert(len(e) == len(d), "one byte per sample")
	d = vAny[media.PCM16Sample]()
	e.Encode(d)
	vAssert(len(e) == len(d), "one byte per sample")
}

type want struct {
	name   string
	rate   int
	clock  int
	typ    byte
	static bool
}

func check(w want) {
	n := 0
	for _, c := range media.Codecs() {
		i := c.Info()
		if i.SDPName == w.name {
			n++
			vAssert(i.SampleRate == w.rate, "the sample rate is the codec's")
			vAssert(i.RTPClockRate == w.clock, "the clock rate is the standard's")
			vAssert(i.RTPIsStatic == w.static, "static types are marked")
			vAssert(!w.static || i.RTPDefType == w.typ, "the static payload type is the standard's")
			if w.static {
				vAssert(rtp.CodecByPayloadType(w.typ) == c, "a static codec is found by its payload type")
			}
			vAssert(sdp.CodecByName(w.name) == c, "a codec is found by its name")
		}
	}
	vAssert(n == 1, "each codec is registered once")
}

// The codecs registered when the program starts.
//
//verif:check C29=assert+panic tables unroll
func Registered() {
	check(want{"PCMU/8000", 8000, 8000, 0, true})
	check(want{"PCMA/8000", 8000, 8000, 8, true})
	check(want{"G722/8000", 16000, 8000, 9, true})
	check(want{"telephone-event/8000", 8000, 8000, 0, false})
	vAssert(len(media.Codecs()) == 4, "no other codec is registered")
	pcmu := rtp.CodecByPayloadType(0)
	media.RegisterCodec(media.NewCodec(media.CodecInfo{SDPName: "x/8000", SampleRate: 8000}))
	vAssert(rtp.CodecByPayloadType(0) == pcmu, "a codec without a static type is not found by type")
	vAssert(dtmf.SDPName == "telephone-event/8000" && dtmf.SampleRate == 8000, "telephone events have their standard name and rate")
}

// Codecs made by the program.
//
//verif:check C29=assert
func NewCodecs() {
	info := vAny[media.CodecInfo]()
	vAssume(info.SampleRate > 0)
	var c media.Codec
	if vAny[bool]() {
		c = media.NewCodec(info)
	} else {
		c = rtp.NewAudioCodec[g722.Sample](info, nil, nil)
	}
	got := c.Info()
	vAssert(got.SampleRate == info.SampleRate, "the rate is kept")
	if info.RTPClockRate == 0 {
		vAssert(got.RTPClockRate == info.SampleRate, "the clock rate is the sample rate by default")
	} else {
		vAssert(got.RTPClockRate == info.RTPClockRate, "the clock rate is kept")
	}
	vAssert(got.RTPDefType == info.RTPDefType && got.RTPIsStatic == info.RTPIsStatic && got.Disabled == info.Disabled && got.Priority == info.Priority, "the description is kept")
}
