package pcm

import (
	"io"
	"time"

	"github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/tones"
)

// Any tone of any number of frequencies.
//
//verif:check C12=range C03=panic narrow
func GenerateTone() {
	amp := vAny[int16]()
	vAssume(amp != -32768)
	buf := make(media.PCM16Sample, vRange(0, 1<<20))
	tones.Generate(buf, vAny[time.Duration](), vAny[time.Duration](), amp, vSym[[]tones.Hz]("freq"))
}

// Channel conversions of frames of any length.
//
//verif:check C12=range C03=panic narrow
func Stereo() {
	src := make(media.PCM16Sample, vRange(0, 1<<40))
	vHavoc(&src)
	dst := make(media.PCM16Sample, vRange(0, 1<<40))
	vAssume(len(dst) >= len(src)/2)
	media.StereoToMono(dst, src)
}

//verif:check C12=range C03=panic narrow
func Mono() {
	src := make(media.PCM16Sample, vRange(0, 1<<40))
	dst := make(media.PCM16Sample, vRange(0, 1<<40))
	vAssume(len(dst) >= len(src)*2)
	media.MonoToStereo(dst, src)
}

// The values, for short frames.
//
//verif:check C12=range+assert C03=panic narrow track
func StereoValues() {
	src := vStream[media.PCM16Sample]("s", 0, 7)
	l, r := src[4], src[5]
	dst := make(media.PCM16Sample, 3)
	media.StereoToMono(dst, src)
	sum := int(l) + int(r)
	d := int(dst[2])*2 - sum
	vAssert(-1 <= d && d <= 1, "each mono sample is the average of its pair")
}

//verif:check C12=range+assert C03=panic narrow track
func MonoValues() {
	src := vStream[media.PCM16Sample]("s", 0, 3)
	v := src[2]
	dst := make(media.PCM16Sample, 6)
	media.MonoToStereo(dst, src)
	vAssert(dst[4] == v && dst[5] == v, "each sample is copied to both channels")
}

// Frames as bytes.
//
//verif:check C29=assert+panic C03=panic
func PCMBytes() {
	s := vStream[media.PCM16Sample]("s", 0, vRange(0, 1<<40))
	dst := make([]byte, vRange(0, 1<<41))
	n, err := s.CopyTo(dst)
	if len(dst) < s.Size() {
		vAssert(n == 0 && err == io.ErrShortBuffer, "a short buffer is refused")
	} else {
		vAssert(n == s.Size() && err == nil, "a frame's size is the number of bytes copied")
	}
}
