prop='C30'
needs='An input that holds only a part of a frame when the mixer reads it, followed by less data than the start of playback needs.'
breaks='The input starts buffering again after a short frame although it never ran empty, so the samples written next are held back.'
edits=[('mixer/mixer.go','''	if n == 0 {
		i.buffering = true // starving''','''	if n < len(out) {
		i.buffering = true // starving''')]
pkg='mixer'
demo='''package mixer
import (
	"testing"
	msdk "github.com/livekit/media-sdk"
)
func TestDemo(t *testing.T) {
	var got msdk.PCM16Sample
	m := newMixer(msdk.NewPCM16BufferWriter(&got, 8000), 4)
	in := m.NewInput()
	for i := 0; i < 9; i++ { _ = in.WriteSample(msdk.PCM16Sample{1, 1}) }
	for i := 0; i < 5; i++ { m.mixOnce() } // four full frames and a half
	_ = in.WriteSample(msdk.PCM16Sample{5, 5, 5, 5})
	m.mixOnce()
	sum := 0
	for _, v := range got { sum += int(v) }
	if sum != 18+20 { t.Fatal(got) }
}
'''
