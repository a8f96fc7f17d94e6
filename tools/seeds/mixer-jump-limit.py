prop='C43'
needs='A delay after which exactly as many frames are due as an input can buffer.'
breaks='The clock is reset although every due frame was mixed, so the fraction carried over is lost.'
edits=[('mixer/mixer.go','''	if n > m.inputBufferFrames {
		n = m.inputBufferFrames''','''	if n >= m.inputBufferFrames {
		n = m.inputBufferFrames''')]
pkg='mixer'
demo='''package mixer
import (
	"testing"
	"time"
	msdk "github.com/livekit/media-sdk"
)
func TestDemo(t *testing.T) {
	var got msdk.PCM16Sample
	m := newMixer(msdk.NewPCM16BufferWriter(&got, 8000), 4)
	m.tickerDur = time.Hour
	start := time.Now().Add(-time.Duration(m.inputBufferFrames)*time.Hour - 30*time.Minute)
	m.lastMixEndTs = start
	m.mixUpdate()
	if n := len(got)/4; n != m.inputBufferFrames { t.Fatal(n) }
	if !m.lastMixEndTs.Equal(start.Add(time.Duration(m.inputBufferFrames)*time.Hour)) { t.Fatal("clock lost") }
}
'''
