prop='C07'
needs='A caller that reuses its sample buffer after writing it to a frame collector.'
breaks='Frames of up to the usual size are still copied, but a frame written right after an empty one is stored without a copy.'
edits=[('pcm.go','''	*b.buf = append(*b.buf, slices.Clone(data))
''','''	if n := len(*b.buf); n > 0 && len((*b.buf)[n-1]) == 0 {
		(*b.buf)[n-1] = data // replace an empty frame
		return nil
	}
	*b.buf = append(*b.buf, slices.Clone(data))
''')]
pkg='.'
demo='''package media
import "testing"
func TestDemo(t *testing.T) {
	var out []PCM16Sample
	w := NewPCM16FrameWriter(&out, 8000)
	_ = w.WriteSample(nil)
	buf := PCM16Sample{1, 2}
	_ = w.WriteSample(buf)
	buf[0] = 9
	for _, f := range out { if len(f) == 2 && f[0] != 1 { t.Fatal("frame changed after write", out) } }
}
'''
