prop='C20'
needs='A sink that fails on a frame other than the first one of a write, followed by another write.'
breaks='After a failing sink call the frames that were already handed over are not removed from the buffer, so they are emitted a second time.'
edits=[('buffers.go','''	it := b.buf
	defer func() {
		if len(it) == 0 {
			b.buf = b.buf[:0]
		} else if dn := len(b.buf) - len(it); dn > 0 {
			b.buf = slices.Delete(b.buf, 0, dn)
		}
	}()
	for len(it)/b.frameSize > 0 {
		frame := it[:b.frameSize]
		it = it[len(frame):]
		if err := b.w.WriteSample(frame); err != nil {
			return err
		}
	}
''','''	it := b.buf
	for len(it)/b.frameSize > 0 {
		frame := it[:b.frameSize]
		it = it[len(frame):]
		if err := b.w.WriteSample(frame); err != nil {
			return err
		}
	}
	defer func() {
		if len(it) == 0 {
			b.buf = b.buf[:0]
		} else if dn := len(b.buf) - len(it); dn > 0 {
			b.buf = slices.Delete(b.buf, 0, dn)
		}
	}()
''')]
pkg='.'
demo='''package media
import ("errors";"testing";"slices")
type demoSink struct { got []int16; fail int; calls int }
func (s *demoSink) String() string { return "" }
func (s *demoSink) SampleRate() int { return 8000 }
func (s *demoSink) Close() error { return nil }
func (s *demoSink) WriteSample(p PCM16Sample) error {
	s.calls++
	if s.calls == s.fail { return errors.New("fail") }
	s.got = append(s.got, p...)
	return nil
}
func TestDemo(t *testing.T) {
	s := &demoSink{fail: 2}
	w := FullFrames[PCM16Sample](s, 2)
	_ = w.WriteSample(PCM16Sample{1,2,3,4,5})
	_ = w.WriteSample(PCM16Sample{6,7})
	_ = w.Close()
	var seen = map[int16]bool{}
	for _, v := range s.got { if seen[v] { t.Fatal("sample emitted twice", s.got) }; seen[v] = true }
	if !slices.IsSorted(s.got) { t.Fatal(s.got) }
}
'''
