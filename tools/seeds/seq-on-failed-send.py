prop='C13'
needs='A send that fails followed by one that succeeds.'
breaks='A failed send consumes a sequence number, so the next packet actually sent leaves a gap.'
edits=[('rtp/rtp.go','''	if _, err := s.w.WriteRTP(&s.h, ev.Payload); err != nil {
		return err
	}
	s.h.SequenceNumber++
	return nil
''','''	_, err := s.w.WriteRTP(&s.h, ev.Payload)
	s.h.SequenceNumber++
	return err
''')]
pkg='rtp'
demo='''package rtp
import ("errors";"testing")
type demoW struct { seqs []uint16; n int }
func (w *demoW) String() string { return "" }
func (w *demoW) WriteRTP(h *Header, p []byte) (int, error) {
	w.n++
	if w.n == 2 { return 0, errors.New("fail") }
	w.seqs = append(w.seqs, h.SequenceNumber)
	return len(p), nil
}
func TestDemo(t *testing.T) {
	w := &demoW{}
	s := NewSeqWriter(w)
	st := s.NewStream(0, 8000)
	for i := 0; i < 4; i++ { _ = st.WritePayload([]byte{1}, false) }
	for i := 1; i < len(w.seqs); i++ { if w.seqs[i] != w.seqs[i-1]+1 { t.Fatal(w.seqs) } }
}
'''
