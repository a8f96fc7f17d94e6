prop='C27'
needs='A handler for a payload type above 127 or a static one with the same low bits as a dynamic one.'
breaks='Payload types are reduced modulo 128 at registration but not at dispatch, so registering one type replaces the handler of another.'
edits=[('rtp/mux.go','''func (m *Mux) Register(typ byte, h Handler) {
	m.mu.Lock()
	defer m.mu.Unlock()
''','''func (m *Mux) Register(typ byte, h Handler) {
	typ &= 0x7f // payload type is 7 bits
	m.mu.Lock()
	defer m.mu.Unlock()
''')]
pkg='rtp'
demo='''package rtp
import "testing"
func TestDemo(t *testing.T) {
	m := NewMux(nil)
	got := ""
	h := func(n string) Handler { return HandlerFunc(func(*Header, []byte) error { got = n; return nil }) }
	m.Register(8, h("a"))
	m.Register(128+8, h("b"))
	_ = m.HandleRTP(&Header{PayloadType: 8}, nil)
	if got != "a" { t.Fatal(got) }
	_ = m.HandleRTP(&Header{PayloadType: 136}, nil)
	if got != "b" { t.Fatal(got) }
}
'''
