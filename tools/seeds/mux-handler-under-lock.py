prop='C05'
needs='A handler that registers or removes a handler on the mux that called it.'
breaks='The handler is called with the mux lock held, so changing registrations from it deadlocks.'
edits=[('rtp/mux.go','''	if r == nil {
		r = m.def
	}
	m.mu.RUnlock()
	if r == nil {
		return nil
	}
	return r.HandleRTP''','''	defer m.mu.RUnlock()
	if r == nil {
		r = m.def
	}
	if r == nil {
		return nil
	}
	return r.HandleRTP''')]
pkg='rtp'
timeout=10
demo='''package rtp
import ("testing";"time")
func TestDemo(t *testing.T) {
	m := NewMux(nil)
	done := make(chan struct{})
	m.Register(8, HandlerFunc(func(h *Header, p []byte) error { m.Register(8, nil); return nil }))
	go func() { _ = m.HandleRTP(&Header{PayloadType: 8}, nil); close(done) }()
	select { case <-done: case <-time.After(3*time.Second): t.Fatal("deadlock") }
}
'''
