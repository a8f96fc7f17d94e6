package rtp

import (
	prtp "github.com/pion/rtp"

	"github.com/livekit/media-sdk/rtp"
)

type probe struct {
	calls int
	h     *prtp.Header
	n     int
	err   error
}

func (p *probe) String() string { return "probe" }
func (p *probe) HandleRTP(h *prtp.Header, payload []byte) error {
	vAssert(vLocksHeld() == 0, "handlers are called without the lock")
	p.calls++
	p.h = h
	p.n = len(payload)
	vAssert(vIsStream(payload, "p", 0), "the handler receives the packet's payload")
	return p.err
}

func newProbe(name string) *probe { return &probe{err: vErr(name)} }

// usedMux is a mux after any history of registrations.
func usedMux() *rtp.Mux {
	m := rtp.NewMux(nil)
	old := newProbe("old")
	for vLoop() {
		if vAny[bool]() {
			m.Register(vAny[byte](), old)
		} else {
			m.Register(vAny[byte](), nil)
		}
		m.SetDefault(old)
	}
	return m
}

// A mux in any state: the handler last registered for a type receives the packets of that type, whatever is
// registered or removed for other types afterwards.
//
//verif:check C27=assert+panic C05=lock C02=panic C03=panic
func MuxDispatch() {
	m := usedMux()
	def, a, b := newProbe("def"), newProbe("a"), newProbe("b")
	t, u := vAny[byte](), vAny[byte]()
	vAssume(t != u)
	hasDef := vAny[bool]()
	if hasDef {
		m.SetDefault(def)
	} else {
		m.SetDefault(nil)
	}
	hasA := vAny[bool]()
	if hasA {
		m.Register(t, a)
	} else {
		m.Register(t, nil)
	}
	switch vAny[int]() {
	case 0:
		m.Register(u, b)
	case 1:
		m.Register(u, nil)
	case 2:
		m.Register(u, b)
		m.Register(u, nil)
	}
	h := &prtp.Header{PayloadType: t}
	p := vStream[[]byte]("p", 0, vRange(0, 1<<40))
	err := m.HandleRTP(h, p)
	vAssert(b.calls == 0, "no handler of another type is called")
	switch {
	case hasA:
		vAssert(a.calls == 1 && def.calls == 0, "the registered handler receives the packet")
		vAssert(a.h == h && a.n == len(p), "the packet is passed on as it is")
		vAssert(err == a.err, "the handler's result is reported")
	case hasDef:
		vAssert(a.calls == 0 && def.calls == 1, "the default handler receives a packet of an unregistered type")
		vAssert(def.h == h && def.n == len(p), "the packet is passed on as it is")
		vAssert(err == def.err, "the handler's result is reported")
	default:
		vAssert(a.calls == 0 && def.calls == 0, "without a handler nobody receives the packet")
		vAssert(err == nil, "an unhandled packet is not an error")
	}
}

// A handler replaced by another one no longer receives packets; the same type registered again does.
//
//verif:check C27=assert+panic C03=panic
func MuxReplace() {
	m := usedMux()
	a, b := newProbe("a"), newProbe("b")
	t := vAny[byte]()
	m.Register(t, a)
	m.Register(t, b)
	m.HandleRTP(&prtp.Header{PayloadType: t}, vStream[[]byte]("p", 0, vRange(0, 1<<40)))
	vAssert(a.calls == 0 && b.calls == 1, "the handler registered last receives the packet")
	m.Register(t, nil)
	m.SetDefault(nil)
	m.HandleRTP(&prtp.Header{PayloadType: t}, nil)
	vAssert(a.calls == 0 && b.calls == 1, "a removed handler receives nothing")
}

// A new mux has only its default handler.
//
//verif:check C27=assert+panic C03=panic C02=panic
func MuxNew() {
	def := newProbe("def")
	m := rtp.NewMux(def)
	if vAny[bool]() {
		m = rtp.NewMux(nil)
		def.calls = 1
	}
	t := vAny[byte]()
	err := m.HandleRTP(&prtp.Header{PayloadType: t}, vStream[[]byte]("p", 0, vRange(0, 1<<40)))
	vAssert(def.calls == 1, "the default handler receives a packet of any type")
	vAssert(err == nil || err == def.err, "the handler's result is reported")
	var none *rtp.Mux
	vAssert(none.HandleRTP(&prtp.Header{PayloadType: t}, nil) == nil, "no mux, no handler")
}

// Function handlers.
//
//verif:check C27=assert+panic C03=panic C08=assert
func HandlerFunctions() {
	var none rtp.HandlerFunc
	vAssert(none.HandleRTP(&prtp.Header{}, nil) == nil, "an absent function handles nothing")
	p := newProbe("f")
	f := rtp.HandlerFunc(p.HandleRTP)
	b := vStream[[]byte]("p", 0, vRange(0, 1<<40))
	h := &prtp.Header{}
	vAssert(f.HandleRTP(h, b) == p.err, "the function's result is reported")
	vAssert(p.calls == 1 && p.h == h && p.n == len(b), "the function receives the packet")
	q := newProbe("q")
	c := rtp.NewNopCloser(q)
	vAssert(c.HandleRTP(h, b) == q.err && q.calls == 1 && q.h == h, "the handler receives the packet")
	c.Close()
}
