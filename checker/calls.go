package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mcall is a call handled by a model.
type mcall struct {
	e    *Eng
	p    *Path
	st   *State
	args []Val
	in   ssa.Instruction
	fn   *ssa.Function
	name string
	res  types.Type // result type (nil, single, or tuple)
	stop bool       // the path ends here
}

type modelFn func(c *mcall) Val

func fnPkg(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Object(); o != nil {
		return o.Pkg()
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Pkg()
		}
	}
	return nil
}

// fnName is the full name of the generic origin.
func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if ob, ok := fn.Object().(*types.Func); ok {
		return ob.Origin().FullName()
	}
	return fn.String()
}

func resType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (e *Eng) canAnalyse(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	if fn.Synthetic != "" && fn.Object() == nil {
		return true
	}
	if strings.HasSuffix(fn.Name(), "$bound") || strings.HasSuffix(fn.Name(), "$thunk") {
		return true
	}
	pk := fnPkg(fn)
	return pk == nil || e.analyse[pk]
}

func (e *Eng) finish(p *Path, in ssa.Instruction, exits []Exit, res *[]*Path) bool {
	v, isv := in.(ssa.Value)
	if len(exits) == 0 {
		p.st.dead = true
		return false
	}
	if len(exits) == 1 {
		p.st = exits[0].st
		if isv {
			p.env[v] = exits[0].ret
		}
		p.idx++
		return !p.st.dead
	}
	for i, x := range exits {
		q := p
		if i < len(exits)-1 {
			q = p.cloneWith(x.st)
		} else {
			q.st = x.st
		}
		if isv {
			q.env[v] = x.ret
		}
		q.idx++
		*res = append(*res, q)
	}
	e.paths += len(exits) - 1
	return false
}

func (p *Path) cloneWith(st *State) *Path {
	n := &Path{st: st, env: make(map[ssa.Value]Val, len(p.env)+8), defers: p.defers[:len(p.defers):len(p.defers)], blk: p.blk, prev: p.prev, idx: p.idx}
	for k, v := range p.env {
		n.env[k] = v
	}
	return n
}

func (e *Eng) call(p *Path, in *ssa.Call, res *[]*Path) bool {
	cc := &in.Call
	var args []Val
	for _, a := range cc.Args {
		args = append(args, e.val(p, a))
	}
	fv := e.val(p, cc.Value)
	exits := e.invoke(p, cc, fv, args, in)
	return e.finish(p, in, exits, res)
}

func (e *Eng) invokeDefer(p *Path, d dcall) []Exit {
	return e.invoke(p, d.call, d.fn, d.args, d.site)
}

// invoke performs a call from p and returns its exits. The state of p may be consumed.
func (e *Eng) invoke(p *Path, cc *ssa.CallCommon, fv Val, args []Val, site ssa.CallInstruction) []Exit {
	rt := resType(cc.Signature())
	if cc.IsInvoke() {
		switch r := fv.(type) {
		case VIface:
			fn := e.prog.LookupMethod(r.t, cc.Method.Pkg(), cc.Method.Name())
			if fn == nil {
				bail("method %s of %s not found", cc.Method.Name(), r.t)
			}
			return e.invokeFn(p, fn, append([]Val{r.v}, args...), nil, site, rt)
		case VNil:
			e.oblige(p, fls, "nil", "method call on nil interface", site)
			return nil
		case VSym:
			if !e.oblige(p, fNot(fAtom(UF("nil", r.key))), "nil", "method call on possibly nil interface", site) {
				return nil
			}
			name := cc.Method.FullName()
			if e.onCall != nil {
				e.onCall(p, site, name, append([]Val{fv}, args...))
			}
			if h := e.goModel[name]; h != nil {
				return e.callFn(p.st, h, append([]Val{fv}, args...), nil, site)
			}
			if m := e.models[name]; m != nil {
				return e.runModel(p, m, &mcall{e: e, p: p, args: append([]Val{fv}, args...), in: site, name: name, res: rt})
			}
			return e.runModel(p, modelExternal, &mcall{e: e, p: p, args: append([]Val{fv}, args...), in: site, name: name, res: rt})
		}
		bail("invoke on %T", fv)
	}
	switch f := fv.(type) {
	case VFn:
		if strings.HasPrefix(f.ext, "builtin:") {
			return e.runModel(p, modelBuiltin, &mcall{e: e, p: p, args: args, in: site, name: f.ext[8:], res: rt})
		}
		if f.fn == nil {
			return e.runModel(p, modelExternal, &mcall{e: e, p: p, args: args, in: site, name: f.ext, res: rt})
		}
		return e.invokeFn(p, f.fn, args, f.bind, site, rt)
	case VNil:
		e.oblige(p, fls, "nil", "call of nil function", site)
		return nil
	case VSym:
		if !e.oblige(p, fNot(fAtom(UF("nil", f.key))), "nil", "call of possibly nil function", site) {
			return nil
		}
		if e.onCall != nil {
			e.onCall(p, site, "func:"+f.key, args)
		}
		return e.runModel(p, modelExternal, &mcall{e: e, p: p, args: args, in: site, name: "func:" + f.key, res: rt})
	}
	bail("call of %T", fv)
	return nil
}

func (e *Eng) invokeFn(p *Path, fn *ssa.Function, args, bind []Val, site ssa.Instruction, rt types.Type) []Exit {
	name := fnName(fn)
	if e.onCall != nil {
		if ci, ok := site.(ssa.CallInstruction); ok {
			e.onCall(p, ci, name, args)
		}
	}
	if e.isHarn(fn) && fn.Parent() == nil && fn.Signature.Recv() == nil {
		n := fn.Name()
		if o := fn.Origin(); o != nil {
			n = o.Name()
		}
		if n == "vRunGo" { // run the i-th started goroutine to completion here
			k, ok := p.st.constOf(args[0].(VNum).l)
			if !ok || int(k) >= len(p.st.gos) {
				bail("vRunGo: no goroutine %d (of %d)", k, len(p.st.gos))
			}
			g := p.st.gos[k]
			return e.invoke(p, g.cc, g.fn, g.args, g.in)
		}
		if m := intrinsics[n]; m != nil {
			return e.runModel(p, m, &mcall{e: e, p: p, args: args, in: site, fn: fn, name: n, res: rt})
		}
	}
	if h := e.goModel[name]; h != nil && h != fn && (site == nil || site.Parent() != h) { // a model may call what it replaces
		return e.callFn(p.st, h, args, nil, site)
	}
	if m := e.models[name]; m != nil {
		return e.runModel(p, m, &mcall{e: e, p: p, args: args, in: site, fn: fn, name: name, res: rt})
	}
	if m := cgoNoop[fn.Name()]; m != nil {
		return e.runModel(p, m, &mcall{e: e, p: p, args: args, in: site, fn: fn, name: name, res: rt})
	}
	if e.canAnalyse(fn) {
		return e.callFn(p.st, fn, args, bind, site)
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil {
		return []Exit{{p.st, nil}}
	}
	return e.runModel(p, modelExternal, &mcall{e: e, p: p, args: args, in: site, fn: fn, name: name, res: rt})
}

// runModel runs a model on a copy of the state, so that a request to partition leaves the original intact.
func (e *Eng) runModel(p *Path, m modelFn, c *mcall) []Exit {
	orig := p.st
	done := false
	defer func() {
		if !done {
			p.st = orig
		}
	}()
	p.st = orig.clone()
	c.st = p.st
	if c.args == nil {
		c.args = []Val{}
	}
	v := m(c)
	done = true
	if c.stop || p.st.dead {
		return nil
	}
	return []Exit{{p.st, v}}
}

// ---------------------------------------------------------------------------

func nilable(t types.Type) bool {
	switch under(t).(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func isErrorType(t types.Type) bool {
	return types.Identical(types.Unalias(t), types.Universe.Lookup("error").Type())
}

// freshResult gives an unknown result of type t. With an error result, a nil error comes with non-nil
// pointers and interfaces.
func (c *mcall) freshResult(hint string) Val {
	if c.res == nil {
		return nil
	}
	v := c.e.fresh(hint, c.res)
	tu, ok := v.(VTuple)
	if !ok {
		return v
	}
	tt := c.res.(*types.Tuple)
	n := tt.Len()
	if !isErrorType(tt.At(n - 1).Type()) {
		return v
	}
	errNil := c.e.nilForm(tu[n-1])
	for i := 0; i < n-1; i++ {
		if nilable(tt.At(i).Type()) {
			c.st.lemma(fOr(fNot(errNil), fNot(c.e.nilForm(tu[i]))))
		}
	}
	return v
}

// havocArg forgets what an unknown callee may have changed through v.
func (e *Eng) havocArg(s *State, v Val) {
	switch x := v.(type) {
	case VPtr:
		o := x.obj
		if o.t == nil {
			return
		}
		old := e.load(s, x)
		var t types.Type
		switch y := old.(type) {
		case *VStruct:
			t = y.t
		case *Arr:
			s.heap[o] = e.writePath(s, s.content(o), x.path, &Arr{n: y.n, elem: y.elem, base: e.freshKey("havoc")})
			return
		default:
			if len(x.path) == 0 {
				t = o.t
			} else {
				return
			}
		}
		nv := e.fresh("havoc", t)
		s.heap[o] = e.writePath(s, s.content(o), x.path, nv)
	case VSlice:
		if x.arr == nil {
			return
		}
		a := e.arrOf(s, x.arr)
		s.heap[x.arr] = &Arr{n: a.n, elem: a.elem, base: e.freshKey("havoc")}
	}
}

func (e *Eng) freshKey(h string) string {
	freshSeq++
	return h + "#" + strconv.Itoa(freshSeq)
}

func modelExternal(c *mcall) Val {
	c.e.ext[c.name]++
	for _, a := range c.args {
		c.e.havocArg(c.st, a)
	}
	short := c.name
	if i := strings.LastIndexByte(short, '/'); i >= 0 {
		short = short[i+1:]
	}
	return c.freshResult("ext:" + short)
}

func (c *mcall) num(i int) *Lin { return c.args[i].(VNum).l }
func (c *mcall) str(i int) VStr { return c.args[i].(VStr) }
func (c *mcall) sl(i int) VSlice {
	switch x := c.args[i].(type) {
	case VSlice:
		return x
	}
	bail("slice expected in %s, got %T", c.name, c.args[i])
	return VSlice{}
}

func (e *Eng) sliceOfStr(s *State, v VStr) (*Arr, *Lin) {
	base := "sb:" + vkey(v)
	byteStrings[base] = v
	a := &Arr{n: v.n, elem: types.Typ[types.Byte], base: base}
	if v.c != nil && len(*v.c) <= 64 {
		a.base = ""
		for i := 0; i < len(*v.c); i++ {
			a.layers = append(a.layers, Layer{lo: cst(int64(i)), hi: cst(int64(i + 1)), val: numc(int64((*v.c)[i]))})
		}
	}
	return a, v.n
}

func modelBuiltin(c *mcall) Val {
	e, st := c.e, c.st
	switch c.name {
	case "len", "cap":
		switch x := c.args[0].(type) {
		case VSlice:
			if c.name == "cap" {
				return num(x.cap)
			}
			return num(x.len)
		case VStr:
			return num(x.n)
		case *Arr:
			return num(x.n)
		case VNil:
			return numc(0)
		case VRef:
			switch m := st.content(x.obj).(type) {
			case *MapC:
				if m.base == "" {
					// exact when keys are provably distinct; kept as a bounded count otherwise
					st.lemma(le(cst(0), m.n))
				}
				return num(m.n)
			case *ChanC:
				if c.name == "cap" {
					return num(m.cap)
				}
				l := e.fresh("chlen", types.Typ[types.Int]).(VNum)
				st.lemma(fAnd(le(cst(0), l.l), le(l.l, m.cap)))
				return l
			}
		case VPtr:
			if a, ok := e.load(st, x).(*Arr); ok {
				return num(a.n)
			}
		case VSym:
			l := UF("len", x.key).boundLo(0)
			st.lemma(fOr(fNot(fAtom(UF("nil", x.key))), fEq(linAtom(l))))
			return num(linAtom(l))
		}
		bail("%s of %T", c.name, c.args[0])
	case "append":
		return e.doAppend(c)
	case "copy":
		d := c.sl(0)
		var sa *Arr
		var so, sn *Lin
		switch s := c.args[1].(type) {
		case VSlice:
			if s.arr == nil {
				return numc(0)
			}
			sa, so, sn = e.arrOf(st, s.arr), s.off, s.len
		case VStr:
			sa, sn = e.sliceOfStr(st, s)
			so = cst(0)
		}
		if d.arr == nil {
			return numc(0)
		}
		n := e.minLin(st, d.len, sn)
		if st.poison[d.arr] {
			e.undecided("write through an alias of memory summarised by a loop (%s)", d.arr.name)
		}
		st.heap[d.arr] = e.arrCopy(st, e.arrOf(st, d.arr), d.off, sa, so, n)
		if e.onStore != nil {
			e.onStore(st, VPtr{obj: d.arr, path: []Step{{idx: d.off}}}, nil)
		}
		return num(n)
	case "min", "max":
		r := c.args[0].(VNum).l
		for _, a := range c.args[1:] {
			y := a.(VNum).l
			if c.name == "min" {
				r = e.minLin(st, r, y)
			} else if e.decide(st, le(y, r)) {
			} else {
				r = y
			}
		}
		return num(r)
	case "delete":
		o, ok := e.asMap(c.p, c.args[0], c.in, false)
		if ok {
			e.mapSet(st, o, c.args[1], nil)
		}
		return nil
	case "clear":
		switch x := c.args[0].(type) {
		case VRef:
			m := st.content(x.obj).(*MapC)
			st.heap[x.obj] = &MapC{t: m.t, n: cst(0)}
		case VSlice:
			if x.arr != nil {
				st.heap[x.arr] = e.arrPut(st, e.arrOf(st, x.arr), Layer{lo: x.off, hi: ladd(x.off, x.len), src: "0", shift: cst(0)})
			}
		case VSym:
			o, _ := e.asMap(c.p, x, c.in, false)
			m := st.content(o).(*MapC)
			st.heap[o] = &MapC{t: m.t, n: cst(0)}
		}
		return nil
	case "close":
		o, ok := e.chanObj(c.p, c.args[0])
		if !ok {
			e.oblige(c.p, fls, "close", "close of nil channel", c.in)
			c.stop = true
			return nil
		}
		ch := st.content(o).(*ChanC)
		e.oblige(c.p, fNot(ch.closed), "close", "channel may be closed twice", c.in)
		n := *ch
		n.closed = tru
		st.heap[o] = &n
		if h := e.goModel["close "+types.TypeString(ch.t.Elem(), nil)]; h != nil {
			ex := e.callFn(st, h, nil, nil, c.in)
			if len(ex) != 1 {
				bail("channel model must be deterministic")
			}
			c.p.st = ex[0].st
		}
		return nil
	case "print", "println":
		return nil
	case "panic":
		e.oblige(c.p, fls, "panic", "reachable panic", c.in)
		c.stop = true
		return nil
	case "recover":
		return VNil{}
	case "ssa:wrapnilchk":
		if !e.oblige(c.p, fNot(e.nilForm(c.args[0])), "nil", "method call through nil pointer", c.in) {
			c.stop = true
		}
		return c.args[0]
	case "real", "imag":
		return e.fresh("cplx", c.res)
	}
	bail("builtin %s", c.name)
	return nil
}

func (e *Eng) minLin(s *State, a, b *Lin) *Lin {
	if a.Key() == b.Key() {
		return a
	}
	if e.decide(s, le(a, b)) {
		return a
	}
	return b
}

func (e *Eng) doAppend(c *mcall) Val {
	st := c.st
	d, ok := c.args[0].(VSlice)
	if !ok {
		bail("append to %T", c.args[0])
	}
	var sa *Arr
	var so, sn *Lin
	switch s := c.args[1].(type) {
	case VSlice:
		if s.arr == nil {
			return d
		}
		sa, so, sn = e.arrOf(st, s.arr), s.off, s.len
	case VStr:
		sa, sn = e.sliceOfStr(st, s)
		so = cst(0)
	case VNil:
		return d
	default:
		bail("append of %T", c.args[1])
	}
	if nc, isc := st.constOf(sn); isc && nc == 0 {
		return d
	}
	nl := ladd(d.len, sn)
	isNil := fls
	if k := e.known(st, le(cst(1), sn)); k != 1 {
		isNil = fAnd(d.isNil, fEq(sn))
		if d.isNil.op != FFalse && isNil.op != FFalse {
			if e.decide(st, fEq(sn)) {
				return d
			}
			isNil = fls
		}
	}
	if d.arr != nil && e.decide(st, le(nl, d.cap)) {
		if st.poison[d.arr] {
			e.undecided("write through an alias of memory summarised by a loop (%s)", d.arr.name)
		}
		st.heap[d.arr] = e.arrCopy(st, e.arrOf(st, d.arr), ladd(d.off, d.len), sa, so, sn)
		if e.onStore != nil {
			e.onStore(st, VPtr{obj: d.arr, path: []Step{{idx: ladd(d.off, d.len)}}}, nil)
		}
		return VSlice{arr: d.arr, off: d.off, len: nl, cap: d.cap, isNil: isNil, elem: d.elem}
	}
	extra := e.fresh("grow", types.Typ[types.Int]).(VNum).l
	if e.starting { // package initialisation: one layout is enough
		extra = cst(0)
	}
	if !extra.isConst() {
		extra.t[0].a.boundLo(0)
	}
	nc := ladd(nl, extra)
	o := newObj("append", types.NewArray(d.elem, -1))
	a := &Arr{n: nc, elem: d.elem}
	if d.arr != nil {
		a = e.arrCopy(st, a, cst(0), e.arrOf(st, d.arr), d.off, d.len)
	}
	a = e.arrCopy(st, a, d.len, sa, so, sn)
	st.heap[o] = a
	return VSlice{arr: o, off: cst(0), len: nl, cap: nc, isNil: isNil, elem: d.elem}
}

// ---------------------------------------------------------------------------
// Intrinsics available to harnesses

var intrinsics map[string]modelFn

func constMsg(c *mcall, i int) string {
	if len(c.args) <= i {
		return ""
	}
	if s, ok := c.args[i].(VStr); ok && s.c != nil {
		return *s.c
	}
	return "?"
}

func init() {
	intrinsics = map[string]modelFn{
		"vAssert": func(c *mcall) Val {
			msg := constMsg(c, 1)
			f := c.e.form(c.args[0])
			if c.e.oblige(c.p, f, "assert", msg, c.in) {
				if c.e.quiet == 0 {
					c.e.checks[msg]++
				}
			} else {
				c.stop = true
			}
			return nil
		},
		"vAssume": func(c *mcall) Val {
			if !c.st.assume(c.e.form(c.args[0])) {
				c.stop = true
			}
			return nil
		},
		"vAny": func(c *mcall) Val { return c.e.fresh("any", c.res) },
		"vSym": func(c *mcall) Val { return symVal("in:"+constMsg(c, 0), c.res) },
		"vNonNil": func(c *mcall) Val { // fresh non-nil value
			v := c.e.fresh("nn", c.res)
			c.st.lemma(fNot(c.e.nilForm(v)))
			return v
		},
		"vErr": func(c *mcall) Val { // a non-nil error distinct by name
			k := "err:" + constMsg(c, 0)
			c.st.lemma(fNot(fAtom(UF("nil", k))))
			return VSym{k, c.res}
		},
		"vFail": func(c *mcall) Val { // an unknown error, possibly nil
			return c.e.fresh("mayerr", c.res)
		},
		"vTime": func(c *mcall) Val { // a non-zero time, n after some origin
			t := under(c.res).(*types.Struct)
			v := &VStruct{t: t, f: make([]Val, t.NumFields())}
			return v.set(0, VNum{l: cst(1)}).set(1, VNum{l: c.num(0)})
		},
		"vTag": func(c *mcall) Val { // a value of a struct type, recognisable by a number
			return setLeaf(zeroVal(c.res), c.num(0))
		},
		"vTagOf": func(c *mcall) Val { return leaf(ifaceVal(c.args[0])) },
		"vNanos": func(c *mcall) Val { return ifaceVal(c.args[0]).(*VStruct).get(1) },
		"vZeroTime": func(c *mcall) Val {
			return boolv(eqL(ifaceVal(c.args[0]).(*VStruct).get(0).(VNum).l, cst(0)))
		},
		"vLoop":  func(c *mcall) Val { return c.e.fresh("loop", types.Typ[types.Bool]) },
		"vTrack": func(c *mcall) Val { c.e.track = true; return nil },
		"vDead":  func(c *mcall) Val { c.stop = true; return nil },
		"vReach": func(c *mcall) Val { // must be reached on some path
			if c.e.quiet == 0 {
				c.e.reached[constMsg(c, 0)] = true
			}
			return nil
		},
		"vLocksHeld": func(c *mcall) Val {
			n := 0
			for _, v := range c.st.locks {
				if v != 0 {
					n++
				}
			}
			return numc(int64(n))
		},
		"vRunGo": func(c *mcall) Val { bail("vRunGo must be called as a statement of the harness"); return nil },
		"vDump": func(c *mcall) Val {
			if c.e.quiet == 0 {
				println("DUMP", constMsg(c, 0))
				for _, a := range c.args[1:] {
					println("   ", vkey(a))
					if sl, ok := a.(VSlice); ok {
						for i := int64(0); i < 8; i++ {
							if n, ok := c.st.constOf(sl.len); ok && i < n {
								v := c.e.arrGet(c.st, c.e.arrOf(c.st, sl.arr), laddc(sl.off, i))
								println("      ", vkey(v))
								if ifc, ok := v.(VIface); ok {
									if n, ok := ifc.v.(VNum); ok {
										println("        ", n.l.String())
									}
								}
							}
						}
					}
				}
				c.e.dumpState(c.st, nil)
			}
			return nil
		},
		"vRecvs": func(c *mcall) Val {
			o, ok := c.e.chanObj(c.p, ifaceVal(c.args[0]))
			if !ok {
				return numc(0)
			}
			return num(c.st.content(o).(*ChanC).recvs)
		},
		"vSends": func(c *mcall) Val {
			o, ok := c.e.chanObj(c.p, ifaceVal(c.args[0]))
			if !ok {
				return numc(0)
			}
			return num(c.st.content(o).(*ChanC).sends)
		},
		"vChanClosed": func(c *mcall) Val {
			o, ok := c.e.chanObj(c.p, ifaceVal(c.args[0]))
			if !ok {
				return boolv(fls)
			}
			return boolv(c.st.content(o).(*ChanC).closed)
		},
		"vSame": func(c *mcall) Val { // same memory / same reference
			a, b := ifaceVal(c.args[0]), ifaceVal(c.args[1])
			if x, ok := a.(VSlice); ok {
				if y, ok := b.(VSlice); ok {
					if x.arr == y.arr {
						return boolv(tru)
					}
					return boolv(fls)
				}
			}
			return boolv(c.e.eqVal(c.st, a, b, nil))
		},
		"vConst": func(c *mcall) Val { // value is a compile-time determined constant in the abstract state
			switch x := ifaceVal(c.args[0]).(type) {
			case VNum:
				if _, ok := c.st.constOf(x.l); ok {
					return boolv(tru)
				}
			case VStr:
				if x.c != nil {
					return boolv(tru)
				}
			case VBool:
				if x.f.op == FTrue || x.f.op == FFalse {
					return boolv(tru)
				}
			}
			return boolv(fls)
		},
		"vRange": func(c *mcall) Val {
			l, h := c.num(0), c.num(1)
			v := c.e.fresh("rng", types.Typ[types.Int]).(VNum)
			c.st.lemma(fAnd(le(l, v.l), le(v.l, h)))
			return v
		},
		"vHavoc": func(c *mcall) Val { c.e.havocArg(c.st, ifaceVal(c.args[0])); return nil },
		"vKeyEq": func(c *mcall) Val { // the two values are the same abstract value
			a, b := ifaceVal(c.args[0]), ifaceVal(c.args[1])
			if vkey(a) == vkey(b) {
				return boolv(tru)
			}
			return boolv(c.e.eqVal(c.st, a, b, nil))
		},
		"vElem": func(c *mcall) Val { return elVal("st:"+constMsg(c, 0), c.num(1), c.res) },
		"vStream": func(c *mcall) Val { // slice of length n whose element i is stream element off+i
			return c.e.streamSlice(c, constMsg(c, 0), c.num(1), c.num(2))
		},
		"vIsStream": func(c *mcall) Val { // slice content equals stream elements off..off+len
			return c.e.isStream(c, c.args[0], constMsg(c, 1), c.num(2))
		},
		"vStreamAt": func(c *mcall) Val { // position in the stream of the first byte, -1 if it is not from the stream
			return VNum{l: c.e.streamAt(c, c.args[0], constMsg(c, 1))}
		},
	}
}

func ifaceVal(v Val) Val {
	if i, ok := v.(VIface); ok {
		return i.v
	}
	return v
}

func (e *Eng) streamSlice(c *mcall, name string, off, n *Lin) Val {
	el := under(c.res).(*types.Slice).Elem()
	x := e.fresh("xcap", types.Typ[types.Int]).(VNum).l
	x.t[0].a.boundLo(0)
	o := newObj("stream", types.NewArray(el, -1))
	c.st.heap[o] = &Arr{n: ladd(n, x), elem: el, base: e.freshKey("beyond"), layers: []Layer{{lo: cst(0), hi: n, src: "st:" + name, shift: off}}}
	nilA := UF("nil", e.freshKey("stream"))
	implications[nilA] = &implication{onTrue: eqL(ladd(n, x), cst(0))}
	return VSlice{arr: o, off: cst(0), len: n, cap: ladd(n, x), isNil: fAtom(nilA), elem: el}
}

func (e *Eng) streamAt(c *mcall, v Val, name string) *Lin {
	s, ok := v.(VSlice)
	if !ok {
		bail("vStreamAt on %T", v)
	}
	if s.arr == nil || e.known(c.st, fEq(s.len)) == 1 {
		return cst(-1)
	}
	for _, l := range e.arrOf(c.st, s.arr).layers {
		if e.decide(c.st, fAnd(le(l.lo, s.off), lt(s.off, l.hi))) {
			if l.src == "st:"+name {
				return ladd(l.shift, s.off)
			}
			break
		}
	}
	return cst(-1)
}

// isStream is the formula-free check that every element i of the slice is stream element off+i.
func (e *Eng) isStream(c *mcall, v Val, name string, off *Lin) Val {
	s, ok := v.(VSlice)
	if !ok {
		bail("vIsStream on %T", v)
	}
	st := c.st
	if s.arr == nil || e.known(st, fEq(s.len)) == 1 {
		return boolv(tru)
	}
	a := e.arrOf(st, s.arr)
	// cover [s.off, s.off+s.len) from the left
	pos := s.off
	end := ladd(s.off, s.len)
	for iter := 0; iter < 12; iter++ {
		if e.decide(st, le(end, pos)) {
			return boolv(tru)
		}
		found := false
		for _, l := range a.layers {
			if !e.decide(st, fAnd(le(l.lo, pos), lt(pos, l.hi))) {
				continue
			}
			found = true
			if l.src != "st:"+name || e.known(st, eqL(ladd(l.shift, s.off), off)) != 1 {
				if e.dbg && e.quiet == 0 {
					println("vIsStream mismatch", l.src, "shift", ladd(l.shift, s.off).String(), "want", off.String())
				}
				return boolv(fls)
			}
			// the layer counts up to its end or the start of a newer layer above it
			nx := l.hi
			for _, m := range a.layers {
				if m.lo == l.lo && m.hi == l.hi {
					break
				}
				if e.decide(st, fAnd(lt(pos, m.lo), lt(m.lo, nx))) {
					nx = m.lo
				}
			}
			pos = nx
			break
		}
		if !found {
			if e.dbg && e.quiet == 0 {
				println("vIsStream: not covered at", pos.String(), vkey(a))
			}
			return boolv(fls)
		}
	}
	return boolv(fls)
}

var _ = token.NoPos

// setLeaf replaces the first number of a struct.
func setLeaf(v Val, n *Lin) Val {
	if s, ok := v.(*VStruct); ok {
		return s.set(0, setLeaf(s.get(0), n))
	}
	return VNum{l: n}
}

func leaf(v Val) Val {
	for {
		s, ok := v.(*VStruct)
		if !ok {
			return v
		}
		v = s.get(0)
	}
}
