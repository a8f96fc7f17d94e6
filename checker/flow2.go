package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *fexec) clearAs(it *fitem, v ssa.Value) {
	if _, ok := it.as[v]; ok {
		n := map[ssa.Value]bool{}
		for k, t := range it.as {
			if k != v {
				n[k] = t
			}
		}
		it.as = n
	}
}

// anew marks an object as not shared: it has just been allocated (again).
func (x *fexec) anew(it *fitem, r *fref) {
	if it.st.pub[r] {
		it.st = it.st.clone()
		delete(it.st.pub, r)
	}
	if len(it.st.ov) > 0 {
		it.st.dropOv(r)
		x.a.ov = it.st.ov
	}
}

func (x *fexec) step(it fitem) {
	a := x.a
	b := it.b
	for i := it.i; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		x.cur, a.ov = it.st.pub, it.st.ov
		if v, ok := in.(ssa.Value); ok && len(it.as) > 0 {
			x.clearAs(&it, v)
		}
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			for j, p := range b.Preds {
				if p == it.pred {
					x.set(in, x.val(in.Edges[j]))
				}
			}
		case *ssa.Alloc:
			r := a.mk(rAlloc, nil, fmt.Sprintf("new %s@%d/%p", in.Comment, x.id, in), in.Type().Underlying().(*types.Pointer).Elem())
			r.pos = in.Pos()
			x.set(in, fval{r})
			x.anew(&it, r)
		case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
			v := in.(ssa.Value)
			r := a.mk(rAlloc, nil, fmt.Sprintf("make@%d/%p", x.id, in), v.Type())
			r.pos = in.Pos()
			x.set(v, fval{r})
			x.anew(&it, r)
		case *ssa.MakeClosure:
			fn := in.Fn.(*ssa.Function)
			r := a.mk(rFunc, nil, fmt.Sprintf("%p@%d/%p", fn, x.id, in), in.Type())
			r.fn = fn
			if r.binds == nil {
				r.binds = make([]fval, len(in.Bindings))
			}
			for j, bv := range in.Bindings {
				n := joinVal(r.binds[j], x.val(bv))
				if len(n) != len(r.binds[j]) {
					r.binds[j] = n
					x.changed = true
				}
			}
			x.set(in, fval{r})
		case *ssa.FieldAddr:
			st := in.X.Type().Underlying().(*types.Pointer).Elem()
			var v fval
			for _, r := range x.val(in.X) {
				v = joinVal(v, fval{a.field(r, st, in.Field)})
			}
			x.set(in, v)
		case *ssa.Field:
			if hasRefs(in.Type()) {
				_, s := structOf(in.X.Type())
				var v fval
				for _, r := range x.val(in.X) {
					if s == nil || fieldMayHold(r, s.Field(in.Field)) {
						v = append(v, r)
					}
				}
				x.set(in, v)
			}
		case *ssa.IndexAddr:
			var et types.Type
			switch u := in.X.Type().Underlying().(type) {
			case *types.Slice:
				et = u.Elem()
			case *types.Pointer:
				et = u.Elem().Underlying().(*types.Array).Elem()
			default:
				et = in.Type().Underlying().(*types.Pointer).Elem()
			}
			var v fval
			for _, r := range x.val(in.X) {
				v = joinVal(v, fval{a.elem(r, et)})
			}
			x.set(in, v)
		case *ssa.Index:
			if hasRefs(in.Type()) {
				x.set(in, x.val(in.X))
			}
		case *ssa.UnOp:
			switch in.Op {
			case token.MUL:
				tok := fmt.Sprintf("%d/%p", x.id, in)
				var v fval
				for _, loc := range x.val(in.X) {
					x.access1(it.st, loc, false, in, x.val(in.X))
					v = joinVal(v, x.load(loc, in.Type(), tok))
				}
				x.set(in, v)
			case token.ARROW:
				x.wait(&it, in, "recv", []fval{x.val(in.X)}, []bool{true})
				if hasRefs(in.Type()) {
					var v fval
					for _, r := range x.val(in.X) {
						if el := a.elem(r, in.X.Type().Underlying().(*types.Chan).Elem()); r.root().kind == rAlloc {
							v = joinVal(v, a.at(el))
						} else {
							v = joinVal(v, fval{a.pointee(el, in.Type(), fmt.Sprintf("%d/%p", x.id, in))})
						}
					}
					x.set(in, v)
				}
			default:
				x.set(in, x.val(in.X))
			}
		case *ssa.Store:
			it.st = it.st.clone()
			x.store(&it.st, x.val(in.Addr), x.val(in.Val), in.Val.Type(), in)
		case *ssa.MapUpdate:
			it.st = it.st.clone()
			mt := in.Map.Type().Underlying().(*types.Map)
			var locs fval
			for _, r := range x.val(in.Map) {
				locs = joinVal(locs, fval{a.elem(r, mt.Elem())})
			}
			x.store(&it.st, locs, joinVal(x.val(in.Value), x.val(in.Key)), mt.Elem(), in)
		case *ssa.Lookup:
			if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
				var v fval
				for _, r := range x.val(in.X) {
					el := a.elem(r, mt.Elem())
					x.access(it.st, el, false, in)
					v = joinVal(v, x.load(el, mt.Elem(), fmt.Sprintf("%d/%p", x.id, in)))
				}
				x.set(in, v)
			}
		case *ssa.Range:
			x.set(in, x.val(in.X))
		case *ssa.Next:
			if rg, ok := in.Iter.(*ssa.Range); ok && !in.IsString {
				mt := rg.X.Type().Underlying().(*types.Map)
				var v fval
				for _, r := range x.val(rg) {
					el := a.elem(r, mt.Elem())
					x.access(it.st, el, false, in)
					v = joinVal(v, x.load(el, mt.Elem(), fmt.Sprintf("%d/%p", x.id, in)))
				}
				x.set(in, v)
			}
		case *ssa.Extract:
			if hasRefs(in.Type()) {
				x.set(in, x.extract(in))
			}
		case *ssa.Slice:
			// slicing an array location or a slice keeps the memory
			x.set(in, x.val(in.X))
		case *ssa.ChangeType:
			x.set(in, x.val(in.X))
		case *ssa.ChangeInterface:
			x.set(in, x.val(in.X))
		case *ssa.MakeInterface:
			x.set(in, x.val(in.X))
		case *ssa.TypeAssert:
			x.set(in, x.val(in.X))
		case *ssa.SliceToArrayPointer:
			x.set(in, x.val(in.X))
		case *ssa.MultiConvert:
			x.set(in, x.convert(in, in.X))
		case *ssa.Convert:
			x.set(in, x.convert(in, in.X))
		case *ssa.BinOp:
		case *ssa.Send:
			it.st = it.st.clone()
			x.wait(&it, in, "send", []fval{x.val(in.Chan)}, []bool{false})
			x.send(&it, in, x.val(in.Chan), x.val(in.X), in.X.Type())
		case *ssa.Select:
			it.st = it.st.clone()
			var chs []fval
			var rc []bool
			for _, s := range in.States {
				chs = append(chs, x.val(s.Chan))
				rc = append(rc, s.Dir == types.RecvOnly)
				if s.Dir == types.SendOnly {
					x.send(&it, in, x.val(s.Chan), x.val(s.Send), s.Send.Type())
				}
			}
			if in.Blocking {
				x.wait(&it, in, "select", chs, rc)
			}
			var v fval
			for _, s := range in.States {
				if s.Dir == types.RecvOnly {
					et := s.Chan.Type().Underlying().(*types.Chan).Elem()
					if hasRefs(et) {
						for _, r := range x.val(s.Chan) {
							el := a.elem(r, et)
							if r.root().kind == rAlloc {
								v = joinVal(v, a.at(el))
							} else {
								v = joinVal(v, fval{a.pointee(el, et, fmt.Sprintf("%d/%p", x.id, in))})
							}
						}
					}
				}
			}
			x.set(in, v)
		case *ssa.Defer:
			it.defers = append(append([]*ssa.Defer(nil), it.defers...), in)
			for _, arg := range in.Call.Args {
				_ = arg
			}
		case *ssa.Go:
			it.st = it.st.clone()
			x.goCall(&it, in)
		case *ssa.RunDefers:
			states := []fstate{it.st}
			for j := len(it.defers) - 1; j >= 0; j-- {
				d := it.defers[j]
				var next []fstate
				seen := map[string]bool{}
				for _, s := range states {
					for _, ex := range x.call(s, d, &d.Call, nil) {
						if k := ex.st.key(); !seen[k] {
							seen[k] = true
							next = append(next, ex.st)
						}
					}
				}
				states = next
			}
			if len(states) == 1 {
				it.st = states[0]
				it.defers = nil
				continue
			}
			for _, s := range states {
				x.push(fitem{b: b, i: i + 1, pred: it.pred, st: s, as: it.as})
			}
			return
		case *ssa.Call:
			exits := x.call(it.st, in, &in.Call, in)
			if len(exits) == 1 {
				it.st = exits[0].st
				continue
			}
			for _, ex := range exits {
				as := it.as
				x.push(fitem{b: b, i: i + 1, pred: it.pred, st: ex.st, defers: it.defers, as: as})
			}
			return
		case *ssa.If:
			c := in.Cond
			neg := false
			for {
				if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
					c, neg = u.X, !neg
					continue
				}
				break
			}
			for k := 0; k < 2; k++ {
				truth := (k == 0) != neg
				if cc, ok := c.(*ssa.Const); ok {
					if constant.BoolVal(cc.Value) != truth {
						continue
					}
				}
				if t, ok := it.as[c]; ok && t != truth {
					continue
				}
				as := it.as
				if _, ok := as[c]; !ok && multiIf(c) {
					n := map[ssa.Value]bool{c: truth}
					for kk, t := range as {
						n[kk] = t
					}
					as = n
				}
				if impossibleNil(c, truth, x) {
					continue
				}
				st := it.st
				if b.Succs[k].Dominates(b) {
					st.ov = nil
				}
				x.push(fitem{b: b.Succs[k], pred: b, st: st, defers: it.defers, as: as})
			}
			return
		case *ssa.Jump:
			if b.Succs[0].Dominates(b) {
				it.st.ov = nil // next iteration
			}
			x.push(fitem{b: b.Succs[0], pred: b, st: it.st, defers: it.defers, as: it.as})
			return
		case *ssa.Return:
			var res []fval
			for _, r := range in.Results {
				res = append(res, x.val(r))
			}
			k := it.st.key()
			if j, ok := x.exitKeys[k]; ok {
				for q := range res {
					x.exits[j].res[q] = joinVal(x.exits[j].res[q], res[q])
				}
			} else {
				x.exitKeys[k] = len(x.exits)
				x.exits = append(x.exits, fexit{it.st, res})
			}
			return
		case *ssa.Panic:
			return
		default:
			panic(engErr{fmt.Sprintf("instruction %T in %s", in, fnName(x.fn))})
		}
	}
}

// impossibleNil prunes `m == nil` checks on the receiver of a method being analysed as a root.
func impossibleNil(c ssa.Value, truth bool, x *fexec) bool { return false }

// multiIf reports whether a condition decides several branches.
func multiIf(c ssa.Value) bool {
	rs := c.Referrers()
	if rs == nil {
		return false
	}
	n := 0
	for _, r := range *rs {
		switch r := r.(type) {
		case *ssa.If:
			n++
		case *ssa.UnOp:
			if rr := r.Referrers(); rr != nil {
				for _, q := range *rr {
					if _, ok := q.(*ssa.If); ok {
						n++
					}
				}
			}
		}
	}
	if cl, ok := c.(*ssa.Call); ok {
		if f := cl.Call.StaticCallee(); f != nil && strings.HasSuffix(f.Name(), "TryLock") {
			return true
		}
	}
	return n > 1
}

func (x *fexec) extract(in *ssa.Extract) fval {
	v := x.env[in.Tuple]
	if c, ok := in.Tuple.(*ssa.Call); ok {
		if rs, ok := x.a.tuples()[tupKey{x.id, c}]; ok && in.Index < len(rs) {
			return rs[in.Index]
		}
	}
	return v
}

type tupKey struct {
	id int
	c  *ssa.Call
}

var flowTuples = map[tupKey][]fval{}

func (a *flow) tuples() map[tupKey][]fval { return flowTuples }

func (x *fexec) convert(in ssa.Value, v ssa.Value) fval {
	// conversions between strings and slices copy
	from, to := v.Type().Underlying(), in.Type().Underlying()
	_, fb := from.(*types.Basic)
	_, tb := to.(*types.Basic)
	_, fs := from.(*types.Slice)
	_, ts := to.(*types.Slice)
	if (fb && ts) || (fs && tb) {
		if ts {
			return fval{x.a.mk(rAlloc, nil, fmt.Sprintf("conv@%d/%p", x.id, in), in.Type())}
		}
		return nil
	}
	if !hasRefs(in.Type()) {
		return nil
	}
	return x.val(v)
}

func (x *fexec) send(it *fitem, in ssa.Instruction, chs, v fval, t types.Type) {
	a := x.a
	if len(v) == 0 {
		return
	}
	for _, c := range chs {
		a.flowEv("send", a.elem(c, t), v, in, 0)
		if c.root().kind == rAlloc {
			x.putAgg(a.elem(c, t), t, v)
		}
	}
	x.publish(&it.st, v)
}

func (x *fexec) wait(it *fitem, in ssa.Instruction, what string, chs []fval, rc []bool) {
	a := x.a
	var b strings.Builder
	fmt.Fprintf(&b, "%s|%p|%p|%s|", what, in, a.thread, a.root.name)
	for _, c := range chs {
		b.WriteString(c.key())
		b.WriteByte(';')
	}
	for _, l := range it.st.locks {
		b.WriteString(l.tok + ";")
	}
	k := b.String()
	if a.waits[k] == nil {
		a.waits[k] = &waitEvent{what, chs, rc, append([]lockHeld(nil), it.st.locks...), a.root, a.thread, in}
	}
}

func (x *fexec) goCall(it *fitem, in *ssa.Go) {
	a := x.a
	cc := &in.Call
	var args []fval
	if cc.IsInvoke() {
		x.publish(&it.st, x.val(cc.Value))
	}
	for _, v := range cc.Args {
		args = append(args, x.val(v))
		x.publish(&it.st, x.val(v))
		a.flowEv("send", nil, x.val(v), in, 0)
	}
	for _, tgt := range x.callees(cc) {
		for _, bv := range tgt.binds {
			x.publish(&it.st, bv)
			a.flowEv("send", nil, bv, in, 0)
		}
		x.spawn(it, in, tgt.fn, args, tgt.binds)
	}
}

func (x *fexec) spawn(it *fitem, in ssa.Instruction, fn *ssa.Function, args, binds []fval) {
	a := x.a
	if len(fn.Blocks) == 0 {
		return
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%p|%p|", in, fn)
	for _, v := range args {
		b.WriteString(v.key() + ";")
	}
	for _, v := range binds {
		b.WriteString(v.key() + ";")
	}
	k := b.String()
	if a.seenGo[k] {
		return
	}
	a.seenGo[k] = true
	pub := map[*fref]bool{}
	for r := range it.st.pub {
		pub[r] = true
	}
	a.pend = append(a.pend, pendGo{in, fn, args, binds, pub})
}

type target struct {
	fn    *ssa.Function
	binds []fval
}

// callees resolves a call that is not an interface call.
func (x *fexec) callees(cc *ssa.CallCommon) []target {
	a := x.a
	if f := cc.StaticCallee(); f != nil {
		var binds []fval
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				binds = append(binds, x.val(b))
			}
		}
		return []target{{a.body(f), binds}}
	}
	if cc.IsInvoke() {
		return nil
	}
	var out []target
	unknown := false
	vs := x.val(cc.Value)
	for _, r := range vs {
		if r.kind == rFunc {
			out = append(out, target{a.body(r.fn), r.binds})
		} else {
			unknown = true
		}
	}
	if unknown {
		sig := cc.Signature()
		have := map[*ssa.Function]bool{}
		for _, t := range out {
			have[t.fn] = true
		}
		for _, f := range a.taken {
			if have[f] || f.Signature.Recv() != nil || !types.Identical(f.Signature, sig) || sig.Params().Len() == 0 {
				continue
			}
			have[f] = true
			var binds []fval
			for _, fv := range f.FreeVars {
				binds = append(binds, fval{a.mk(rUnknown, nil, fmt.Sprintf("free %s %p", fv.Name(), fv), fv.Type().Underlying().(*types.Pointer).Elem())})
			}
			out = append(out, target{f, binds})
		}
	}
	return out
}

// body finds the function with a body: the origin of an instance that has none.
func (a *flow) body(f *ssa.Function) *ssa.Function {
	if len(f.Blocks) == 0 {
		if o := f.Origin(); o != nil && len(o.Blocks) > 0 {
			return o
		}
	}
	return f
}

func dedupExits(exits []fexit) []fexit {
	if len(exits) < 2 {
		return exits
	}
	m := map[string]int{}
	var out []fexit
	for _, e := range exits {
		k := e.st.key()
		if j, ok := m[k]; ok {
			res := append([]fval(nil), out[j].res...)
			for i := range e.res {
				if i < len(res) {
					res[i] = joinVal(res[i], e.res[i])
				} else {
					res = append(res, e.res[i])
				}
			}
			out[j].res = res
			continue
		}
		m[k] = len(out)
		out = append(out, e)
	}
	return out
}

func (x *fexec) call(st fstate, in ssa.Instruction, cc *ssa.CallCommon, res *ssa.Call) []fexit {
	a := x.a
	exits := x.call1(st, in, cc)
	exits = dedupExits(exits)
	if res != nil {
		tk := tupKey{x.id, res}
		for _, e := range exits {
			if len(e.res) == 1 && res.Call.Signature().Results().Len() == 1 {
				x.set(res, e.res[0])
			} else if len(e.res) > 1 {
				old := a.tuples()[tk]
				if old == nil {
					old = make([]fval, len(e.res))
				}
				for i := range e.res {
					if i >= len(old) {
						break
					}
					n := joinVal(old[i], e.res[i])
					if len(n) != len(old[i]) {
						old[i] = n
						x.changed = true
					}
				}
				a.tuples()[tk] = old
			}
		}
	}
	return exits
}

func (x *fexec) argVals(cc *ssa.CallCommon) []fval {
	var args []fval
	for _, v := range cc.Args {
		args = append(args, x.val(v))
	}
	return args
}

func (x *fexec) opaque(st *fstate, in ssa.Instruction, name string, recv fval, args []fval, static bool) {
	a := x.a
	var b strings.Builder
	fmt.Fprintf(&b, "%s|%p|%p|%s|%s|", name, in, a.thread, a.root.name, recv.key())
	for _, l := range st.locks {
		b.WriteString(l.tok + ";")
	}
	b.WriteString(st.key())
	k := b.String()
	if a.calls[k] == nil {
		a.calls[k] = &callEvent{name, recv, args, append([]lockHeld(nil), st.locks...), a.root, a.thread, in, static, st.clone()}
	}
}

func (x *fexec) call1(st fstate, in ssa.Instruction, cc *ssa.CallCommon) []fexit {
	a := x.a
	x.cur, a.ov = st.pub, st.ov
	args := x.argVals(cc)
	sig := cc.Signature()
	unk := func() []fval {
		var out []fval
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			if hasRefs(t) {
				out = append(out, fval{a.unknown(in, i, t)})
			} else {
				out = append(out, nil)
			}
		}
		return out
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(st, in, cc, bi, args)
	}
	if cc.IsInvoke() {
		recv := x.val(cc.Value)
		name := cc.Method.Name()
		s := st.clone()
		x.opaque(&s, in, name, recv, args, false)
		for _, arg := range args {
			for _, r := range arg {
				if r.kind == rField || r.kind == rElem {
					x.access(s, r, false, in)
				}
			}
		}
		x.retain(&s, in, cc, args)
		if name == "Close" && len(cc.Args) == 0 {
			for _, r := range recv {
				s.calls["Close "+recvKey(r)] = true
			}
		}
		return []fexit{{s, unk()}}
	}
	tg := x.callees(cc)
	if f := cc.StaticCallee(); f != nil {
		if ex, ok := x.special(st, in, cc, f, args); ok {
			return ex
		}
		if len(tg[0].fn.Blocks) == 0 {
			return x.external(st, in, cc, f, args, unk())
		}
	}
	var out []fexit
	dynamic := cc.StaticCallee() == nil
	if dynamic {
		s := st.clone()
		unknown := len(tg) == 0
		for _, r := range x.val(cc.Value) {
			if r.kind != rFunc {
				unknown = true
			}
		}
		if unknown {
			x.opaque(&s, in, "func "+valueName(cc.Value), x.val(cc.Value), args, false)
			out = append(out, fexit{s, unk()})
		}
	}
	for _, t := range tg {
		if len(t.fn.Blocks) == 0 {
			out = append(out, fexit{st.clone(), unk()})
			continue
		}
		out = append(out, a.run(t.fn, in, args, t.binds, st)...)
	}
	return out
}

func valueName(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok {
		if f, ok := u.X.(*ssa.FieldAddr); ok {
			_, s := structOf(f.X.Type().Underlying().(*types.Pointer).Elem())
			return s.Field(f.Field).Name()
		}
	}
	return v.Name()
}

func recvKey(r *fref) string {
	for x := r; x != nil; x = x.parent {
		if x.kind == rField {
			return chanKey(x)
		}
	}
	return "?"
}

func (x *fexec) builtin(st fstate, in ssa.Instruction, cc *ssa.CallCommon, bi *ssa.Builtin, args []fval) []fexit {
	a := x.a
	s := st.clone()
	elemT := func(i int) types.Type {
		switch u := cc.Args[i].Type().Underlying().(type) {
		case *types.Slice:
			return u.Elem()
		case *types.Map:
			return u.Elem()
		case *types.Interface: // type parameter
			return types.Typ[types.Int16]
		}
		return types.Typ[types.Byte]
	}
	touch := func(i int, write bool) {
		if _, ok := cc.Args[i].Type().Underlying().(*types.Basic); ok {
			return
		}
		var all fval
		for _, r := range args[i] {
			all = append(all, a.elem(r, elemT(i)))
		}
		for _, r := range all {
			x.access1(s, r, write, in, all)
		}
	}
	contents := func(i int) fval {
		var v fval
		et := elemT(i)
		if !hasRefs(et) {
			return nil
		}
		for _, r := range args[i] {
			v = joinVal(v, x.load(a.elem(r, et), et, fmt.Sprintf("%d/%p", x.id, in)))
		}
		return v
	}
	switch bi.Name() {
	case "append":
		fresh := a.mk(rAlloc, nil, fmt.Sprintf("append@%d/%p", x.id, in), cc.Args[0].Type())
		res := joinVal(args[0], fval{fresh})
		if len(args) > 1 {
			touch(1, false)
			if len(args[0]) > 0 {
				for _, r := range args[0] {
					if r != fresh {
						x.access(s, a.elem(r, elemT(0)), true, in)
						a.flowEv("append", a.elem(r, elemT(0)), fval{r}, in, 0)
					}
				}
			}
			if _, ok := cc.Args[1].Type().Underlying().(*types.Basic); !ok {
				c := joinVal(contents(1), contents(0))
				if len(c) > 0 {
					for _, r := range res {
						x.store(&s, fval{a.elem(r, elemT(0))}, c, elemT(0), in)
					}
				}
			}
		}
		if cn, ok := cc.Args[0].(*ssa.Const); ok && cn.IsNil() {
			res = fval{fresh}
		}
		return []fexit{{s, []fval{res}}}
	case "copy":
		touch(1, false)
		touch(0, true)
		if c := contents(1); len(c) > 0 {
			var locs fval
			for _, r := range args[0] {
				locs = joinVal(locs, fval{a.elem(r, elemT(0))})
			}
			x.store(&s, locs, c, elemT(0), in)
		}
	case "delete", "clear":
		touch(0, true)
	case "len", "cap":
		if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			touch(0, false)
		}
	case "close":
		for _, r := range args[0] {
			if k := chanValKey(r); k != "" {
				s.done["chan "+k] = true
				x.opaque(&s, in, "break chan "+k, fval{r}, nil, true)
			}
		}
	case "recover":
		return []fexit{{s, []fval{nil}}}
	case "ssa:wrapnilchk":
		return []fexit{{s, []fval{args[0]}}}
	case "min", "max", "print", "println", "panic", "real", "imag", "complex":
	case "Slice", "SliceData", "String", "StringData", "Add":
		return []fexit{{s, []fval{args[0]}}}
	}
	return []fexit{{s, []fval{nil}}}
}

func lockTok(v fval) string { return v.key() }

func (x *fexec) special(st fstate, in ssa.Instruction, cc *ssa.CallCommon, f *ssa.Function, args []fval) ([]fexit, bool) {
	a := x.a
	name := f.String()
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
		write := !strings.Contains(name, "RLock")
		try := strings.Contains(name, "Try")
		l := lockHeld{lockTok(args[0]), args[0], write}
		s := st.clone()
		a.nlocks++
		for _, h := range st.locks {
			if h.tok == l.tok || overlaps(h.refs, l.refs) {
				if !try {
					a.issue("lock "+l.name()+" is acquired while it is already held", in, x.fn)
				}
			} else if !try {
				k := h.name() + "|" + l.name() + "|" + fmt.Sprintf("%p", in) + a.root.name
				if a.orders[k] == nil {
					a.orders[k] = &orderEvent{h.name(), l.name(), h.refs, l.refs, a.root, in}
				}
			}
		}
		s.locks = append(s.locks, l)
		s.acq[l.name()] = true
		if try {
			return []fexit{{st.clone(), []fval{nil}}, {s, []fval{nil}}}, true
		}
		return []fexit{{s, nil}}, true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		write := !strings.Contains(name, "RUnlock")
		tok := lockTok(args[0])
		s := st.clone()
		for i := len(s.locks) - 1; i >= 0; i-- {
			if s.locks[i].tok == tok {
				if s.locks[i].write != write {
					a.issue("lock "+s.locks[i].name()+" is released in the wrong mode", in, x.fn)
				}
				s.locks = append(s.locks[:i:i], s.locks[i+1:]...)
				return []fexit{{s, nil}}, true
			}
		}
		a.issue("lock "+lockHeld{tok, args[0], write}.name()+" is released while it is not held", in, x.fn)
		return []fexit{{s, nil}}, true
	case "(*sync.Once).Do":
		s := st.clone()
		out := []fexit{}
		for _, r := range args[1] {
			if r.kind == rFunc {
				for _, e := range a.run(a.body(r.fn), in, nil, r.binds, s) {
					out = append(out, fexit{e.st, nil})
				}
			}
		}
		if len(out) == 0 {
			out = append(out, fexit{s, nil})
		}
		return out, true
	case "(*github.com/frostbyte73/core.Fuse).Watch":
		// the fuse has its own lock
		return x.fuse(st, in, args, nil, false), true
	case "(*github.com/frostbyte73/core.Fuse).IsBroken":
		return []fexit{{st.clone(), []fval{nil}}}, true
	case "(*github.com/frostbyte73/core.Fuse).Break":
		return x.fuse(st, in, args, nil, true), true
	case "(*github.com/frostbyte73/core.Fuse).Once":
		return x.fuse(st, in, args[:1], args[1], true), true
	case "runtime.AddCleanup", "runtime.SetFinalizer", "time.AfterFunc":
		s := st.clone()
		it := &fitem{st: s}
		for i, v := range args {
			for _, r := range v {
				if r.kind == rFunc {
					var as []fval
					if name == "runtime.AddCleanup" && i == 1 && len(args) > 2 {
						as = []fval{args[2]}
					} else if name == "runtime.SetFinalizer" {
						as = []fval{args[0]}
					}
					for _, b := range r.binds {
						x.publish(&it.st, b)
					}
					x.spawn(it, in, a.body(r.fn), as, r.binds)
				}
			}
		}
		return []fexit{{it.st, []fval{nil}}}, true
	}
	return nil, false
}

func overlaps(p, q fval) bool {
	for _, r := range p {
		for _, s := range q {
			if r == s {
				return true
			}
		}
	}
	return false
}

// fuse models core.Fuse: Watch, Break and Once take the fuse's own lock; Once runs the callback under it.
func (x *fexec) fuse(st fstate, in ssa.Instruction, args []fval, cb fval, breaks bool) []fexit {
	a := x.a
	s := st.clone()
	var refs fval
	for _, r := range args[0] {
		refs = append(refs, r)
	}
	l := lockHeld{"fuse" + lockTok(refs), refs, true}
	for _, h := range st.locks {
		if h.tok == l.tok {
			a.issue("fuse "+l.name()+" is used from its own callback", in, x.fn)
			continue
		}
		k := h.name() + "|" + l.name() + "|" + fmt.Sprintf("%p", in) + a.root.name
		if a.orders[k] == nil {
			a.orders[k] = &orderEvent{h.name(), l.name(), h.refs, l.refs, a.root, in}
		}
	}
	var out []fexit
	if len(cb) > 0 {
		for _, r := range cb {
			if r.kind != rFunc {
				continue
			}
			s2 := s.clone()
			s2.locks = append(s2.locks, l)
			for _, e := range a.run(a.body(r.fn), in, nil, r.binds, s2) {
				n := e.st.clone()
				for i := len(n.locks) - 1; i >= 0; i-- {
					if n.locks[i].tok == l.tok {
						n.locks = append(n.locks[:i:i], n.locks[i+1:]...)
						break
					}
				}
				out = append(out, fexit{n, nil})
			}
		}
	}
	if len(out) == 0 {
		out = append(out, fexit{s, nil})
	}
	if breaks {
		for i := range out {
			for _, r := range refs {
				if r.kind == rField {
					out[i].st.done["fuse "+chanKey(r)] = true
					x.opaque(&out[i].st, in, "break fuse "+chanKey(r), refs, nil, true)
				}
			}
		}
		for i := range out {
			out[i].res = []fval{nil}
		}
		return out
	}
	// Watch returns the channel of the fuse
	var v fval
	for _, r := range refs {
		w := a.mk(rField, r, "<watch>", nil)
		v = joinVal(v, fval{a.mk(rDeref, w, "", nil)})
	}
	for i := range out {
		out[i].res = []fval{v}
	}
	return out
}

// retain handles interface methods of external packages that keep what they are given.
func (x *fexec) retain(st *fstate, in ssa.Instruction, cc *ssa.CallCommon, args []fval) {
	recvT := ""
	if n, ok := types.Unalias(cc.Value.Type()).(*types.Named); ok && n.Obj().Pkg() != nil {
		recvT = n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	keeps := false
	switch {
	case strings.HasPrefix(recvT, "github.com/at-wat/ebml-go/") && cc.Method.Name() == "Write":
		keeps = true
	case strings.HasSuffix(recvT, "media-sdk.MediaSampleWriter"):
		keeps = true
	}
	if keeps {
		for _, v := range args {
			if len(v) > 0 {
				x.a.flowEv("send", nil, v, in, 1)
			}
		}
	}
}

// external handles functions without source.
func (x *fexec) external(st fstate, in ssa.Instruction, cc *ssa.CallCommon, f *ssa.Function, args []fval, unk []fval) []fexit {
	a := x.a
	s := st.clone()
	name := f.String()
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		pkg = o.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	base := f.Name()
	if i := strings.IndexByte(base, '['); i > 0 {
		base = base[:i]
	}
	x.opaque(&s, in, name, nil, args, true)
	all := func() fval {
		var v fval
		for _, w := range args {
			v = joinVal(v, w)
		}
		return v
	}
	fresh := func() fval {
		return fval{a.mk(rAlloc, nil, fmt.Sprintf("ext %s@%d/%p", base, x.id, in), nil)}
	}
	res := unk
	elemOf := func(i int) (types.Type, bool) {
		switch u := cc.Args[i].Type().Underlying().(type) {
		case *types.Slice:
			return u.Elem(), true
		case *types.Map:
			return u.Elem(), true
		}
		return nil, false
	}
	rd := func(i int, write bool) {
		et, ok := elemOf(i)
		if !ok {
			et = types.Typ[types.Byte]
		}
		for _, r := range args[i] {
			x.access(s, a.elem(r, et), write, in)
		}
	}
	switch {
	case pkg == "sync" || pkg == "sync/atomic":
		if strings.Contains(name, "atomic.Pointer") && (base == "Store" || base == "Swap" || base == "CompareAndSwap") {
			for _, v := range args[1:] {
				x.publish(&s, v)
				if len(args[0]) > 0 {
					a.flowEv("store", args[0][0], v, in, 0)
				}
			}
		}
	case pkg == "slices" || pkg == "bytes" || pkg == "maps" || strings.HasPrefix(pkg, "golang.org/x/exp"):
		switch base {
		case "Clone", "Keys", "Values", "Collect", "Sorted":
			for i := range args {
				rd(i, false)
			}
			fr := fresh()
			if et, ok := elemOf(0); ok && hasRefs(et) && base == "Clone" {
				for _, r := range args[0] {
					x.putAgg(a.elem(fr[0], et), et, x.load(a.elem(r, et), et, fmt.Sprintf("%d/%p", x.id, in)))
				}
			}
			res = []fval{fr}
		case "Sort", "SortFunc", "SortStableFunc", "Reverse", "DeleteFunc", "Clear":
			rd(0, true)
			res = []fval{args[0]}
		case "Delete", "Insert", "Replace", "Compact", "CompactFunc":
			rd(0, true)
			res = []fval{all()}
		case "Grow", "Clip":
			res = []fval{joinVal(args[0], fresh())}
		default:
			for i := range args {
				if _, ok := elemOf(i); ok {
					rd(i, false)
				}
			}
			if len(unk) > 0 && len(unk[0]) > 0 {
				res = []fval{all()}
			}
		}
	case base == "Clone":
		res = []fval{fresh()}
	case strings.HasSuffix(name, ".Unmarshal") && f.Signature.Recv() != nil && len(args) == 2:
		// keeps a reference to the buffer
		for _, r := range args[0] {
			x.access(s, r, true, in)
			if r.root().kind == rAlloc {
				x.wst, x.strong, x.anyField = &s, false, true
				if t := r.typ; t != nil {
					x.putAgg(r, t, args[1])
				} else {
					x.putLeaf(r, args[1])
				}
				x.wst, x.anyField = nil, false
				a.ov = s.ov
			} else {
				a.flowEv("store", r, args[1], in, 0)
			}
		}
		if len(unk) == 2 {
			res = []fval{nil, unk[1]}
		} else if len(unk) == 1 {
			res = unk
		}
	case strings.HasPrefix(name, "(encoding/binary.") && strings.Contains(base, "Put"):
		rd(1, true)
	case pkg == "fmt" || pkg == "errors" || pkg == "strings" || pkg == "strconv" || pkg == "time" || pkg == "math" || pkg == "os" || pkg == "io" || pkg == "bufio" || pkg == "net":
		// strings and errors only; results do not alias the arguments
		for i, v := range args {
			if p, ok := cc.Args[i].Type().Underlying().(*types.Pointer); ok && i == 0 && f.Signature.Recv() != nil {
				_ = p
				continue
			}
			for _, r := range v {
				if r.kind == rField || r.kind == rElem {
					x.access(s, r, false, in)
				}
			}
		}
	default:
		for i, v := range args {
			for _, r := range v {
				if r.kind == rField || r.kind == rElem || r.kind == rDeref {
					w := i == 0 && f.Signature.Recv() != nil && !isSyncType(cc.Args[i].Type())
					if r.kind == rDeref {
						continue
					}
					x.access(s, r, w && r.kind == rField, in)
				}
			}
		}
	}
	// callbacks given to library functions run during the call
	exits := []fexit{{s, res}}
	for _, v := range args {
		for _, r := range v {
			if r.kind == rFunc && a.inRepo(r.fn) {
				var cbArgs []fval
				for range r.fn.Params {
					cbArgs = append(cbArgs, nil)
				}
				for _, e := range a.run(a.body(r.fn), in, cbArgs, r.binds, s) {
					exits = append(exits, fexit{e.st, res})
				}
			}
		}
	}
	return exits
}
