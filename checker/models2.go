package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	models["slices.Delete"] = func(c *mcall) Val {
		d := c.sl(0)
		i, j := c.num(1), c.num(2)
		if !c.e.oblige(c.p, fAnd(le(cst(0), i), fAnd(le(i, j), le(j, d.len))), "slice", "slices.Delete range outside the slice", c.in) {
			c.stop = true
			return nil
		}
		if d.arr == nil || c.e.decide(c.st, eqL(i, j)) {
			return d
		}
		nl := lsub(d.len, lsub(j, i))
		a := c.e.arrOf(c.st, d.arr)
		a2 := c.e.arrCopy(c.st, a, ladd(d.off, i), a, ladd(d.off, j), lsub(d.len, j))
		a2 = c.e.arrPut(c.st, a2, Layer{lo: ladd(d.off, nl), hi: ladd(d.off, d.len), src: "0", shift: cst(0)})
		c.st.heap[d.arr] = a2
		if c.e.onStore != nil {
			c.e.onStore(c.st, VPtr{obj: d.arr, path: []Step{{idx: d.off}}}, nil)
		}
		return VSlice{arr: d.arr, off: d.off, len: nl, cap: d.cap, isNil: fls, elem: d.elem}
	}
}

// nativeSlice views n elements from a pointer as a slice, which must lie within the allocation.
func (c *mcall) nativeSlice(v Val, n *Lin, what string) (VSlice, bool) {
	if c.e.known(c.st, fEq(n)) == 1 {
		return VSlice{off: cst(0), len: cst(0), cap: cst(0), isNil: tru}, true
	}
	p, ok := v.(VPtr)
	if !ok {
		c.e.oblige(c.p, fEq(n), "native", what+": memory range given without memory", c.in)
		c.stop = true
		return VSlice{}, false
	}
	k := len(p.path) - 1
	if k < 0 || p.path[k].idx == nil {
		bail("native memory is not an array element")
	}
	base := VPtr{obj: p.obj, path: p.path[:k]}
	a, ok := c.e.load(c.st, base).(*Arr)
	if !ok || k != 0 {
		bail("native memory is not an array")
	}
	i := p.path[k].idx
	if !c.e.oblige(c.p, fAnd(le(cst(0), n), le(ladd(i, n), a.n)), "native", what+": native code is given more memory than the Go slice has", c.in) {
		c.stop = true
		return VSlice{}, false
	}
	return VSlice{arr: p.obj, off: i, len: n, cap: lsub(a.n, i), isNil: fls, elem: a.elem}, true
}

func init() {
	models["slices.Index"] = func(c *mcall) Val {
		d := c.sl(0)
		if n, ok := c.st.constOf(d.len); ok && n <= 8 {
			a := c.e.arrOf(c.st, d.arr)
			for i := int64(0); i < n; i++ {
				if c.e.decide(c.st, c.e.eqVal(c.st, c.e.arrGet(c.st, a, laddc(d.off, i)), c.args[1], d.elem)) {
					return numc(i)
				}
			}
			return numc(-1)
		}
		r := c.e.fresh("index", types.Typ[types.Int]).(VNum)
		c.st.lemma(le(cst(-1), r.l))
		c.st.lemma(lt(r.l, d.len))
		return r
	}
	intrinsics["vSliceAt"] = func(c *mcall) Val {
		s, _ := c.nativeSlice(ifaceVal(c.args[0]), c.num(1), "native call")
		if s.elem == nil {
			s.elem = under(c.res).(*types.Slice).Elem()
		}
		return s
	}
	// vFill overwrites the slice with stream elements off..off+len
	intrinsics["vFill"] = func(c *mcall) Val {
		s := c.args[0].(VSlice)
		if s.arr == nil {
			return nil
		}
		c.st.heap[s.arr] = c.e.arrPut(c.st, c.e.arrOf(c.st, s.arr), Layer{lo: s.off, hi: ladd(s.off, s.len), src: "st:" + constMsg(c, 1), shift: lsub(c.num(2), s.off)})
		return nil
	}
	intrinsics["vCheck"] = func(c *mcall) Val { // vCheck(kind, cond, msg)
		if !c.e.oblige(c.p, c.e.form(c.args[1]), constMsg(c, 0), constMsg(c, 2), c.in) {
			c.stop = true
		}
		return nil
	}
	noopCall := func(c *mcall) Val { return c.zeroRes() }
	for _, n := range []string{"_cgoCheckPointer", "_cgoCheckResult", "_Cgo_use"} {
		cgoNoop[n] = noopCall
	}
	models["runtime.AddCleanup"] = func(c *mcall) Val {
		site := c.in.(*ssa.Call)
		cc := &ssa.CallCommon{Value: site.Call.Args[1]}
		c.st.gos = append(c.st.gos[:len(c.st.gos):len(c.st.gos)], goCall{fn: c.args[1], args: []Val{c.args[2]}, cc: cc, in: site})
		return c.freshResult("cleanup")
	}
	models["runtime.KeepAlive"] = noopCall
	models["os.Getenv"] = func(c *mcall) Val { return strc("") } // debugging switches are off
}

var cgoNoop = map[string]modelFn{}
