package main

import (
	"go/types"
	"strconv"
	"strings"
)

// Array contents and memory access. Operations that need to know how two symbolic positions compare call
// e.decide, which partitions the current state.

func lazyArr(o *Obj) *Arr {
	key := strings.TrimPrefix(o.lazy, "arr:")
	el := o.t.(*types.Array).Elem()
	return &Arr{n: ladd(linAtom(UF("len", key)), linAtom(UF("xcap", key))), elem: el, base: key}
}

type splitReq struct{ f *Form }

// decide returns the truth of f in the current state, partitioning the state if it is undetermined.
func (e *Eng) decide(s *State, f *Form) bool {
	switch f.op {
	case FTrue:
		return true
	case FFalse:
		return false
	}
	if s.entails(f) {
		return true
	}
	if s.refutes(f) {
		return false
	}
	panic(splitReq{f})
}

// known returns 1/0 if f is known true/false, -1 otherwise.
func (e *Eng) known(s *State, f *Form) int {
	switch f.op {
	case FTrue:
		return 1
	case FFalse:
		return 0
	}
	if s.entails(f) {
		return 1
	}
	if s.refutes(f) {
		return 0
	}
	return -1
}

func lt(a, b *Lin) *Form  { return fLe(laddc(lsub(a, b), 1)) }
func le(a, b *Lin) *Form  { return fLe(lsub(a, b)) }
func eqL(a, b *Lin) *Form { return fEq(lsub(a, b)) }

func (e *Eng) fresh(hint string, t types.Type) Val {
	freshSeq++
	return symVal(hint+"#"+strconv.Itoa(freshSeq), t)
}

func layerVal(l Layer, i *Lin, elem types.Type) Val {
	if l.src != "" {
		return elVal(l.src, ladd(l.shift, i), elem)
	}
	return l.val
}

func (e *Eng) arrGet(s *State, a *Arr, i *Lin) Val {
	if !i.isConst() && len(a.layers) > 4 && !e.tables {
		if v := e.tableGet(s, a, i); v != nil {
			return v
		}
	}
	for k, l := range a.layers {
		in := fAnd(le(l.lo, i), lt(i, l.hi))
		switch e.known(s, in) {
		case 1:
			return layerVal(l, i, a.elem)
		case 0:
			continue
		}
		if !e.track {
			// join of all possible sources
			return e.joinLayers(s, a, i, k)
		}
		if e.decide(s, le(l.lo, i)) && e.decide(s, lt(i, l.hi)) {
			return layerVal(l, i, a.elem)
		}
	}
	return elVal(a.base, i, a.elem)
}

func (e *Eng) joinLayers(s *State, a *Arr, i *Lin, from int) Val {
	var vals []Val
	for _, l := range a.layers[from:] {
		vals = append(vals, layerVal(l, i, a.elem))
	}
	vals = append(vals, elVal(a.base, i, a.elem))
	return e.joinVals(s, vals, a.elem)
}

// joinVals is the least upper bound of values (a fresh value, bounded for numbers).
func (e *Eng) joinVals(s *State, vals []Val, t types.Type) Val {
	same := true
	for _, v := range vals[1:] {
		if vkey(v) != vkey(vals[0]) {
			same = false
		}
	}
	if same {
		return vals[0]
	}
	f := e.fresh("join", t)
	if n, ok := f.(VNum); ok {
		lo, hi := int64(1)<<62, -int64(1)<<62
		okb := true
		for _, v := range vals {
			x, isn := v.(VNum)
			if !isn {
				okb = false
				break
			}
			l, h, hl, hh := x.l.interval()
			if !hl || !hh {
				okb = false
				break
			}
			lo, hi = min(lo, l), max(hi, h)
		}
		if okb {
			n.l.t[0].a.bound(lo, hi)
		}
	}
	return f
}

// tableGet reads a constant table at a symbolic index.
func (e *Eng) tableGet(s *State, a *Arr, i *Lin) Val {
	ii, ok := intOf(a.elem)
	_ = ii
	if !ok {
		return nil
	}
	n, isc := s.constOf(a.n)
	if !isc {
		return nil
	}
	lo, hi := int64(0), int64(0)
	first := true
	cov := int64(0)
	for _, l := range a.layers {
		if !l.lo.isConst() || !l.hi.isConst() {
			return nil
		}
		if l.src != "" {
			if l.src != "0" {
				return nil
			}
			cov += l.hi.c - l.lo.c
			lo, hi = min(lo, 0), max(hi, 0)
			first = false
			continue
		}
		v, okv := l.val.(VNum)
		if !okv || !v.l.isConst() {
			return nil
		}
		cov += l.hi.c - l.lo.c
		if first || v.l.c < lo {
			lo = v.l.c
		}
		if first || v.l.c > hi {
			hi = v.l.c
		}
		first = false
	}
	if cov < n {
		if a.base != "" {
			return nil
		}
		lo, hi = min(lo, 0), max(hi, 0)
	}
	at := UFL("tab"+strconv.Itoa(len(vkey(a)))+hashStr(vkey(a)), i)
	at.bound(lo, hi)
	return num(linAtom(at))
}

func hashStr(s string) string {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return strconv.FormatUint(h, 36)
}

// put adds a layer on top.
func (e *Eng) arrPut(s *State, a *Arr, nl Layer) *Arr {
	if e.known(s, le(nl.hi, nl.lo)) == 1 {
		return a
	}
	if nl.src == "" {
		if v, ok := nl.val.(VNum); ok && len(v.l.t) == 1 && v.l.t[0].k == 1 && v.l.c == 0 && v.l.t[0].a.op == "el" && nl.hi.Key() == laddc(nl.lo, 1).Key() {
			at := v.l.t[0].a
			nl = Layer{lo: nl.lo, hi: nl.hi, src: at.base, shift: lsub(at.largs[0], nl.lo)}
		}
	}
	out := &Arr{n: a.n, elem: a.elem, base: a.base}
	var kept []Layer
	if nl.src == "" && a.n.isConst() && a.n.c <= 64 && nl.lo.isConst() {
		// small constant array: replace exactly
		for _, l := range a.layers {
			if l.lo.isConst() && l.hi.isConst() && l.lo.c >= nl.lo.c && l.hi.c <= nl.hi.c {
				continue
			}
			kept = append(kept, l)
		}
		out.layers = append([]Layer{nl}, kept...)
		return out
	}
	for _, l := range a.layers {
		if constLayers(l, nl) {
			if l.lo.c >= nl.lo.c && l.hi.c <= nl.hi.c {
				continue
			}
			if l.hi.c <= nl.lo.c || l.lo.c >= nl.hi.c {
				kept = append(kept, l)
				continue
			}
		}
		a1 := e.known(s, le(nl.lo, l.lo)) // new starts before or at old
		a2 := e.known(s, le(l.hi, nl.hi))
		if a1 == 1 && a2 == 1 {
			continue
		}
		if a1 == 1 && e.known(s, le(l.lo, nl.hi)) == 1 && e.known(s, le(nl.hi, l.hi)) == 1 {
			l.lo = nl.hi
		} else if a2 == 1 && e.known(s, le(l.lo, nl.lo)) == 1 && e.known(s, le(nl.lo, l.hi)) == 1 {
			l.hi = nl.lo
		}
		if e.known(s, le(l.hi, l.lo)) == 1 {
			continue
		}
		kept = append(kept, l)
	}
	// merge with adjacent layers of the same source
	for i := 0; i < len(kept); i++ {
		l := kept[i]
		if l.src != nl.src {
			continue
		}
		if nl.src != "" {
			if nl.src != "0" && e.known(s, eqL(l.shift, nl.shift)) != 1 {
				continue
			}
		} else if vkey(l.val) != vkey(nl.val) {
			continue
		}
		adjL := l.hi.Key() == nl.lo.Key() || e.known(s, eqL(l.hi, nl.lo)) == 1
		adjR := !adjL && (nl.hi.Key() == l.lo.Key() || e.known(s, eqL(nl.hi, l.lo)) == 1)
		if !adjL && !adjR {
			continue
		}
		ok := true
		for j := 0; j < i; j++ { // newer layers must not cover l
			o := kept[j]
			if e.known(s, le(o.hi, l.lo)) != 1 && e.known(s, le(l.hi, o.lo)) != 1 {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		if adjL {
			nl.lo = l.lo
		} else {
			nl.hi = l.hi
		}
		kept = append(kept[:i:i], kept[i+1:]...)
		i = -1
	}
	out.layers = append([]Layer{nl}, kept...)
	if len(out.layers) > 600 {
		bail("array content too complex")
	}
	return out
}

func constLayers(a, b Layer) bool {
	return a.lo.isConst() && a.hi.isConst() && b.lo.isConst() && b.hi.isConst()
}

// arrCopy returns dst with dst[dlo:dlo+n] replaced by src[slo:slo+n].
func (e *Eng) arrCopy(s *State, dst *Arr, dlo *Lin, src *Arr, slo, n *Lin) *Arr {
	if e.known(s, le(n, cst(0))) == 1 {
		return dst
	}
	dhi := ladd(dlo, n)
	d := lsub(dlo, slo) // src index i -> dst index i+d
	if !e.track && len(src.layers) > 0 {
		one := src.layers[0]
		if !(e.known(s, le(one.lo, slo)) == 1 && e.known(s, le(ladd(slo, n), one.hi)) == 1) {
			if nc, ok := s.constOf(n); !(ok && nc <= 16) {
				freshSeq++
				return e.arrPut(s, dst, Layer{lo: dlo, hi: dhi, src: "cp#" + strconv.Itoa(freshSeq), shift: cst(0)})
			}
		}
	}
	base := src.base
	if base == "" {
		base = "0"
	}
	var ls []Layer
	full := false
	shi := ladd(slo, n)
	for _, l := range src.layers { // newest first
		lo, hi := l.lo, l.hi
		if e.decide(s, le(hi, slo)) || e.decide(s, le(shi, lo)) {
			continue
		}
		a1, a2 := e.decide(s, le(lo, slo)), e.decide(s, le(shi, hi))
		if a1 {
			lo = slo
		}
		if a2 {
			hi = shi
		}
		nl := Layer{lo: ladd(lo, d), hi: ladd(hi, d), src: l.src, val: l.val}
		if l.src != "" {
			nl.shift = lsub(l.shift, d)
		}
		ls = append(ls, nl)
		if a1 && a2 {
			full = true
			break
		}
	}
	if !full {
		dst = e.arrPut(s, dst, Layer{lo: dlo, hi: dhi, src: base, shift: lneg(d)})
	}
	for i := len(ls) - 1; i >= 0; i-- {
		dst = e.arrPut(s, dst, ls[i])
	}
	return dst
}

// ---------------------------------------------------------------------------

func (e *Eng) readPath(s *State, v Val, path []Step, t types.Type) Val {
	for _, st := range path {
		switch x := v.(type) {
		case *VStruct:
			if st.idx != nil {
				bail("index into struct")
			}
			v = x.get(st.field)
		case *Arr:
			if st.idx == nil {
				bail("field of array")
			}
			v = e.arrGet(s, x, st.idx)
		default:
			bail("cannot follow path in %T", v)
		}
	}
	return v
}

func (e *Eng) writePath(s *State, v Val, path []Step, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	switch x := v.(type) {
	case *VStruct:
		return x.set(path[0].field, e.writePath(s, x.get(path[0].field), path[1:], nv))
	case *Arr:
		i := path[0].idx
		if len(path) > 1 {
			nv = e.writePath(s, e.arrGet(s, x, i), path[1:], nv)
		}
		return e.arrPut(s, x, Layer{lo: i, hi: laddc(i, 1), val: nv})
	}
	bail("cannot write path in %T", v)
	return nil
}

func (e *Eng) load(s *State, p VPtr) Val {
	v := e.readPath(s, s.content(p.obj), p.path, nil)
	return v
}

func (e *Eng) store(s *State, p VPtr, v Val) {
	if s.poison[p.obj] {
		e.undecided("write through an alias of memory summarised by a loop (%s)", p.obj.name)
	}
	s.heap[p.obj] = e.writePath(s, s.content(p.obj), p.path, v)
	if e.onStore != nil {
		e.onStore(s, p, v)
	}
}

func (e *Eng) arrOf(s *State, o *Obj) *Arr {
	a, ok := s.content(o).(*Arr)
	if !ok {
		bail("not an array object %s", o.name)
	}
	return a
}
