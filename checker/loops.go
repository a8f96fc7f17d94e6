package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Liveness of SSA values at block entries (after the phis).

type liveMap map[*ssa.BasicBlock]map[ssa.Value]bool

var liveCache = map[*ssa.Function]liveMap{}

func isLocal(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
		return false
	}
	return true
}

func liveness(fn *ssa.Function) liveMap {
	if l := liveCache[fn]; l != nil {
		return l
	}
	live := liveMap{}
	for _, b := range fn.Blocks {
		live[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range live[s] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					cur[v] = true
				}
				pi := -1
				for k, x := range s.Preds {
					if x == b {
						pi = k
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if live[s][ph] && isLocal(ph.Edges[pi]) {
						cur[ph.Edges[pi]] = true
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if _, ok := in.(*ssa.Phi); ok {
					break
				}
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && isLocal(*op) {
						cur[*op] = true
					}
				}
			}
			for v := range cur {
				if !live[b][v] {
					live[b][v] = true
					changed = true
				}
			}
		}
	}
	liveCache[fn] = live
	return live
}

func liveVals(b *ssa.BasicBlock, env map[ssa.Value]Val) []ssa.Value {
	lm := liveness(b.Parent())[b]
	var vs []ssa.Value
	for v := range lm {
		if _, ok := env[v]; ok {
			vs = append(vs, v)
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	return vs
}

// ---------------------------------------------------------------------------
// Merging of paths that differ only in constraints

// garbage is the memory made since the base state that nothing refers to any more.
func garbage(p *Path, base *State) func(o *Obj) bool {
	if base == nil {
		return nil
	}
	seen := map[*Obj]bool{}
	var wv func(v Val)
	wo := func(o *Obj) {
		if o == nil || seen[o] {
			return
		}
		seen[o] = true
		if c, ok := p.st.heap[o]; ok {
			wv(c)
		}
	}
	wv = func(v Val) {
		switch v := v.(type) {
		case VPtr:
			wo(v.obj)
		case VRef:
			wo(v.obj)
		case VSlice:
			wo(v.arr)
		case VIface:
			wv(v.v)
		case VFn:
			for _, b := range v.bind {
				wv(b)
			}
		case *VStruct:
			for _, x := range v.f {
				wv(x)
			}
		case VTuple:
			for _, x := range v {
				wv(x)
			}
		case *Arr:
			for _, l := range v.layers {
				wv(l.val)
			}
		case *MapC:
			for _, en := range v.ents {
				wv(en.key)
				wv(en.val)
			}
		}
	}
	for o := range p.st.heap {
		if _, old := base.heap[o]; old || o.glob || o.lazy != "" {
			wo(o)
		}
	}
	for _, v := range liveVals(p.blk, p.env) {
		wv(p.env[v])
	}
	for _, d := range p.defers {
		wv(d.fn)
		for _, a := range d.args {
			wv(a)
		}
	}
	for _, g := range p.st.gos {
		wv(g.fn)
		for _, a := range g.args {
			wv(a)
		}
	}
	return func(o *Obj) bool { return !seen[o] }
}

func heapKey(s, base *State) string { return heapKeyLive(s, base, nil) }

func heapKeyLive(s, base *State, dead func(o *Obj) bool) string {
	var ids []*Obj
	for o, v := range s.heap {
		if dead != nil && dead(o) {
			continue
		}
		if base != nil {
			if bv, ok := base.heap[o]; ok && sameVal(bv, v) {
				continue
			}
		}
		ids = append(ids, o)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i].id < ids[j].id })
	var sb strings.Builder
	empty := &State{heap: map[*Obj]Val{}}
	for _, o := range ids {
		if o.lazy != "" && (base == nil || base.heap[o] == nil) && sameVal(s.heap[o], empty.content(o)) {
			continue
		}
		fmt.Fprintf(&sb, "|%d=%s", o.id, vkey(s.heap[o]))
	}
	sb.WriteString(lockKey(s))
	return sb.String()
}

func lockKey(s *State) string {
	var sb strings.Builder
	for _, k := range sortedKeys(s.locks) {
		if s.locks[k] != 0 {
			fmt.Fprintf(&sb, "|L%s=%d", k, s.locks[k])
		}
	}
	for _, k := range sortedKeys(s.ghost) {
		fmt.Fprintf(&sb, "|G%s=%s", k, s.ghost[k].Key())
	}
	fmt.Fprintf(&sb, "|go%d", len(s.gos))
	return sb.String()
}

func mergePaths(base *State, ps []*Path) []*Path {
	if len(ps) < 2 {
		return ps
	}
	groups := map[string][]*Path{}
	var order []string
	for _, p := range ps {
		var sb strings.Builder
		fmt.Fprintf(&sb, "%d", p.blk.Index)
		for _, v := range liveVals(p.blk, p.env) {
			sb.WriteString("|" + v.Name() + "=" + vkey(p.env[v]))
		}
		fmt.Fprintf(&sb, "|d%d", len(p.defers))
		sb.WriteString(heapKeyLive(p.st, base, garbage(p, base)))
		k := sb.String()
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], p)
	}
	var out []*Path
	for _, k := range order {
		g := groups[k]
		r := g[0]
		for _, x := range g[1:] {
			n := *r
			n.st = joinCons(r.st, x.st)
			r = &n
		}
		out = append(out, r)
	}
	return out
}

// ---------------------------------------------------------------------------
// Counted loops with constant bounds are unrolled.

func (e *Eng) constTrip(p *Path, l *Loop) bool {
	constVal := func(v ssa.Value) (int64, bool) {
		if c, ok := v.(*ssa.Const); ok {
			if n, ok := constOfConst(c); ok {
				return n, true
			}
			return 0, false
		}
		if in, ok := v.(ssa.Instruction); ok && l.blocks[in.Block()] {
			// len of a loop-invariant value computed inside the loop
			if c, ok := v.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					if x, ok := p.env[c.Call.Args[0]]; ok {
						if s, ok := x.(VSlice); ok {
							return p.st.constOf(s.len)
						}
						if s, ok := x.(VStr); ok {
							return p.st.constOf(s.n)
						}
					}
				}
			}
			return 0, false
		}
		x, ok := p.env[v]
		if !ok {
			return 0, false
		}
		n, ok := x.(VNum)
		if !ok {
			return 0, false
		}
		return p.st.constOf(n.l)
	}
	induct := func(v ssa.Value) (init, step int64, ok bool) {
		off := int64(0)
		if b, isb := v.(*ssa.BinOp); isb && b.Op == token.ADD {
			c, okc := b.Y.(*ssa.Const)
			if !okc {
				return
			}
			n, okn := constOfConst(c)
			if !okn {
				return
			}
			off = n
			v = b.X
		}
		ph, isp := v.(*ssa.Phi)
		if !isp || ph.Block() != l.header {
			return
		}
		cur, okc := p.env[ph].(VNum)
		if !okc {
			return
		}
		init, okc = p.st.constOf(cur.l)
		if !okc {
			return
		}
		for i, pr := range l.header.Preds {
			if !l.blocks[pr] {
				continue
			}
			b, isb := ph.Edges[i].(*ssa.BinOp)
			if !isb || (b.Op != token.ADD && b.Op != token.SUB) || b.X != ph {
				return
			}
			c, okc := b.Y.(*ssa.Const)
			if !okc {
				return
			}
			n, okn := constOfConst(c)
			if !okn {
				return
			}
			if b.Op == token.SUB {
				n = -n
			}
			if step != 0 && step != n {
				return
			}
			step = n
		}
		return init + off, step, step != 0
	}
	for b := range l.blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || (l.blocks[b.Succs[0]] && l.blocks[b.Succs[1]]) {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		if i, st, ok := induct(c.X); ok {
			if n, ok := constVal(c.Y); ok && (n-i)/st < 300 && (n-i)/st >= -1 {
				return true
			}
		}
		if i, st, ok := induct(c.Y); ok {
			if n, ok := constVal(c.X); ok && (n-i)/st < 300 && (n-i)/st >= -1 {
				return true
			}
		}
	}
	return false
}

func constOfConst(c *ssa.Const) (int64, bool) {
	if c.Value == nil {
		return 0, false
	}
	if v, ok := constVal(c).(VNum); ok && v.l.isConst() {
		return v.l.c, true
	}
	return 0, false
}

var loopTrace = os.Getenv("MC_LOOP") != ""

func (e *Eng) loop(p *Path, l *Loop) (rets []Exit, outs []*Path) {
	base := p.st.clone()
	if unr := e.unroll; unr || e.constTrip(p, l) {
		cur := []*Path{p}
		for n := 0; len(cur) > 0; n++ {
			if n > 320 || unr && len(cur) > 4000 {
				bail("loop with constant bound does not end in %s", l.header.Parent())
			}
			var nxt []*Path
			for _, q := range cur {
				q.start = true
				r, o, b := e.run([]*Path{q}, l)
				rets = append(rets, r...)
				outs = append(outs, o...)
				nxt = append(nxt, b...)
			}
			if unr && len(nxt) <= 40 || e.tables && len(nxt) <= 100 {
				cur = nxt
			} else {
				cur = mergePaths(base, nxt)
			}
		}
		if unr || e.tables && len(outs) <= 100 {
			return rets, outs
		}
		return rets, mergePaths(base, outs)
	}
	e.loopN++
	f := newFix(e, p, l)
	e.fixes = append(e.fixes, f)
	nf := len(e.fixes)
	rets, outs = f.solve()
	e.fixes = e.fixes[:nf-1]
	return rets, mergeExits(base, outs)
}

// mergeExits merges the paths that leave a loop in the same place: different exits mean different conditions.
func mergeExits(base *State, ps []*Path) []*Path {
	if len(ps) < 2 {
		return ps
	}
	by := map[*ssa.BasicBlock][]*Path{}
	var order []*ssa.BasicBlock
	for _, p := range ps {
		if by[p.prev] == nil {
			order = append(order, p.prev)
		}
		by[p.prev] = append(by[p.prev], p)
	}
	var out []*Path
	for _, b := range order {
		out = append(out, mergePaths(base, by[b])...)
	}
	return out
}

// ---------------------------------------------------------------------------
// Inductive invariants. The header of a loop is described by a finite set of templates (one per shape of the
// reachable memory), each with numeric slots, affine equalities between them, and linear inequalities.

type fixp struct {
	e         *Eng
	l         *Loop
	entry     *Path
	live      []ssa.Value
	seq       int // fresh sequence at entry: older atoms are rigid
	id        string
	tobj      map[string]*Obj
	slots     map[string]*Atom
	base      map[*Obj]bool
	pool      []*Lin
	inPool    map[string]bool
	coarse    bool
	tm        map[string]*tmplT
	order     []string
	entryCons map[string]bool
	part      bool // partition by order predicates and booleans
	preds     []predPair
	newPreds  []predPair
	maxIncs   int
	reds      map[string]*eqReducer
	join      bool
}

type tmplT struct {
	key    string
	ptag   string
	incs   []*incT
	sk     *Path
	slots  []*Atom
	vals   [][]*Lin // vals[k][i]: value of slot i in inc k
	eqs    []*Lin
	ineqs  []*Lin
	sig    string
	shared map[string]*Atom
}

type incT struct {
	p   *Path
	key string
	src int // round
	red *eqReducer
}

// isBase reports whether the object existed before the loop.
func (f *fixp) isBase(o *Obj) bool { return f.base[o] || o.glob }

// entryContent is the content of an object before the loop.
func (f *fixp) entryContent(o *Obj) Val {
	if o.glob {
		return f.entry.st.content(o)
	}
	return f.entry.st.heap[o]
}

func newFix(e *Eng, p *Path, l *Loop) *fixp {
	freshSeq++
	f := &fixp{e: e, coarse: e.coarse, l: l, entry: p, seq: freshSeq, tobj: map[string]*Obj{}, slots: map[string]*Atom{}, base: map[*Obj]bool{}, inPool: map[string]bool{}, tm: map[string]*tmplT{}, entryCons: map[string]bool{}, reds: map[string]*eqReducer{}}
	f.id = "L" + strconv.Itoa(freshSeq)
	freshSeq++
	f.live = liveVals(l.header, p.env)
	for o := range p.st.heap {
		f.base[o] = true
	}
	for _, c := range p.st.cons {
		f.entryCons[c.l.Key()] = true
	}
	f.part = e.isHarn(l.header.Parent()) && !e.noPart
	if f.part && len(e.stack) == 1 {
		f.movable()
	}
	return f
}

// movable takes memory out of the base that only the live values of the outermost frame reach: arrays are then
// described by their place in the structure, and unreachable memory is ignored.
func (f *fixp) movable() {
	st := f.entry.st
	walk := func(seen map[*Obj]bool) (func(v Val), func(o *Obj)) {
		var wv func(v Val)
		var wo func(o *Obj)
		wo = func(o *Obj) {
			if o == nil || seen[o] {
				return
			}
			seen[o] = true
			if c, ok := st.heap[o]; ok {
				wv(c)
			}
		}
		wv = func(v Val) {
			switch v := v.(type) {
			case VPtr:
				wo(v.obj)
			case VRef:
				wo(v.obj)
			case VSlice:
				wo(v.arr)
			case VIface:
				wv(v.v)
			case VFn:
				for _, b := range v.bind {
					wv(b)
				}
			case *VStruct:
				for _, x := range v.f {
					wv(x)
				}
			case VTuple:
				for _, x := range v {
					wv(x)
				}
			case *Arr:
				for _, l := range v.layers {
					wv(l.val)
				}
			case *MapC:
				for _, en := range v.ents {
					wv(en.key)
					wv(en.val)
				}
			}
		}
		return wv, wo
	}
	fixed := map[*Obj]bool{}
	_, wo := walk(fixed)
	for o := range st.heap {
		if o.lazy != "" {
			wo(o)
		}
	}
	for _, o := range lazyObjs {
		wo(o)
	}
	wv, _ := walk(fixed)
	for _, g := range st.gos {
		wv(g.fn)
		for _, a := range g.args {
			wv(a)
		}
	}
	live := map[*Obj]bool{}
	wv, _ = walk(live)
	for _, v := range f.live {
		wv(f.entry.env[v])
	}
	for _, d := range f.entry.defers {
		wv(d.fn)
		for _, a := range d.args {
			wv(a)
		}
	}
	for o := range st.heap {
		if fixed[o] || o.lazy != "" {
			continue
		}
		_, isArr := o.t.(*types.Array)
		if !live[o] || isArr {
			delete(f.base, o)
		}
	}
}

var seqCache = map[string]int{}

// seqOf is the newest fresh sequence number that a key depends on.
func seqOf(k string) int {
	if v, ok := seqCache[k]; ok {
		return v
	}
	best := 0
	for i := 0; i < len(k); i++ {
		if k[i] == '#' || k[i] == '@' {
			j := i + 1
			n := 0
			for j < len(k) && k[j] >= '0' && k[j] <= '9' {
				n = n*10 + int(k[j]-'0')
				j++
			}
			if j > i+1 {
				if k[i] == '#' {
					best = max(best, n)
				} else if n < len(atomByID) && atomByID[n] != nil {
					best = max(best, seqOf(atomByID[n].key))
				}
			}
		}
	}
	seqCache[k] = best
	return best
}

func (f *fixp) rigidKey(k string) bool { return seqOf(k) <= f.seq }
func (f *fixp) rigid(a *Atom) bool     { return seqOf(a.key) <= f.seq }
func (f *fixp) rigidLin(l *Lin) bool {
	for _, t := range l.t {
		if !f.rigid(t.a) {
			return false
		}
	}
	return true
}

// shape computes the partition key of a path at the loop header.
func (f *fixp) shape(p *Path) string {
	var sb strings.Builder
	num := map[*Obj]int{}
	var walk func(v Val, d int)
	walkObj := func(o *Obj, d int) {
		if f.isBase(o) {
			fmt.Fprintf(&sb, "B%d", o.id)
			return
		}
		if n, ok := num[o]; ok {
			fmt.Fprintf(&sb, "^%d", n)
			return
		}
		num[o] = len(num)
		if o.lazy != "" {
			sb.WriteString("z")
			if _, ok := p.st.heap[o]; !ok {
				return
			}
		}
		sb.WriteString("(")
		if d < 12 {
			walk(p.st.content(o), d+1)
		}
		sb.WriteString(")")
	}
	walk = func(v Val, d int) {
		switch v := v.(type) {
		case nil:
			sb.WriteString("?")
		case VNum:
			if f.e.zeros {
				if c, ok := p.st.constOf(v.l); ok && c == 0 {
					sb.WriteString("Z")
					return
				}
			}
			sb.WriteString("n")
		case VBool:
			switch {
			case f.coarse:
				sb.WriteString("b")
			case v.f.op == FTrue || p.st.entails(v.f):
				sb.WriteString("T")
			case v.f.op == FFalse || p.st.refutes(v.f):
				sb.WriteString("F")
			default:
				sb.WriteString("b")
			}
		case VStr:
			sb.WriteString("s")
		case VNil:
			sb.WriteString("0")
		case VSym:
			nf := fAtom(UF("nil", v.key))
			switch f.e.known(p.st, nf) {
			case 1:
				sb.WriteString("y0")
			case 0:
				sb.WriteString("y1")
			default:
				sb.WriteString("y")
			}
		case VPtr:
			sb.WriteString("p")
			for _, s := range v.path {
				if s.idx != nil {
					sb.WriteString("[]")
				} else {
					fmt.Fprintf(&sb, ".%d", s.field)
				}
			}
			walkObj(v.obj, d)
		case VRef:
			sb.WriteString("r")
			walkObj(v.obj, d)
		case VSlice:
			if v.arr == nil {
				sb.WriteString("l0")
				return
			}
			sb.WriteString("l")
			walkObj(v.arr, d)
		case VIface:
			sb.WriteString("i<" + v.t.String() + ">")
			walk(v.v, d)
		case VFn:
			sb.WriteString("f" + v.ext)
			if v.fn != nil {
				sb.WriteString(v.fn.String())
			}
			for _, b := range v.bind {
				sb.WriteString(",")
				walk(b, d)
			}
		case *VStruct:
			sb.WriteString("{")
			for i := range v.f {
				walk(v.get(i), d)
			}
			sb.WriteString("}")
		case VTuple:
			sb.WriteString("t")
			for _, x := range v {
				walk(x, d)
			}
		case *Arr:
			sb.WriteString("A")
			if f.e.track {
				sb.WriteString(f.srcTag(v.base))
				for _, l := range v.layers {
					sb.WriteString("|")
					if l.src != "" {
						sb.WriteString(f.srcTag(l.src))
					} else {
						walk(l.val, d)
					}
				}
			}
		case *MapC:
			fmt.Fprintf(&sb, "M%d", len(v.ents))
			for _, en := range v.ents {
				sb.WriteString(";" + vkeyRigid(f, en.key) + "=")
				walk(en.val, d)
			}
		case *ChanC:
			fmt.Fprintf(&sb, "C%v%d", v.qok, len(v.q))
			walk(VBool{v.closed}, d)
		default:
			fmt.Fprintf(&sb, "<%T>", v)
		}
	}
	for _, v := range f.live {
		sb.WriteString("|")
		walk(p.env[v], 0)
	}
	for _, dc := range p.defers {
		sb.WriteString("|D")
		walk(dc.fn, 0)
		for _, a := range dc.args {
			walk(a, 0)
		}
	}
	// pre-existing objects with changed contents
	var ids []*Obj
	for o := range p.st.heap {
		if f.isBase(o) {
			if !sameVal(f.entryContent(o), p.st.heap[o]) {
				ids = append(ids, o)
			}
		} else if o.lazy != "" {
			if !sameVal(p.st.heap[o], (&State{heap: map[*Obj]Val{}}).content(o)) && f.rigidKey(o.lazy) {
				ids = append(ids, o)
			}
		}
	}
	// every object that some path changed must be compared
	for _, o := range f.changedObjs(ids) {
		fmt.Fprintf(&sb, "|#%d:", o.id)
		walk(p.st.content(o), 0)
	}
	sb.WriteString(lockKey(p.st))
	return sb.String()
}

var changedByLoop = map[*fixp]map[*Obj]bool{}

func (f *fixp) changedObjs(add []*Obj) []*Obj {
	m := changedByLoop[f]
	if m == nil {
		m = map[*Obj]bool{}
		changedByLoop[f] = m
	}
	for _, o := range add {
		m[o] = true
	}
	var ids []*Obj
	for o := range m {
		ids = append(ids, o)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i].id < ids[j].id })
	return ids
}

func (f *fixp) srcTag(src string) string {
	if strings.HasPrefix(src, "st:") || src == "" || src == "0" {
		return "<" + src + ">"
	}
	if f.rigidKey(src) {
		return "<r>"
	}
	return "<o>"
}

func vkeyRigid(f *fixp, v Val) string {
	k := vkey(v)
	if f.rigidKey(k) {
		return k
	}
	return "~"
}

// ---------------------------------------------------------------------------
// N-ary generalisation

type anti struct {
	f       *fixp
	ps      []*Path
	out     *State
	slotBy  map[string]*Atom // tuple key -> slot
	slots   []*Atom
	vals    [][]*Lin
	objBy   map[string]*Obj
	objOf   map[*Obj]bool
	usedAs  map[string]map[*Obj]*Obj // for alias detection: inc k, inc obj -> template obj
	fail    string
	depth   int
	collect map[string]*Lin
	colBool []*Form
	names   map[string]string
	facts   []*Form
}

func (a *anti) tupleKey(vs []Val) string {
	var sb strings.Builder
	for _, v := range vs {
		sb.WriteString(vkey(v))
		sb.WriteString(" ~ ")
	}
	return sb.String()
}

// name gives a value a name that is stable over the rounds; equal tuples share a name.
func (a *anti) name(tuple, kind, pos string) string {
	if n, ok := a.names[tuple]; ok {
		return n
	}
	k := kind + ":" + pos
	o := a.f.tobj[k]
	if o == nil {
		freshSeq++
		o = &Obj{id: freshSeq}
		a.f.tobj[k] = o
	}
	n := kind + ":" + a.f.id + ":" + pos + "#" + strconv.Itoa(o.id)
	a.names[tuple] = n
	return n
}

func (a *anti) same(vs []Val) bool {
	k := vkey(vs[0])
	for _, v := range vs[1:] {
		if vkey(v) != k {
			return false
		}
	}
	return a.f.rigidKey(k) && a.f.onlyBase(vs[0])
}

// onlyBase reports whether a value refers to no object made since the loop was entered.
func (f *fixp) onlyBase(v Val) bool {
	ob := func(o *Obj) bool {
		return o == nil || f.isBase(o) || o.lazy != "" && f.rigidKey(o.lazy)
	}
	switch v := v.(type) {
	case VPtr:
		return ob(v.obj)
	case VRef:
		return ob(v.obj)
	case VSlice:
		return ob(v.arr)
	case VIface:
		return f.onlyBase(v.v)
	case VFn:
		for _, b := range v.bind {
			if !f.onlyBase(b) {
				return false
			}
		}
	case *VStruct:
		for _, x := range v.f {
			if !f.onlyBase(x) {
				return false
			}
		}
	case VTuple:
		for _, x := range v {
			if !f.onlyBase(x) {
				return false
			}
		}
	case *Arr:
		for _, l := range v.layers {
			if !f.onlyBase(l.val) {
				return false
			}
		}
	case *MapC:
		for _, en := range v.ents {
			if !f.onlyBase(en.key) || !f.onlyBase(en.val) {
				return false
			}
		}
	}
	return true
}

func (a *anti) linSlot(ls []*Lin, t types.Type, pos string, real bool) *Lin {
	if a.collect != nil {
		a.collect[pos] = ls[0]
	}
	same := true
	k0 := ls[0].Key()
	var sb strings.Builder
	for _, l := range ls {
		if l.Key() != k0 {
			same = false
		}
		sb.WriteString(l.Key() + "~")
	}
	if same && a.f.rigidLin(ls[0]) {
		return ls[0]
	}
	tk := sb.String()
	if s := a.slotBy[tk]; s != nil {
		return linAtom(s)
	}
	s := a.f.slots[pos]
	if s == nil {
		freshSeq++
		s = intern("slot:"+a.f.id+":"+pos+"#"+strconv.Itoa(freshSeq), "slot")
		if t != nil {
			boundAtom(s, t)
		}
		if real {
			s.real = true
		}
		a.f.slots[pos] = s
	}
	for _, l := range ls {
		if l.real() {
			s.real = true
		}
	}
	a.slotBy[tk] = s
	a.slots = append(a.slots, s)
	a.vals = append(a.vals, ls)
	return linAtom(s)
}

func (a *anti) bool(fs []*Form, pos string) *Form {
	if a.collect != nil {
		a.colBool = append(a.colBool, fs[0])
		return fs[0]
	}
	k0 := fs[0].Key()
	same := true
	var ls []*Lin
	for k, f := range fs {
		if f.Key() != k0 {
			same = false
		}
		l := boolLin(f)
		if l == nil {
			switch a.f.e.known(a.ps[k].st, f) {
			case 1:
				l = cst(1)
			case 0:
				l = cst(0)
			default:
				l = linAtom(UF("boolof", f.Key()).bound(0, 1))
			}
		}
		ls = append(ls, l)
	}
	if same && seqOf(k0) <= a.f.seq {
		return fs[0]
	}
	l := a.linSlot(ls, types.Typ[types.Bool], pos, false)
	return fEq(laddc(l, -1))
}

func (a *anti) mapObj(os []*Obj, pos string) *Obj {
	same := true
	var sb strings.Builder
	for _, o := range os {
		if o != os[0] {
			same = false
		}
		fmt.Fprintf(&sb, "%d~", o.id)
	}
	f := a.f
	isRigidLazy := os[0].lazy != "" && f.rigidKey(os[0].lazy)
	if same && (f.isBase(os[0]) || isRigidLazy) {
		return os[0]
	}
	k := sb.String()
	if o := a.objBy[k]; o != nil {
		return o
	}
	o := f.tobj[pos]
	if o == nil {
		o = newObj("summary:"+pos, os[0].t)
		o.tmpl = true
		f.tobj[pos] = o
	}
	a.objBy[k] = o
	// aliasing: an object of an incoming path standing for two different template objects, or a
	// pre-existing object standing for a template object, makes writes ambiguous
	for i, x := range os {
		if f.isBase(x) || (x.lazy != "" && f.rigidKey(x.lazy)) {
			a.out.poison[x] = true
			a.out.poison[o] = true
		}
		key := strconv.Itoa(i)
		if a.usedAs[key] == nil {
			a.usedAs[key] = map[*Obj]*Obj{}
		}
		if prev := a.usedAs[key][x]; prev != nil && prev != o {
			a.out.poison[prev] = true
			a.out.poison[o] = true
		}
		a.usedAs[key][x] = o
	}
	var cs []Val
	for i, x := range os {
		if a.ps[i].st.poison[x] {
			a.out.poison[o] = true
		}
		cs = append(cs, a.ps[i].st.content(x))
	}
	a.out.heap[o] = nil
	a.depth++
	if a.depth > 60 {
		a.fail = "recursive structure"
		a.out.heap[o] = cs[0]
		a.depth--
		return o
	}
	a.out.heap[o] = a.val(cs, o.t, "*"+pos)
	a.depth--
	return o
}

func (a *anti) symFresh(vs []Val, t types.Type, pos string) Val {
	tk := "sym:" + a.tupleKey(vs)
	nilA := true
	nonNil := true
	for i, v := range vs {
		switch a.f.e.known(a.ps[i].st, a.f.e.nilForm(v)) {
		case 1:
			nonNil = false
		case 0:
			nilA = false
		default:
			nonNil, nilA = false, false
		}
	}
	key := a.name(tk, "sy", pos)
	v := VSym{key, t}
	nf := fAtom(UF("nil", key))
	if nonNil {
		a.facts = append(a.facts, fNot(nf))
	} else if nilA {
		a.facts = append(a.facts, nf)
	}
	return v
}

func (a *anti) val(vs []Val, t types.Type, pos string) Val {
	if a.fail != "" {
		return vs[0]
	}
	// a value of pre-existing memory that no path changed
	switch v0 := vs[0].(type) {
	case nil:
		return nil
	case VNum:
		ls := make([]*Lin, len(vs))
		for i, v := range vs {
			n, ok := v.(VNum)
			if !ok {
				a.fail = "kind mismatch at " + pos
				return vs[0]
			}
			ls[i] = n.l
		}
		return num(a.linSlot(ls, t, pos, t != nil && isFloat(t)))
	case VBool:
		fs := make([]*Form, len(vs))
		for i, v := range vs {
			b, ok := v.(VBool)
			if !ok {
				a.fail = "kind mismatch at " + pos
				return vs[0]
			}
			fs[i] = b.f
		}
		return boolv(a.bool(fs, pos))
	case VStr:
		if a.same(vs) {
			return v0
		}
		ls := make([]*Lin, len(vs))
		for i, v := range vs {
			ls[i] = v.(VStr).n
		}
		key := a.name("str:"+a.tupleKey(vs), "ss", pos)
		n := a.linSlot(ls, types.Typ[types.Int], pos+".len", false)
		if len(n.t) == 1 && n.c == 0 && n.t[0].k == 1 && !a.f.rigid(n.t[0].a) {
			n.t[0].a.boundLo(0)
		}
		return VStr{key: key, n: n}
	case VNil:
		for _, v := range vs {
			if _, ok := v.(VNil); !ok {
				return a.symFresh(vs, t, pos)
			}
		}
		return v0
	case VSym:
		if a.same(vs) {
			// keep what all paths know about it
			nf := fAtom(UF("nil", v0.key))
			switch n := 0; {
			case a.out.entails(nf), a.out.refutes(nf):
			default:
				for i := range vs {
					n += a.f.e.known(a.ps[i].st, nf)
					if a.f.e.known(a.ps[i].st, nf) == -1 {
						n = -1000
					}
				}
				if n == 0 {
					a.facts = append(a.facts, fNot(nf))
				} else if n == len(vs) {
					a.facts = append(a.facts, nf)
				}
			}
			return v0
		}
		return a.symFresh(vs, v0.t, pos)
	case VPtr:
		os := make([]*Obj, len(vs))
		for i, v := range vs {
			p, ok := v.(VPtr)
			if !ok || len(p.path) != len(v0.path) {
				a.fail = "pointer kinds differ at " + pos
				return vs[0]
			}
			os[i] = p.obj
		}
		var path []Step
		for j, s := range v0.path {
			if s.idx == nil {
				path = append(path, s)
				continue
			}
			ls := make([]*Lin, len(vs))
			for i, v := range vs {
				ls[i] = v.(VPtr).path[j].idx
			}
			path = append(path, Step{idx: a.linSlot(ls, types.Typ[types.Int], pos+".idx"+strconv.Itoa(j), false)})
		}
		return VPtr{obj: a.mapObj(os, pos), path: path}
	case VRef:
		os := make([]*Obj, len(vs))
		for i, v := range vs {
			r, ok := v.(VRef)
			if !ok {
				return a.symFresh(vs, t, pos)
			}
			os[i] = r.obj
		}
		return VRef{a.mapObj(os, pos)}
	case VSlice:
		os := make([]*Obj, len(vs))
		nils := true
		for i, v := range vs {
			s, ok := v.(VSlice)
			if !ok {
				a.fail = "kind mismatch at " + pos
				return vs[0]
			}
			os[i] = s.arr
			if s.arr != nil {
				nils = false
			}
		}
		if nils {
			return v0
		}
		// a nil slice is an empty slice of an array of its own
		for i, o := range os {
			if o == nil {
				z := newObj("nilslice:"+pos, nil)
				a.ps[i].st.heap[z] = &Arr{n: cst(0), elem: v0.elem}
				os[i] = z
			}
		}
		part := func(g func(VSlice) *Lin, n string) *Lin {
			ls := make([]*Lin, len(vs))
			for i, v := range vs {
				ls[i] = g(v.(VSlice))
			}
			l := a.linSlot(ls, types.Typ[types.Int], pos+n, false)
			return l
		}
		fs := make([]*Form, len(vs))
		for i, v := range vs {
			fs[i] = v.(VSlice).isNil
		}
		r := VSlice{arr: a.mapObj(os, pos+".arr"), elem: v0.elem}
		r.off = part(func(s VSlice) *Lin { return s.off }, ".off")
		r.len = part(func(s VSlice) *Lin { return s.len }, ".len")
		r.cap = part(func(s VSlice) *Lin { return s.cap }, ".cap")
		r.isNil = a.bool(fs, pos+".isnil")
		a.facts = append(a.facts, le(cst(0), r.off), le(cst(0), r.len), le(r.len, r.cap))
		return r
	case VIface:
		xs := make([]Val, len(vs))
		for i, v := range vs {
			x, ok := v.(VIface)
			if !ok || !types.Identical(x.t, v0.t) {
				return a.symFresh(vs, t, pos)
			}
			xs[i] = x.v
		}
		return VIface{v0.t, a.val(xs, v0.t, pos+".dyn")}
	case VFn:
		for _, v := range vs {
			x, ok := v.(VFn)
			if !ok || x.fn != v0.fn || x.ext != v0.ext || len(x.bind) != len(v0.bind) {
				return a.symFresh(vs, t, pos)
			}
		}
		r := VFn{fn: v0.fn, ext: v0.ext}
		for j := range v0.bind {
			xs := make([]Val, len(vs))
			for i, v := range vs {
				xs[i] = v.(VFn).bind[j]
			}
			r.bind = append(r.bind, a.val(xs, nil, pos+".bind"+strconv.Itoa(j)))
		}
		return r
	case *VStruct:
		eq := true
		for _, v := range vs[1:] {
			if v != vs[0] {
				eq = false
			}
		}
		if eq && len(vs) > 1 && a.f.rigidKey(vkey(v0)) && a.f.onlyBase(v0) {
			return v0
		}
		r := &VStruct{t: v0.t, f: make([]Val, len(v0.f))}
		for j := range v0.f {
			xs := make([]Val, len(vs))
			for i, v := range vs {
				s, ok := v.(*VStruct)
				if !ok {
					a.fail = "kind mismatch at " + pos
					return vs[0]
				}
				xs[i] = s.get(j)
			}
			r.f[j] = a.val(xs, v0.t.Field(j).Type(), pos+"."+v0.t.Field(j).Name())
		}
		return r
	case VTuple:
		var r VTuple
		for j := range v0 {
			xs := make([]Val, len(vs))
			for i, v := range vs {
				xs[i] = v.(VTuple)[j]
			}
			r = append(r, a.val(xs, nil, pos+"."+strconv.Itoa(j)))
		}
		return r
	case *Arr:
		return a.arr(vs, pos)
	case *MapC:
		return a.mapc(vs, pos)
	case *ChanC:
		r := *v0
		part := func(g func(*ChanC) *Lin, n string) *Lin {
			ls := make([]*Lin, len(vs))
			for i, v := range vs {
				ls[i] = g(v.(*ChanC))
			}
			return a.linSlot(ls, types.Typ[types.Int], pos+n, false)
		}
		fs := make([]*Form, len(vs))
		for i, v := range vs {
			fs[i] = v.(*ChanC).closed
		}
		r.cap = part(func(c *ChanC) *Lin { return c.cap }, ".cap")
		r.sends = part(func(c *ChanC) *Lin { return c.sends }, ".sends")
		r.recvs = part(func(c *ChanC) *Lin { return c.recvs }, ".recvs")
		r.closed = a.bool(fs, pos+".closed")
		for _, v := range vs[1:] {
			c := v.(*ChanC)
			if !c.qok || len(c.q) != len(v0.q) {
				r.q, r.qok = nil, false
				break
			}
			for i, x := range c.q {
				if vkey(x) != vkey(v0.q[i]) {
					r.q, r.qok = nil, false
				}
			}
		}
		return &r
	}
	a.fail = fmt.Sprintf("cannot generalise %T at %s", vs[0], pos)
	return vs[0]
}

func (a *anti) arr(vs []Val, pos string) Val {
	v0 := vs[0].(*Arr)
	if a.same(vs) {
		return v0
	}
	ns := make([]*Lin, len(vs))
	structural := true
	tags := func(x *Arr) string {
		s := x.base
		if x.base != "" && !a.f.rigidKey(x.base) {
			s = "~"
		}
		for _, l := range x.layers {
			s += "|"
			if l.src != "" {
				if a.f.rigidKey(l.src) || l.src == "0" {
					s += l.src
				} else {
					s += "~"
				}
			} else {
				s += "v"
			}
		}
		return s
	}
	for i, v := range vs {
		x, ok := v.(*Arr)
		if !ok {
			a.fail = "kind mismatch at " + pos
			return vs[0]
		}
		ns[i] = x.n
		if len(x.layers) != len(v0.layers) || tags(x) != tags(v0) {
			structural = false
		}
	}
	n := a.linSlot(ns, types.Typ[types.Int], pos+".n", false)
	nn := a.nonNilElems(vs)
	freshBase := func(p string, keys string) string {
		if nn {
			b := a.name("nnbase:"+keys, "abn", p)
			nonNilBase[b] = true
			return b
		}
		return a.name("base:"+keys, "ab", p)
	}
	if !structural || (!a.f.e.track && len(v0.layers) > 8) {
		return &Arr{n: n, elem: v0.elem, base: freshBase(pos, a.tupleKey(vs))}
	}
	r := &Arr{n: n, elem: v0.elem, base: v0.base}
	if v0.base != "" && !a.f.rigidKey(v0.base) {
		var sb strings.Builder
		for _, v := range vs {
			sb.WriteString(v.(*Arr).base + "~")
		}
		r.base = freshBase(pos, sb.String())
	}
	for j, l := range v0.layers {
		part := func(g func(Layer) *Lin, n string) *Lin {
			ls := make([]*Lin, len(vs))
			for i, v := range vs {
				ls[i] = g(v.(*Arr).layers[j])
			}
			return a.linSlot(ls, types.Typ[types.Int], pos+".y"+strconv.Itoa(j)+n, false)
		}
		nl := Layer{src: l.src}
		nl.lo = part(func(l Layer) *Lin { return l.lo }, "lo")
		nl.hi = part(func(l Layer) *Lin { return l.hi }, "hi")
		if l.src != "" {
			if l.src == "0" {
				nl.shift = cst(0)
			} else if !a.f.rigidKey(l.src) {
				var sb strings.Builder
				for _, v := range vs {
					sb.WriteString(v.(*Arr).layers[j].src + "~")
				}
				nl.src = freshBase(pos+".y"+strconv.Itoa(j), sb.String())
				nl.shift = cst(0)
			} else {
				nl.shift = part(func(l Layer) *Lin { return l.shift }, "sh")
			}
		} else {
			xs := make([]Val, len(vs))
			for i, v := range vs {
				xs[i] = v.(*Arr).layers[j].val
			}
			nl.val = a.val(xs, v0.elem, pos+".y"+strconv.Itoa(j)+"v")
		}
		r.layers = append(r.layers, nl)
	}
	return r
}

// nonNilBase marks symbolic sequences whose elements are known to be non-nil.
var nonNilBase = map[string]bool{}

func (a *anti) nonNilElems(vs []Val) bool {
	v0 := vs[0].(*Arr)
	if !nilable(v0.elem) {
		return false
	}
	for i, v := range vs {
		x := v.(*Arr)
		if x.base != "" && !nonNilBase[x.base] {
			return false
		}
		if x.base == "" {
			// zero part must be empty: covered by layers from 0 to n
			pos := cst(0)
			st := a.ps[i].st
			for k := 0; k <= len(x.layers); k++ {
				moved := false
				for _, l := range x.layers {
					if a.f.e.known(st, fAnd(le(l.lo, pos), lt(pos, l.hi))) == 1 {
						pos = l.hi
						moved = true
						break
					}
				}
				if !moved {
					break
				}
			}
			if a.f.e.known(st, le(x.n, pos)) != 1 {
				return false
			}
		}
		for _, l := range x.layers {
			if l.src != "" {
				if !nonNilBase[l.src] {
					return false
				}
			} else if a.f.e.known(a.ps[i].st, a.f.e.nilForm(l.val)) != 0 {
				return false
			}
		}
	}
	return true
}

func (a *anti) mapc(vs []Val, pos string) Val {
	v0 := vs[0].(*MapC)
	if a.same(vs) {
		return v0
	}
	ns := make([]*Lin, len(vs))
	structural := true
	for i, v := range vs {
		x, ok := v.(*MapC)
		if !ok {
			a.fail = "kind mismatch at " + pos
			return vs[0]
		}
		ns[i] = x.n
		if len(x.ents) != len(v0.ents) || x.base != v0.base {
			structural = false
			continue
		}
		for j := range x.ents {
			if vkey(x.ents[j].key) != vkey(v0.ents[j].key) || !a.f.rigidKey(vkey(v0.ents[j].key)) || (x.ents[j].val == nil) != (v0.ents[j].val == nil) {
				structural = false
			}
		}
	}
	n := a.linSlot(ns, types.Typ[types.Int], pos+".n", false)
	a.facts = append(a.facts, le(cst(0), n))
	if !structural {
		base := ""
		// values all known non-nil?
		if nilable(v0.t.Elem()) {
			ok := true
			for i, v := range vs {
				x := v.(*MapC)
				if x.base != "" && !nonNilBase[x.base] {
					ok = false
				}
				for _, en := range x.ents {
					if en.val != nil && a.f.e.known(a.ps[i].st, a.f.e.nilForm(en.val)) != 0 {
						ok = false
					}
				}
			}
			if ok {
				base = a.name("nnmap:"+a.tupleKey(vs), "mbn", pos)
				nonNilBase[base] = true
			}
		}
		if base == "" {
			base = a.name("map:"+a.tupleKey(vs), "mb", pos)
		}
		return &MapC{t: v0.t, base: base, n: n}
	}
	r := &MapC{t: v0.t, base: v0.base, n: n}
	for j := range v0.ents {
		en := MapEnt{key: v0.ents[j].key}
		if v0.ents[j].val != nil {
			xs := make([]Val, len(vs))
			for i, v := range vs {
				xs[i] = v.(*MapC).ents[j].val
			}
			en.val = a.val(xs, v0.t.Elem(), pos+".e"+strconv.Itoa(j))
		}
		r.ents = append(r.ents, en)
	}
	return r
}

// predPair is an order predicate between two numeric positions of the header state.
type predPair struct{ a, b string }

// notePred records comparisons of two header quantities made inside a partitioned loop.
func (e *Eng) notePred(st *State, fm *Form) {
	if len(e.fixes) == 0 || fm.l == nil || len(fm.l.t) != 2 || fm.l.t[0].k+fm.l.t[1].k != 0 {
		return
	}
	for _, f := range e.fixes {
		if !f.part {
			continue
		}
		var ps [2]string
		for pos, a := range f.slots {
			for i := range ps {
				if fm.l.t[i].a == a {
					ps[i] = pos
				}
			}
		}
		if ps[0] == "" || ps[1] == "" {
			continue
		}
		if ps[0] > ps[1] {
			ps[0], ps[1] = ps[1], ps[0]
		}
		pp := predPair{ps[0], ps[1]}
		dup := false
		for _, q := range f.newPreds {
			if q == pp {
				dup = true
				break
			}
			if x, y := f.slots[q.a], f.slots[q.b]; x != nil && y != nil {
				d := lsub(linAtom(x), linAtom(y))
				dl := lsub(linAtom(fm.l.t[0].a), linAtom(fm.l.t[1].a))
				if st.entails(eqL(d, dl)) || st.entails(eqL(d, lneg(dl))) {
					dup = true // the same difference, written in other terms
					break
				}
			}
		}
		if !dup {
			f.newPreds = append(f.newPreds, pp)
		}
	}
}

// positions lists the numeric quantities and undetermined booleans of a header state.
func (f *fixp) positions(p *Path) (map[string]*Lin, []*Form) {
	a := &anti{f: f, slotBy: map[string]*Atom{}, objBy: map[string]*Obj{}, names: map[string]string{}, usedAs: map[string]map[*Obj]*Obj{}, ps: []*Path{p}, collect: map[string]*Lin{}}
	st := p.st
	a.out = st.clone()
	for _, v := range f.live {
		a.val([]Val{p.env[v]}, v.Type(), v.Name())
	}
	for _, o := range f.changedObjs(nil) {
		a.val([]Val{p.st.content(o)}, o.t, "o"+strconv.Itoa(o.id))
	}
	return a.collect, a.colBool
}

// trimArrays forgets the contents of arrays outside the only slice that refers to them.
func (f *fixp) trimArrays(p *Path) {
	st := p.st
	refs := map[*Obj][]VSlice{}
	other := map[*Obj]bool{}
	seen := map[*Obj]bool{}
	var wv func(v Val)
	wo := func(o *Obj) {
		if o == nil || seen[o] {
			return
		}
		seen[o] = true
		if c, ok := st.heap[o]; ok {
			wv(c)
		}
	}
	wv = func(v Val) {
		switch v := v.(type) {
		case VPtr:
			other[v.obj] = true
			wo(v.obj)
		case VRef:
			wo(v.obj)
		case VSlice:
			if v.arr != nil {
				refs[v.arr] = append(refs[v.arr], v)
				wo(v.arr)
			}
		case VIface:
			wv(v.v)
		case VFn:
			for _, b := range v.bind {
				wv(b)
			}
		case *VStruct:
			for _, x := range v.f {
				wv(x)
			}
		case VTuple:
			for _, x := range v {
				wv(x)
			}
		case *Arr:
			for _, l := range v.layers {
				wv(l.val)
			}
		case *MapC:
			for _, en := range v.ents {
				wv(en.key)
				wv(en.val)
			}
		}
	}
	for _, v := range f.live {
		wv(p.env[v])
	}
	for _, d := range p.defers {
		wv(d.fn)
		for _, a := range d.args {
			wv(a)
		}
	}
	for o := range f.base {
		wo(o)
	}
	known := func(x, y *Lin) bool { return f.e.known(st, le(x, y)) == 1 }
	var objs []*Obj
	for o := range refs {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	for _, o := range objs {
		if len(refs[o]) != 1 || other[o] || f.isBase(o) || o.lazy != "" {
			continue
		}
		a, ok := st.heap[o].(*Arr)
		if !ok {
			continue
		}
		src := true
		for _, l := range a.layers {
			if l.src == "" {
				src = false
			}
		}
		if !src {
			continue
		}
		w := refs[o][0]
		w0, w1 := w.off, ladd(w.off, w.len)
		junk := "junk#" + strconv.Itoa(f.seq+1) + ":" + strconv.Itoa(o.id)
		n := &Arr{n: a.n, elem: a.elem, base: a.base}
		if known(w1, w0) {
			n.base = junk
			st.heap[o] = n
			continue
		}
		for i := len(a.layers) - 1; i >= 0; i-- {
			l := a.layers[i]
			if known(l.hi, w0) || known(w1, l.lo) {
				continue
			}
			if known(w1, l.hi) {
				l.hi = w1
			}
			if known(l.lo, w0) {
				l.lo = w0
			}
			n = f.e.arrPut(st, n, l)
		}
		for _, l := range n.layers {
			if known(l.lo, w0) && known(w1, l.hi) {
				n.base = junk
			}
		}
		st.heap[o] = n
	}
}

// normArrays forgets all but the two newest stretches of array contents.
func (f *fixp) normArrays(p *Path) {
	for o, v := range p.st.heap {
		a, ok := v.(*Arr)
		if !ok || len(a.layers) == 0 || sameVal(v, f.entry.st.heap[o]) {
			continue
		}
		src := true
		for _, l := range a.layers {
			if l.src == "" {
				src = false
			}
		}
		junk := "junk#" + strconv.Itoa(f.seq+1) + ":" + strconv.Itoa(o.id)
		if !src || (len(a.layers) <= 2 && a.base == junk) {
			continue
		}
		n := &Arr{n: a.n, elem: a.elem, base: junk, layers: a.layers}
		if len(n.layers) > 2 {
			n.layers = a.layers[:2:2]
		}
		p.st.heap[o] = n
	}
}

// partition splits a path arriving at the header by the predicates of the loop.
func (f *fixp) partition(ps []*Path) []*Path {
	if !f.part {
		return ps
	}
	qs := make([]*Path, len(ps))
	for i, p := range ps {
		qs[i] = p.clone()
		if len(f.e.stack) == 1 {
			f.trimArrays(qs[i])
		}
		f.normArrays(qs[i])
		f.shape(qs[i]) // registers changed objects
	}
	ps = qs
	var out []*Path
	for _, p := range ps {
		pos, bools := f.positions(p)
		var fs [][]*Form
		for _, b := range bools {
			if f.e.known(p.st, b) == -1 {
				fs = append(fs, []*Form{b, fNot(b)})
			}
		}
		for _, pr := range f.preds {
			x, y := pos[pr.a], pos[pr.b]
			if x == nil || y == nil {
				continue
			}
			fs = append(fs, []*Form{lt(x, y), eqL(x, y), lt(y, x)})
		}
		for _, l := range f.stretches(p) {
			fs = append(fs, []*Form{eqL(l[0], l[1]), lt(l[0], l[1])})
		}
		cur := []*Path{p}
		for _, alts := range fs {
			var nx []*Path
			for _, q := range cur {
				dec := false
				for _, alt := range alts {
					if q.st.entails(alt) {
						dec = true
					}
				}
				if dec {
					nx = append(nx, q)
					continue
				}
				for _, alt := range alts {
					if q.st.refutes(alt) {
						continue
					}
					r := q.clone()
					if r.st.assume(alt) {
						nx = append(nx, r)
					}
				}
			}
			cur = nx
		}
		out = append(out, cur...)
	}
	return out
}

// predTag is the part of the shape that records the truth of the predicates.
func (f *fixp) predTag(p *Path) string {
	if !f.part {
		return ""
	}
	pos, _ := f.positions(p)
	var sb strings.Builder
	for _, pr := range f.preds {
		x, y := pos[pr.a], pos[pr.b]
		if x == nil || y == nil {
			sb.WriteString("-")
			continue
		}
		switch {
		case p.st.entails(lt(x, y)):
			sb.WriteString("<")
		case p.st.entails(eqL(x, y)):
			sb.WriteString("=")
		case p.st.entails(lt(y, x)):
			sb.WriteString(">")
		default:
			sb.WriteString("?")
		}
	}
	for _, l := range f.stretches(p) {
		switch {
		case p.st.entails(eqL(l[0], l[1])):
			sb.WriteString("E")
		case p.st.entails(lt(l[0], l[1])):
			sb.WriteString("l")
		default:
			sb.WriteString("?")
		}
	}
	return sb.String()
}

// stretches lists the upper ends of the stream stretches of changed arrays, with the lengths of the arrays.
func (f *fixp) stretches(p *Path) (out [][2]*Lin) {
	if !f.e.track {
		return nil
	}
	for _, o := range f.changedObjs(nil) {
		if a, ok := p.st.heap[o].(*Arr); ok {
			for _, l := range a.layers {
				if l.src != "" {
					out = append(out, [2]*Lin{l.hi, a.n})
				}
			}
		}
	}
	return out
}

// build generalises all incoming paths of a template.
func (f *fixp) build(t *tmplT) {
	a := &anti{f: f, slotBy: map[string]*Atom{}, objBy: map[string]*Obj{}, names: map[string]string{}, usedAs: map[string]map[*Obj]*Obj{}}
	for _, i := range t.incs {
		a.ps = append(a.ps, i.p)
	}
	ent := f.entry.st
	out := ent.clone()
	a.out = out
	p0 := a.ps[0]
	for _, p := range a.ps {
		for o := range p.st.poison {
			if f.isBase(o) {
				out.poison[o] = true
			}
		}
	}
	env := map[ssa.Value]Val{}
	for k, v := range f.entry.env {
		env[k] = v
	}
	for _, v := range f.live {
		vs := make([]Val, len(a.ps))
		for i, p := range a.ps {
			vs[i] = p.env[v]
		}
		env[v] = a.val(vs, v.Type(), v.Name())
	}
	sk := &Path{st: out, env: env, blk: f.l.header, prev: p0.prev, start: true}
	for j, d := range p0.defers {
		nd := d
		nd.args = nil
		for k := range d.args {
			vs := make([]Val, len(a.ps))
			for i, p := range a.ps {
				vs[i] = p.defers[j].args[k]
			}
			nd.args = append(nd.args, a.val(vs, nil, fmt.Sprintf("defer%d.%d", j, k)))
		}
		vs := make([]Val, len(a.ps))
		for i, p := range a.ps {
			vs[i] = p.defers[j].fn
		}
		nd.fn = a.val(vs, nil, fmt.Sprintf("defer%d", j))
		sk.defers = append(sk.defers, nd)
	}
	// pre-existing objects
	seen := map[*Obj]bool{}
	var objs []*Obj
	for _, p := range a.ps {
		for o := range p.st.heap {
			if (f.isBase(o) || (o.lazy != "" && f.rigidKey(o.lazy))) && !seen[o] {
				seen[o] = true
				objs = append(objs, o)
			}
		}
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	for _, o := range objs {
		vs := make([]Val, len(a.ps))
		same := true
		if o.glob {
			ent.content(o)
		}
		e0, has := ent.heap[o]
		for i, p := range a.ps {
			vs[i] = p.st.content(o)
			if !has || !ptrSame(vs[i], e0) {
				same = false
			}
		}
		if same {
			continue
		}
		if has {
			all := true
			for _, v := range vs {
				if !sameVal(v, e0) {
					all = false
					break
				}
			}
			if all {
				continue
			}
		}
		out.heap[o] = a.val(vs, o.t, "o"+strconv.Itoa(o.id))
	}
	if a.fail != "" {
		bail("loop in %s: %s", f.l.header.Parent(), a.fail)
	}
	out.locks = map[string]int{}
	for k, v := range p0.st.locks {
		out.locks[k] = v
	}
	out.gos = p0.st.gos
	out.ghost = p0.st.ghost
	t.sk, t.slots = sk, a.slots
	t.vals = make([][]*Lin, len(a.ps))
	for k := range a.ps {
		for i := range a.slots {
			t.vals[k] = append(t.vals[k], a.vals[i][k])
		}
	}
	for _, ff := range a.facts {
		out.assumeRaw(ff)
	}
}

func ptrSame(a, b Val) bool {
	switch x := a.(type) {
	case *Arr:
		y, ok := b.(*Arr)
		return ok && x == y
	case *VStruct:
		y, ok := b.(*VStruct)
		return ok && x == y
	case *MapC:
		y, ok := b.(*MapC)
		return ok && x == y
	case *ChanC:
		y, ok := b.(*ChanC)
		return ok && x == y
	}
	return false
}

// subst replaces slots by their values in inc k.
func (t *tmplT) subst(l *Lin, k int) *Lin {
	var out *Lin = l
	for i, s := range t.slots {
		for _, x := range l.t {
			if x.a == s {
				out = ladd(lsub(out, lmulc(linAtom(s), x.k)), cst(0))
			}
		}
		_ = i
	}
	for _, x := range l.t {
		for i, s := range t.slots {
			if x.a == s {
				out = ladd(out, lmulc(t.vals[k][i], x.k))
			}
		}
	}
	return out
}

func (t *tmplT) slotIdx(a *Atom) int {
	for i, s := range t.slots {
		if s == a {
			return i
		}
	}
	return -1
}

// ---------------------------------------------------------------------------
// Affine equalities (rational linear algebra)

type ratRow struct {
	m map[*Atom]*big.Rat
	c *big.Rat
}

func toRat(l *Lin) ratRow {
	r := ratRow{m: map[*Atom]*big.Rat{}, c: new(big.Rat).SetInt64(l.c)}
	for _, t := range l.t {
		r.m[t.a] = new(big.Rat).SetInt64(t.k)
	}
	return r
}

func (r ratRow) addScaled(k *big.Rat, o ratRow) {
	for a, v := range o.m {
		x := new(big.Rat).Mul(k, v)
		if y := r.m[a]; y != nil {
			x.Add(x, y)
		}
		if x.Sign() == 0 {
			delete(r.m, a)
		} else {
			r.m[a] = x
		}
	}
	r.c.Add(r.c, new(big.Rat).Mul(k, o.c))
}

// toLin scales to integers; nil if coefficients are unreasonable.
func (r ratRow) toLin() *Lin {
	den := big.NewInt(1)
	lcm := func(d *big.Int) {
		g := new(big.Int).GCD(nil, nil, den, d)
		den.Mul(den, new(big.Int).Div(d, g))
	}
	for _, v := range r.m {
		lcm(v.Denom())
	}
	lcm(r.c.Denom())
	dr := new(big.Rat).SetInt(den)
	get := func(v *big.Rat) (int64, bool) {
		x := new(big.Rat).Mul(v, dr)
		n := x.Num()
		if !n.IsInt64() || n.Int64() > 1<<40 || n.Int64() < -(1<<40) {
			return 0, false
		}
		return n.Int64(), true
	}
	c, ok := get(r.c)
	if !ok {
		return nil
	}
	out := cst(c)
	var as []*Atom
	for a := range r.m {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	for _, a := range as {
		k, ok := get(r.m[a])
		if !ok || k > 1<<20 || k < -(1<<20) {
			return nil
		}
		out = ladd(out, lmulc(linAtom(a), k))
	}
	return out
}

// eqReducer holds the equalities of a state in solved form, eliminating the newest atoms first.
type eqReducer struct {
	piv  []*Atom
	rows []ratRow
}

func (f *fixp) reducer(i *incT) *eqReducer {
	if i.red != nil {
		return i.red
	}
	st := i.p.st
	var sb strings.Builder
	sb.WriteString(satKey(st.cons))
	for _, l := range st.nes {
		sb.WriteString("!" + l.Key())
	}
	for _, o := range st.ors {
		sb.WriteString("|" + o.Key())
	}
	k := sb.String()
	if r := f.reds[k]; r != nil {
		i.red = r
		return r
	}
	i.red = newReducer(st.cons, f)
	// equalities implied by the inequalities: those that cannot be strict
	var cand []Con
	for _, c := range st.cons {
		if !c.eq && !c.l.real() {
			cand = append(cand, c)
		}
	}
	var rec func(cs []Con)
	rec = func(cs []Con) {
		var open []Con
		for _, c := range cs {
			if x := i.red.reduce(toRat(c.l)); len(x.m) > 0 {
				open = append(open, c)
			}
		}
		if len(open) == 0 {
			return
		}
		if len(open) == 1 {
			if st.entails(&Form{op: FLe, l: lneg(open[0].l)}) {
				i.red.add(toRat(open[0].l), f)
			}
			return
		}
		strict := make([]Con, len(open))
		for j, c := range open {
			strict[j] = Con{laddc(c.l, 1), false}
		}
		if st.sat0(strict, nil, 0) {
			return
		}
		rec(open[:len(open)/2])
		rec(open[len(open)/2:])
	}
	rec(cand)
	f.reds[k] = i.red
	return i.red
}

func newReducer(cons []Con, f *fixp) *eqReducer {
	r := &eqReducer{}
	for _, c := range cons {
		if c.eq {
			r.add(toRat(c.l), f)
		}
	}
	return r
}

func (r *eqReducer) reduce(x ratRow) ratRow {
	for i, p := range r.piv {
		if v := x.m[p]; v != nil {
			x.addScaled(new(big.Rat).Neg(v), r.rows[i])
		}
	}
	return x
}

func (r *eqReducer) add(x ratRow, f *fixp) {
	x = r.reduce(x)
	if len(x.m) == 0 {
		return
	}
	var best *Atom
	for a := range x.m {
		if best == nil {
			best = a
			continue
		}
		ra, rb := f.rigid(a), f.rigid(best)
		if ra != rb {
			if !ra {
				best = a
			}
			continue
		}
		if a.id > best.id {
			best = a
		}
	}
	inv := new(big.Rat).Inv(x.m[best])
	n := ratRow{m: map[*Atom]*big.Rat{}, c: new(big.Rat)}
	n.addScaled(inv, x)
	for i := range r.rows {
		if v := r.rows[i].m[best]; v != nil {
			r.rows[i].addScaled(new(big.Rat).Neg(v), n)
		}
	}
	r.piv = append(r.piv, best)
	r.rows = append(r.rows, n)
}

// nullspace returns a basis of the vectors lam with sum lam_k rows_k == 0, where each row is a sparse vector
// over atoms (and the constant if withC).
func nullspace(rows []ratRow, skip func(*Atom) bool, withC bool) [][]*big.Rat {
	n := len(rows)
	// matrix: one equation per atom, unknown lam_k
	idx := map[*Atom]int{}
	var eqs [][]*big.Rat
	zero := func() []*big.Rat {
		v := make([]*big.Rat, n)
		for i := range v {
			v[i] = new(big.Rat)
		}
		return v
	}
	for k, r := range rows {
		for a, v := range r.m {
			if skip != nil && skip(a) {
				continue
			}
			i, ok := idx[a]
			if !ok {
				i = len(eqs)
				idx[a] = i
				eqs = append(eqs, zero())
			}
			eqs[i][k] = v
		}
	}
	if withC {
		v := zero()
		for k, r := range rows {
			v[k] = r.c
		}
		eqs = append(eqs, v)
	}
	// deterministic order is irrelevant for the space; reduce
	pivCol := []int{}
	r := 0
	m := make([][]*big.Rat, len(eqs))
	for i := range eqs {
		m[i] = make([]*big.Rat, n)
		for j := range eqs[i] {
			m[i][j] = new(big.Rat).Set(eqs[i][j])
		}
	}
	for c := n - 1; c >= 0 && r < len(m); c-- {
		p := -1
		for i := r; i < len(m); i++ {
			if m[i][c].Sign() != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		m[r], m[p] = m[p], m[r]
		inv := new(big.Rat).Inv(m[r][c])
		for j := range m[r] {
			m[r][j].Mul(m[r][j], inv)
		}
		for i := range m {
			if i != r && m[i][c].Sign() != 0 {
				k := new(big.Rat).Set(m[i][c])
				for j := range m[i] {
					m[i][j].Sub(m[i][j], new(big.Rat).Mul(k, m[r][j]))
				}
			}
		}
		pivCol = append(pivCol, c)
		r++
	}
	isPiv := map[int]int{}
	for i, c := range pivCol {
		isPiv[c] = i
	}
	var basis [][]*big.Rat
	for c := 0; c < n; c++ {
		if _, ok := isPiv[c]; ok {
			continue
		}
		v := zero()
		v[c].SetInt64(1)
		for pc, i := range isPiv {
			v[pc].Neg(m[i][c])
		}
		basis = append(basis, v)
	}
	return basis
}

func combineRows(lam []*big.Rat, rows []ratRow) ratRow {
	out := ratRow{m: map[*Atom]*big.Rat{}, c: new(big.Rat)}
	for k, l := range lam {
		if l.Sign() != 0 {
			out.addScaled(l, rows[k])
		}
	}
	return out
}

func (f *fixp) affine(t *tmplT) {
	t.eqs = nil
	if len(t.slots) == 0 {
		return
	}
	var rel []ratRow
	for k, inc := range t.incs {
		red := f.reducer(inc)
		if k == 0 {
			rows := make([]ratRow, len(t.slots))
			for i := range t.slots {
				rows[i] = red.reduce(toRat(t.vals[0][i]))
			}
			for _, lam := range nullspace(rows, f.rigid, false) {
				s := combineRows(lam, rows)
				r := ratRow{m: map[*Atom]*big.Rat{}, c: new(big.Rat)}
				r.addScaled(big.NewRat(-1, 1), s)
				for i, l := range lam {
					if l.Sign() != 0 {
						r.addScaled(l, toRat(linAtom(t.slots[i])))
					}
				}
				rel = append(rel, r)
			}
			// facts about older quantities, which other states may only have in combination with the slots
			for _, r := range red.rows {
				rig := true
				for a := range r.m {
					if !f.rigid(a) {
						rig = false
					}
				}
				if rig {
					rel = append(rel, r)
				}
			}
			continue
		}
		// keep the combinations that hold in inc k
		rows := make([]ratRow, len(rel))
		for i, r := range rel {
			x := ratRow{m: map[*Atom]*big.Rat{}, c: new(big.Rat).Set(r.c)}
			for a, v := range r.m {
				if si := t.slotIdx(a); si >= 0 {
					x.addScaled(v, toRat(t.vals[k][si]))
				} else {
					x.addScaled(v, toRat(linAtom(a)))
				}
			}
			rows[i] = red.reduce(x)
		}
		var nr []ratRow
		for _, lam := range nullspace(rows, nil, true) {
			nr = append(nr, combineRows(lam, rel))
		}
		rel = nr
		if len(rel) == 0 {
			return
		}
	}
	for _, r := range rel {
		has := false
		for a := range r.m {
			if t.slotIdx(a) >= 0 {
				has = true
			}
		}
		if l := r.toLin(); l != nil && len(l.t) > 0 && has {
			t.eqs = append(t.eqs, l)
		}
	}
	sort.Slice(t.eqs, func(i, j int) bool { return t.eqs[i].Key() < t.eqs[j].Key() })
}

// ---------------------------------------------------------------------------
// Inequalities

func (f *fixp) addCand(l *Lin) {
	if l.isConst() || len(l.t) > 5 {
		return
	}
	if abs64(l.c) > 1<<40 {
		return
	}
	k := l.Key()
	if !f.inPool[k] {
		f.inPool[k] = true
		f.pool = append(f.pool, l)
	}
}

// candidates extends the pool from the incoming paths of a template.
func (f *fixp) candidates(t *tmplT) {
	for k, inc := range t.incs {
		for i, s := range t.slots {
			v := t.vals[k][i]
			sl := linAtom(s)
			if f.rigidLin(v) {
				f.addCand(lsub(sl, v))
				f.addCand(lsub(v, sl))
			}
			if s.real {
				if lo, hi, hl, hh := v.interval(); hl && hh {
					f.addCand(laddc(sl, -hi))
					f.addCand(laddc(lneg(sl), lo))
				}
				continue
			}
			f.addCand(lneg(sl))
		}
		// constraints collected since the loop was entered, expressed by slots
		sub := map[*Atom]*Lin{}
		for i, s := range t.slots {
			v := t.vals[k][i]
			for _, x := range v.t {
				if (x.k == 1 || x.k == -1) && !f.rigid(x.a) && sub[x.a] == nil {
					// s = x.k*a + rest  =>  a = x.k*(s - rest)
					rest := lsub(v, lmulc(linAtom(x.a), x.k))
					if f.rigidLin(rest) {
						sub[x.a] = lmulc(lsub(linAtom(s), rest), x.k)
					}
				}
			}
		}
		conv := func(l *Lin) *Lin {
			out := cst(l.c)
			for _, x := range l.t {
				switch {
				case f.rigid(x.a):
					out = ladd(out, lmulc(linAtom(x.a), x.k))
				case sub[x.a] != nil:
					out = ladd(out, lmulc(sub[x.a], x.k))
				default:
					return nil
				}
			}
			return out
		}
		handle := func(l *Lin) {
			if c := conv(l); c != nil {
				f.addCand(c)
				if len(c.t) > 0 && f.rigidLin(c) {
					for i, s := range t.slots {
						v := t.vals[k][i]
						if v.isConst() && !s.real {
							f.addCand(ladd(c, laddc(linAtom(s), -v.c)))
							f.addCand(lsub(c, laddc(linAtom(s), -v.c)))
						}
					}
				}
			}
		}
		n := 0
		for _, c := range inc.p.st.cons {
			if f.entryCons[c.l.Key()] {
				continue
			}
			n++
			if n > 60 {
				break
			}
			handle(c.l)
			if c.eq {
				handle(lneg(c.l))
			}
		}
	}
	// the loop condition and the comparisons next to it
	if t.sk != nil {
		var at func(v ssa.Value) *Lin
		at = func(v ssa.Value) *Lin {
			if c, ok := v.(*ssa.Const); ok {
				if n, ok := constVal(c).(VNum); ok {
					return n.l
				}
				return nil
			}
			if b, ok := v.(*ssa.BinOp); ok && f.l.blocks[b.Block()] && (b.Op == token.ADD || b.Op == token.SUB) {
				x, y := at(b.X), at(b.Y)
				if x != nil && y != nil && y.isConst() {
					if b.Op == token.SUB {
						y = lneg(y)
					}
					return laddc(x, y.c)
				}
				return nil
			}
			if n, ok := t.sk.env[v].(VNum); ok && !n.l.real() {
				return n.l
			}
			return nil
		}
		n := 0
		for _, b := range f.l.header.Parent().Blocks {
			if !f.l.blocks[b] {
				continue
			}
			for _, in := range b.Instrs {
				if b, ok := in.(*ssa.BinOp); ok && isCmp(b.Op) {
					x, y := at(b.X), at(b.Y)
					if x == nil || y == nil {
						continue
					}
					if n++; n > 8 {
						break
					}
					d := lsub(x, y)
					for k := int64(-1); k <= 1; k++ {
						f.addCand(laddc(d, k))
						f.addCand(laddc(lneg(d), k))
					}
				}
			}
		}
	}
	if len(t.slots) <= 10 {
		for i, s := range t.slots {
			for j, u := range t.slots {
				if i != j && s.real == u.real {
					f.addCand(lsub(linAtom(s), linAtom(u)))
				}
				if s.real && !u.real && !u.isBool01() { // a sum of terms of at most 1, against the number of terms
					for k := int64(0); k < 2; k++ {
						f.addCand(laddc(lsub(linAtom(s), linAtom(u)), -k))
						f.addCand(laddc(lsub(lneg(linAtom(s)), linAtom(u)), -k))
					}
				}
			}
		}
	}
	// slots against the lengths and other quantities known at entry
	var ref []*Atom
	seen := map[*Atom]bool{}
	for _, c := range f.entry.st.cons {
		for _, x := range c.l.t {
			if !seen[x.a] && !x.a.real && !x.a.isBool01() && !strings.HasPrefix(x.a.op, "wrapk") {
				seen[x.a] = true
				ref = append(ref, x.a)
			}
		}
	}
	for _, v := range f.live {
		if s, ok := f.entry.env[v].(VSlice); ok && s.arr != nil {
			for _, l := range []*Lin{s.len, s.cap} {
				for _, x := range l.t {
					if !seen[x.a] {
						seen[x.a] = true
						ref = append(ref, x.a)
					}
				}
			}
		}
		if s, ok := f.entry.env[v].(VStr); ok {
			for _, x := range s.n.t {
				if !seen[x.a] {
					seen[x.a] = true
					ref = append(ref, x.a)
				}
			}
		}
	}
	if len(ref) <= 14 {
		for _, s := range t.slots {
			if s.real || s.isBool01() {
				continue
			}
			for _, r := range ref {
				f.addCand(lsub(linAtom(s), linAtom(r)))
				f.addCand(lsub(linAtom(r), linAtom(s)))
			}
		}
	}
}

func (f *fixp) filter(t *tmplT) {
	t.ineqs = nil
	isSlot := map[*Atom]bool{}
	for _, s := range t.slots {
		isSlot[s] = true
	}
	for _, c := range f.pool {
		ok, has := true, false
		for _, x := range c.t {
			if isSlot[x.a] {
				has = true
			} else if !f.rigid(x.a) {
				ok = false
			}
		}
		if !ok || !has {
			continue
		}
		if _, hi, _, hh := c.interval(); hh && hi <= 0 {
			continue
		}
		for k, inc := range t.incs {
			if !inc.p.st.entails(fLe(t.subst(c, k))) {
				ok = false
				break
			}
		}
		if ok {
			t.ineqs = append(t.ineqs, c)
		}
	}
}

func (f *fixp) signature(t *tmplT) string {
	var sb strings.Builder
	for _, v := range f.live {
		sb.WriteString(vkey(t.sk.env[v]) + "|")
	}
	sb.WriteString(heapKey(t.sk.st, f.entry.st))
	for _, l := range t.eqs {
		sb.WriteString("|=" + l.Key())
	}
	var ks []string
	for _, l := range t.ineqs {
		ks = append(ks, l.Key())
	}
	sort.Strings(ks)
	sb.WriteString("|<" + strings.Join(ks, "|"))
	return sb.String()
}

func (f *fixp) rebuild(newPool bool) {
	for _, k := range f.order {
		f.build(f.tm[k])
	}
	if newPool {
		for _, k := range f.order {
			f.candidates(f.tm[k])
		}
	}
	for _, k := range f.order {
		t := f.tm[k]
		f.affine(t)
		f.filter(t)
		if f.part && len(t.ptag) > 0 {
			pos, _ := f.positions(t.sk)
			for i, pr := range f.preds {
				x, y := pos[pr.a], pos[pr.b]
				if x == nil || y == nil || i >= len(t.ptag) {
					continue
				}
				switch t.ptag[i] {
				case '<':
					t.sk.st.assumeRaw(lt(x, y))
				case '>':
					t.sk.st.assumeRaw(lt(y, x))
				case '=':
					t.sk.st.assumeRaw(eqL(x, y))
				}
			}
		}
		for _, l := range t.eqs {
			t.sk.st.assumeRaw(&Form{op: FEq, l: l})
		}
		for _, l := range f.prune(t) {
			t.sk.st.assumeRaw(&Form{op: FLe, l: l})
		}
		t.sig = f.signature(t)
	}
}

// prune drops inequalities implied by the others.
func (f *fixp) prune(t *tmplT) []*Lin {
	st := t.sk.st.light()
	var out []*Lin
	// short ones first
	ls := append([]*Lin(nil), t.ineqs...)
	sort.SliceStable(ls, func(i, j int) bool { return len(ls[i].t) < len(ls[j].t) })
	for _, l := range ls {
		if st.entails(fLe(l)) {
			continue
		}
		st.assumeRaw(&Form{op: FLe, l: l})
		out = append(out, l)
	}
	return out
}

func (f *fixp) addInc(p *Path, round int) {
	if p.st.inconsistent() {
		return
	}
	ptag := f.predTag(p)
	k := f.shape(p) + ptag
	t := f.tm[k]
	if t == nil {
		if len(f.order) > 40 {
			if f.e.dbg {
				for _, k := range f.order {
					fmt.Println("SHAPE", k)
				}
			}
			bail("too many shapes at the loop in %s", f.l.header.Parent())
		}
		t = &tmplT{key: k, ptag: ptag}
		f.tm[k] = t
		f.order = append(f.order, k)
	}
	var sb strings.Builder
	for _, v := range f.live {
		sb.WriteString(vkey(p.env[v]) + "|")
	}
	sb.WriteString(heapKey(p.st, f.entry.st))
	sb.WriteString(satKey(p.st.cons))
	key := sb.String()
	for _, i := range t.incs {
		if i.key == key {
			return
		}
	}
	t.incs = append(t.incs, &incT{p: p, key: key, src: round})
}

type snap struct {
	viol    map[string]*Violation
	obl     map[string]int
	checks  map[string]int
	reached map[string]bool
}

func cpMap[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (e *Eng) snapshot() snap {
	return snap{cpMap(e.viol), cpMap(e.obl), cpMap(e.checks), cpMap(e.reached)}
}
func (e *Eng) restore(s snap) {
	e.viol, e.obl, e.checks, e.reached = s.viol, s.obl, s.checks, s.reached
}

func (f *fixp) solve() (rets []Exit, outs []*Path) {
	e := f.e
	defer delete(changedByLoop, f)
	runAll := func() (rets []Exit, outs, backs []*Path) {
		for _, k := range f.order {
			t := f.tm[k]
			q := t.sk.clone()
			q.start = true
			r, o, b := e.run([]*Path{q}, f.l)
			rets = append(rets, r...)
			outs = append(outs, o...)
			if f.part {
				by := map[string][]*Path{}
				var ks []string
				for _, x := range f.partition(b) {
					k := f.shape(x) + f.predTag(x)
					if by[k] == nil {
						ks = append(ks, k)
					}
					by[k] = append(by[k], x)
				}
				for _, k := range ks {
					backs = append(backs, mergePaths(f.entry.st, by[k])...)
				}
				continue
			}
			backs = append(backs, b...)
		}
		if f.part {
			return rets, outs, backs
		}
		return rets, outs, mergePaths(f.entry.st, backs)
	}
	ent := f.entry.clone()
	ent.start = false
	reset := func(keep []*Path) {
		f.tm, f.order = map[string]*tmplT{}, nil
		for _, b := range f.partition([]*Path{ent}) {
			f.addInc(b, 0)
		}
		for _, b := range keep {
			f.addInc(b, 0)
		}
	}
	reset(nil)
	f.rebuild(false)
	var first []*Path
	resets := 0
	nslots := 0
	for round := 0; ; round++ {
		if round > 30 {
			if loopTrace {
				f.dump("no convergence")
			}
			bail("no loop invariant found for the loop in %s at %s", f.l.header.Parent(), e.pos(instrPos(f.l.header.Instrs[0])))
		}
		sn := e.snapshot()
		rs, os, bs := runAll()
		old := map[string]string{}
		for _, k := range f.order {
			old[k] = f.tm[k].sig
		}
		if len(bs) == 0 {
			return rs, os
		}
		for _, b := range bs {
			f.addInc(b, round)
		}
		// shapes may have become finer or coarser as more objects are known to change
		f.regroup()
		if round == 0 {
			first = bs
		}
		grow := round <= 1 || len(f.slots) > nslots
		if len(f.newPreds) > len(f.preds) && len(f.preds) < 3 {
			f.preds = append([]predPair(nil), f.newPreds...)
			if len(f.preds) > 3 {
				f.preds = f.preds[:3]
			}
			if loopTrace {
				fmt.Println("PREDS", f.preds)
			}
			first = f.partition(first)
			grow = true
			resets = 0
			f.tm, f.order = map[string]*tmplT{}, nil
			for _, b := range append(f.partition([]*Path{ent}), first...) {
				f.addInc(b, 0)
			}
			f.regroup()
			f.rebuild(true)
			e.restore(sn)
			continue
		}
		f.rebuild(grow)
		if grow && len(f.slots) > nslots {
			nslots = len(f.slots)
		}
		same := len(old) == len(f.order)
		for _, k := range f.order {
			if old[k] != f.tm[k].sig {
				same = false
			}
		}
		if same {
			if loopTrace {
				f.dump(fmt.Sprintf("converged after %d rounds", round))
			}
			e.invs += len(f.order)
			return rs, os
		}
		if loopTrace {
			f.dump(fmt.Sprintf("round %d", round))
		}
		e.restore(sn)
		if grow && round >= 1 && resets < 4 {
			// restart with the richer set of candidates
			resets++
			reset(first)
			f.regroup()
			f.rebuild(true)
		}
	}
}

func (f *fixp) regroup() {
	var all []*incT
	for _, k := range f.order {
		all = append(all, f.tm[k].incs...)
	}
	f.tm, f.order = map[string]*tmplT{}, nil
	for _, i := range all {
		for _, q := range f.partition([]*Path{i.p}) {
			f.addInc(q, i.src)
		}
	}
	n := 0
	for _, k := range f.order {
		n = max(n, len(f.tm[k].incs))
	}
	if n > 150 && !f.part && !f.join || n > 600 {
		bail("loop analysis in %s does not converge", f.l.header.Parent())
	}
}

func (f *fixp) dump(msg string) {
	fmt.Printf("LOOP %s %s: %s, %d templates, pool %d\n", f.id, f.l.header.Parent(), msg, len(f.order), len(f.pool))
	for _, k := range f.order {
		t := f.tm[k]
		fmt.Printf("  template %s (%d incs)\n", trunc(k, 300), len(t.incs))
		for i, s := range t.slots {
			fmt.Printf("    slot %s:", s.key)
			for j := range t.incs {
				if j < 4 || os.Getenv("MC_LOOP") == "2" {
					fmt.Printf(" [%s]", t.vals[j][i])
				}
			}
			fmt.Println()
		}
		if os.Getenv("MC_LOOP") == "3" {
			for i, inc := range t.incs {
				fmt.Printf("    INC %d incons=%v\n", i, inc.p.st.inconsistent())
				for _, c := range inc.p.st.cons {
					fmt.Printf("      %s %v\n", c.l, c.eq)
				}
				for _, c := range inc.p.st.nes {
					fmt.Printf("      %s != 0\n", c)
				}
				for _, c := range inc.p.st.ors {
					fmt.Printf("      OR %s\n", c.Key())
				}
				for j, r := range f.reducer(inc).rows {
					fmt.Printf("      RED %s := %s\n", f.reducer(inc).piv[j].key, r.toLin())
				}
			}
		}
		for _, l := range t.eqs {
			fmt.Printf("    %s == 0\n", l)
		}
		for _, l := range f.prune2(t) {
			fmt.Printf("    %s <= 0\n", l)
		}
	}
}
func (f *fixp) prune2(t *tmplT) []*Lin { return t.ineqs }

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "~"
	}
	return s
}

func isCmp(op token.Token) bool {
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		return true
	}
	return false
}
