package main

// A flow-sensitive, context-sensitive (inlining) effect analysis over the SSA form. It runs every exported
// function and method of the repository (a "root") and every goroutine they start from an unknown state,
// and records which memory is accessed with which locks held, which calls and waits happen under which locks,
// and where references to memory flow. Rules over these events are in rules_*.go.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type frefKind int

const (
	rParam frefKind = iota // argument of a root
	rAlloc                 // object allocated by the code
	rField                 // field of a struct location
	rElem                  // element of an array, slice, map or channel
	rDeref                 // what a pointer-like location points to
	rGlobal
	rFunc
	rUnknown // result of an external call
)

// fref is a symbolic memory location or object.
type fref struct {
	id     int
	kind   frefKind
	parent *fref
	name   string
	typ    types.Type // type of the object at the location
	fn     *ssa.Function
	binds  []fval
	pos    token.Pos
}

type fval []*fref

func (v fval) key() string {
	var b strings.Builder
	for _, r := range v {
		b.WriteString(strconv.Itoa(r.id))
		b.WriteByte(',')
	}
	return b.String()
}

func joinVal(a, b fval) fval {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	m := map[*fref]bool{}
	for _, r := range a {
		m[r] = true
	}
	n := len(m)
	for _, r := range b {
		m[r] = true
	}
	if len(m) == n {
		return a
	}
	out := make(fval, 0, len(m))
	for r := range m {
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (r *fref) root() *fref {
	for r.parent != nil {
		r = r.parent
	}
	return r
}

func (r *fref) String() string {
	if r == nil {
		return "?"
	}
	switch r.kind {
	case rField:
		p := r.parent
		if p.kind == rDeref {
			p = p.parent
		}
		return p.String() + "." + r.name
	case rElem:
		p := r.parent
		if p.kind == rDeref {
			p = p.parent
		}
		return p.String() + "[]"
	case rDeref:
		return "*" + r.parent.String()
	case rFunc:
		return fnName(r.fn)
	}
	return r.name
}

func (r *fref) under(a *fref) bool {
	for x := r; x != nil; x = x.parent {
		if x == a {
			return true
		}
	}
	return false
}

type lockHeld struct {
	tok   string // identity: the set of locations
	refs  fval
	write bool
}

type fstate struct {
	locks []lockHeld      // in order of acquisition
	pub   map[*fref]bool  // allocated objects that other goroutines may know
	done  map[string]bool // channels closed or fuses broken on this path
	calls map[string]bool // opaque calls made on this path (keys)
	acq   map[string]bool // locks acquired on this path (class keys)
	ov    map[*fref]fval  // contents of overwritten locations of objects that are not shared
}

func (s fstate) clone() fstate {
	n := fstate{locks: append([]lockHeld(nil), s.locks...), pub: map[*fref]bool{}, done: map[string]bool{}, calls: map[string]bool{}, acq: map[string]bool{}, ov: s.ov}
	for k := range s.pub {
		n.pub[k] = true
	}
	for k := range s.done {
		n.done[k] = true
	}
	for k := range s.calls {
		n.calls[k] = true
	}
	for k := range s.acq {
		n.acq[k] = true
	}
	return n
}

func (s fstate) key() string {
	var b strings.Builder
	for _, l := range s.locks {
		b.WriteString(l.tok)
		if l.write {
			b.WriteByte('w')
		}
		b.WriteByte(';')
	}
	b.WriteByte('|')
	var ids []int
	for k := range s.pub {
		ids = append(ids, k.id)
	}
	sort.Ints(ids)
	for _, i := range ids {
		b.WriteString(strconv.Itoa(i))
		b.WriteByte(',')
	}
	for _, m := range []map[string]bool{s.done, s.calls, s.acq} {
		b.WriteByte('|')
		b.WriteString(strings.Join(sortedSet(m), ","))
	}
	if len(s.ov) > 0 {
		b.WriteByte('|')
		var ls []*fref
		for l := range s.ov {
			ls = append(ls, l)
		}
		sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
		for _, l := range ls {
			b.WriteString(strconv.Itoa(l.id))
			b.WriteByte('=')
			b.WriteString(s.ov[l].key())
		}
	}
	return b.String()
}

// setOv records (or, with v nil and del, forgets) the exact contents of a location.
func (s *fstate) setOv(loc *fref, v fval, del bool) {
	n := make(map[*fref]fval, len(s.ov)+1)
	for k, w := range s.ov {
		n[k] = w
	}
	if del {
		delete(n, loc)
	} else {
		n[loc] = v
	}
	s.ov = n
}

// dropOv forgets the exact contents of an object.
func (s *fstate) dropOv(q *fref) {
	hit := false
	for l := range s.ov {
		if l.root() == q {
			hit = true
		}
	}
	if !hit {
		return
	}
	n := map[*fref]fval{}
	for l, w := range s.ov {
		if l.root() != q {
			n[l] = w
		}
	}
	s.ov = n
}

type fexit struct {
	st  fstate
	res []fval
}

// Events.
type accEvent struct {
	loc    *fref
	write  bool
	locks  []lockHeld
	root   *froot
	thread *fthread
	in     ssa.Instruction
	all    fval // every location the address may denote
	set    bool // the location was stored into earlier on this path
	bases  []fval
}

type callEvent struct {
	name   string // method or function called
	recv   fval
	args   []fval
	locks  []lockHeld
	root   *froot
	thread *fthread
	in     ssa.Instruction
	static bool
	st     fstate
}

type waitEvent struct {
	what   string // send, recv, select
	chans  []fval
	recvs  []bool
	locks  []lockHeld
	root   *froot
	thread *fthread
	in     ssa.Instruction
}

type flowEvent struct {
	what   string // store, send, ret
	dst    *fref
	val    fval // everything reachable from the value
	top    fval
	root   *froot
	thread *fthread
	in     ssa.Instruction
}

type orderEvent struct {
	a, b   string
	ra, rb fval
	root   *froot
	in     ssa.Instruction
}

type lockIssue struct {
	msg  string
	root *froot
	in   ssa.Instruction
	fn   *ssa.Function
}

type froot struct {
	fn     *ssa.Function
	name   string
	params []fval
	exits  []fexit
}

// fthread is a goroutine started by the code (nil for the caller of the root).
type fthread struct {
	in   ssa.Instruction
	fn   *ssa.Function
	name string
}

type flow struct {
	pr      *Program
	refs    map[string]*fref
	nref    int
	heap    map[*fref]fval
	heapN   int
	memo    map[string][]fexit
	root    *froot
	thread  *fthread
	stack   []*ffr
	frames  map[string]int
	pend    []pendGo
	seenGo  map[string]bool
	acc     map[string]*accEvent
	calls   map[string]*callEvent
	waits   map[string]*waitEvent
	flows   map[string]*flowEvent
	orders  map[string]*orderEvent
	issues  map[string]*lockIssue
	roots   []*froot
	taken   []*ssa.Function // functions whose address is taken
	steps   int
	fns     map[*ssa.Function]bool
	clazz   map[*types.Named]bool
	nlocks  int
	goSites map[ssa.Instruction]*fthread
	fresh   map[ssa.Instruction]bool // go statements whose object is not shared yet at that point
	chanSrc map[string]map[string]bool
	bail    string
	ov      map[*fref]fval
	written map[string]bool
	inField map[*fref]map[string]bool
}

type ffr struct {
	fn   *ssa.Function
	call ssa.Instruction
	id   int
}

type pendGo struct {
	in    ssa.Instruction
	fn    *ssa.Function
	args  []fval
	binds []fval
	pub   map[*fref]bool
}

func newFlow(pr *Program) *flow {
	a := &flow{pr: pr, refs: map[string]*fref{}, frames: map[string]int{},
		acc: map[string]*accEvent{}, calls: map[string]*callEvent{}, waits: map[string]*waitEvent{}, flows: map[string]*flowEvent{}, orders: map[string]*orderEvent{}, issues: map[string]*lockIssue{},
		fns: map[*ssa.Function]bool{}, clazz: map[*types.Named]bool{}, goSites: map[ssa.Instruction]*fthread{}, chanSrc: map[string]map[string]bool{}}
	a.collectTaken()
	return a
}

func (a *flow) mk(kind frefKind, parent *fref, name string, typ types.Type) *fref {
	p := 0
	if parent != nil {
		p = parent.id
	}
	k := fmt.Sprintf("%d|%d|%s", kind, p, name)
	if r := a.refs[k]; r != nil {
		return r
	}
	a.nref++
	r := &fref{id: a.nref, kind: kind, parent: parent, name: name, typ: typ}
	a.refs[k] = r
	return r
}

func structOf(t types.Type) (*types.Named, *types.Struct) {
	t = types.Unalias(t)
	n, _ := t.(*types.Named)
	s, _ := t.Underlying().(*types.Struct)
	return n, s
}

func depthOf(r *fref) int {
	d := 0
	for x := r; x != nil; x = x.parent {
		d++
	}
	return d
}

func (a *flow) field(loc *fref, st types.Type, i int) *fref {
	n, s := structOf(st)
	if s == nil {
		return loc
	}
	f := s.Field(i)
	// collapse recursive structures
	for x := loc; x != nil; x = x.parent {
		if x.kind == rField && x.name == f.Name() && x.parent.typ != nil && n != nil && types.Identical(types.Unalias(x.parent.typ), n) {
			return x
		}
	}
	if loc.typ == nil {
		loc.typ = st
	}
	return a.mk(rField, loc, f.Name(), f.Type())
}

func (a *flow) elem(loc *fref, t types.Type) *fref {
	if depthOf(loc) > 24 {
		return loc
	}
	return a.mk(rElem, loc, "", t)
}

// pointee returns what a pointer-like value loaded from loc refers to.
func (a *flow) pointee(loc *fref, t types.Type, tok string) *fref {
	if depthOf(loc) > 24 {
		return loc
	}
	var et types.Type
	if p, ok := t.Underlying().(*types.Pointer); ok {
		et = p.Elem()
	}
	if loc.kind != rElem {
		tok = ""
	}
	r := a.mk(rDeref, loc, tok, et)
	return r
}

func hasRefs(t types.Type) bool { return hasRefs1(t, 0) }

func hasRefs1(t types.Type, d int) bool {
	if d > 8 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs1(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasRefs1(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasRefs1(u.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Interface:
		if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
			// a type parameter: assume references unless its core type is a number
			c := tp.Constraint().Underlying().(*types.Interface)
			for i := 0; i < c.NumEmbeddeds(); i++ {
				if u, ok := c.EmbeddedType(i).(*types.Union); ok {
					all := u.Len() > 0
					for j := 0; j < u.Len(); j++ {
						if _, ok := u.Term(j).Type().Underlying().(*types.Basic); !ok {
							all = false
						}
					}
					if all {
						return false
					}
				} else if _, ok := c.EmbeddedType(i).Underlying().(*types.Interface); ok {
					sub := c.EmbeddedType(i).Underlying().(*types.Interface)
					for k := 0; k < sub.NumEmbeddeds(); k++ {
						if u, ok := sub.EmbeddedType(k).(*types.Union); ok && u.Len() > 0 {
							if _, ok := u.Term(0).Type().Underlying().(*types.Basic); ok {
								return false
							}
						}
					}
				}
			}
		}
		return true
	}
	return true
}

// isSyncType reports types that synchronise on their own.
func isSyncType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic":
		return true
	case "github.com/frostbyte73/core":
		return n.Obj().Name() == "Fuse"
	}
	return false
}

// isClass reports struct types of the repository that contain a synchronisation primitive.
func (a *flow) isClass(t types.Type) (*types.Named, bool) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return nil, false
	}
	n = n.Origin()
	if v, ok := a.clazz[n]; ok {
		return n, v
	}
	res := false
	if s, ok := n.Underlying().(*types.Struct); ok && a.pr.isRepo(n.Obj().Pkg()) {
		nsync, nat := 0, 0
		for i := 0; i < s.NumFields(); i++ {
			if _, ptr := s.Field(i).Type().Underlying().(*types.Pointer); !ptr && isSyncType(s.Field(i).Type()) {
				nsync++
			} else {
				nat++
			}
		}
		res = nsync > 0
	}
	a.clazz[n] = res
	return n, res
}

func (a *flow) collectTaken() {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				ops = in.Operands(ops)
				for i, op := range ops {
					if op == nil || *op == nil {
						continue
					}
					if c, ok := in.(ssa.CallInstruction); ok && i == 0 && !c.Common().IsInvoke() {
						continue
					}
					if fn, ok := (*op).(*ssa.Function); ok && a.inRepo(fn) {
						a.taken = append(a.taken, fn)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					a.taken = append(a.taken, mc.Fn.(*ssa.Function))
				}
			}
		}
		for _, af := range f.AnonFuncs {
			visit(af)
		}
	}
	for _, f := range a.repoFuncs() {
		visit(f)
	}
}

func (a *flow) inRepo(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return a.pr.isRepo(g.Pkg.Pkg)
		}
		if o := g.Origin(); o != nil && o.Pkg != nil {
			return a.pr.isRepo(o.Pkg.Pkg)
		}
		if g.Object() != nil {
			return a.pr.isRepo(g.Object().Pkg())
		}
	}
	return false
}

// repoFuncs lists every declared function and method of the repository.
func (a *flow) repoFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, p := range a.pr.repo {
		sc := p.Pkg.Scope()
		for _, name := range sc.Names() {
			switch o := sc.Lookup(name).(type) {
			case *types.Func:
				if f := a.pr.prog.FuncValue(o); f != nil {
					out = append(out, f)
				}
			case *types.TypeName:
				n, ok := o.Type().(*types.Named)
				if !ok || o.IsAlias() {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					if f := a.pr.prog.FuncValue(n.Method(i)); f != nil {
						out = append(out, f)
					}
				}
			}
		}
		if f := p.Func("init"); f != nil {
			for i := 1; ; i++ {
				g := p.Func("init#" + strconv.Itoa(i))
				if g == nil {
					break
				}
				out = append(out, g)
			}
		}
	}
	return out
}

func (a *flow) runAll() {
	for _, f := range a.repoFuncs() {
		if !f.Object().Exported() || len(f.Blocks) == 0 {
			continue
		}
		a.runRoot(f)
	}
}

func (a *flow) runRoot(f *ssa.Function) {
	r := &froot{fn: f, name: fnName(f)}
	a.roots = append(a.roots, r)
	var args []fval
	for i, p := range f.Params {
		var v fval
		if hasRefs(p.Type()) {
			var et types.Type
			if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
				et = pt.Elem()
			} else {
				et = p.Type()
			}
			v = fval{a.mk(rParam, nil, fmt.Sprintf("%s#%d:%s", r.name, i, p.Name()), et)}
		}
		args = append(args, v)
	}
	r.params = args
	for pass := 0; pass < 6; pass++ {
		a.heap0()
		a.root, a.thread = r, nil
		a.memo = map[string][]fexit{}
		a.pend, a.seenGo = nil, map[string]bool{}
		n := a.heapN
		r.exits = a.run(f, nil, args, nil, fstate{pub: map[*fref]bool{}})
		for i := 0; i < len(a.pend); i++ {
			g := a.pend[i]
			a.thread = a.threadOf(g.in, g.fn)
			a.memo = map[string][]fexit{}
			ex := a.run(g.fn, g.in, g.args, g.binds, fstate{pub: g.pub})
			for _, x := range ex {
				a.checkExitLocks(g.fn, x, nil)
			}
		}
		a.thread = nil
		if a.heapN == n {
			break
		}
	}
	for _, x := range r.exits {
		a.checkExitLocks(f, x, nil)
		for i, v := range x.res {
			if len(v) > 0 {
				a.flowEv("ret", nil, v, instrOfFn(f), i)
			}
		}
	}
}

func instrOfFn(f *ssa.Function) ssa.Instruction {
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return r
		}
	}
	return f.Blocks[0].Instrs[0]
}

func (a *flow) heap0() {
	if a.heap == nil {
		a.heap = map[*fref]fval{}
	}
}

func (a *flow) threadOf(in ssa.Instruction, fn *ssa.Function) *fthread {
	if t := a.goSites[in]; t != nil {
		return t
	}
	t := &fthread{in: in, fn: fn, name: fnName(fn)}
	a.goSites[in] = t
	return t
}

func (a *flow) checkExitLocks(f *ssa.Function, x fexit, entry []lockHeld) {
	if len(x.st.locks) > len(entry) {
		for _, l := range x.st.locks[len(entry):] {
			a.issue("lock "+l.name()+" is still held when "+fnName(f)+" returns", nil, f)
		}
	}
}

func (l lockHeld) name() string {
	var s []string
	for _, r := range l.refs {
		s = append(s, lockClass(r))
	}
	return strings.Join(s, "/")
}

// lockClass names a lock by the type and field that hold it.
func lockClass(r *fref) string {
	if r.kind == rField {
		if n, _ := structOf(r.parent.typ); n != nil {
			return n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + r.name
		}
	}
	return r.String()
}

func (a *flow) issue(msg string, in ssa.Instruction, fn *ssa.Function) {
	k := msg + "|" + a.root.name
	if in != nil {
		k = msg + "|" + fnName(in.Parent())
	}
	if a.issues[k] == nil {
		a.issues[k] = &lockIssue{msg, a.root, in, fn}
	}
}

func (a *flow) frameID(call ssa.Instruction, parent int, fn *ssa.Function) int {
	k := fmt.Sprintf("%d|%p|%p", parent, call, fn)
	if id, ok := a.frames[k]; ok {
		return id
	}
	id := len(a.frames) + 1
	a.frames[k] = id
	return id
}

type fitem struct {
	b      *ssa.BasicBlock
	i      int
	pred   *ssa.BasicBlock
	st     fstate
	defers []*ssa.Defer
	as     map[ssa.Value]bool
}

func (it fitem) key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d:%d:", it.b.Index, it.i)
	b.WriteString(it.st.key())
	for _, d := range it.defers {
		fmt.Fprintf(&b, "/%p", d)
	}
	var ks []string
	for v, t := range it.as {
		ks = append(ks, fmt.Sprintf("%s=%v", v.Name(), t))
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ","))
	return b.String()
}

type flowErr struct{ msg string }

func (a *flow) run(fn *ssa.Function, call ssa.Instruction, args, binds []fval, st fstate) []fexit {
	if len(fn.Blocks) == 0 {
		return []fexit{{st, nil}}
	}
	for _, f := range a.stack {
		if f.fn == fn {
			// recursion: effects of the outer activation are recorded already
			return []fexit{{st, a.unknownRes(fn, call)}}
		}
	}
	if len(a.stack) > 30 {
		panic(engErr{"call depth in " + fnName(fn)})
	}
	parent := 0
	if len(a.stack) > 0 {
		parent = a.stack[len(a.stack)-1].id
	}
	id := a.frameID(call, parent, fn)
	var mk strings.Builder
	fmt.Fprintf(&mk, "%d|", id)
	for _, v := range args {
		mk.WriteString(v.key())
		mk.WriteByte(';')
	}
	mk.WriteByte('|')
	for _, v := range binds {
		mk.WriteString(v.key())
		mk.WriteByte(';')
	}
	mk.WriteString(st.key())
	k := mk.String()
	if ex, ok := a.memo[k]; ok {
		return ex
	}
	a.fns[fn] = true
	a.stack = append(a.stack, &ffr{fn, call, id})
	defer func() { a.stack = a.stack[:len(a.stack)-1] }()
	env := map[ssa.Value]fval{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			env[p] = binds[i]
		}
	}
	var exits []fexit
	for pass := 0; ; pass++ {
		x := &fexec{a: a, fn: fn, env: env, id: id, seen: map[string]bool{}, exitKeys: map[string]int{}}
		x.push(fitem{b: fn.Blocks[0], st: st})
		h := a.heapN
		for len(x.work) > 0 {
			it := x.work[len(x.work)-1]
			x.work = x.work[:len(x.work)-1]
			a.steps++
			if len(x.seen) > 6000 {
				panic(engErr{"too many lock states in " + fnName(fn)})
			}
			x.step(it)
		}
		exits = x.exits
		if (!x.changed && h == a.heapN) || pass > 5 {
			break
		}
	}
	a.memo[k] = exits
	return exits
}

func (a *flow) unknownRes(fn *ssa.Function, call ssa.Instruction) []fval {
	var out []fval
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if hasRefs(res.At(i).Type()) {
			out = append(out, fval{a.unknown(call, i, res.At(i).Type())})
		} else {
			out = append(out, nil)
		}
	}
	return out
}

func (a *flow) unknown(call ssa.Instruction, i int, t types.Type) *fref {
	parent := 0
	if len(a.stack) > 0 {
		parent = a.stack[len(a.stack)-1].id
	}
	var et types.Type
	if p, ok := t.Underlying().(*types.Pointer); ok {
		et = p.Elem()
	}
	return a.mk(rUnknown, nil, fmt.Sprintf("result%d of %s@%d/%p", i, callName(call), parent, call), et)
}

func callName(in ssa.Instruction) string {
	if c, ok := in.(ssa.CallInstruction); ok {
		cc := c.Common()
		if cc.IsInvoke() {
			return cc.Method.Name()
		}
		if f := cc.StaticCallee(); f != nil {
			return fnName(f)
		}
		return cc.Value.Name()
	}
	return "?"
}

type fexec struct {
	a        *flow
	fn       *ssa.Function
	env      map[ssa.Value]fval
	id       int
	seen     map[string]bool
	work     []fitem
	exits    []fexit
	exitKeys map[string]int
	changed  bool
	cur      map[*fref]bool
	anyField bool    // a reference may go to every field of a struct
	wst      *fstate // state of the current store
	strong   bool    // the current store overwrites
}

func (x *fexec) push(it fitem) {
	k := it.key()
	if x.seen[k] {
		return
	}
	x.seen[k] = true
	x.work = append(x.work, it)
}

func (x *fexec) set(v ssa.Value, val fval) {
	old := x.env[v]
	n := joinVal(old, val)
	if len(n) != len(old) {
		x.env[v] = n
		x.changed = true
	}
}

func (x *fexec) val(v ssa.Value) fval {
	switch v := v.(type) {
	case *ssa.Const:
		return nil
	case *ssa.Global:
		return fval{x.a.mk(rGlobal, nil, v.String(), v.Type().Underlying().(*types.Pointer).Elem())}
	case *ssa.Function:
		r := x.a.mk(rFunc, nil, fmt.Sprintf("%p", v), v.Type())
		r.fn = v
		return fval{r}
	}
	return x.env[v]
}

func pointerLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

// load returns the references held at a location of type t.
func (x *fexec) load(loc *fref, t types.Type, tok string) fval {
	a := x.a
	if !hasRefs(t) {
		return nil
	}
	if !pointerLike(t) {
		// aggregate: everything it contains
		if loc.root().kind == rAlloc {
			var v fval
			for _, l := range a.locsUnder(loc) {
				v = joinVal(v, a.at(l))
			}
			return v
		}
		var v fval
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if hasRefs(u.Field(i).Type()) {
					f := a.field(loc, t, i)
					if f == loc {
						continue
					}
					v = joinVal(v, x.load(f, u.Field(i).Type(), tok))
				}
			}
		case *types.Array:
			v = x.load(a.elem(loc, u.Elem()), u.Elem(), tok)
		default:
			v = fval{a.pointee(loc, t, tok)}
		}
		return v
	}
	if q := loc.root(); q.kind == rAlloc {
		if v := a.at(loc); len(v) > 0 || !x.cur[q] {
			return v
		}
	}
	return fval{a.pointee(loc, t, tok)}
}

// at returns what a location of an allocated object may hold in the current state.
func (a *flow) at(l *fref) fval {
	if v, ok := a.ov[l]; ok {
		return v
	}
	return a.heap[l]
}

func (a *flow) locsUnder(loc *fref) []*fref {
	var out []*fref
	for l := range a.heap {
		if l.under(loc) {
			out = append(out, l)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (a *flow) putHeap(loc *fref, v fval) {
	old := a.heap[loc]
	n := joinVal(old, v)
	if len(n) != len(old) {
		a.heap[loc] = n
		a.heapN++
	}
}

// reach returns everything reachable from v through local objects and closures.
func (a *flow) reach(v fval) fval { return a.reach1(v, true) }

// reach1 optionally does not look into channels: what is in a channel was shared when it was sent.
func (a *flow) reach1(v fval, chans bool) fval {
	seen := map[*fref]bool{}
	var out fval
	var rec func(r *fref)
	rec = func(r *fref) {
		if seen[r] {
			return
		}
		seen[r] = true
		out = append(out, r)
		if r.kind == rFunc {
			for _, b := range r.binds {
				for _, q := range b {
					rec(q)
				}
			}
			return
		}
		if r.root().kind == rAlloc {
			for _, l := range a.locsUnder(r) {
				if !chans && l.kind == rElem && isChan(l.parent.typ) {
					continue
				}
				for _, q := range a.at(l) {
					rec(q)
				}
			}
		}
	}
	for _, r := range v {
		rec(r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (x *fexec) publish(st *fstate, v fval) {
	for _, r := range x.a.reach1(v, false) {
		if q := r.root(); q.kind == rAlloc && !st.pub[q] {
			st.pub[q] = true
			st.dropOv(q)
			x.a.ov = st.ov
		}
	}
}

func (x *fexec) access(st fstate, loc *fref, write bool, in ssa.Instruction) {
	x.access1(st, loc, write, in, nil)
}

// access1 records an access to loc, one of the locations an address may denote.
func (x *fexec) access1(st fstate, loc *fref, write bool, in ssa.Instruction, all fval) {
	a := x.a
	q := loc.root()
	if q.kind == rAlloc && !st.pub[q] && !a.isClosureCell(q) {
		return
	}
	var b strings.Builder
	set := st.done["set "+strconv.Itoa(loc.id)]
	fmt.Fprintf(&b, "%d|%v|%p|%p|%s|%v|", loc.id, write, in, a.thread, a.root.name, set)
	for _, l := range st.locks {
		b.WriteString(l.tok)
		if l.write {
			b.WriteByte('w')
		}
		b.WriteByte(';')
	}
	k := b.String()
	if a.acc[k] == nil {
		a.acc[k] = &accEvent{loc, write, append([]lockHeld(nil), st.locks...), a.root, a.thread, in, all, set, x.bases(st, in)}
	}
}

// bases lists the objects, one out of several each, that the operands of an instruction are reached through.
func (x *fexec) bases(st fstate, in ssa.Instruction) (res []fval) {
	several := false
	for _, l := range st.locks {
		several = several || len(l.refs) > 1
	}
	if !several {
		return nil
	}
	for _, op := range in.Operands(nil) {
		for v := *op; v != nil; {
			if pointerLike(v.Type()) {
				if fv := x.val(v); len(fv) > 1 {
					res = append(res, fv)
				}
			}
			switch y := v.(type) {
			case *ssa.FieldAddr:
				v = y.X
			case *ssa.IndexAddr:
				v = y.X
			case *ssa.Slice:
				v = y.X
			case *ssa.UnOp:
				v = y.X
			default:
				v = nil
			}
		}
	}
	return
}

func (a *flow) isClosureCell(q *fref) bool { return false }

func (a *flow) flowEv(what string, dst *fref, v fval, in ssa.Instruction, i int) {
	if len(v) == 0 {
		return
	}
	d := 0
	if dst != nil {
		d = dst.id
	}
	r := a.reach(v)
	k := fmt.Sprintf("%s|%d|%s|%p|%s|%d", what, d, r.key(), in, a.root.name, i)
	if a.flows[k] == nil {
		a.flows[k] = &flowEvent{what, dst, r, v, a.root, a.thread, in}
	}
}

func (x *fexec) store(st *fstate, locs fval, v fval, t types.Type, in ssa.Instruction) {
	a := x.a
	var srcs fval
	if si, ok := in.(*ssa.Store); ok && !pointerLike(t) {
		if u, ok := si.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
			srcs = x.val(u.X)
		}
	}
	for _, loc := range locs {
		x.access1(*st, loc, true, in, locs)
		q := loc.root()
		if q.kind == rAlloc {
			x.wst, x.strong = st, len(locs) == 1 && !st.pub[q] && !hasElem(loc)
			if len(srcs) > 0 {
				for i, src := range srcs {
					x.strong = x.strong && i == 0 && len(srcs) == 1
					x.copyAgg(loc, src, t)
				}
			} else if len(v) > 0 || x.strong && hasRefs(t) {
				x.putAgg(loc, t, v)
			}
			x.wst, x.strong = nil, false
			a.ov = st.ov
			if st.pub[q] {
				x.publish(st, v)
			}
			continue
		}
		if len(locs) == 1 && pointerLike(t) && loc.kind == rField {
			st.done["set "+strconv.Itoa(loc.id)] = true
		}
		if len(v) > 0 {
			a.flowEv("store", loc, v, in, 0)
			x.publish(st, v)
			if _, ok := t.Underlying().(*types.Chan); ok {
				a.noteChan(loc, v)
			}
		}
	}
}

// copyAgg copies an aggregate part by part.
func (x *fexec) copyAgg(dst, src *fref, t types.Type) {
	a := x.a
	if !hasRefs(t) {
		return
	}
	if u, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < u.NumFields(); i++ {
			d, s := a.field(dst, t, i), a.field(src, t, i)
			if d != dst && s != src {
				x.copyAgg(d, s, u.Field(i).Type())
			}
		}
		return
	}
	x.putAgg(dst, t, x.load(src, t, "copy"))
}

// hasElem reports whether a location stands for several ones.
func hasElem(l *fref) bool {
	for ; l != nil; l = l.parent {
		if l.kind == rElem {
			return true
		}
	}
	return false
}

// putLeaf stores into a pointer-like location.
func (x *fexec) putLeaf(loc *fref, v fval) {
	a := x.a
	if x.wst != nil && loc.kind == rField {
		if x.strong {
			if _, ok := x.wst.ov[loc]; ok || len(a.heap[loc]) > 0 {
				x.wst.setOv(loc, v, false)
			}
		} else if w, ok := x.wst.ov[loc]; ok {
			x.wst.setOv(loc, joinVal(w, v), false)
		}
	}
	if len(v) > 0 {
		a.putHeap(loc, v)
	}
}

// putAgg stores the references of an aggregate value: to every pointer-like part of the location.
func (x *fexec) putAgg(loc *fref, t types.Type, v fval) {
	a := x.a
	if pointerLike(t) {
		x.putLeaf(loc, v)
		if _, ok := t.Underlying().(*types.Chan); ok {
			a.noteChan(loc, v)
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type()) {
				f := a.field(loc, t, i)
				if f == loc {
					x.putLeaf(loc, v)
					continue
				}
				var keep fval
				for _, r := range v {
					if x.anyField && u.Field(i).Name() != "Raw" || !x.anyField && fieldMayHold(r, u.Field(i)) { // Raw is not set by this version of pion/rtp
						keep = append(keep, r)
					}
				}
				x.putAgg(f, u.Field(i).Type(), keep)
			}
		}
	case *types.Array:
		x.putAgg(a.elem(loc, u.Elem()), u.Elem(), v)
	default:
		x.putLeaf(loc, v)
	}
}

// fieldMayHold filters the references of a copied struct by the field they came from.
func fieldMayHold(r *fref, f *types.Var) bool {
	if r.kind == rDeref && r.parent.kind == rField && r.parent.name != f.Name() && types.Identical(r.parent.typ, f.Type()) {
		return false
	}
	return true
}

func (a *flow) noteChan(loc *fref, v fval) {
	k := chanKey(loc)
	if k == "" {
		return
	}
	m := a.chanSrc[k]
	if m == nil {
		m = map[string]bool{}
		a.chanSrc[k] = m
	}
	for _, r := range v {
		if s := chanValKey(r); s != "" {
			m[s] = true
		}
	}
}

// chanKey names a channel-valued location by type and field.
func chanKey(loc *fref) string {
	if loc.kind == rField {
		if n, _ := structOf(loc.parent.typ); n != nil {
			return n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + loc.name
		}
	}
	return ""
}

func chanValKey(r *fref) string {
	switch r.kind {
	case rDeref:
		if r.parent.kind == rField && r.parent.name == "<watch>" {
			if k := chanKey(r.parent.parent); k != "" {
				return "fuse " + k
			}
			return "fuse ?"
		}
		return chanKey(r.parent)
	case rAlloc:
		return "make:" + r.name
	case rUnknown:
		return "call:" + r.name
	}
	return ""
}
