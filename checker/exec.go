package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Violation struct {
	Rule  string   `json:"rule"`
	Func  string   `json:"func"`
	Pos   string   `json:"pos"`
	Msg   string   `json:"msg"`
	Stack []string `json:"stack,omitempty"`
	Key   string   `json:"key"`
}

// Eng is the abstract interpreter.
type Eng struct {
	recvMore []Exit // further outcomes of the last receive
	prog         *ssa.Program
	analyse      map[*types.Package]bool // packages whose bodies are interpreted
	inHarn       map[*types.Package]bool
	track        bool // exact array contents
	quiet        int
	loops        map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	stack        []frameInfo
	viol         map[string]*Violation
	obl          map[string]int // discharged obligations by kind
	funcs        map[*ssa.Function]bool
	paths        int
	loopN        int
	invs         int
	models       map[string]modelFn
	goModel      map[string]*ssa.Function
	onStore      func(s *State, p VPtr, v Val)
	onCall       func(p *Path, site ssa.CallInstruction, callee string, args []Val)
	onGo         func(p *Path, g *ssa.Go, fn Val, args []Val)
	harness      string
	deadline     time.Time
	budget       int
	steps        int
	narrow       bool // report narrowing that may wrap
	noPanicRules bool
	notes        map[string]bool
	checks       map[string]int // vAssert name -> times proved
	dbg          bool
	ranges       map[string]int
	ext          map[string]int // calls of functions without a model
	reached      map[string]bool
	fixes        []*fixp
	noPart       bool
	joins        bool
	coarse       bool
	zeros        bool // tell states apart by which numbers are zero
	starting     bool
	solo         bool // channels are used by the scenario alone
	tables       bool // look constant tables up entry by entry
	unroll       bool // run loops of the repository iteration by iteration
	gos          map[*ssa.Go]bool
}

type frameInfo struct {
	fn   *ssa.Function
	call ssa.Instruction
}

type dcall struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
	inv  string
	site ssa.CallInstruction
}

// Path is a partition element: an abstract state at a program point of the current frame.
type Path struct {
	st     *State
	env    map[ssa.Value]Val
	defers []dcall
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	start  bool
}

type Exit struct {
	st  *State
	ret Val
}

func (p *Path) clone() *Path {
	n := &Path{st: p.st.clone(), env: make(map[ssa.Value]Val, len(p.env)+8), defers: p.defers[:len(p.defers):len(p.defers)], blk: p.blk, prev: p.prev, idx: p.idx}
	for k, v := range p.env {
		n.env[k] = v
	}
	return n
}

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	out := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := out[h]
			if l == nil {
				l = &Loop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				out[h] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return out
}

func (e *Eng) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := e.prog.Fset.Position(p)
	f := ps.Filename
	f = strings.TrimPrefix(f, repoDir+"/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func instrPos(i ssa.Instruction) token.Pos {
	if i == nil {
		return token.NoPos
	}
	if i.Pos().IsValid() {
		return i.Pos()
	}
	for _, op := range i.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			return (*op).Pos()
		}
	}
	if b := i.Block(); b != nil {
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				return x.Pos()
			}
		}
		return b.Parent().Pos()
	}
	return token.NoPos
}

// report records a violation at an instruction. Violations inside harness code are attributed to the
// innermost analysed repository frame as well.
func (e *Eng) report(rule, msg string, in ssa.Instruction) {
	if e.quiet > 0 {
		return
	}
	fn := ""
	if in != nil && in.Parent() != nil {
		fn = in.Parent().String()
	}
	var stk []string
	for i := len(e.stack) - 1; i >= 0; i-- {
		f := e.stack[i]
		stk = append(stk, f.fn.String()+" called at "+e.pos(instrPos(f.call)))
	}
	repoFn := fn
	for i := len(e.stack) - 1; i >= 0 && (in == nil || e.isHarn(in.Parent())); i-- {
		if !e.isHarn(e.stack[i].fn) {
			repoFn = e.stack[i].fn.String()
			break
		}
	}
	key := rule + "|" + e.harness + "|" + repoFn + "|" + msg
	if e.viol[key] == nil {
		e.viol[key] = &Violation{Rule: rule, Func: repoFn, Pos: e.pos(instrPos(in)), Msg: msg, Stack: stk, Key: key}
	}
}

func (e *Eng) isHarn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return e.inHarn[fn.Pkg.Pkg]
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return e.inHarn[n.Obj().Pkg()]
		}
	}
	return false
}

func (e *Eng) undecided(f string, a ...any) {
	e.report("undecided", fmt.Sprintf(f, a...), nil)
}

// oblige checks that f holds; reports otherwise and continues under the assumption that it does.
func (e *Eng) oblige(p *Path, f *Form, kind, msg string, in ssa.Instruction) bool {
	ok := p.st.entails(f)
	if ok {
		if e.quiet == 0 {
			e.obl[kind]++
		}
		return true
	}
	if e.dbg && e.quiet == 0 {
		fmt.Printf("OBLIGATION %s not proved: %s at %s\n  need %s\n  cons:\n", kind, msg, e.pos(instrPos(in)), fstr(f))
		e.dumpState(p.st, f)
	}
	e.report(kind, msg, in)
	p.st.assume(f)
	return !p.st.dead
}

func fstr(f *Form) string {
	switch f.op {
	case FTrue:
		return "true"
	case FFalse:
		return "false"
	case FLe:
		return f.l.String() + " <= 0"
	case FEq:
		return f.l.String() + " == 0"
	case FNe:
		return f.l.String() + " != 0"
	}
	var s []string
	for _, x := range f.sub {
		s = append(s, fstr(x))
	}
	if f.op == FAnd {
		return "(" + strings.Join(s, " && ") + ")"
	}
	return "(" + strings.Join(s, " || ") + ")"
}

func (e *Eng) dumpState(s *State, f *Form) {
	for _, c := range s.cons {
		op := "<="
		if c.eq {
			op = "=="
		}
		fmt.Printf("    %s %s 0\n", c.l, op)
	}
	for _, l := range s.nes {
		fmt.Printf("    %s != 0\n", l)
	}
	for _, o := range s.ors {
		fmt.Printf("    %s\n", fstr(o))
	}
}

// ---------------------------------------------------------------------------

func (e *Eng) callFn(st *State, fn *ssa.Function, args, bind []Val, site ssa.Instruction) []Exit {
	if len(fn.Blocks) == 0 {
		bail("no body for %s", fn)
	}
	if len(e.stack) > 60 {
		e.undecided("recursion too deep in %s", fn)
		return nil
	}
	e.stack = append(e.stack, frameInfo{fn, site})
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	if e.quiet == 0 {
		e.funcs[fn] = true
	}
	if e.loops[fn] == nil {
		e.loops[fn] = findLoops(fn)
	}
	p := &Path{st: st, env: map[ssa.Value]Val{}, blk: fn.Blocks[0]}
	if len(args) != len(fn.Params) {
		bail("argument count of %s", fn)
	}
	for i, pr := range fn.Params {
		p.env[pr] = args[i]
	}
	for i, fv := range fn.FreeVars {
		p.env[fv] = bind[i]
	}
	base := st.clone()
	seq := freshSeq + 1
	join := e.wantsJoin(fn)
	if join || e.joins {
		freshSeq += 2
	}
	rets, _, _ := e.run([]*Path{p}, nil)
	if join && len(rets) > 2 {
		return e.joinAt(fn, base, seq, rets)
	}
	if e.joins && !e.isHarn(fn) && len(rets) > 6 {
		rets = e.joinExits(base, rets)
		if len(rets) > 6 {
			return e.joinAt(fn, base, seq, rets)
		}
	}
	if len(rets) > 1 && !e.unroll {
		rets = e.joinExits(base, rets)
	}
	return rets
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *Arr:
		y, ok := b.(*Arr)
		return ok && (x == y || vkey(x) == vkey(y))
	case *VStruct:
		y, ok := b.(*VStruct)
		return ok && (x == y || vkey(x) == vkey(y))
	}
	return vkey(a) == vkey(b)
}

// joinExits merges exits that differ only in path constraints (keeping the common ones).
func (e *Eng) joinExits(base *State, xs []Exit) []Exit {
	groups := map[string][]Exit{}
	var order []string
	for _, x := range xs {
		var sb strings.Builder
		sb.WriteString(vkey(x.ret))
		var ids []*Obj
		for o, v := range x.st.heap {
			if bv, ok := base.heap[o]; ok && sameVal(bv, v) {
				continue
			}
			ids = append(ids, o)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i].id < ids[j].id })
		for _, o := range ids {
			if o.lazy != "" && base.heap[o] == nil && sameVal(x.st.heap[o], (&State{heap: map[*Obj]Val{}}).content(o)) {
				continue
			}
			fmt.Fprintf(&sb, "|%d=%s", o.id, vkey(x.st.heap[o]))
		}
		for _, k := range sortedKeys(x.st.locks) {
			fmt.Fprintf(&sb, "|L%s=%d", k, x.st.locks[k])
		}
		for _, k := range sortedKeys(x.st.ghost) {
			fmt.Fprintf(&sb, "|G%s=%s", k, x.st.ghost[k].Key())
		}
		k := sb.String()
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], x)
	}
	var out []Exit
	for _, k := range order {
		g := groups[k]
		if len(g) == 1 {
			out = append(out, g[0])
			continue
		}
		r := g[0]
		for _, x := range g[1:] {
			r = Exit{joinCons(r.st, x.st), r.ret}
		}
		out = append(out, r)
	}
	return out
}

func joinCons(a, b *State) *State {
	r := a.clone()
	has := func(s *State, c Con) bool {
		for _, d := range s.cons {
			if d.eq == c.eq && d.l.uid() == c.l.uid() {
				return true
			}
		}
		return false
	}
	var cons []Con
	n := 0
	for _, c := range a.cons {
		if has(b, c) {
			cons = append(cons, c)
			continue
		}
		n++
		if n <= 16 {
			f := fLe(c.l)
			if c.eq {
				f = fEq(c.l)
			}
			if b.entails(f) {
				cons = append(cons, c)
			} else if c.eq {
				// keep the weaker half if it holds
				if f := fLe(c.l); b.entails(f) {
					cons = append(cons, Con{c.l, false})
				} else if f := fLe(lneg(c.l)); b.entails(f) {
					cons = append(cons, Con{lneg(c.l), false})
				}
			}
		}
	}
	n = 0
	for _, c := range b.cons {
		if has(a, c) {
			continue
		}
		n++
		if n <= 16 {
			f := fLe(c.l)
			if c.eq {
				f = fEq(c.l)
			}
			if a.entails(f) {
				cons = append(cons, c)
			}
		}
	}
	r.cons = cons
	var nes []*Lin
	for _, l := range a.nes {
		for _, m := range b.nes {
			if l.Key() == m.Key() {
				nes = append(nes, l)
				break
			}
		}
	}
	r.nes = nes
	var ors []*Form
	for _, f := range a.ors {
		for _, g := range b.ors {
			if f.Key() == g.Key() {
				ors = append(ors, f)
				break
			}
		}
	}
	r.ors = ors
	r.renumber()
	return r
}

// run explores all paths from start. Within a loop region it separates paths that leave the region (out) and
// paths that come back to its header (back).
func (e *Eng) run(start []*Path, reg *Loop) (rets []Exit, out, back []*Path) {
	work := start
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		if p.st.dead {
			continue
		}
		if p.idx == 0 || p.start {
			if reg != nil && !p.start {
				if p.blk == reg.header {
					back = append(back, p)
					continue
				}
				if !reg.blocks[p.blk] {
					out = append(out, p)
					continue
				}
			}
			if !p.start {
				fn := p.blk.Parent()
				if l := e.loops[fn][p.blk]; l != nil && l != reg {
					r, o := e.loop(p, l)
					rets = append(rets, r...)
					work = append(work, o...)
					continue
				}
			}
			p.start = false
		}
		e.steps++
		if e.steps%256 == 0 && time.Now().After(e.deadline) {
			panic(engErr{"time budget exhausted"})
		}
		if e.steps > e.budget {
			panic(engErr{"step budget exhausted"})
		}
		ns, rs := e.block(p)
		if debugTrace && len(ns) > 1 {
			fmt.Fprintln(os.Stderr, "SPLIT", len(ns), p.blk.Parent(), p.blk, p.blk.Instrs[len(p.blk.Instrs)-1])
		}
		work = append(work, ns...)
		rets = append(rets, rs...)
	}
	return
}

// block interprets instructions until the path forks, ends, or moves to another block.
func (e *Eng) block(p *Path) (next []*Path, rets []Exit) {
	for {
		if p.st.dead {
			return nil, nil
		}
		in := p.blk.Instrs[p.idx]
		var res []*Path
		var ex []Exit
		cont, split := e.step1(p, in, &res, &ex)
		if split != nil {
			q := p.clone()
			p.st.assumeRaw(split)
			q.st.assumeRaw(fNot(split))
			e.paths++
			return []*Path{q, p}, nil
		}
		if ex != nil {
			return nil, ex
		}
		if !cont {
			return res, nil
		}
	}
}

// step1 executes one instruction; a request to partition the state surfaces as split.
func (e *Eng) step1(p *Path, in ssa.Instruction, res *[]*Path, ex *[]Exit) (cont bool, split *Form) {
	depth, q := len(e.stack), e.quiet
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(splitReq); ok {
				e.stack = e.stack[:depth]
				e.quiet = q
				split = s.f
				return
			}
			panic(r)
		}
	}()
	return e.step(p, in, res, ex), nil
}

func (e *Eng) jump(p *Path, to *ssa.BasicBlock) {
	from := p.blk
	pi := -1
	for i, x := range to.Preds {
		if x == from {
			pi = i
			break
		}
	}
	var vals []Val
	n := 0
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, e.val(p, ph.Edges[pi]))
		n++
	}
	for i := 0; i < n; i++ {
		p.env[to.Instrs[i].(*ssa.Phi)] = vals[i]
	}
	p.prev, p.blk, p.idx = from, to, 0
}

func (e *Eng) globalObj(g *ssa.Global) *Obj {
	key := "g:" + g.String()
	el := g.Type().(*types.Pointer).Elem()
	if o := lazyObjs[key]; o != nil {
		return o
	}
	if g.Pkg != nil && e.analyse[g.Pkg.Pkg] {
		o := newObj(g.String(), el)
		o.glob = true
		lazyObjs[key] = o
		return o
	}
	return lazyObj(key, el)
}

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return boolv(tru)
		}
		return boolv(fls)
	case constant.String:
		return strc(constant.StringVal(c.Value))
	}
	if isFloat(t) {
		f, _ := constant.Float64Val(c.Value)
		if f == math.Trunc(f) && math.Abs(f) < 1<<53 {
			return numc(int64(f))
		}
		a := intern("f:"+strconv.FormatFloat(f, 'g', -1, 64), "fconst")
		a.real = true
		if math.Abs(f) < 1<<53 {
			a.bound(int64(math.Floor(f)), int64(math.Ceil(f)))
		}
		return num(linAtom(a))
	}
	if v, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
		return numc(v)
	}
	a := intern("big:"+c.Value.ExactString(), "big")
	a.boundLo(math.MaxInt64)
	return num(linAtom(a))
}

func (e *Eng) val(p *Path, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(v)
	case *ssa.Global:
		return VPtr{obj: e.globalObj(v)}
	case *ssa.Function:
		return VFn{fn: v}
	case *ssa.Builtin:
		return VFn{ext: "builtin:" + v.Name()}
	}
	r, ok := p.env[v]
	if !ok {
		bail("undefined value %s in %s", v.Name(), p.blk.Parent())
	}
	return r
}

func (e *Eng) lin(p *Path, v ssa.Value) *Lin {
	x := e.val(p, v)
	n, ok := x.(VNum)
	if !ok {
		bail("number expected, got %T for %s in %s", x, v, p.blk.Parent())
	}
	return n.l
}
func (e *Eng) form(v Val) *Form {
	b, ok := v.(VBool)
	if !ok {
		bail("bool expected, got %T", v)
	}
	return b.f
}

func (e *Eng) nilForm(v Val) *Form {
	switch v := v.(type) {
	case VNil:
		return tru
	case VSym:
		return fAtom(UF("nil", v.key))
	case VSlice:
		return v.isNil
	}
	return fls
}

func derefType(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// asPtr resolves a pointer for access. ok=false means the path ends (certain nil dereference).
func (e *Eng) asPtr(p *Path, v Val, in ssa.Instruction) (VPtr, bool) {
	switch v := v.(type) {
	case VPtr:
		return v, true
	case VNil:
		e.oblige(p, fls, "nil", "nil pointer dereference", in)
		p.st.dead = true
		return VPtr{}, false
	case VSym:
		if !e.oblige(p, fNot(fAtom(UF("nil", v.key))), "nil", "possible nil pointer dereference", in) {
			return VPtr{}, false
		}
		return VPtr{obj: lazyObj(v.key, derefType(v.t))}, true
	}
	bail("pointer expected, got %T", v)
	return VPtr{}, false
}

func appendStep(path []Step, s Step) []Step {
	return append(path[:len(path):len(path)], s)
}

func (e *Eng) step(p *Path, in ssa.Instruction, res *[]*Path, ex *[]Exit) bool {
	st := p.st
	set := func(v Val) bool {
		p.env[in.(ssa.Value)] = v
		p.idx++
		return true
	}
	next := func() bool { p.idx++; return true }
	switch in := in.(type) {
	case *ssa.DebugRef:
		return next()
	case *ssa.Phi:
		return next()
	case *ssa.Alloc:
		o := newObj(in.Comment, derefType(in.Type()))
		st.heap[o] = zeroVal(o.t)
		return set(VPtr{obj: o})
	case *ssa.Store:
		pt, ok := e.asPtr(p, e.val(p, in.Addr), in)
		if !ok {
			return false
		}
		e.store(st, pt, e.val(p, in.Val))
		return next()
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			pt, ok := e.asPtr(p, e.val(p, in.X), in)
			if !ok {
				return false
			}
			if g, isg := in.X.(*ssa.Global); isg && st.heap[pt.obj] == nil && pt.obj.lazy != "" {
				// variables of other packages: error values are assumed non-nil
				v := st.content(pt.obj)
				if s, ok := v.(VSym); ok && (types.Implements(g.Type().(*types.Pointer).Elem(), errorIface()) || g.Pkg != nil && !strings.Contains(strings.SplitN(g.Pkg.Pkg.Path(), "/", 2)[0], ".")) {
					st.lemma(fNot(fAtom(UF("nil", s.key))))
				}
			}
			return set(e.load(st, pt))
		case token.NOT:
			return set(boolv(fNot(e.form(e.val(p, in.X)))))
		case token.SUB:
			l := e.lin(p, in.X)
			return set(num(e.wrapT(p, lneg(l), in.Type(), in)))
		case token.XOR:
			l := e.lin(p, in.X)
			ii, _ := intOf(in.Type())
			if ii.signed {
				return set(num(laddc(lneg(l), -1)))
			}
			if ii.bits < 64 {
				return set(num(lsub(cst(1<<ii.bits-1), l)))
			}
			return set(num(linAtom(UFL("not64", l).boundLo(0))))
		case token.ARROW:
			return e.recv(p, in, set)
		}
		bail("unop %s", in.Op)
	case *ssa.BinOp:
		return set(e.binop(p, in))
	case *ssa.If:
		f := e.form(e.val(p, in.Cond))
		e.notePred(st, f)
		switch e.known(st, f) {
		case 1:
			e.jump(p, p.blk.Succs[0])
			*res = append(*res, p)
			return false
		case 0:
			e.jump(p, p.blk.Succs[1])
			*res = append(*res, p)
			return false
		}
		q := p.clone()
		e.paths++
		p.st.assumeRaw(f)
		q.st.assumeRaw(fNot(f))
		e.jump(q, q.blk.Succs[1])
		e.jump(p, p.blk.Succs[0])
		*res = append(*res, q, p)
		return false
	case *ssa.Jump:
		e.jump(p, p.blk.Succs[0])
		*res = append(*res, p)
		return false
	case *ssa.Return:
		var r Val
		switch len(in.Results) {
		case 0:
		case 1:
			r = e.val(p, in.Results[0])
		default:
			var tu VTuple
			for _, x := range in.Results {
				tu = append(tu, e.val(p, x))
			}
			r = tu
		}
		*ex = append(*ex, Exit{st, r})
		return false
	case *ssa.RunDefers:
		if len(p.defers) == 0 {
			return next()
		}
		d := p.defers[len(p.defers)-1]
		base := p.clone()
		exits := e.invokeDefer(p, d)
		for i, x := range exits {
			q := base
			if i < len(exits)-1 {
				q = base.clone()
			}
			q.st = x.st
			q.defers = q.defers[:len(q.defers)-1]
			*res = append(*res, q)
		}
		return false
	case *ssa.Defer:
		var d dcall
		d.site = in
		d.call = &in.Call
		for _, a := range in.Call.Args {
			d.args = append(d.args, e.val(p, a))
		}
		d.fn = e.val(p, in.Call.Value)
		p.defers = append(p.defers[:len(p.defers):len(p.defers)], d)
		return next()
	case *ssa.Go:
		var args []Val
		for _, a := range in.Call.Args {
			args = append(args, e.val(p, a))
		}
		if e.onGo != nil {
			e.onGo(p, in, e.val(p, in.Call.Value), args)
		}
		if e.quiet == 0 {
			e.gos[in] = true
		}
		st.gos = append(st.gos[:len(st.gos):len(st.gos)], goCall{fn: e.val(p, in.Call.Value), args: args, site: in, cc: &in.Call, in: in})
		return next()
	case *ssa.Panic:
		if e.quiet == 0 && !p.st.entails(fls) {
			e.obl["reached-panic"]++
		}
		e.oblige(p, fls, "panic", "reachable panic", in)
		return false
	case *ssa.Call:
		return e.call(p, in, res)
	case *ssa.Extract:
		tu, ok := e.val(p, in.Tuple).(VTuple)
		if !ok {
			bail("tuple expected for %s, got %T", in.Tuple, e.val(p, in.Tuple))
		}
		return set(tu[in.Index])
	case *ssa.FieldAddr:
		pt, ok := e.asPtr(p, e.val(p, in.X), in)
		if !ok {
			return false
		}
		return set(VPtr{obj: pt.obj, path: appendStep(pt.path, Step{field: in.Field})})
	case *ssa.Field:
		s, ok := e.val(p, in.X).(*VStruct)
		if !ok {
			bail("struct expected")
		}
		return set(s.get(in.Field))
	case *ssa.IndexAddr:
		i := e.lin(p, in.Index)
		x := e.val(p, in.X)
		if sl, ok := x.(VSlice); ok {
			if !e.oblige(p, fAnd(le(cst(0), i), lt(i, sl.len)), "index", "index out of range", in) {
				return false
			}
			if sl.arr == nil {
				st.dead = true
				return false
			}
			return set(VPtr{obj: sl.arr, path: []Step{{idx: ladd(sl.off, i)}}})
		}
		pt, ok := e.asPtr(p, x, in)
		if !ok {
			return false
		}
		n := under(derefType(in.X.Type())).(*types.Array).Len()
		if !e.oblige(p, fAnd(le(cst(0), i), lt(i, cst(n))), "index", "index out of range", in) {
			return false
		}
		return set(VPtr{obj: pt.obj, path: appendStep(pt.path, Step{idx: i})})
	case *ssa.Index:
		i := e.lin(p, in.Index)
		switch x := e.val(p, in.X).(type) {
		case *Arr:
			if !e.oblige(p, fAnd(le(cst(0), i), lt(i, x.n)), "index", "index out of range", in) {
				return false
			}
			return set(e.arrGet(st, x, i))
		case VStr:
			if !e.oblige(p, fAnd(le(cst(0), i), lt(i, x.n)), "index", "index out of range", in) {
				return false
			}
			return set(e.strIndex(st, x, i))
		}
		bail("index of %T", e.val(p, in.X))
	case *ssa.Lookup:
		return e.lookup(p, in, set)
	case *ssa.MakeMap:
		o := newObj("map", in.Type())
		st.heap[o] = &MapC{t: under(in.Type()).(*types.Map), n: cst(0)}
		return set(VRef{o})
	case *ssa.MapUpdate:
		o, ok := e.asMap(p, e.val(p, in.Map), in, true)
		if !ok {
			return false
		}
		e.mapSet(st, o, e.val(p, in.Key), e.val(p, in.Value))
		return next()
	case *ssa.MakeChan:
		n := e.lin(p, in.Size)
		e.oblige(p, le(cst(0), n), "makechan", "negative channel size", in)
		o := newObj("chan", in.Type())
		st.heap[o] = &ChanC{t: under(in.Type()).(*types.Chan), cap: n, sends: cst(0), recvs: cst(0), closed: fls, qok: e.solo && e.goModel["block"] != nil}
		return set(VRef{o})
	case *ssa.MakeSlice:
		n, c := e.lin(p, in.Len), e.lin(p, in.Cap)
		if !e.oblige(p, fAnd(le(cst(0), n), le(n, c)), "makeslice", "make with negative or too large length", in) {
			return false
		}
		el := under(in.Type()).(*types.Slice).Elem()
		o := newObj("make", types.NewArray(el, -1))
		st.heap[o] = &Arr{n: c, elem: el}
		return set(VSlice{arr: o, off: cst(0), len: n, cap: c, isNil: fls, elem: el})
	case *ssa.MakeClosure:
		var b []Val
		for _, x := range in.Bindings {
			b = append(b, e.val(p, x))
		}
		return set(VFn{fn: in.Fn.(*ssa.Function), bind: b})
	case *ssa.MakeInterface:
		return set(VIface{in.X.Type(), e.val(p, in.X)})
	case *ssa.ChangeInterface:
		return set(e.val(p, in.X))
	case *ssa.ChangeType:
		v := e.val(p, in.X)
		if s, ok := v.(*VStruct); ok {
			if u, ok := under(in.Type()).(*types.Struct); ok {
				v = &VStruct{t: u, base: s.base, f: s.f}
			}
		}
		if s, ok := v.(VSym); ok {
			v = VSym{s.key, in.Type()}
		}
		return set(v)
	case *ssa.Convert:
		return set(e.convert(p, e.val(p, in.X), in.X.Type(), in.Type(), in))
	case *ssa.MultiConvert:
		return set(e.convert(p, e.val(p, in.X), in.X.Type(), in.Type(), in))
	case *ssa.Slice:
		return e.slice(p, in, set)
	case *ssa.SliceToArrayPointer:
		sl := e.val(p, in.X).(VSlice)
		n := under(derefType(in.Type())).(*types.Array).Len()
		e.oblige(p, le(cst(n), sl.len), "slice", "slice too short for array conversion", in)
		bail("slice to array pointer unsupported")
	case *ssa.TypeAssert:
		return e.typeAssert(p, in, set)
	case *ssa.Range:
		if _, ok := under(in.X.Type()).(*types.Map); ok && e.unroll {
			o := newObj("iter", types.Typ[types.Int])
			st.heap[o] = numc(0)
			return set(VTuple{e.val(p, in.X), VPtr{obj: o}})
		}
		return set(VTuple{e.val(p, in.X)})
	case *ssa.Next:
		return e.nextIter(p, in, set)
	case *ssa.Send:
		ch := e.val(p, in.Chan)
		e.canSend(p, ch, in)
		e.sendTo(p, ch, e.val(p, in.X), in)
		return next()
	case *ssa.Select:
		return e.selectStmt(p, in, res)
	}
	bail("unsupported instruction %T", in)
	return false
}

var debugTrace = os.Getenv("MC_TRACE") != ""
