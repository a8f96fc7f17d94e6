package main

// Error obligations (C08): along every path through every function of the repository on which a downstream
// write, close, flush, handler or codec call fails, the function must return an error that is known to be non-nil
// (or, for the documented exceptions, count the failure or queue the error for the next call).
// The walk is path-sensitive in the nilness of error values and inlines closures and deferred calls; calls of
// repository functions that themselves perform downstream operations are treated as downstream operations.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C08"] = append(rules["C08"], ruleErrors)
}

const (
	nilUnknown = int8(0)
	nilYes     = int8(1)
	nilNo      = int8(2)
)

var errorType = types.Universe.Lookup("error").Type()

// isErrish reports whether nilness is tracked for values of type t: errors, and slices of errors (non-nil when they
// hold a non-nil error) and booleans (nilNo is true, nilYes is false).
func isErrish(t types.Type) bool {
	if isErrorType(t) {
		return true
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return isErrorType(s.Elem())
	}
	return false
}

// errResult returns the index of the error result of a signature (the last one), or -1.
func errResult(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && isErrorType(sig.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

var downstreamVerbs = []string{"Write", "Close", "Flush", "Handle", "Encode", "Decode", "Marshal", "CopyTo", "Push", "Send", "Sync", "Reset", "Process"}

func downstreamName(n string) bool {
	for _, v := range downstreamVerbs {
		if strings.HasPrefix(n, v) {
			return true
		}
	}
	return false
}

type errWalk struct {
	pr      *Program
	isRepo  map[*ssa.Function]bool
	reaches map[*ssa.Function]int // 1 in progress/no, 2 yes
	sites   map[ssa.Instruction]bool
	nsites  int
	nfuncs  int
	npaths  int
	viols   map[string]*Violation
	queued  map[string]*ssa.Function // error fields in which errors are kept for later
}

// queue records that an error is kept in a field for a later call, which has to report it.
func (w *errWalk) queue(fa *ssa.FieldAddr, f *ssa.Function) {
	n, s := structOf(fa.X.Type().Underlying().(*types.Pointer).Elem())
	if n == nil || s == nil {
		return
	}
	key := n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + s.Field(fa.Field).Name()
	if w.queued[key] == nil {
		w.queued[key] = f
	}
}

// reportsField reports whether the function returns what it loads from an error field.
func reportedFields(f *ssa.Function, add func(string)) {
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for _, r := range ret.Results {
			seen := map[ssa.Value]bool{}
			var rec func(v ssa.Value)
			rec = func(v ssa.Value) {
				if seen[v] || !isErrorType(v.Type()) {
					return
				}
				seen[v] = true
				switch v := v.(type) {
				case *ssa.Phi:
					for _, e := range v.Edges {
						rec(e)
					}
				case *ssa.UnOp:
					switch a := v.X.(type) {
					case *ssa.FieldAddr:
						if n, s := structOf(a.X.Type().Underlying().(*types.Pointer).Elem()); n != nil && s != nil {
							add(n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + s.Field(a.Field).Name())
						}
					case *ssa.Alloc:
						for _, q := range *a.Referrers() {
							if st, ok := q.(*ssa.Store); ok && st.Addr == a {
								rec(st.Val)
							}
						}
					}
				}
			}
			rec(r)
		}
	}
}

// neverFails are library writers whose errors are always nil.
func neverFails(f *ssa.Function, cc *ssa.CallCommon) bool {
	n := f.String()
	return strings.HasPrefix(n, "(*strings.Builder)") || strings.HasPrefix(n, "(*bytes.Buffer)") || strings.HasPrefix(n, "fmt.Fprint")
}

// siteOf classifies a call: is it a downstream operation that can fail?
func (w *errWalk) siteOf(cc *ssa.CallCommon) bool {
	sig := cc.Signature()
	if errResult(sig) < 0 {
		return false
	}
	if cc.IsInvoke() {
		return downstreamName(cc.Method.Name())
	}
	f := cc.StaticCallee()
	if f == nil {
		// a function value that returns an error: a handler
		_, ok := cc.Value.(*ssa.Builtin)
		return !ok && sig.Results().Len() == 1
	}
	if neverFails(f, cc) {
		return false
	}
	o := f
	if f.Origin() != nil {
		o = f.Origin()
	}
	if w.isRepo[o] {
		if o.Pkg != nil && strings.HasSuffix(o.Pkg.Pkg.Path(), "/ring") {
			return false // a ring buffer write cannot fail, a read of an empty one is not a failure
		}
		if strings.HasPrefix(o.Name(), "_C") || strings.HasPrefix(o.Name(), "_cgo") {
			return false
		}
		return w.reach(o)
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	switch pkg {
	case "errors", "fmt", "strconv", "strings":
		return false
	}
	if strings.HasPrefix(pkg, "encoding") || strings.HasPrefix(pkg, "crypto") {
		return false // decoding of values in memory
	}
	return downstreamName(f.Name())
}

// memorySink reports whether the receiver is a local object built on an in-memory buffer writer, which cannot fail.
func memorySink(cc *ssa.CallCommon) bool {
	v := cc.Value
	if !cc.IsInvoke() {
		if cc.StaticCallee() == nil || len(cc.Args) == 0 {
			return false
		}
		v = cc.Args[0]
	}
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil {
				return false
			}
			if strings.HasPrefix(f.Name(), "NewPCM16BufferWriter") || strings.HasPrefix(f.Name(), "NewPCM16FrameWriter") {
				return true
			}
			if len(x.Call.Args) == 0 {
				return false
			}
			v = x.Call.Args[0]
		default:
			return false
		}
	}
	return false
}

// nativeCall reports whether the call converts or performs a native operation that can fail.
func nativeErr(f *ssa.Function) bool {
	for _, p := range f.Params {
		if n, ok := types.Unalias(p.Type()).(*types.Named); ok && strings.HasPrefix(n.Obj().Name(), "_Ctype") {
			return true
		}
	}
	return false
}

// reach reports whether a repository function performs a downstream operation.
func (w *errWalk) reach(f *ssa.Function) bool {
	switch w.reaches[f] {
	case 1:
		return false
	case 2:
		return true
	}
	w.reaches[f] = 1
	if errResult(f.Signature) >= 0 && nativeErr(f) {
		w.reaches[f] = 2
		return true
	}
	var fs []*ssa.Function
	fs = append(fs, f)
	fs = append(fs, f.AnonFuncs...)
	for _, g := range fs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && w.siteOf(c.Common()) {
					w.reaches[f] = 2
					return true
				}
			}
		}
	}
	w.reaches[f] = 1
	return false
}

// errState is the path state.
type errState struct {
	val  map[ssa.Value]int8 // error values of the frames being walked
	cell map[ssa.Value]int8 // contents of error-typed local variables, by the Alloc
	boo  map[ssa.Value]bool // outcome of branches already taken on a condition
	pend map[ssa.Instruction]bool
	tol  bool // the failing call's error was recognised as a tolerated kind
	cnt  bool // the failure was counted or queued
}

func (s *errState) clone() *errState {
	n := &errState{val: make(map[ssa.Value]int8, len(s.val)), cell: make(map[ssa.Value]int8, len(s.cell)), boo: make(map[ssa.Value]bool, len(s.boo)), pend: make(map[ssa.Instruction]bool, len(s.pend)), tol: s.tol, cnt: s.cnt}
	for k, v := range s.val {
		n.val[k] = v
	}
	for k, v := range s.cell {
		n.cell[k] = v
	}
	for k, v := range s.boo {
		n.boo[k] = v
	}
	for k := range s.pend {
		n.pend[k] = true
	}
	return n
}

func (s *errState) key() string {
	var ks []string
	for k, v := range s.val {
		if v != nilUnknown {
			ks = append(ks, fmt.Sprintf("v%p%d", k, v))
		}
	}
	for k, v := range s.cell {
		if v != nilUnknown {
			ks = append(ks, fmt.Sprintf("c%p%d", k, v))
		}
	}
	for k, v := range s.boo {
		ks = append(ks, fmt.Sprintf("b%p%v", k, v))
	}
	for k := range s.pend {
		ks = append(ks, fmt.Sprintf("p%p", k))
	}
	sort.Strings(ks)
	return strings.Join(ks, ";") + strconv.FormatBool(s.tol) + strconv.FormatBool(s.cnt)
}

type errExit struct {
	st  *errState
	res []int8 // nilness of error results (others unknown)
	pan bool
}

type errFrame struct {
	w     *errWalk
	fn    *ssa.Function
	bind  map[*ssa.FreeVar]ssa.Value // captured cells
	depth int
	outs  []errExit
	seen  map[string]bool
	elems bool // the function ranges over a list of errors it was handed, which holds an error
}

// elemMark stands for the fact that an element of the list handed to the helper was found to be an error.
func (fr *errFrame) elemMark() ssa.Value {
	for _, p := range fr.fn.Params {
		if isErrish(p.Type()) && !isErrorType(p.Type()) {
			return p
		}
	}
	return nil
}

// fromList reports whether the value is an element of the list handed to the helper.
func (fr *errFrame) fromList(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	return ok && ia.X == fr.elemMark()
}

// cellOf resolves an address to the local variable it denotes.
func (fr *errFrame) cellOf(v ssa.Value) ssa.Value {
	switch v := v.(type) {
	case *ssa.Alloc:
		return v
	case *ssa.FreeVar:
		if b := fr.bind[v]; b != nil {
			return b
		}
		return v
	}
	return nil
}

func (fr *errFrame) nilness(s *errState, v ssa.Value) int8 {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil {
			if isBool(v.Type()) && !constant.BoolVal(v.Value) {
				return nilYes
			}
			return nilNo
		}
		if v.IsNil() {
			return nilYes
		}
		return nilNo
	case *ssa.MakeInterface:
		return nilNo
	case *ssa.ChangeInterface:
		return fr.nilness(s, v.X)
	case *ssa.BinOp:
		// the outcome of a comparison of an error with nil
		if x, eq, ok := errTest(v); ok {
			n := fr.nilness(s, x)
			if eq && n != nilUnknown {
				return nilNo + nilYes - n
			}
			return n
		}
		return nilUnknown
	case *ssa.UnOp:
		if v.Op == token.NOT {
			if n := fr.nilness(s, v.X); n != nilUnknown {
				return nilNo + nilYes - n
			}
			return nilUnknown
		}
	case *ssa.Slice:
		if isErrish(v.Type()) {
			if n := fr.joinArgs(s, v); n != nilUnknown {
				return n
			}
			return nilUnknown
		}
	}
	return s.val[v]
}

// errTest recognises a comparison of an error with nil: the error and whether it is tested to be nil.
func errTest(c *ssa.BinOp) (x ssa.Value, eq, ok bool) {
	if c.Op != token.EQL && c.Op != token.NEQ {
		return nil, false, false
	}
	x, y := c.X, c.Y
	if k, isC := x.(*ssa.Const); isC && k.IsNil() {
		x, y = y, x
	}
	k, isC := y.(*ssa.Const)
	if !isC || !k.IsNil() || !isErrorType(x.Type()) {
		return nil, false, false
	}
	return x, c.Op == token.EQL, true
}

type errWork struct {
	b      *ssa.BasicBlock
	i      int
	pred   *ssa.BasicBlock
	st     *errState
	defers []*ssa.Defer
}

func (fr *errFrame) run(s *errState) []errExit {
	var work []errWork
	push := func(it errWork) {
		p := -1
		if it.pred != nil {
			p = it.pred.Index
		}
		k := fmt.Sprintf("%d.%d.%d|%d|%s", it.b.Index, it.i, p, len(it.defers), it.st.key())
		if fr.seen[k] {
			return
		}
		fr.seen[k] = true
		work = append(work, it)
	}
	push(errWork{b: fr.fn.Blocks[0], st: s})
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if len(fr.seen) > 40000 {
			panic(engErr{"too many error states in " + fnName(fr.fn)})
		}
		fr.block(it, push)
	}
	return fr.outs
}

func (fr *errFrame) block(it errWork, push func(errWork)) {
	b := it.b
	st := it.st
	for i := it.i; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if v, ok := in.(ssa.Value); ok {
			if _, has := st.boo[v]; has {
				st = st.clone()
				delete(st.boo, v)
			}
		}
		switch in := in.(type) {
		case *ssa.Phi:
			if !isErrish(in.Type()) && !isBool(in.Type()) {
				continue
			}
			for j, p := range b.Preds {
				if p == it.pred {
					n := fr.nilness(it.st, in.Edges[j])
					st = st.clone()
					st.val[in] = n
				}
			}
		case *ssa.MakeSlice:
			if isErrish(in.Type()) {
				st = st.clone()
				st.val[in] = nilYes
			}
		case *ssa.Alloc:
			if isErrish(in.Type().Underlying().(*types.Pointer).Elem()) {
				st = st.clone()
				st.cell[in] = nilYes
			}
		case *ssa.Store:
			if isErrish(in.Val.Type()) {
				if ia, ok := in.Addr.(*ssa.IndexAddr); ok && isErrish(ia.X.Type()) {
					n := fr.nilness(st, in.Val)
					if m := fr.nilness(st, ia.X); m != nilNo && n != nilYes {
						st = st.clone()
						fr.refine(st, ia.X, n)
					}
				} else if fa, ok := in.Addr.(*ssa.FieldAddr); ok && isErrorType(in.Val.Type()) {
					// kept for a later call
					if fr.nilness(st, in.Val) == nilNo {
						st = st.clone()
						st.cnt = true
						fr.w.queue(fa, fr.fn)
					}
				} else if c := fr.cellOf(in.Addr); c != nil {
					n := fr.nilness(st, in.Val)
					st = st.clone()
					st.cell[c] = n
				}
			}
		case *ssa.UnOp:
			if !isErrish(in.Type()) {
				continue
			}
			n := nilUnknown
			if in.Op == token.MUL {
				if _, ok := in.X.(*ssa.Global); ok {
					n = nilNo // a sentinel error
				} else if c := fr.cellOf(in.X); c != nil {
					n = st.cell[c]
				}
			}
			st = st.clone()
			st.val[in] = n
		case *ssa.ChangeInterface:
			if isErrish(in.Type()) {
				n := fr.nilness(st, in.X)
				st = st.clone()
				st.val[in] = n
			}
		case *ssa.Extract:
			if isErrish(in.Type()) {
				n := nilUnknown
				if c, ok := in.Tuple.(*ssa.Call); ok && errResult(c.Call.Signature()) == in.Index {
					n = st.val[c]
				}
				st = st.clone()
				if sel, ok := in.Tuple.(*ssa.Select); ok {
					// an error queued earlier is taken out here and must be reported now
					n = nilNo
					st.pend[sel] = true
					st.tol, st.cnt = false, false
					if !fr.w.sites[sel] {
						fr.w.sites[sel] = true
						fr.w.nsites++
					}
				}
				st.val[in] = n
			}
		case *ssa.Select:
			for _, x := range in.States {
				if x.Dir == types.SendOnly && isErrish(x.Send.Type()) && fr.nilness(st, x.Send) == nilNo {
					st = st.clone()
					st.cnt = true // queued (or an earlier error already is)
				}
			}
		case *ssa.Send:
			if isErrish(in.X.Type()) && fr.nilness(st, in.X) == nilNo {
				st = st.clone()
				st.cnt = true
			}
		case *ssa.Defer:
			it.defers = append(append([]*ssa.Defer(nil), it.defers...), in)
		case *ssa.RunDefers:
			states := []*errState{st}
			for j := len(it.defers) - 1; j >= 0; j-- {
				d := it.defers[j]
				var next []*errState
				seen := map[string]bool{}
				for _, s := range states {
					for _, e := range fr.call(s, d, &d.Call) {
						if k := e.st.key(); !e.pan && !seen[k] {
							seen[k] = true
							next = append(next, e.st)
						}
					}
				}
				states = next
			}
			for _, s := range states {
				push(errWork{b: b, i: i + 1, pred: it.pred, st: s})
			}
			return
		case *ssa.Call:
			exits := fr.call(st, in, &in.Call)
			for _, e := range exits {
				if e.pan {
					continue
				}
				n := e.st
				k := errResult(in.Call.Signature())
				if k < 0 && in.Call.Signature().Results().Len() == 1 && (isBool(in.Type()) || isErrish(in.Type())) {
					k = 0
				}
				if k >= 0 {
					n = n.clone()
					n.val[in] = nilUnknown
					if k < len(e.res) {
						n.val[in] = e.res[k]
					}
				}
				push(errWork{b: b, i: i + 1, pred: it.pred, st: n, defers: it.defers})
			}
			return
		case *ssa.If:
			fr.branch(it, st, in, push)
			return
		case *ssa.Jump:
			push(errWork{b: b.Succs[0], pred: b, st: st, defers: it.defers})
			return
		case *ssa.Return:
			if fr.elems && st.val[fr.elemMark()] != nilNo {
				// a helper that searches a list holding an error does find it
				return
			}
			res := make([]int8, len(in.Results))
			for j, r := range in.Results {
				if isErrish(r.Type()) || isBool(r.Type()) {
					res[j] = fr.nilness(st, r)
				}
			}
			fr.w.npaths++
			fr.outs = append(fr.outs, errExit{st: st, res: res})
			return
		case *ssa.Panic:
			return
		}
	}
}

// branch follows a condition, refining the nilness of errors.
func (fr *errFrame) branch(it errWork, st *errState, in *ssa.If, push func(errWork)) {
	b := it.b
	for k := 0; k < 2; k++ {
		truth := k == 0
		n := st.clone()
		if t, ok := st.boo[in.Cond]; ok && t != truth {
			continue
		}
		n.boo[in.Cond] = truth
		cond, tr := in.Cond, truth
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, tr = u.X, !tr
		}
		if _, isBin := cond.(*ssa.BinOp); !isBin {
			if v := fr.nilness(st, cond); v == nilNo && !tr || v == nilYes && tr {
				continue
			}
		}
		switch c := cond.(type) {
		case *ssa.BinOp:
			if (c.Op == token.EQL || c.Op == token.NEQ) && (isErrish(c.X.Type()) || isErrish(c.Y.Type())) {
				x, y := c.X, c.Y
				if k, ok := x.(*ssa.Const); ok && k.IsNil() {
					x, y = y, x
				}
				if k, ok := y.(*ssa.Const); ok && k.IsNil() {
					isNil := (c.Op == token.EQL) == tr
					cur := fr.nilness(st, x)
					if isNil && cur == nilNo || !isNil && cur == nilYes {
						continue
					}
					want := nilNo
					if isNil {
						want = nilYes
					}
					fr.refine(n, x, want)
				} else if (c.Op == token.EQL) == tr {
					// equal to another error
					cx, cy := fr.nilness(st, x), fr.nilness(st, y)
					if cx != 0 && cy != 0 && cx != cy {
						continue
					}
					if cy == nilNo {
						fr.refine(n, x, nilNo)
					}
				}
			}
		case *ssa.Call:
			if f := c.Call.StaticCallee(); f != nil && (f.String() == "errors.Is" || f.String() == "errors.As") {
				if cur := fr.nilness(st, c.Call.Args[0]); cur == nilYes && tr {
					continue
				}
				if tr {
					fr.refine(n, c.Call.Args[0], nilNo)
					if f.Name() == "Is" && tolerated(c.Call.Args[1]) {
						n.tol = true
					}
				}
			}
		}
		// conditions are only remembered while they can be tested again
		if !multiTest(in.Cond) {
			delete(n.boo, in.Cond)
		}
		push(errWork{b: b.Succs[k], pred: b, st: n, defers: it.defers})
	}
}

// tolerated are the errors that a receiver may drop a limited number of times by documentation.
func tolerated(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.UnOp:
			v = x.X
			continue
		case *ssa.Global:
			return x.Name() == "ErrInvalidPacket"
		case *ssa.Const:
			n, ok := types.Unalias(x.Type()).(*types.Named)
			return ok && n.Obj().Pkg() != nil && strings.Contains(n.Obj().Pkg().Path(), "opus") && n.Obj().Name() == "Error" && x.Int64() == -4
		}
		return false
	}
}

func multiTest(v ssa.Value) bool {
	n := 0
	if v.Referrers() != nil {
		for _, r := range *v.Referrers() {
			if _, ok := r.(*ssa.If); ok {
				n++
			}
		}
	}
	return n > 1
}

// refine records what a test says about an error value and the variable it was loaded from.
func (fr *errFrame) refine(s *errState, v ssa.Value, n int8) {
	s.val[v] = n
	if fr.elems && n == nilNo && fr.fromList(v) {
		s.val[fr.elemMark()] = nilNo
	}
	switch x := v.(type) {
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			s.val[c] = n
		}
	case *ssa.ChangeInterface:
		fr.refine(s, x.X, n)
	case *ssa.UnOp:
		if c := fr.cellOf(x.X); c != nil && x.Op == token.MUL {
			s.cell[c] = n
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && n == nilNo && len(s.pend) > 0 {
			// an earlier error is already kept for a later call
			s.cnt = true
			fr.w.queue(fa, fr.fn)
		}
	}
}

// closure resolves the function called and its captured variables.
func (fr *errFrame) closure(v ssa.Value) (*ssa.Function, map[*ssa.FreeVar]ssa.Value) {
	switch v := v.(type) {
	case *ssa.MakeClosure:
		f := v.Fn.(*ssa.Function)
		m := map[*ssa.FreeVar]ssa.Value{}
		for i, b := range v.Bindings {
			if c := fr.cellOf(b); c != nil {
				m[f.FreeVars[i]] = c
			}
		}
		return f, m
	case *ssa.Function:
		if v.Parent() != nil {
			return v, nil
		}
	}
	return nil, nil
}

func (fr *errFrame) call(st *errState, in ssa.Instruction, cc *ssa.CallCommon) []errExit {
	w := fr.w
	k := errResult(cc.Signature())
	res := func(n int8) []int8 {
		if k < 0 {
			return nil
		}
		r := make([]int8, k+1)
		r[k] = n
		return r
	}
	// closures run in place, also when a once-like helper runs them
	if fr.depth < 4 {
		if f, m := fr.closure(cc.Value); f != nil && len(f.Blocks) > 0 {
			sub := &errFrame{w: w, fn: f, bind: m, depth: fr.depth + 1, seen: map[string]bool{}}
			return sub.run(st)
		}
		if f := cc.StaticCallee(); f != nil && (f.Name() == "Do" || f.Name() == "Once") && len(cc.Args) == 2 {
			if g, m := fr.closure(cc.Args[1]); g != nil && len(g.Blocks) > 0 {
				sub := &errFrame{w: w, fn: g, bind: m, depth: fr.depth + 1, seen: map[string]bool{}}
				return append(sub.run(st), errExit{st: st})
			}
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" && isErrish(cc.Args[0].Type()) {
			n := fr.nilness(st, cc.Args[0])
			m := nilYes
			if len(cc.Args) > 1 {
				m = fr.nilness(st, cc.Args[1])
			}
			switch {
			case n == nilNo || m == nilNo:
				n = nilNo
			case m == nilUnknown:
				n = nilUnknown
			}
			return []errExit{{st: st, res: []int8{n}}}
		}
		return []errExit{{st: st}}
	}
	// error variables captured by a closure that is passed on may be changed by it
	for _, arg := range cc.Args {
		if mc, ok := arg.(*ssa.MakeClosure); ok {
			for _, bv := range mc.Bindings {
				if c := fr.cellOf(bv); c != nil && st.cell[c] != nilUnknown {
					st = st.clone()
					st.cell[c] = nilUnknown
				}
			}
		}
	}
	if f := cc.StaticCallee(); f != nil {
		switch f.String() {
		case "errors.New", "fmt.Errorf":
			return []errExit{{st: st, res: res(nilNo)}}
		case "errors.Join":
			return []errExit{{st: st, res: res(fr.nilness(st, cc.Args[0]))}}
		case "runtime.Goexit", "os.Exit":
			return nil
		}
		if strings.HasPrefix(f.String(), "(*sync/atomic.") && f.Name() == "Add" && len(cc.Args) > 0 {
			if fa, ok := cc.Args[0].(*ssa.FieldAddr); ok {
				if _, s := structOf(fa.X.Type().Underlying().(*types.Pointer).Elem()); s != nil && s.Field(fa.Field).Name() == "WriteErrors" {
					n := st.clone()
					n.cnt = true
					return []errExit{{st: n}}
				}
			}
		}
	}
	if w.siteOf(cc) {
		if !w.sites[in] {
			w.sites[in] = true
			w.nsites++
		}
		ok := st
		bad := st.clone()
		bad.pend[in] = true
		bad.tol, bad.cnt = false, false
		return []errExit{{st: ok, res: res(nilYes)}, {st: bad, res: res(nilNo)}}
	}
	// helpers that are handed errors are walked in place
	if f := cc.StaticCallee(); f != nil && fr.depth < 4 && len(f.Blocks) > 0 && w.isRepo[originOf(f)] {
		takes := false
		for _, p := range f.Params {
			takes = takes || isErrish(p.Type())
		}
		if takes {
			s := st.clone()
			for i, p := range f.Params {
				if isErrish(p.Type()) {
					s.val[p] = fr.nilness(st, cc.Args[i])
				}
			}
			sub := &errFrame{w: w, fn: f, depth: fr.depth + 1, seen: map[string]bool{}}
			if m := sub.elemMark(); m != nil && s.val[m] == nilNo {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if u, ok := in.(*ssa.UnOp); ok && sub.fromList(u) {
							sub.elems = true
						}
					}
				}
				if sub.elems {
					s.val[m] = nilUnknown
				}
			}
			return sub.run(s)
		}
	}
	return []errExit{{st: st, res: res(nilUnknown)}}
}

func originOf(f *ssa.Function) *ssa.Function {
	if f.Origin() != nil {
		return f.Origin()
	}
	return f
}

// joinArgs evaluates the slice of errors built for a variadic call.
func (fr *errFrame) joinArgs(st *errState, v ssa.Value) int8 {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return nilUnknown
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nilUnknown
	}
	out := nilYes
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, q := range *ia.Referrers() {
			if s, ok := q.(*ssa.Store); ok && s.Addr == ia {
				switch fr.nilness(st, s.Val) {
				case nilNo:
					return nilNo
				case nilUnknown:
					out = nilUnknown
				}
			}
		}
	}
	return out
}

func calleeDesc(in ssa.Instruction) string {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return "an earlier call, taken from the queue,"
	}
	cc := c.Common()
	if cc.IsInvoke() {
		return cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		if f.Origin() != nil {
			f = f.Origin()
		}
		return shortFn(f)
	}
	return "a handler function"
}

func ruleErrors(pr *Program, res *Result) {
	a := getFlow(pr)
	w := &errWalk{pr: pr, isRepo: map[*ssa.Function]bool{}, reaches: map[*ssa.Function]int{}, sites: map[ssa.Instruction]bool{}, viols: map[string]*Violation{}, queued: map[string]*ssa.Function{}}
	fns := a.repoFuncs()
	for _, f := range fns {
		w.isRepo[f] = true
	}
	inlined := map[*ssa.Function]bool{}
	all := append([]*ssa.Function(nil), fns...)
	for _, f := range fns {
		var rec func(g *ssa.Function)
		rec = func(g *ssa.Function) {
			for _, x := range g.AnonFuncs {
				w.isRepo[x] = true
				all = append(all, x)
				rec(x)
			}
		}
		rec(f)
	}
	// closures that are called or deferred where they are made are inlined there
	for _, f := range all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mc, ok := in.(*ssa.MakeClosure)
				if !ok {
					continue
				}
				only := true
				for _, r := range *mc.Referrers() {
					c, ok := r.(ssa.CallInstruction)
					if _, isGo := r.(*ssa.Go); !ok || isGo {
						only = false
						continue
					}
					if c.Common().Value == mc {
						continue
					}
					if g := c.Common().StaticCallee(); g != nil && (g.Name() == "Do" || g.Name() == "Once") {
						continue
					}
					only = false
				}
				if only && len(*mc.Referrers()) > 0 {
					inlined[mc.Fn.(*ssa.Function)] = true
				}
			}
		}
	}
	for _, f := range all {
		if len(f.Blocks) == 0 || inlined[f] || strings.HasPrefix(f.Name(), "_C") || strings.Contains(f.Name(), "_cgo") {
			continue
		}
		if f.Synthetic != "" && !strings.HasPrefix(f.Name(), "init") {
			continue
		}
		w.nfuncs++
		fr := &errFrame{w: w, fn: f, seen: map[string]bool{}}
		s := &errState{val: map[ssa.Value]int8{}, cell: map[ssa.Value]int8{}, boo: map[ssa.Value]bool{}, pend: map[ssa.Instruction]bool{}}
		k := errResult(f.Signature)
		for _, e := range fr.run(s) {
			if len(e.st.pend) == 0 || e.st.cnt || e.st.tol {
				continue
			}
			if k >= 0 && e.res[k] == nilNo {
				continue
			}
			// a closure that keeps the error in a variable of the function it belongs to
			kept := false
			for c, n := range e.st.cell {
				if _, ok := c.(*ssa.FreeVar); ok && n == nilNo {
					kept = true
				}
			}
			if kept {
				continue
			}
			for site := range e.st.pend {
				if c, ok := site.(ssa.CallInstruction); ok && k < 0 && memorySink(c.Common()) {
					continue
				}
				name := shortFn(f)
				if f.Parent() != nil {
					name = fnName(f)
				}
				d := calleeDesc(site)
				key := "swallow|" + name + "|" + d
				msg := fmt.Sprintf("an error of %s may not be reported to the caller", d)
				if k < 0 {
					msg = fmt.Sprintf("an error of %s is dropped", d)
				}
				w.viols[key] = &Violation{Rule: "errors", Pos: a.pos(site), Func: name, Msg: msg, Key: key}
			}
		}
	}
	reported := map[string]bool{}
	for _, f := range all {
		reportedFields(f, func(k string) { reported[k] = true })
	}
	for _, k := range sortedKeys(w.queued) {
		res.obl++
		if !reported[k] {
			f := w.queued[k]
			short := k[strings.LastIndex(k, "/")+1:]
			w.viols["queue|"+short] = &Violation{Rule: "errors", Pos: a.pos(f.Blocks[0].Instrs[0]), Func: fnName(f), Msg: "errors are kept in " + short + ", which no function reports", Key: "queue|" + short}
		}
	}
	res.coverage["error_fields"] = len(w.queued)
	for _, k := range sortedKeys(w.viols) {
		res.viols = append(res.viols, w.viols[k])
	}
	if w.nsites < 30 {
		res.viols = append(res.viols, &Violation{Rule: "undecided", Msg: fmt.Sprintf("only %d downstream operations found", w.nsites), Key: "undecided|sites"})
	}
	res.obl += w.nsites
	res.coverage["downstream_operations"] = w.nsites
	res.coverage["functions_walked"] = w.nfuncs
	res.coverage["exits"] = w.npaths
	res.rules = append(res.rules, "error obligations")
}
