package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C05"] = append(rules["C05"], ruleCallback)
	rules["C06"] = append(rules["C06"], ruleStop)
}

func pkgOf(f *ssa.Function) string {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg.Pkg.Path()
		}
		if o := g.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if g.Object() != nil && g.Object().Pkg() != nil {
			return g.Object().Pkg().Path()
		}
	}
	return ""
}

// ruleCallback: the payload mux calls handlers, and the mixer calls its output, with no lock held.
func ruleCallback(pr *Program, res *Result) {
	a := getFlow(pr)
	nMux, nMix := 0, 0
	done := map[string]bool{}
	for _, k := range sortedKeys(a.calls) {
		c := a.calls[k]
		if c.static {
			continue
		}
		what := ""
		switch {
		case shortFn(c.root.fn) == "rtp.Mux.HandleRTP":
			nMux++
			what = "handler"
		case strings.HasSuffix(pkgOf(c.in.Parent()), "/mixer") && (c.name == "WriteSample" || c.name == "String" || c.name == "SampleRate"):
			if c.name == "WriteSample" {
				nMix++
			}
			what = "output writer"
		default:
			continue
		}
		if len(c.locks) > 0 {
			fn := fnName(c.in.Parent())
			k := "callback|" + fn + "|" + c.name
			if !done[k] {
				done[k] = true
				res.viols = append(res.viols, &Violation{Rule: "callback", Pos: a.pos(c.in), Func: fn, Msg: fmt.Sprintf("%s is called (%s) while %s is held", what, c.name, c.locks[0].name()), Key: k})
			}
		}
	}
	if nMux == 0 || nMix == 0 {
		res.viols = append(res.viols, &Violation{Rule: "undecided", Msg: "no handler call of the mux or no output call of the mixer found", Key: "undecided|anchor|callback"})
	}
	res.obl += nMux + nMix
	res.coverage["callback_sites"] = nMux + nMix
	res.rules = append(res.rules, "callback without lock")
}

// stopKeys resolves a channel to the stop signals it stands for.
func (a *flow) stopKeys(ch fval, closed map[string]bool) []string {
	out := map[string]bool{}
	seen := map[string]bool{}
	var rec func(k string)
	rec = func(k string) {
		if k == "" || seen[k] {
			return
		}
		seen[k] = true
		if strings.HasPrefix(k, "fuse ") {
			out[k] = true
		}
		if closed["chan "+k] {
			out["chan "+k] = true
		}
		if strings.HasPrefix(k, "call:") && strings.Contains(k, " of Done@") {
			out["context"] = true
		}
		for s := range a.chanSrc[k] {
			rec(s)
		}
	}
	for _, r := range ch {
		rec(chanValKey(r))
	}
	return sortedSet(out)
}

// stopRoots are the operations that must raise a stop signal whenever they return.
var stopRoots = []string{"mixer.Mixer.Stop", "jitter.Buffer.Close", "rtp.session.Close", "media.PipeReader.Close", "media.PipeWriter.Close", "media.PipeReader.CloseWithError", "media.PipeWriter.CloseWithError", "rtp.jitterHandler.Close"}

func ruleStop(pr *Program, res *Result) {
	a := getFlow(pr)
	add := func(in ssa.Instruction, fn, key, format string, args ...any) {
		v := &Violation{Rule: "stop", Func: fn, Msg: fmt.Sprintf(format, args...), Key: "stop|" + key}
		if in != nil {
			v.Pos = a.pos(in)
		}
		for _, o := range res.viols {
			if o.Key == v.Key {
				return
			}
		}
		res.viols = append(res.viols, v)
	}
	// signals raised by the stop operations, on every way out
	raised := map[string]string{}
	nraise := 0
	var rets = map[string]bool{}
	sessName := sharedResultType(a, "rtp.NewSession")
	jhName := sharedResultType(a, "rtp.HandleJitter")
	for _, want := range stopRoots {
		name := want
		if strings.HasPrefix(want, "rtp.session.") && sessName != "" {
			name = sessName + strings.TrimPrefix(want, "rtp.session")
		}
		if strings.HasPrefix(want, "rtp.jitterHandler.") && jhName != "" {
			name = jhName + strings.TrimPrefix(want, "rtp.jitterHandler")
		}
		var r *froot
		for _, q := range a.roots {
			if shortFn(q.fn) == name {
				r = q
			}
		}
		if r == nil || len(r.exits) == 0 {
			add(nil, want, "anchor|"+want, "operation not found: %s", want)
			continue
		}
		var common map[string]bool
		for _, x := range r.exits {
			if common == nil {
				common = map[string]bool{}
				for k := range x.st.done {
					common[k] = true
				}
				continue
			}
			for k := range common {
				if !x.st.done[k] {
					delete(common, k)
				}
			}
		}
		nraise += len(r.exits)
		if len(common) == 0 {
			add(instrOfFn(r.fn), name, "raise|"+want, "%s can return without raising a stop signal", name)
		}
		for k := range common {
			raised[k] = name
		}
		if want == "rtp.session.Close" {
			for _, x := range r.exits {
				ok := false
				for k := range x.st.calls {
					if strings.HasPrefix(k, "Close ") {
						ok = true
					}
				}
				if !ok {
					add(instrOfFn(r.fn), name, "connclose", "%s can return without closing the connection, which blocked reads wait for", name)
				}
			}
		}
		rets[name] = true
	}
	closed := map[string]bool{}
	for k := range raised {
		closed[k] = true
	}
	// locks taken before a signal is raised
	before := map[string]map[string]bool{}
	for _, k := range sortedKeys(a.calls) {
		c := a.calls[k]
		if s, ok := strings.CutPrefix(c.name, "break "); ok {
			if before[s] == nil {
				before[s] = map[string]bool{}
			}
			for l := range c.st.acq {
				before[s][l] = true
			}
		}
	}
	nwait := 0
	type wk struct {
		in ssa.Instruction
	}
	seen := map[ssa.Instruction]bool{}
	keys := sortedKeys(a.waits)
	sort.Strings(keys)
	for _, k := range keys {
		w := a.waits[k]
		fn := fnName(w.in.Parent())
		first := !seen[w.in]
		seen[w.in] = true
		nwait++
		var stopCase []int
		var sk []string
		for i, ch := range w.chans {
			if w.recvs[i] {
				if ks := a.stopKeys(ch, closed); len(ks) > 0 {
					stopCase = append(stopCase, i)
					sk = append(sk, ks...)
				}
			}
		}
		if len(stopCase) == 0 {
			if !a.handshake(w) {
				add(w.in, fn, "wait|"+fn+"|"+w.what, "this %s can block for ever: no stop signal wakes it", w.what)
			}
			continue
		}
		for _, s := range sk {
			if s == "context" {
				continue
			}
			if raised[s] == "" {
				add(w.in, fn, "unraised|"+fn+"|"+s, "the stop signal %s is not raised by a stop operation", s)
			}
			for _, l := range w.locks {
				if before[s][l.name()] {
					add(w.in, fn, "lockwait|"+fn+"|"+l.name(), "waits while holding %s, which is needed to raise the stop signal %s", l.name(), s)
				}
			}
		}
		if sel, ok := w.in.(*ssa.Select); ok && first {
			for _, i := range stopCase {
				if blk := selectCase(sel, i); blk == nil || reachesInstr(blk, sel) {
					add(w.in, fn, "ignored|"+fn, "the loop goes on after the stop signal")
				}
			}
		}
	}
	// every goroutine must wait for a stop signal or end on its own
	nth := 0
	for in, t := range a.goSites {
		if _, ok := in.(*ssa.Go); !ok {
			continue
		}
		nth++
		for _, l := range cycles(t.fn) {
			stops := false
			for _, w := range a.waits {
				if w.thread == t && l[w.in.Block()] {
					for i, ch := range w.chans {
						if w.recvs[i] && len(a.stopKeys(ch, closed)) > 0 {
							stops = true
						}
					}
				}
			}
			if !stops && !boundedLoop(l) {
				add(in, fnName(t.fn), "goroutine|"+fnName(t.fn), "this goroutine loops without waiting for a stop signal")
			}
		}
	}
	// a connection must be closed without first taking a lock that a blocked read holds
	readLocks := map[string]bool{}
	nread := 0
	for _, k := range sortedKeys(a.calls) {
		c := a.calls[k]
		if c.name == "Read" && !c.static && strings.HasSuffix(pkgOf(c.in.Parent()), "/rtp") {
			nread++
			for _, l := range c.locks {
				readLocks[l.name()] = true
			}
		}
	}
	for _, k := range sortedKeys(a.calls) {
		c := a.calls[k]
		if c.name == "Close" && !c.static && shortFn(c.root.fn) == sessName+".Close" {
			for l := range c.st.acq {
				if readLocks[l] {
					add(c.in, fnName(c.in.Parent()), "closelock|"+l, "closes the connection after taking %s, which is held by a blocked read", l)
				}
			}
		}
	}
	if nwait < 10 || nth < 3 || nread == 0 {
		add(nil, "", "anchor|count", "found only %d waits, %d goroutines, %d connection reads", nwait, nth, nread)
	}
	res.obl += nwait + nth + nraise + nread
	res.coverage["waits"] = nwait
	res.coverage["goroutines"] = nth
	var rs []string
	for _, k := range sortedKeys(raised) {
		rs = append(rs, k+" raised by "+raised[k])
	}
	res.coverage["stop_signals"] = rs
	res.rules = append(res.rules, "goroutine and wait termination")
}

func sharedResultType(a *flow, ctor string) string {
	for _, r := range a.roots {
		if shortFn(r.fn) != ctor {
			continue
		}
		for _, x := range r.exits {
			for _, v := range x.res {
				for _, q := range v {
					if n, ok := types.Unalias(tyOr(q.typ)).(*types.Named); ok {
						return n.Obj().Pkg().Name() + "." + n.Obj().Name()
					}
				}
			}
		}
	}
	return ""
}

// selectCase finds the block executed for a case of a select statement.
func selectCase(sel *ssa.Select, idx int) *ssa.BasicBlock {
	for _, r := range *sel.Referrers() {
		ex, ok := r.(*ssa.Extract)
		if !ok || ex.Index != 0 {
			continue
		}
		// index 0 of a chain of comparisons
		var last *ssa.BasicBlock
		n := 0
		for _, q := range *ex.Referrers() {
			b, ok := q.(*ssa.BinOp)
			if !ok || b.Op != token.EQL {
				continue
			}
			c, ok := b.Y.(*ssa.Const)
			if !ok {
				continue
			}
			for _, z := range *b.Referrers() {
				if f, ok := z.(*ssa.If); ok {
					if int(c.Int64()) == idx {
						return f.Block().Succs[0]
					}
					n++
					last = f.Block().Succs[1]
				}
			}
		}
		_ = last
	}
	if len(sel.States) == 1 {
		return nil
	}
	return nil
}

func reachesInstr(from *ssa.BasicBlock, in ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{from}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		if b == in.Block() {
			return true
		}
		work = append(work, b.Succs...)
	}
	return false
}

// cycles returns the strongly connected components of the control-flow graph that are loops.
func cycles(f *ssa.Function) []map[*ssa.BasicBlock]bool {
	var out []map[*ssa.BasicBlock]bool
	done := map[*ssa.BasicBlock]bool{}
	reach := func(from *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		m := map[*ssa.BasicBlock]bool{}
		work := append([]*ssa.BasicBlock(nil), from.Succs...)
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if !m[b] {
				m[b] = true
				work = append(work, b.Succs...)
			}
		}
		return m
	}
	rs := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		rs[b] = reach(b)
	}
	for _, b := range f.Blocks {
		if done[b] || !rs[b][b] {
			continue
		}
		c := map[*ssa.BasicBlock]bool{}
		for _, q := range f.Blocks {
			if rs[b][q] && rs[q][b] {
				c[q] = true
				done[q] = true
			}
		}
		out = append(out, c)
	}
	return out
}

// boundedLoop recognises loops that end on their own: a counter or range loop.
func boundedLoop(l map[*ssa.BasicBlock]bool) bool {
	for b := range l {
		f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || (l[b.Succs[0]] && l[b.Succs[1]]) {
			continue
		}
		switch c := f.Cond.(type) {
		case *ssa.BinOp:
			if c.Op == token.LSS || c.Op == token.GTR || c.Op == token.LEQ || c.Op == token.GEQ {
				return true
			}
		case *ssa.Extract:
			if _, ok := c.Tuple.(*ssa.Next); ok {
				return true
			}
		}
	}
	return false
}

// handshake accepts a plain send or receive whose partner is committed to the opposite operation:
//   - a send on a channel that only ever is created with a buffer, when every send is preceded by a receiver that
//     gave up its slot (the channel has room), or a receive of such a value;
//   - the second half of an unbuffered exchange: after a select case on channel Y the code must do the operation on X,
//     and everybody on the other side of Y must do the opposite operation on X next.
func (a *flow) handshake(w *waitEvent) bool {
	if len(w.chans) != 1 {
		return false
	}
	x := a.chanIDs(w.chans[0])
	if len(x) == 0 {
		return false
	}
	// every wait on X in the program
	caps := true
	for mk := range a.makesOf(x) {
		if c, ok := mk.Size.(*ssa.Const); !ok || c.Int64() < 1 {
			caps = false
		}
	}
	if caps && len(a.makesOf(x)) > 0 {
		if w.what == "send" || a.flagged(w, x) {
			return true
		}
	}
	// committed exchange
	sendSide := w.what == "send"
	y, ok := a.firstHalf(w)
	if !ok {
		return false
	}
	n := 0
	for _, o := range a.waits {
		sel, ok := o.in.(*ssa.Select)
		if !ok {
			continue
		}
		for i, ch := range o.chans {
			if !sameIDs(a.chanIDs(ch), y) || o.recvs[i] == sendSide {
				continue
			}
			n++
			if !a.nextIs(selectCase(sel, i), x, !sendSide) {
				return false
			}
		}
	}
	return n > 0
}

// flagged accepts a receive under a lock that is only done when a field says that the value was sent:
// every send on the channel sets that field in the same critical section.
func (a *flow) flagged(w *waitEvent, x map[string]bool) bool {
	if len(w.locks) == 0 {
		return false
	}
	fieldOf := func(v ssa.Value) string {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if f, ok := u.X.(*ssa.FieldAddr); ok {
				n, s := structOf(f.X.Type().Underlying().(*types.Pointer).Elem())
				if n != nil {
					return n.Obj().Name() + "." + s.Field(f.Field).Name()
				}
			}
		}
		return ""
	}
	fields := map[string]bool{}
	for b := w.in.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}
		f, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || !(len(b.Preds) == 1 && b.Preds[0] == d) {
			continue
		}
		if c, ok := f.Cond.(*ssa.BinOp); ok && (c.Op == token.EQL || c.Op == token.NEQ) {
			if k := fieldOf(c.X); k != "" {
				fields[k] = true
			}
			if k := fieldOf(c.Y); k != "" {
				fields[k] = true
			}
		} else if k := fieldOf(f.Cond); k != "" {
			fields[k] = true
		}
	}
	n := 0
	for _, o := range a.waits {
		for i, ch := range o.chans {
			if o.recvs[i] || !sameIDs(a.chanIDs(ch), x) {
				continue
			}
			n++
			ok := false
			for _, l := range o.locks {
				for _, m := range w.locks {
					if strings.Split(l.name(), "/")[0] == strings.Split(m.name(), "/")[0] {
						ok = true
					}
				}
			}
			sets := false
			for _, b := range o.in.Parent().Blocks {
				if !b.Dominates(o.in.Block()) {
					continue
				}
				for _, in := range b.Instrs {
					if st, isSt := in.(*ssa.Store); isSt {
						if f, isF := st.Addr.(*ssa.FieldAddr); isF {
							nm, s := structOf(f.X.Type().Underlying().(*types.Pointer).Elem())
							if nm != nil && fields[nm.Obj().Name()+"."+s.Field(f.Field).Name()] {
								sets = true
							}
						}
					}
				}
			}
			if !ok || !sets {
				return false
			}
		}
	}
	return n > 0
}

func sameIDs(p, q map[string]bool) bool {
	for k := range p {
		if q[k] {
			return true
		}
	}
	return false
}

// chanIDs resolves a channel value to the fields and allocations it may come from.
func (a *flow) chanIDs(ch fval) map[string]bool {
	seen := map[string]bool{}
	var rec func(k string)
	rec = func(k string) {
		if k == "" || seen[k] {
			return
		}
		seen[k] = true
		for s := range a.chanSrc[k] {
			rec(s)
		}
	}
	for _, r := range ch {
		rec(chanValKey(r))
	}
	return seen
}

func (a *flow) makesOf(ids map[string]bool) map[*ssa.MakeChan]bool {
	out := map[*ssa.MakeChan]bool{}
	for f := range a.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeChan); ok {
					for k := range ids {
						if strings.HasSuffix(k, fmt.Sprintf("/%p", in)) {
							out[mc] = true
						}
					}
				}
			}
		}
	}
	return out
}

// firstHalf finds the channel whose select case leads to w, with no other way to get there.
func (a *flow) firstHalf(w *waitEvent) (map[string]bool, bool) {
	for _, o := range a.waits {
		sel, ok := o.in.(*ssa.Select)
		if !ok || sel.Parent() != w.in.Parent() {
			continue
		}
		for i, ch := range o.chans {
			if o.recvs[i] != (w.what == "send") {
				continue
			}
			blk := selectCase(sel, i)
			if blk != nil && blk.Dominates(w.in.Block()) {
				return a.chanIDs(ch), true
			}
		}
	}
	return nil, false
}

// nextIs reports whether every path from blk performs the operation on X before anything that waits or returns.
func (a *flow) nextIs(blk *ssa.BasicBlock, x map[string]bool, send bool) bool {
	if blk == nil {
		return false
	}
	byIn := map[ssa.Instruction]*waitEvent{}
	for _, w := range a.waits {
		byIn[w.in] = w
	}
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if w := byIn[in]; w != nil {
				return len(w.chans) == 1 && (w.what == "send") == send && sameIDs(a.chanIDs(w.chans[0]), x)
			}
			switch in.(type) {
			case *ssa.Return, *ssa.Panic:
				return false
			}
		}
		for _, s := range b.Succs {
			if !rec(s) {
				return false
			}
		}
		return true
	}
	return rec(blk)
}
