package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C07"] = append(rules["C07"], ruleKeep)
}

// keepOwners are writers that take over the ownership of their argument by contract.
func keepOwner(name string) bool {
	return strings.HasPrefix(name, "jitter.Buffer.Push") // the jitter buffer takes over the packet
}

// writeAnchors must be among the analysed write operations.
var writeAnchors = []string{
	"rtp.Buffer.WriteRTP", "rtp.SeqWriter.WriteEvent", "rtp.Stream.WritePayload",
	"rtp.Stream.WritePayloadAtCurrent", "rtp.MediaStreamOut.WriteSample", "rtp.Mux.HandleRTP",
	"mixer.Input.WriteSample", "ring.Buffer.Write", "media.PipeWriter.WriteSample", "media.SwitchWriter.WriteSample",
}

func callerMem(t types.Type) bool {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Pointer:
		n, s := structOf(u.Elem())
		return s != nil && n != nil && !isSyncType(t)
	case *types.Interface:
		// a type parameter that may be a slice
		if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
			return hasRefs(tp)
		}
	}
	return false
}

func isWriteName(n string) bool {
	return strings.HasPrefix(n, "Write") || strings.HasPrefix(n, "HandleRTP") || strings.HasPrefix(n, "TryWrite") || strings.HasPrefix(n, "Encode") || strings.HasPrefix(n, "Push")
}

// fieldClass names a location by the struct type and field path that hold it.
func fieldClass(r *fref) string {
	path := ""
	for ; r != nil && r.kind == rField; r = r.parent {
		path = "." + r.name + path
		if n, _ := structOf(tyOr(r.parent.typ)); n != nil && r.parent.kind != rField {
			return n.Origin().Obj().Pkg().Name() + "." + n.Obj().Name() + path
		}
	}
	return ""
}

// private reports whether a location lies in an unexported field.
func private(r *fref) bool {
	for ; r != nil && r.kind == rField; r = r.parent {
		if !token.IsExported(r.name) {
			return true
		}
	}
	return false
}

// isElemValue reports whether a reference is (part of) the value of an element of a generic container.
func isElemValue(r *fref, m *fref) bool {
	if m.kind != rParam {
		return false
	}
	gen := func(t types.Type) bool {
		tp, ok := types.Unalias(tyOr(t)).(*types.TypeParam)
		return ok && tp.Obj().Pkg() != nil && tp.Obj().Pkg().Name() == "ring"
	}
	for x := r; x != nil; x = x.parent {
		if x.kind == rDeref && x.parent.kind == rElem && gen(x.parent.typ) {
			return true
		}
		if x == m && gen(x.typ) {
			return true
		}
	}
	return false
}

func ruleKeep(pr *Program, res *Result) {
	a := getFlow(pr)
	type wroot struct {
		r   *froot
		mem map[int]*fref
	}
	ws := map[*froot]*wroot{}
	seen := map[string]bool{}
	var names []string
	for _, r := range a.roots {
		if r.fn.Signature.Recv() == nil || !isWriteName(r.fn.Name()) {
			continue
		}
		name := shortFn(r.fn)
		if keepOwner(name) {
			continue
		}
		w := &wroot{r, map[int]*fref{}}
		for i := 1; i < len(r.params); i++ {
			if len(r.params[i]) == 1 && callerMem(r.fn.Params[i].Type()) {
				w.mem[i] = r.params[i][0]
			}
		}
		if len(w.mem) > 0 {
			ws[r] = w
			seen[name] = true
			names = append(names, name)
		}
	}
	sort.Strings(names)
	for _, n := range writeAnchors {
		if !seen[n] {
			res.viols = append(res.viols, &Violation{Rule: "undecided", Msg: "write operation not found: " + n, Key: "undecided|anchor|" + n})
		}
	}
	// reads of fields that were not stored into earlier in the same operation
	readBefore := map[string]*accEvent{}
	for _, k := range sortedKeys(a.acc) {
		e := a.acc[k]
		if e.write || e.set {
			continue
		}
		if c := fieldClass(e.loc); c != "" && readBefore[c] == nil {
			readBefore[c] = e
		}
	}
	nobl := 0
	taint := func(w *wroot, v fval) *fref {
		for _, r := range v {
			for _, m := range w.mem {
				if r.under(m) && !isElemValue(r, m) {
					return r
				}
			}
		}
		return nil
	}
	report := func(key string, in ssa.Instruction, fn, msg string) {
		res.viols = append(res.viols, &Violation{Rule: "caller memory", Pos: a.pos(in), Func: fn, Msg: msg, Key: key})
	}
	for _, k := range sortedKeys(a.flows) {
		f := a.flows[k]
		w := ws[f.root]
		if w == nil {
			continue
		}
		name := shortFn(f.root.fn)
		switch f.what {
		case "store", "send":
			nobl++
			t := taint(w, f.val)
			if t == nil {
				continue
			}
			if f.what == "store" {
				if f.dst.root().kind == rAlloc {
					continue
				}
				// a private field that nobody reads before overwriting it does not matter
				if c := fieldClass(f.dst); c != "" && private(f.dst) && readBefore[c] == nil {
					continue
				}
				report("keep|"+name+"|"+f.dst.String(), f.in, name, fmt.Sprintf("keeps a reference to the caller's memory (%s) in %s", t, f.dst))
				continue
			}
			if a.sendHandshake(f.in) {
				continue
			}
			report("send|"+name+"|"+fnName(f.in.Parent()), f.in, name, fmt.Sprintf("hands the caller's memory (%s) over to another goroutine or to a writer that keeps it", t))
		case "ret":
			nobl++
		}
	}
	for _, k := range sortedKeys(a.acc) {
		e := a.acc[k]
		w := ws[e.root]
		if w == nil || !e.write {
			continue
		}
		nobl++
		if t := taint(w, fval{e.loc}); t != nil {
			name := shortFn(e.root.fn)
			report("modify|"+name+"|"+fnName(e.in.Parent()), e.in, name, fmt.Sprintf("modifies the caller's memory (%s)", t))
		}
	}
	// a header given to a reader must not point into the buffer the packet was received in
	for _, k := range sortedKeys(a.flows) {
		f := a.flows[k]
		if f.what != "store" || f.root.fn.Signature.Recv() == nil || !strings.HasPrefix(f.root.fn.Name(), "Read") {
			continue
		}
		d := -1
		for i := 1; i < len(f.root.params); i++ {
			if len(f.root.params[i]) == 1 && f.dst.under(f.root.params[i][0]) {
				d = i
			}
		}
		if d < 0 {
			continue
		}
		nobl++
		for i := 1; i < len(f.root.params); i++ {
			if i == d || len(f.root.params[i]) != 1 {
				continue
			}
			for _, r := range f.val {
				if r.under(f.root.params[i][0]) {
					name := shortFn(f.root.fn)
					report("share|"+name, f.in, name, fmt.Sprintf("the delivered %s shares memory with the receive buffer %s", f.dst, r))
				}
			}
		}
	}
	// a component's own reusable memory must not be handed to another goroutine
	for _, k := range sortedKeys(a.flows) {
		f := a.flows[k]
		if f.what == "store" {
			if !foreign(a, f.dst) {
				continue
			}
		} else if f.what != "send" || a.sendHandshake(f.in) {
			continue
		}
		if _, ok := f.in.(*ssa.Go); ok {
			continue
		}
		for _, r := range f.val {
			nobl++
			c := a.ownScratch(r)
			if c == "" {
				continue
			}
			key := "scratch|" + fnName(f.in.Parent()) + "|" + c
			report(key, f.in, fnName(f.in.Parent()), fmt.Sprintf("hands %s, which the component keeps writing to, over to a caller, another goroutine or a writer that keeps it", c))
			break
		}
	}
	if os.Getenv("MC_FLOW") != "" {
		for _, n := range names {
			fmt.Println("write operation", n)
		}
	}
	res.obl += nobl
	res.coverage["write_operations"] = names
	res.rules = append(res.rules, "caller memory escape and modification")
}

// ownScratch returns the slice field, if any, whose contents r is and which the component itself fills.
func (a *flow) ownScratch(r *fref) string {
	if a.written == nil {
		a.written = map[string]bool{}
		note := func(p *fref) {
			for _, c := range a.contentOf(p) {
				a.written[c] = true
			}
		}
		for _, e := range a.acc {
			if e.write && e.loc.kind == rElem {
				note(e.loc.parent)
			}
		}
		for _, e := range a.calls {
			if e.static || !fillName(e.name) {
				continue
			}
			for _, v := range e.args {
				for _, p := range v {
					note(p)
				}
			}
		}
	}
	for _, c := range a.contentOf(r) {
		if a.written[c] {
			return c
		}
	}
	return ""
}

// foreign reports whether a location belongs to a caller rather than to the component.
func foreign(a *flow, l *fref) bool {
	for x := l; x != nil; x = x.parent {
		if x.kind == rDeref || x.kind == rParam {
			if n, s := structOf(tyOr(x.typ)); s != nil && n != nil && !a.pr.isRepo(n.Obj().Pkg()) {
				return true
			}
		}
	}
	return false
}

// fillName reports whether a method fills the slice it is given.
func fillName(n string) bool {
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		n = n[i+1:]
	}
	return n == "CopyTo" || strings.HasPrefix(n, "Read") || n == "MarshalTo"
}

// contentOf returns the slice fields whose contents a reference denotes.
func (a *flow) contentOf(r *fref) []string {
	isSlice := func(t types.Type) bool {
		if t == nil {
			return false
		}
		_, ok := types.Unalias(t).Underlying().(*types.Slice)
		return ok
	}
	if r.kind == rDeref && r.parent != nil && r.parent.kind == rField && isSlice(r.parent.typ) {
		if c := fieldClass(r.parent); c != "" && private(r.parent) {
			return []string{c}
		}
	}
	if r.kind != rAlloc {
		return nil
	}
	if a.inField == nil {
		a.inField = map[*fref]map[string]bool{}
		for l, v := range a.heap {
			if l.kind != rField || !isSlice(l.typ) || !private(l) {
				continue
			}
			c := fieldClass(l)
			if c == "" {
				continue
			}
			for _, q := range v {
				if a.inField[q] == nil {
					a.inField[q] = map[string]bool{}
				}
				a.inField[q][c] = true
			}
		}
		for _, f := range a.flows {
			if f.what != "store" || f.dst.kind != rField || !isSlice(f.dst.typ) || !private(f.dst) {
				continue
			}
			if c := fieldClass(f.dst); c != "" {
				for _, q := range f.top {
					if a.inField[q] == nil {
						a.inField[q] = map[string]bool{}
					}
					a.inField[q][c] = true
				}
			}
		}
	}
	return sortedSet(a.inField[r])
}

// sendHandshake reports whether the sender waits for the receiver to be done with the value before it goes on.
func (a *flow) sendHandshake(in ssa.Instruction) bool {
	for _, w := range a.waits {
		if w.in.Parent() != in.Parent() || w.what != "recv" {
			continue
		}
		if _, ok := a.firstHalf(w); ok && a.handshake(w) {
			if sel, ok := in.(*ssa.Select); ok && dominatesInstr(sel, w.in) {
				return true
			}
		}
	}
	return false
}

func dominatesInstr(a, b ssa.Instruction) bool {
	return a.Block() == b.Block() || a.Block().Dominates(b.Block())
}
