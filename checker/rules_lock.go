package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C04"] = append(rules["C04"], ruleLockset)
	rules["C05"] = append(rules["C05"], ruleLockUse)
}

var flowCache *flow

func getFlow(pr *Program) *flow {
	if flowCache == nil {
		a := newFlow(pr)
		a.runAll()
		flowCache = a
	}
	return flowCache
}

func (a *flow) pos(in ssa.Instruction) string {
	if in == nil {
		return ""
	}
	p := a.pr.prog.Fset.Position(instrPos(in))
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, repoDir+"/"), p.Line)
}

// owner finds the innermost enclosing object of a class type, and a name for the location inside it.
func (a *flow) owner(loc *fref) (*types.Named, *fref, string) {
	if loc.kind == rDeref {
		// whole object
		if n, ok := a.isClass(tyOr(loc.typ)); ok {
			return n, loc, "*"
		}
	}
	var names []string
	last := ""
	for x := loc; x != nil; x = x.parent {
		switch x.kind {
		case rField:
			pt := x.parent.typ
			n, _ := structOf(tyOr(pt))
			if n != nil {
				if c, ok := a.isClass(n); ok {
					key := c.Obj().Pkg().Name() + "." + c.Obj().Name()
					if last != "" {
						return c, x.parent, key + "~" + last
					}
					s := ""
					for i := len(names) - 1; i >= 0; i-- {
						s += names[i]
					}
					return c, x.parent, key + "." + x.name + s
				}
				if last == "" && a.pr.isRepo(n.Obj().Pkg()) {
					s := ""
					for i := len(names) - 1; i >= 0; i-- {
						s += names[i]
					}
					last = n.Obj().Name() + "." + x.name + s
				}
				if !a.pr.isRepo(n.Obj().Pkg()) {
					names = nil // parts of foreign structs are one unit
				}
			}
		case rElem:
			names = append(names, "[]")
		case rDeref:
			if x == loc {
				names = append(names, ".*")
			}
		}
	}
	return nil, nil, ""
}

func tyOr(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	return t
}

func (e *accEvent) guards(a *flow) map[string]bool {
	g := map[string]bool{}
	for _, l := range e.locks {
		lr := l.refs[0]
		if len(l.refs) != 1 {
			// one object out of several: the access must be to the same choice
			if !e.through(l) && len(e.all) != len(l.refs) {
				continue
			}
			if e.through(l) {
				if !e.write || l.write {
					g[lockClass(lr)] = true
				}
				continue
			}
			used := map[*fref]bool{}
			for _, x := range e.all {
				for _, y := range l.refs {
					if y.parent != nil && !used[y] && x.under(y.parent) {
						used[y] = true
						break
					}
				}
			}
			if len(used) != len(l.refs) {
				continue
			}
		} else if lr.parent == nil || !e.loc.under(lr.parent) {
			continue
		}
		if e.write && !l.write {
			continue
		}
		g[lockClass(lr)] = true
	}
	return g
}

// through tells if the access goes through the object whose lock is held, whichever of several it is.
func (e *accEvent) through(l lockHeld) bool {
	in := false
	for _, y := range l.refs {
		in = in || y.parent != nil && e.loc.under(y.parent)
	}
	if !in {
		return false
	}
	for _, b := range e.bases {
		if len(b) != len(l.refs) {
			continue
		}
		n := 0
		for _, y := range l.refs {
			for _, r := range b {
				if r == y.parent {
					n++
					break
				}
			}
		}
		if n == len(b) {
			return true
		}
	}
	return false
}

func threadName(t *fthread) string {
	if t == nil {
		return "caller"
	}
	return t.name
}

// lockExempt lists fields that need no lock, each for a stated reason.
var lockExempt = map[string]string{
	"jitter.Buffer.logger": "set by the builder method WithLogger before the buffer is shared; never read",
}

func ruleLockset(pr *Program, res *Result) {
	a := getFlow(pr)
	sharedTypes(a, res)
	byKey := map[string][]*accEvent{}
	for _, k := range sortedKeys(a.acc) {
		e := a.acc[k]
		c, _, key := a.owner(e.loc)
		if c == nil || strings.HasSuffix(key, "*") && strings.Count(key, ".") == 1 {
			continue
		}
		if isSyncType(tyOr(e.loc.typ)) {
			continue
		}
		byKey[key] = append(byKey[key], e)
	}
	var guarded []string
	nacc := 0
	for _, key := range sortedKeys(byKey) {
		evs := byKey[key]
		nacc += len(evs)
		writes := false
		threads := map[string]bool{}
		for _, e := range evs {
			if e.write {
				writes = true
			}
			threads[threadName(e.thread)] = true
		}
		if !writes {
			continue // not modified once other goroutines may know the object
		}
		if len(threads) == 1 && !threads["caller"] {
			guarded = append(guarded, key+": owned by goroutine "+sortedSet(threads)[0])
			continue
		}
		if lockExempt[key] != "" {
			continue
		}
		// the common guard
		count := map[string]int{}
		for _, e := range evs {
			for g := range e.guards(a) {
				count[g]++
			}
		}
		best := ""
		for _, g := range sortedKeys(count) {
			if best == "" || count[g] > count[best] {
				best = g
			}
		}
		if best != "" && count[best] == len(evs) {
			guarded = append(guarded, key+": guarded by "+best)
			continue
		}
		done := map[string]bool{}
		for _, e := range evs {
			if best != "" && e.guards(a)[best] {
				continue
			}
			fn := fnName(e.in.Parent())
			k := "lockset|" + key + "|" + fn
			if done[k] {
				continue
			}
			done[k] = true
			verb := "read"
			if e.write {
				verb = "written"
			}
			msg := fmt.Sprintf("%s is %s without a lock that protects it", key, verb)
			if best != "" {
				msg = fmt.Sprintf("%s is %s without holding %s, which protects it elsewhere", key, verb, best)
			}
			res.viols = append(res.viols, &Violation{Rule: "lockset", Pos: a.pos(e.in), Func: fn, Msg: msg + " (reached from " + e.root.name + ", " + threadName(e.thread) + ")", Key: k})
		}
	}
	// references to guarded contents must not leave the lock
	isGuarded := map[string]bool{}
	for _, g := range guarded {
		k, _, _ := strings.Cut(g, ": ")
		isGuarded[k] = true
	}
	var glocs []*accEvent
	for _, k := range sortedKeys(a.acc) {
		e := a.acc[k]
		if _, _, key := a.owner(e.loc); isGuarded[key] {
			glocs = append(glocs, e)
		}
	}
	for _, k := range sortedKeys(a.flows) {
		f := a.flows[k]
		if f.what != "ret" {
			continue
		}
		for _, r := range f.top {
			if r.kind != rDeref {
				continue
			}
			if _, ok := a.isClass(tyOr(r.typ)); ok {
				continue
			}
			c, _, _ := a.owner(r)
			if c == nil {
				continue
			}
			for _, g := range glocs {
				if g.root == f.root && g.loc.under(r) || sameContent(a, g.loc, r) {
					k := "escape|" + f.root.name
					res.viols = append(res.viols, &Violation{Rule: "lockset", Pos: a.pos(f.in), Func: f.root.name, Msg: "returns a reference to " + r.parent.String() + ", whose contents are protected by a lock", Key: k})
					break
				}
			}
		}
	}
	if os.Getenv("MC_FLOW") != "" {
		for _, g := range guarded {
			fmt.Println(g)
		}
	}
	res.obl += nacc
	res.coverage["roots"] = len(a.roots)
	res.coverage["functions_inlined"] = len(a.fns)
	res.coverage["accesses"] = nacc
	res.coverage["guarded"] = guarded
	res.rules = append(res.rules, "lockset")
}

// sameContent reports whether a guarded location lies in what a reference (seen in another root) denotes.
func sameContent(a *flow, loc, r *fref) bool {
	_, _, kr := a.owner(r.parent)
	if kr == "" || strings.Contains(kr, "~") {
		return false
	}
	for x := loc; x != nil; x = x.parent {
		if x.kind == rDeref && x.parent.kind == r.parent.kind {
			if _, _, k := a.owner(x.parent); k == kr {
				return true
			}
		}
	}
	return false
}

// sharedCtors are the exported functions that create objects several goroutines may use at once.
var sharedCtors = []string{
	"mixer.NewMixer", "mixer.Mixer.NewInput", "rtp.NewMux", "rtp.NewSeqWriter", "rtp.SeqWriter.NewStream", "rtp.NewSession",
	"rtp.session.OpenWriteStream", "rtp.session.AcceptStream", "jitter.NewBuffer",
	"media.NewPCM16BufferWriter", "media.FullFrames", "media.ResampleWriter", "media.NewSwitchWriter", "media.Pipe",
}

// sharedTypes makes sure that the types of shared objects are analysed whether or not they contain a lock.
func sharedTypes(a *flow, res *Result) {
	types_ := map[string]bool{}
	add := func(n *types.Named) {
		n = n.Origin()
		if _, ok := n.Underlying().(*types.Struct); ok && a.pr.isRepo(n.Obj().Pkg()) {
			a.clazz[n] = true
			types_[n.Obj().Pkg().Name()+"."+n.Obj().Name()] = true
		}
	}
	found := map[string]bool{}
	var sess *types.Named
	for pass := 0; pass < 2; pass++ {
		for _, r := range a.roots {
			name := shortFn(r.fn)
			want := false
			for _, c := range sharedCtors {
				if c == name || strings.HasPrefix(c, "rtp.session.") && sess != nil && name == "rtp."+sess.Obj().Name()+strings.TrimPrefix(c, "rtp.session") {
					want = true
					found[c] = true
				}
			}
			if !want {
				continue
			}
			for _, x := range r.exits {
				for _, v := range x.res {
					for _, q := range v {
						if n, ok := types.Unalias(tyOr(q.typ)).(*types.Named); ok {
							add(n)
							if name == "rtp.NewSession" {
								sess = n
							}
						}
					}
				}
			}
		}
	}
	for _, c := range sharedCtors {
		if !found[c] {
			res.viols = append(res.viols, &Violation{Rule: "undecided", Msg: "anchor not found: " + c, Key: "undecided|anchor|" + c})
		}
	}
	res.coverage["shared_types"] = sortedSet(types_)
	if len(types_) < 12 {
		res.viols = append(res.viols, &Violation{Rule: "undecided", Msg: fmt.Sprintf("only %d shared types found: %v", len(types_), sortedSet(types_)), Key: "undecided|anchor|types"})
	}
}

// shortFn names a function pkg.Func or pkg.Type.Method.
func shortFn(f *ssa.Function) string {
	o := f.Object()
	if o == nil {
		return f.Name()
	}
	p := o.Pkg().Name()
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return p + "." + n.Obj().Name() + "." + o.Name()
		}
	}
	return p + "." + o.Name()
}

func ruleLockUse(pr *Program, res *Result) {
	a := getFlow(pr)
	for _, k := range sortedKeys(a.issues) {
		i := a.issues[k]
		res.viols = append(res.viols, &Violation{Rule: "lock", Pos: a.pos(i.in), Func: fnName(i.fn), Msg: i.msg + " (reached from " + i.root.name + ")", Key: "lock|" + i.msg + "|" + fnName(i.fn)})
	}
	// order
	g := map[string]map[string]*orderEvent{}
	for _, k := range sortedKeys(a.orders) {
		o := a.orders[k]
		if g[o.a] == nil {
			g[o.a] = map[string]*orderEvent{}
		}
		if g[o.a][o.b] == nil {
			g[o.a][o.b] = o
		}
	}
	var edges []string
	for _, x := range sortedKeys(g) {
		for _, y := range sortedKeys(g[x]) {
			edges = append(edges, x+" before "+y)
		}
	}
	// cycles
	var path []string
	on := map[string]bool{}
	doneN := map[string]bool{}
	var dfs func(n string)
	dfs = func(n string) {
		if doneN[n] {
			return
		}
		on[n] = true
		path = append(path, n)
		for _, m := range sortedKeys(g[n]) {
			if on[m] {
				o := g[n][m]
				i := 0
				for path[i] != m {
					i++
				}
				cyc := append([]string(nil), path[i:]...)
				sort.Strings(cyc)
				res.viols = append(res.viols, &Violation{Rule: "lock-order", Pos: a.pos(o.in), Func: fnName(o.in.Parent()), Msg: "locks are acquired in conflicting order: " + strings.Join(cyc, ", "), Key: "lockorder|" + strings.Join(cyc, ",")})
				continue
			}
			dfs(m)
		}
		path = path[:len(path)-1]
		on[n] = false
		doneN[n] = true
	}
	for _, n := range sortedKeys(g) {
		dfs(n)
	}
	if os.Getenv("MC_FLOW") != "" {
		for _, e := range edges {
			fmt.Println(e)
		}
		for _, k := range sortedKeys(a.calls) {
			c := a.calls[k]
			if len(c.locks) > 0 && !c.static {
				fmt.Println("CALL", c.name, "under", c.locks[0].name(), "in", fnName(c.in.Parent()), "root", c.root.name)
			}
		}
		for _, k := range sortedKeys(a.waits) {
			w := a.waits[k]
			fmt.Print("WAIT ", w.what, " in ", fnName(w.in.Parent()), " thread ", threadName(w.thread), " root ", w.root.name, " chans")
			for i, c := range w.chans {
				fmt.Print(" ", w.recvs[i])
				for _, r := range c {
					fmt.Print(" ", r, "=", chanValKey(r))
				}
			}
			fmt.Println(" locks", len(w.locks))
		}
		for _, k := range sortedKeys(a.chanSrc) {
			fmt.Println("CHAN", k, sortedSet(a.chanSrc[k]))
		}
	}
	res.obl += a.nlocks
	res.coverage["lock_sites"] = a.nlocks
	res.coverage["lock_order"] = edges
	res.coverage["roots"] = len(a.roots)
	res.rules = append(res.rules, "lock use")
}
