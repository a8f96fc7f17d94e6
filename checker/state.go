package main

import (
	"fmt"
	"os"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State is one abstract state (one element of the disjunctive completion): a heap of abstract values and
// a conjunction of linear constraints.
type State struct {
	heap   map[*Obj]Val
	cons   []Con
	nes    []*Lin
	ors    []*Form
	locks  map[string]int
	focus  []*Lin
	dead   bool
	ghost  map[string]*Lin
	gos    []goCall
	poison map[*Obj]bool
	nid    uint32 // interned identity of the numeric part
}

func newState() *State {
	return &State{heap: map[*Obj]Val{}, locks: map[string]int{}, ghost: map[string]*Lin{}, poison: map[*Obj]bool{}}
}

func (s *State) clone() *State {
	n := &State{
		heap:   make(map[*Obj]Val, len(s.heap)+4),
		cons:   s.cons[:len(s.cons):len(s.cons)],
		nes:    s.nes[:len(s.nes):len(s.nes)],
		ors:    s.ors[:len(s.ors):len(s.ors)],
		locks:  make(map[string]int, len(s.locks)),
		focus:  s.focus[:len(s.focus):len(s.focus)],
		ghost:  make(map[string]*Lin, len(s.ghost)),
		dead:   s.dead,
		gos:    s.gos[:len(s.gos):len(s.gos)],
		poison: make(map[*Obj]bool, len(s.poison)),
		nid:    s.nid,
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.locks {
		n.locks[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	for k, v := range s.poison {
		n.poison[k] = v
	}
	return n
}

// ---------------------------------------------------------------------------
// Numeric part

func (s *State) addCon(c Con) {
	k := c.l.uid()
	for i := range s.cons {
		if s.cons[i].eq == c.eq && s.cons[i].l.uid() == k {
			return
		}
	}
	s.cons = append(s.cons[:len(s.cons):len(s.cons)], c)
	s.nid = chain(s.nid, conID(c))
	if !c.eq {
		n := lneg(c.l).uid()
		for _, o := range s.cons {
			if !o.eq && o.l.uid() == n {
				s.addCon(Con{c.l, true})
				break
			}
		}
		for _, l := range s.nes {
			if u := l.uid(); u == k || lneg(l).uid() == k {
				s.addCon(Con{laddc(c.l, 1), false}) // at most 0 and not 0
			}
		}
	}
}

// lemma adds a fact known to be true.
func (s *State) lemma(f *Form) { s.assumeRaw(f) }

func (s *State) assumeRaw(f *Form) {
	switch f.op {
	case FTrue:
	case FFalse:
		s.dead = true
	case FLe:
		s.addCon(Con{f.l, false})
	case FEq:
		s.addCon(Con{f.l, true})
		if len(f.l.t) == 1 && f.l.t[0].a.isBool01() {
			a := f.l.t[0].a
			s.boolFact(a, f.l.c+f.l.t[0].k == 0)
		}
	case FNe:
		if !f.l.isConst() && !f.l.real() {
			g := int64(0)
			for _, t := range f.l.t {
				g = gcd(g, t.k)
			}
			if g < 0 {
				g = -g
			}
			if g > 1 {
				if f.l.c%g != 0 {
					return
				}
				l := cst(f.l.c / g)
				for _, t := range f.l.t {
					l = ladd(l, lmulc(linAtom(t.a), t.k/g))
				}
				s.assumeRaw(fNot(fEq(l)))
				return
			}
		}
		for _, l := range s.nes {
			if l.Key() == f.l.Key() {
				return
			}
		}
		s.nes = append(s.nes[:len(s.nes):len(s.nes)], f.l)
		s.nid = chain(s.nid, 1<<40|uint64(f.l.uid()))
		red := f.l
		for _, t := range f.l.t {
			if c, ok := s.constAtom(t.a, 1); ok {
				red = ladd(lsub(red, lmulc(linAtom(t.a), t.k)), cst(t.k*c))
			}
		}
		if red.isConst() {
			if red.c == 0 {
				s.dead = true
			}
			return
		}
		if len(red.t) < len(f.l.t) {
			s.assumeRaw(fNot(fEq(red)))
		}
		u, nu := f.l.uid(), lneg(f.l).uid()
		for _, c := range s.cons {
			if k := c.l.uid(); !c.eq && (k == u || k == nu) {
				s.addCon(Con{laddc(c.l, 1), false})
				break
			}
		}
	case FAnd:
		for _, x := range f.sub {
			s.assumeRaw(x)
		}
	case FOr:
		var keep []*Form
		for _, x := range f.sub {
			if !s.refutes(x) {
				keep = append(keep, x)
			}
		}
		switch len(keep) {
		case 0:
			s.dead = true
		case 1:
			s.assumeRaw(keep[0])
		default:
			o := &Form{op: FOr, sub: keep}
			s.ors = append(s.ors[:len(s.ors):len(s.ors)], o)
			s.nid = chain(s.nid, 2<<40|uint64(formID(o)))
		}
	}
}

// boolFact is called when a 0/1 atom becomes known.
func (s *State) boolFact(a *Atom, v bool) {
	switch a.op {
	case "streq":
		if v {
			s.addCon(Con{lsub(linAtom(UF("len", a.args[0])), cst(int64(len(a.base)))), true})
		}
	case "strpfx":
		if v {
			s.addCon(Con{lsub(cst(int64(len(a.base))), linAtom(UF("len", a.args[0]))), false})
		}
	case "nil":
		if v {
			s.addCon(Con{linAtom(UF("len", a.args[0])), true})
			s.addCon(Con{linAtom(UF("xcap", a.args[0])), true})
		}
	}
	if imp := implications[a]; imp != nil {
		f := imp.onFalse
		if v {
			f = imp.onTrue
		}
		if f != nil {
			s.assumeRaw(f)
		}
	}
}

type implication struct{ onTrue, onFalse *Form }

var implications = map[*Atom]*implication{}

func (s *State) assume(f *Form) bool {
	if s.dead {
		return false
	}
	if f.op == FTrue {
		return true
	}
	if s.refutes(f) {
		s.dead = true
		return false
	}
	s.assumeRaw(f)
	return !s.dead
}

func formAtoms(f *Form, out map[*Atom]bool) {
	if f.l != nil {
		for _, t := range f.l.t {
			out[t.a] = true
		}
	}
	for _, x := range f.sub {
		formAtoms(x, out)
	}
}

var qcache = map[string]bool{}
var queries, qhits int

// refutes reports that s ∧ f is unsatisfiable.
func (s *State) refutes(f *Form) bool {
	switch f.op {
	case FTrue:
		return s.dead
	case FFalse:
		return true
	case FOr:
		for _, x := range f.sub {
			if !s.refutes(x) {
				return false
			}
		}
		return true
	case FAnd:
		for _, x := range f.sub {
			if s.refutes(x) {
				return true
			}
		}
		t := s.light()
		for _, x := range f.sub[:len(f.sub)-1] {
			t.assumeRaw(x)
		}
		return t.dead || t.refutes(f.sub[len(f.sub)-1])
	case FNe:
		if f.l.real() {
			return s.sat0([]Con{{f.l, false}}, nil, 0) == false && false
		}
		return s.refutes(fLe(laddc(f.l, 1))) && s.refutes(fLe(lsub(cst(1), f.l)))
	case FEq:
		for _, l := range s.nes {
			if l.Key() == f.l.Key() || l.Key() == lneg(f.l).Key() {
				return true
			}
		}
		return !s.sat0([]Con{{f.l, true}}, nil, 0)
	}
	return !s.sat0([]Con{{f.l, false}}, nil, 0)
}

func (s *State) light() *State {
	return &State{heap: s.heap, cons: s.cons, nes: s.nes, ors: s.ors, dead: s.dead, nid: s.nid}
}

// entails reports that s implies f.
func (s *State) entails(f *Form) bool {
	if s.dead {
		return true
	}
	switch f.op {
	case FTrue:
		return true
	case FFalse:
		return s.inconsistent()
	case FAnd:
		for _, x := range f.sub {
			if !s.entails(x) {
				return false
			}
		}
		return true
	case FEq:
		if f.l.real() {
			return s.entails(fLe(f.l)) && s.entails(fLe(lneg(f.l)))
		}
	case FLe:
		if f.l.real() {
			// not(l<=0) is l>0; over reals refute l>=0 strictly: use l >= tiny by scaling: l*K >= 1
			return s.entailsRealLe(f.l)
		}
	}
	return s.refutes(fNot(f))
}

// entailsRealLe: cons => l <= 0 over the reals; approximated by refuting l*2^20 >= 1.
func (s *State) entailsRealLe(l *Lin) bool {
	return !s.sat0([]Con{{lsub(cst(1), lmulc(l, 1<<20)), false}}, nil, 0)
}

func (s *State) inconsistent() bool {
	if s.dead {
		return true
	}
	return !s.sat0(nil, nil, 0)
}

const noNid = ^uint32(0)

var nidTable = map[[2]uint64]uint32{}
var formIDs = map[string]uint32{}

func chain(n uint32, x uint64) uint32 {
	if n == noNid {
		return n
	}
	k := [2]uint64{uint64(n), x}
	r, ok := nidTable[k]
	if !ok {
		r = uint32(len(nidTable) + 1)
		nidTable[k] = r
	}
	return r
}

func conID(c Con) uint64 {
	k := uint64(c.l.uid()) << 1
	if c.eq {
		k |= 1
	}
	return k
}

func formID(f *Form) uint32 {
	k := f.Key()
	r, ok := formIDs[k]
	if !ok {
		r = uint32(len(formIDs) + 1)
		formIDs[k] = r
	}
	return r
}

func (s *State) renumber() {
	s.nid = 0
	for _, c := range s.cons {
		s.nid = chain(s.nid, conID(c))
	}
	for _, l := range s.nes {
		s.nid = chain(s.nid, 1<<40|uint64(l.uid()))
	}
	for _, o := range s.ors {
		s.nid = chain(s.nid, 2<<40|uint64(formID(o)))
	}
}

var satMemo = map[[2]uint64]bool{}
var memoHits int

func (s *State) sat0(extra []Con, extraAtoms map[*Atom]bool, depth int) bool {
	if depth > 0 || len(extra) > 1 || s.nid == noNid {
		return s.sat1(extra, depth)
	}
	k := [2]uint64{uint64(s.nid), 0}
	if len(extra) == 1 {
		k[1] = conID(extra[0])
	}
	if r, ok := satMemo[k]; ok {
		memoHits++
		return r
	}
	q0 := queries
	r := s.sat1(extra, depth)
	if os.Getenv("MC_SLOW") != "" && queries-q0 > 400 {
		fmt.Println("SLOW", queries-q0, r, len(s.cons), len(s.nes), len(s.ors))
		for _, o := range s.ors {
			fmt.Println("   or", o)
		}
		for _, o := range s.nes {
			fmt.Println("   ne", o)
		}
	}
	satMemo[k] = r
	return r
}

// satCong is sat0 without congruence.
func (s *State) satCong(c Con) bool {
	if s.nid == noNid {
		return s.sat1([]Con{c}, 2)
	}
	k := [2]uint64{1<<40 | uint64(s.nid), conID(c)}
	if r, ok := satMemo[k]; ok {
		memoHits++
		return r
	}
	r := s.sat1([]Con{c}, 2)
	satMemo[k] = r
	return r
}

// sat1 returns false only if the relevant constraints together with extra are unsatisfiable.
func (s *State) sat1(extra []Con, depth int) bool {
	// relevance closure
	rel := map[*Atom]bool{}
	for _, c := range extra {
		for _, t := range c.l.t {
			rel[t.a] = true
		}
	}
	all := len(extra) == 0
	used := make([]bool, len(s.cons))
	usedNe := make([]bool, len(s.nes))
	usedOr := make([]bool, len(s.ors))
	for changed := true; changed; {
		changed = false
		mark := func(l *Lin) {
			for _, t := range l.t {
				if !rel[t.a] {
					rel[t.a] = true
					changed = true
				}
			}
		}
		touch := func(l *Lin) bool {
			for _, t := range l.t {
				if rel[t.a] {
					return true
				}
			}
			return false
		}
		for i, c := range s.cons {
			if !used[i] && (all || touch(c.l)) {
				used[i] = true
				mark(c.l)
			}
		}
		for i, l := range s.nes {
			if !usedNe[i] && (all || touch(l)) {
				usedNe[i] = true
				mark(l)
			}
		}
		for i, f := range s.ors {
			if !usedOr[i] {
				m := map[*Atom]bool{}
				formAtoms(f, m)
				hit := all
				for a := range m {
					if rel[a] {
						hit = true
					}
				}
				if hit {
					usedOr[i] = true
					for a := range m {
						if !rel[a] {
							rel[a] = true
							changed = true
						}
					}
				}
			}
		}
	}
	var cons []Con
	cons = append(cons, extra...)
	for i, c := range s.cons {
		if used[i] {
			cons = append(cons, c)
		}
	}
	var nes []*Lin
	for i, l := range s.nes {
		if usedNe[i] {
			nes = append(nes, l)
		}
	}
	var ors []*Form
	for i, f := range s.ors {
		if usedOr[i] {
			ors = append(ors, f)
		}
	}
	// congruence: applications of the same operator to provably equal arguments
	if depth < 2 {
		groups := map[string][]*Atom{}
		for a := range rel {
			if len(a.largs) > 0 {
				groups[a.op+"/"+a.base] = append(groups[a.op+"/"+a.base], a)
			}
		}
		for _, k := range sortedKeys(groups) {
			g := groups[k]
			if len(g) < 2 || len(g) > 8 {
				continue
			}
			sort.Slice(g, func(i, j int) bool { return g[i].id < g[j].id })
			for i := 0; i < len(g); i++ {
				for j := i + 1; j < len(g); j++ {
					if len(g[i].largs) != len(g[j].largs) {
						continue
					}
					same := true
					for x := range g[i].largs {
						d := lsub(g[i].largs[x], g[j].largs[x])
						if d.isConst() {
							if d.c != 0 {
								same = false
							}
							continue
						}
						if s.satCong(Con{laddc(d, 1), false}) || s.satCong(Con{lsub(cst(1), d), false}) {
							same = false
							break
						}
					}
					if same {
						cons = append(cons, Con{lsub(linAtom(g[i]), linAtom(g[j])), true})
					}
				}
			}
		}
	}
	return satCase(cons, nes, ors, 0)
}

func satKey(cons []Con) string {
	var buf [64]uint32
	ks := buf[:0]
	for i := range cons {
		k := cons[i].l.uid() << 1
		if cons[i].eq {
			k |= 1
		}
		ks = append(ks, k)
	}
	slices.Sort(ks)
	bs := make([]byte, 0, 4*len(ks))
	for _, k := range ks {
		bs = append(bs, byte(k), byte(k>>8), byte(k>>16), byte(k>>24))
	}
	return string(bs)
}

func satCase(cons []Con, nes []*Lin, ors []*Form, depth int) bool {
	queries++
	k := satKey(cons)
	r, ok := qcache[k]
	if ok {
		qhits++
	} else {
		r = unsat(cons)
		qcache[k] = r
	}
	if r {
		return false
	}
	if depth > 4 {
		return true
	}
	for i, f := range ors {
		rest := append(append([]*Form(nil), ors[:i]...), ors[i+1:]...)
		for _, x := range f.sub {
			var st State
			st.nid = noNid
			st.cons = cons
			st.nes = nes
			st.assumeRaw(x)
			if st.dead {
				continue
			}
			if satCase(st.cons, st.nes, append(rest, st.ors...), depth+1) {
				return true
			}
		}
		return false
	}
	for i, l := range nes {
		// does cons force l == 0 ?
		lt := append(append([]Con(nil), cons...), Con{laddc(l, 1), false})
		gt := append(append([]Con(nil), cons...), Con{lsub(cst(1), l), false})
		rest := append(append([]*Lin(nil), nes[:i]...), nes[i+1:]...)
		ltS, gtS := !cachedUnsat(lt), !cachedUnsat(gt)
		switch {
		case !ltS && !gtS:
			return false
		case ltS && !gtS:
			return satCase(lt, rest, nil, depth+1)
		case gtS && !ltS:
			return satCase(gt, rest, nil, depth+1)
		}
	}
	return true
}

func cachedUnsat(cons []Con) bool {
	queries++
	k := satKey(cons)
	if r, ok := qcache[k]; ok {
		qhits++
		return r
	}
	r := unsat(cons)
	qcache[k] = r
	return r
}

// constOf returns the constant value of l in s, if it has one.
func (s *State) constOf(l *Lin) (int64, bool) {
	if l.isConst() {
		return l.c, true
	}
	lo, hi, hl, hh := l.interval()
	if hl && hh && lo == hi {
		return lo, true
	}
	v := l.c
	for _, t := range l.t {
		c, ok := s.constAtom(t.a, 2)
		if !ok {
			return 0, false
		}
		v += t.k * c
	}
	return v, true
}

// constAtom finds the value of an atom that equalities fix.
func (s *State) constAtom(a *Atom, depth int) (int64, bool) {
	for _, c := range s.cons {
		if !c.eq || len(c.l.t) > 2 {
			continue
		}
		var k int64
		rest, ok := c.l.c, true
		for _, t := range c.l.t {
			if t.a == a {
				k = t.k
			}
		}
		if k == 0 {
			continue
		}
		for _, t := range c.l.t {
			if t.a == a {
				continue
			}
			var v int64
			if depth == 0 {
				ok = false
			} else if v, ok = s.constAtom(t.a, depth-1); ok && (v > 1<<40 || v < -1<<40 || t.k > 1<<20 || t.k < -1<<20) {
				ok = false
			}
			if !ok {
				break
			}
			rest += t.k * v
		}
		if ok && rest%k == 0 {
			return -rest / k, true
		}
	}
	return 0, false
}

// ---------------------------------------------------------------------------
// Heap

type engErr struct{ msg string }

func bail(f string, a ...any) { panic(engErr{fmt.Sprintf(f, a...)}) }

func (s *State) content(o *Obj) Val {
	if v, ok := s.heap[o]; ok {
		return v
	}
	if o.lazy != "" {
		var v Val
		if strings.HasPrefix(o.lazy, "arr:") {
			v = lazyArr(o)
		} else {
			v = symVal("*"+o.lazy, o.t)
		}
		s.heap[o] = v
		return v
	}
	v := zeroVal(o.t)
	s.heap[o] = v
	return v
}

type goCall struct {
	fn   Val
	args []Val
	site *ssa.Go
	cc   *ssa.CallCommon
	in   ssa.CallInstruction
}
