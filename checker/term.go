package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------------------
// Atoms and linear expressions (the numeric part of the abstract domain).

// Atom is an interned symbolic quantity. Two atoms with the same key are the same quantity.
type Atom struct {
	id     int
	key    string
	op     string
	args   []string
	hasLo  bool
	hasHi  bool
	lo, hi int64
	real   bool
	base   string // for op "el": element idx of sequence base
	largs  []*Lin // numeric arguments (congruence)
}

var (
	atoms     = map[string]*Atom{}
	atomByID  = []*Atom{nil}
	freshSeq  int
	tightened int
)

func intern(key, op string, args ...string) *Atom {
	if a := atoms[key]; a != nil {
		return a
	}
	a := &Atom{id: len(atoms) + 1, key: key, op: op, args: args}
	atoms[key] = a
	atomByID = append(atomByID, a)
	return a
}

// UF interns an uninterpreted application.
func UF(op string, args ...string) *Atom {
	return intern(op+"("+strings.Join(args, ",")+")", op, args...)
}

// UFL interns an uninterpreted application to numeric arguments.
func UFL(op string, args ...*Lin) *Atom {
	ks := make([]string, len(args))
	for i, a := range args {
		ks[i] = a.Key()
	}
	a := UF(op, ks...)
	if a.largs == nil {
		a.largs = args
	}
	return a
}

func freshAtom(hint string) *Atom {
	freshSeq++
	return intern(hint+"#"+strconv.Itoa(freshSeq), "fresh", hint)
}

func (a *Atom) bound(lo, hi int64) *Atom {
	if !a.hasLo || a.lo < lo {
		a.hasLo, a.lo = true, lo
	}
	if !a.hasHi || a.hi > hi {
		a.hasHi, a.hi = true, hi
	}
	return a
}
func (a *Atom) boundLo(lo int64) *Atom {
	if !a.hasLo || a.lo < lo {
		a.hasLo, a.lo = true, lo
	}
	return a
}
func (a *Atom) isBool01() bool { return a.hasLo && a.hasHi && a.lo == 0 && a.hi == 1 }

func (a *Atom) k() string { return "@" + strconv.Itoa(a.id) }

type LT struct {
	a *Atom
	k int64
}

// Lin is an immutable linear expression c + sum(k*a).
type Lin struct {
	c   int64
	t   []LT
	key string
	id  uint32
}

var linIDs = map[string]uint32{}

// uid is an interned number of the expression.
func (l *Lin) uid() uint32 {
	if l.id == 0 {
		k := l.Key()
		n, ok := linIDs[k]
		if !ok {
			n = uint32(len(linIDs) + 1)
			linIDs[k] = n
		}
		l.id = n
	}
	return l.id
}

func (l *Lin) Key() string {
	if l.key == "" {
		var sb strings.Builder
		sb.WriteString(strconv.FormatInt(l.c, 10))
		for _, x := range l.t {
			sb.WriteByte('+')
			sb.WriteString(strconv.FormatInt(x.k, 10))
			sb.WriteString(x.a.k())
		}
		l.key = sb.String()
	}
	return l.key
}

func (l *Lin) String() string {
	var sb strings.Builder
	for i, x := range l.t {
		if i > 0 {
			sb.WriteString(" + ")
		}
		if x.k != 1 {
			fmt.Fprintf(&sb, "%d*", x.k)
		}
		k := x.a.key
		if len(k) > 80 {
			k = k[:80] + "~"
		}
		sb.WriteString(k)
	}
	if l.c != 0 || len(l.t) == 0 {
		fmt.Fprintf(&sb, " %+d", l.c)
	}
	return sb.String()
}

func cst(c int64) *Lin       { return &Lin{c: c} }
func linAtom(a *Atom) *Lin   { return &Lin{t: []LT{{a, 1}}} }
func (l *Lin) isConst() bool { return len(l.t) == 0 }
func (l *Lin) real() bool {
	for _, x := range l.t {
		if x.a.real {
			return true
		}
	}
	return false
}

func mulOvf(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	c := a * b
	if c/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		return 0, false
	}
	return c, true
}
func addOvf(a, b int64) (int64, bool) {
	c := a + b
	if (c > a) == (b > 0) {
		return c, true
	}
	return 0, false
}

const coefLimit = int64(1) << 61

// addScaled returns x + k*y, or nil on overflow.
func addScaled(x *Lin, k int64, y *Lin) *Lin {
	if k == 0 {
		return x
	}
	kc, ok := mulOvf(k, y.c)
	if !ok {
		return nil
	}
	c, ok := addOvf(x.c, kc)
	if !ok {
		return nil
	}
	out := make([]LT, 0, len(x.t)+len(y.t))
	i, j := 0, 0
	for i < len(x.t) || j < len(y.t) {
		switch {
		case j >= len(y.t) || (i < len(x.t) && x.t[i].a.id < y.t[j].a.id):
			out = append(out, x.t[i])
			i++
		case i >= len(x.t) || y.t[j].a.id < x.t[i].a.id:
			m, ok := mulOvf(k, y.t[j].k)
			if !ok {
				return nil
			}
			out = append(out, LT{y.t[j].a, m})
			j++
		default:
			m, ok := mulOvf(k, y.t[j].k)
			if !ok {
				return nil
			}
			s, ok := addOvf(x.t[i].k, m)
			if !ok {
				return nil
			}
			if s != 0 {
				out = append(out, LT{x.t[i].a, s})
			}
			i++
			j++
		}
	}
	return &Lin{c: c, t: out}
}

func ladd(x, y *Lin) *Lin { return orOpaque(addScaled(x, 1, y), "add", x, y) }
func lsub(x, y *Lin) *Lin { return orOpaque(addScaled(x, -1, y), "sub", x, y) }
func laddc(x *Lin, c int64) *Lin {
	return orOpaque(addScaled(x, 1, cst(c)), "add", x, cst(c))
}
func lmulc(x *Lin, k int64) *Lin {
	return orOpaque(addScaled(cst(0), k, x), "mul", x, cst(k))
}
func lneg(x *Lin) *Lin { return lmulc(x, -1) }

func orOpaque(l *Lin, op string, x, y *Lin) *Lin {
	if l != nil {
		return l
	}
	a := UF("ovf_"+op, x.Key(), y.Key())
	if x.real() || y.real() {
		a.real = true
	}
	return linAtom(a)
}

// interval evaluates atom bounds only.
func (l *Lin) interval() (lo, hi int64, hasLo, hasHi bool) {
	lo, hi, hasLo, hasHi = l.c, l.c, true, true
	for _, x := range l.t {
		var alo, ahi int64
		var hl, hh bool
		if x.k > 0 {
			alo, ahi, hl, hh = x.a.lo, x.a.hi, x.a.hasLo, x.a.hasHi
		} else {
			alo, ahi, hl, hh = x.a.hi, x.a.lo, x.a.hasHi, x.a.hasLo
		}
		if hasLo && hl {
			m, ok := mulOvf(alo, x.k)
			if ok {
				lo, ok = addOvf(lo, m)
			}
			hasLo = ok
		} else {
			hasLo = false
		}
		if hasHi && hh {
			m, ok := mulOvf(ahi, x.k)
			if ok {
				hi, ok = addOvf(hi, m)
			}
			hasHi = ok
		} else {
			hasHi = false
		}
	}
	return
}

// ---------------------------------------------------------------------------
// Formulas

type FOp int

const (
	FTrue FOp = iota
	FFalse
	FLe // l <= 0
	FEq // l == 0
	FNe // l != 0
	FAnd
	FOr
)

type Form struct {
	op  FOp
	l   *Lin
	sub []*Form
}

var (
	tru = &Form{op: FTrue}
	fls = &Form{op: FFalse}
)

func (f *Form) Key() string {
	switch f.op {
	case FTrue:
		return "T"
	case FFalse:
		return "F"
	case FLe:
		return "(" + f.l.Key() + "<=0)"
	case FEq:
		return "(" + f.l.Key() + "==0)"
	case FNe:
		return "(" + f.l.Key() + "!=0)"
	}
	var s []string
	for _, x := range f.sub {
		s = append(s, x.Key())
	}
	if f.op == FAnd {
		return "(&" + strings.Join(s, "&") + ")"
	}
	return "(|" + strings.Join(s, "|") + ")"
}

func fLe(l *Lin) *Form {
	lo, hi, hl, hh := l.interval()
	if hh && hi <= 0 {
		return tru
	}
	if hl && lo > 0 {
		return fls
	}
	return &Form{op: FLe, l: l}
}
func fEq(l *Lin) *Form {
	if l.isConst() {
		if l.c == 0 {
			return tru
		}
		return fls
	}
	lo, hi, hl, hh := l.interval()
	if hl && lo > 0 || hh && hi < 0 {
		return fls
	}
	return &Form{op: FEq, l: l}
}
func fNe(l *Lin) *Form {
	if l.isConst() {
		if l.c != 0 {
			return tru
		}
		return fls
	}
	lo, hi, hl, hh := l.interval()
	if hl && lo > 0 || hh && hi < 0 {
		return tru
	}
	if !l.real() {
		if hl && lo == 0 { // l>=0 and l!=0
			return fLe(lsub(cst(1), l))
		}
		if hh && hi == 0 {
			return fLe(laddc(l, 1))
		}
	}
	return &Form{op: FNe, l: l}
}
func fAnd(a, b *Form) *Form {
	if a.op == FFalse || b.op == FFalse {
		return fls
	}
	if a.op == FTrue {
		return b
	}
	if b.op == FTrue {
		return a
	}
	return &Form{op: FAnd, sub: []*Form{a, b}}
}
func fOr(a, b *Form) *Form {
	if a.op == FTrue || b.op == FTrue {
		return tru
	}
	if a.op == FFalse {
		return b
	}
	if b.op == FFalse {
		return a
	}
	return &Form{op: FOr, sub: []*Form{a, b}}
}
func fNot(f *Form) *Form {
	switch f.op {
	case FTrue:
		return fls
	case FFalse:
		return tru
	case FLe:
		if f.l.real() {
			return fLe(lneg(f.l))
		}
		return fLe(lsub(cst(1), f.l)) // l>=1
	case FEq:
		return fNe(f.l)
	case FNe:
		return fEq(f.l)
	case FAnd:
		r := fls
		for _, s := range f.sub {
			r = fOr(r, fNot(s))
		}
		return r
	default:
		r := tru
		for _, s := range f.sub {
			r = fAnd(r, fNot(s))
		}
		return r
	}
}

// fAtom is the boolean that atom a (0/1) is 1.
func fAtom(a *Atom) *Form {
	a.bound(0, 1)
	return fEq(laddc(linAtom(a), -1))
}

// boolLin gives a 0/1 linear view of a formula if there is a simple one.
func boolLin(f *Form) *Lin {
	switch f.op {
	case FTrue:
		return cst(1)
	case FFalse:
		return cst(0)
	case FEq, FNe, FLe:
		if len(f.l.t) == 1 && f.l.t[0].a.isBool01() {
			a := f.l.t[0].a
			v := func(x int64) bool {
				e := f.l.c + f.l.t[0].k*x
				switch f.op {
				case FEq:
					return e == 0
				case FNe:
					return e != 0
				}
				return e <= 0
			}
			v0, v1 := v(0), v(1)
			switch {
			case v0 && v1:
				return cst(1)
			case !v0 && !v1:
				return cst(0)
			case v1:
				return linAtom(a)
			default:
				return lsub(cst(1), linAtom(a))
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------------------
// Entailment in the polyhedral part: Fourier-Motzkin with integer tightening.

type Con struct {
	l  *Lin
	eq bool // l==0, otherwise l<=0
}

type row struct {
	c []int64 // coefficients
	k int64   // constant: sum + k <= 0 (or == 0)
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

var fmCalls, fmAborts int

const maxRows = 1500

// unsat reports whether the constraints are certainly unsatisfiable.
func unsat(cons []Con) bool {
	fmCalls++
	idx := map[*Atom]int{}
	var vars []*Atom
	for _, c := range cons {
		for _, x := range c.l.t {
			if _, ok := idx[x.a]; !ok {
				idx[x.a] = len(vars)
				vars = append(vars, x.a)
			}
		}
	}
	n := len(vars)
	var eqs, les []row
	for _, c := range cons {
		r := row{c: make([]int64, n), k: c.l.c}
		for _, x := range c.l.t {
			r.c[idx[x.a]] = x.k
		}
		if c.eq {
			eqs = append(eqs, r)
		} else {
			les = append(les, r)
		}
	}
	isReal := make([]bool, n)
	for i, a := range vars {
		isReal[i] = a.real
		if a.hasLo {
			r := row{c: make([]int64, n), k: a.lo}
			r.c[i] = -1
			les = append(les, r)
		}
		if a.hasHi {
			r := row{c: make([]int64, n)}
			r.c[i] = 1
			if a.hi == math.MinInt64 {
				continue
			}
			r.k = -a.hi
			les = append(les, r)
		}
	}
	rowReal := func(r row) bool {
		for i, c := range r.c {
			if c != 0 && isReal[i] {
				return true
			}
		}
		return false
	}
	// normalise; returns false if trivially unsat, sets trivial if no information
	norm := func(r *row, eq bool) (ok, trivial bool) {
		g := int64(0)
		for _, c := range r.c {
			if c != 0 {
				g = gcd(g, c)
			}
		}
		if g == 0 {
			if eq {
				return r.k == 0, true
			}
			return r.k <= 0, true
		}
		if g > 1 {
			if rowReal(*r) {
				g2 := gcd(g, r.k)
				if g2 > 1 {
					for i := range r.c {
						r.c[i] /= g2
					}
					r.k /= g2
				}
				return true, false
			}
			if eq {
				if r.k%g != 0 {
					return false, false
				}
				r.k /= g
			} else {
				// sum <= -k  =>  sum/g <= floor(-k/g)
				r.k = -floorDiv(-r.k, g)
			}
			for i := range r.c {
				r.c[i] /= g
			}
		}
		return true, false
	}
	combine := func(a row, ka int64, b row, kb int64) (row, bool) {
		out := row{c: make([]int64, n)}
		for i := range a.c {
			if a.c[i] == 0 && b.c[i] == 0 {
				continue
			}
			x, ok1 := mulOvf(a.c[i], ka)
			y, ok2 := mulOvf(b.c[i], kb)
			if !ok1 || !ok2 {
				return out, false
			}
			s, ok := addOvf(x, y)
			if !ok || s > coefLimit || s < -coefLimit {
				return out, false
			}
			out.c[i] = s
		}
		x, ok1 := mulOvf(a.k, ka)
		y, ok2 := mulOvf(b.k, kb)
		if !ok1 || !ok2 {
			return out, false
		}
		s, ok := addOvf(x, y)
		if !ok {
			return out, false
		}
		out.k = s
		return out, true
	}
	// intervals of the integers, rounded; a variable that can only have one value is replaced by it
	{
		const inf = int64(1) << 52
		lo, hi := make([]int64, n), make([]int64, n)
		for i := range lo {
			lo[i], hi[i] = -inf, inf
		}
		narrow := func(r row, sgn int64) (changed, ok bool) {
			// sum of sgn*c*x + sgn*k <= 0
			sum, unb, nb := sgn*r.k, -1, 0
			for i, c := range r.c {
				c *= sgn
				if c == 0 {
					continue
				}
				m := lo[i]
				if c < 0 {
					m = hi[i]
				}
				if m <= -inf || m >= inf {
					unb = i
					if nb++; nb > 1 {
						return false, true
					}
					continue
				}
				t, okm := mulOvf(c, m)
				if !okm || t > inf || t < -inf {
					return false, true
				}
				sum += t
				if sum > inf || sum < -inf {
					return false, true
				}
			}
			if nb == 0 && sum > 0 {
				return false, false
			}
			for i, c := range r.c {
				c *= sgn
				if c == 0 || nb == 1 && i != unb {
					continue
				}
				rest := sum
				if nb == 0 {
					if c > 0 {
						rest -= c * lo[i]
					} else {
						rest -= c * hi[i]
					}
				}
				// c*x <= -rest
				if isReal[i] {
					continue
				}
				if c > 0 {
					if b := floorDiv(-rest, c); b < hi[i] {
						hi[i] = b
						changed = true
					}
				} else if b := -floorDiv(-rest, -c); b > lo[i] {
					lo[i] = b
					changed = true
				}
				if lo[i] > hi[i] {
					return false, false
				}
			}
			return changed, true
		}
		for round, again := 0, true; again && round < 6; round++ {
			again = false
			for _, r := range les {
				ch, ok := narrow(r, 1)
				if !ok {
					return true
				}
				again = again || ch
			}
			for _, r := range eqs {
				for _, sgn := range []int64{1, -1} {
					ch, ok := narrow(r, sgn)
					if !ok {
						return true
					}
					again = again || ch
				}
			}
		}
		unit := make([]bool, n)
		for i := range unit {
			unit[i] = true
		}
		for _, rs := range [][]row{eqs, les} {
			for _, r := range rs {
				for i, c := range r.c {
					if c > 1 || c < -1 {
						unit[i] = false
					}
				}
			}
		}
		for i := 0; i < n; i++ {
			if unit[i] || isReal[i] {
				continue
			}
			r := row{c: make([]int64, n)}
			switch {
			case lo[i] == hi[i]:
				r.c[i], r.k = 1, -lo[i]
				eqs = append(eqs, r)
			default:
				if lo[i] > -inf {
					r.c[i], r.k = -1, lo[i]
					les = append(les, r)
				}
				if hi[i] < inf {
					r = row{c: make([]int64, n)}
					r.c[i], r.k = 1, -hi[i]
					les = append(les, r)
				}
			}
		}
	}
	// pairs of opposite inequalities are equalities (this matters for divisibility)
	for i := range les {
		big := false
		for _, c := range les[i].c {
			if c > 1 || c < -1 {
				big = true
				break
			}
		}
		if !big {
			continue
		}
		for j := 0; j < len(les); j++ {
			if i == j || les[i].k+les[j].k != 0 {
				continue
			}
			opp := true
			for x, c := range les[i].c {
				if c+les[j].c[x] != 0 {
					opp = false
					break
				}
			}
			if opp {
				eqs = append(eqs, row{c: append([]int64(nil), les[i].c...), k: les[i].k})
				break
			}
		}
	}
	// Gaussian elimination of equalities
	for len(eqs) > 0 {
		e := eqs[len(eqs)-1]
		eqs = eqs[:len(eqs)-1]
		ok, triv := norm(&e, true)
		if !ok {
			return true
		}
		if triv {
			continue
		}
		p := -1
		for i, c := range e.c {
			if c == 1 || c == -1 {
				p = i
				break
			}
		}
		if p < 0 {
			best := int64(math.MaxInt64)
			for i, c := range e.c {
				if c != 0 {
					ac := c
					if ac < 0 {
						ac = -ac
					}
					if ac < best {
						best = ac
						p = i
					}
				}
			}
		}
		pc := e.c[p]
		sub := func(rows []row, eq bool) ([]row, bool) {
			out := rows[:0]
			for _, r := range rows {
				if r.c[p] == 0 {
					out = append(out, r)
					continue
				}
				// r*|pc| - e*sgn(pc)*r.c[p]
				s, apc := int64(1), pc
				if pc < 0 {
					s, apc = -1, -pc
				}
				nr, ok := combine(r, apc, e, -s*r.c[p])
				if !ok {
					continue // drop: weaker, still sound
				}
				ok, triv := norm(&nr, eq)
				if !ok {
					return nil, false
				}
				if !triv {
					out = append(out, nr)
				}
			}
			return out, true
		}
		var fine bool
		if eqs, fine = sub(eqs, true); !fine {
			return true
		}
		if pc != 1 && pc != -1 {
			// keep integrality information weaker: substitution is exact over rationals
			_ = pc
		}
		if les, fine = sub(les, false); !fine {
			return true
		}
	}
	// dedupe
	tidy := func(rows []row) ([]row, bool) {
		best := map[string]int{}
		out := rows[:0:0]
		buf := make([]byte, 0, n*4)
		for _, r := range rows {
			ok, triv := norm(&r, false)
			if !ok {
				return nil, false
			}
			if triv {
				continue
			}
			buf = buf[:0]
			for i, c := range r.c {
				if c != 0 {
					buf = strconv.AppendInt(buf, int64(i), 36)
					buf = append(buf, ':')
					buf = strconv.AppendInt(buf, c, 36)
					buf = append(buf, ',')
				}
			}
			if j, ok := best[string(buf)]; ok {
				if r.k > out[j].k {
					out[j] = r
				}
				continue
			}
			best[string(buf)] = len(out)
			out = append(out, r)
		}
		return out, true
	}
	var ok bool
	if les, ok = tidy(les); !ok {
		return true
	}
	for {
		// choose variable
		pos, neg := make([]int, n), make([]int, n)
		mp, mn := make([]bool, n), make([]bool, n) // coefficients other than one
		for _, r := range les {
			for i, c := range r.c {
				if c > 0 {
					pos[i]++
					mp[i] = mp[i] || c > 1
				} else if c < 0 {
					neg[i]++
					mn[i] = mn[i] || c < -1
				}
			}
		}
		bi, bc := -1, math.MaxInt
		for i := 0; i < n; i++ {
			if pos[i]+neg[i] == 0 {
				continue
			}
			cost := pos[i]*neg[i] - pos[i] - neg[i]
			if mp[i] && mn[i] {
				cost += 60 // not exact for integers
			}
			if cost < bc {
				bi, bc = i, cost
			}
		}
		if bi < 0 {
			return false
		}
		var P, N, rest []row
		for _, r := range les {
			switch {
			case r.c[bi] > 0:
				P = append(P, r)
			case r.c[bi] < 0:
				N = append(N, r)
			default:
				rest = append(rest, r)
			}
		}
		if len(rest)+len(P)*len(N) > maxRows {
			fmAborts++
			return false
		}
		for _, p := range P {
			for _, q := range N {
				g := gcd(p.c[bi], q.c[bi])
				nr, ok := combine(p, -q.c[bi]/g, q, p.c[bi]/g)
				if !ok {
					continue
				}
				rest = append(rest, nr)
			}
		}
		if les, ok = tidy(rest); !ok {
			return true
		}
		if len(les) == 0 {
			return false
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
