package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func errorIface() *types.Interface {
	return types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
}

// fits reports whether l is provably within the range of the integer type.
func (e *Eng) fits(s *State, l *Lin, ii intInfo) bool {
	lo, hi, hasHi := ii.rng()
	if ii.bits == 64 && ii.signed {
		return true
	}
	if !s.entails(fLe(lsub(cst(lo), l))) {
		return false
	}
	return !hasHi || s.entails(fLe(laddc(l, -hi)))
}

// wrapTo reduces l to the integer type, using the exact value when it is provably in range.
func (e *Eng) wrapTo(s *State, l *Lin, ii intInfo) *Lin {
	if ii.bits == 64 && ii.signed {
		return l
	}
	if e.fits(s, l, ii) {
		return l
	}
	if ii.bits == 64 {
		if l.isConst() {
			a := intern("bigu:"+strconv.FormatUint(uint64(l.c), 10), "big")
			a.boundLo(1)
			return linAtom(a)
		}
		return linAtom(UFL("wrapu64", l).boundLo(0))
	}
	mod := int64(1) << ii.bits
	// canonical argument: constants reduced, nested wraps of at least this width removed
	x := l
	for again := true; again; {
		again = false
		for _, t := range x.t {
			if strings.HasPrefix(t.a.op, "wrap") && t.a.op != "wrapu64" && len(t.a.largs) == 1 {
				w, _ := strconv.Atoi(t.a.op[5:])
				if w >= ii.bits {
					x = ladd(lsub(x, lmulc(linAtom(t.a), t.k)), lmulc(t.a.largs[0], t.k))
					again = true
					break
				}
			}
		}
	}
	c := x.c % mod
	if c < 0 {
		c += mod
	}
	x = laddc(x, c-x.c)
	lo, hi, _ := ii.rng()
	if x.isConst() {
		if x.c > hi {
			return cst(x.c - mod)
		}
		return x
	}
	if e.fits(s, x, ii) {
		return x
	}
	sg := "u"
	if ii.signed {
		sg = "s"
	}
	w := UFL("wrap"+sg+strconv.Itoa(ii.bits), x).bound(lo, hi)
	k := UFL("wrapk"+sg+strconv.Itoa(ii.bits), x)
	s.lemma(eqL(linAtom(w), lsub(x, lmulc(linAtom(k), mod))))
	return linAtom(w)
}

func (e *Eng) wrapT(p *Path, l *Lin, t types.Type, in ssa.Instruction) *Lin {
	ii, ok := intOf(t)
	if !ok {
		return l
	}
	if e.narrow && ii.signed && ii.bits == 16 && in != nil && !e.isHarn(in.Parent()) {
		if e.fits(p.st, l, ii) {
			if e.quiet == 0 {
				e.obl["range"]++
			}
		} else {
			if e.dbg && e.quiet == 0 {
				println("NARROW", l.String())
				e.dumpState(p.st, tru)
			}
			e.report("range", "16-bit sample value may wrap around", in)
		}
	}
	return e.wrapTo(p.st, l, ii)
}

// monomials: Lin x Lin
func (e *Eng) mul(s *State, a, b *Lin) *Lin {
	if c, ok := s.constOf(a); ok {
		return lmulc(b, c)
	}
	if c, ok := s.constOf(b); ok {
		return lmulc(a, c)
	}
	for i := 0; i < 2; i++ { // (x/y)*b = (x*b)/y
		if a.real() && a.c == 0 && len(a.t) == 1 && a.t[0].k == 1 && a.t[0].a.op == "fquo" && len(a.t[0].a.largs) == 2 && !b.isConst() {
			m := e.mul(s, a.t[0].a.largs[0], b)
			e.realMulFacts(s, m, a.t[0].a.largs[0], b)
			return e.fquo(&Path{st: s}, m, a.t[0].a.largs[1])
		}
		a, b = b, a
	}
	if len(a.t)*len(b.t) > 12 {
		if a.Key() > b.Key() {
			a, b = b, a
		}
		at := UFL("mul", a, b)
		at.real = a.real() || b.real()
		return linAtom(at)
	}
	out := lmulc(b, a.c)
	for _, x := range a.t {
		for _, y := range b.t {
			k, ok := mulOvf(x.k, y.k)
			if !ok {
				bail("coefficient overflow")
			}
			out = ladd(out, lmulc(linAtom(e.mulAtom(s, x.a, y.a)), k))
		}
		out = ladd(out, lmulc(linAtom(x.a), mulConst(x.k, b.c)))
	}
	return out
}

func mulConst(a, b int64) int64 {
	c, ok := mulOvf(a, b)
	if !ok {
		bail("coefficient overflow")
	}
	return c
}

func (e *Eng) mulAtom(s *State, x, y *Atom) *Atom {
	if x.id > y.id {
		x, y = y, x
	}
	a := UFL("mul", linAtom(x), linAtom(y))
	a.real = x.real || y.real
	lx, ly := linAtom(x), linAtom(y)
	// sign and magnitude facts
	nn := func(l *Lin) bool { return s.entails(fLe(lneg(l))) }
	if nn(lx) && nn(ly) {
		s.lemma(fLe(lneg(linAtom(a))))
		if !a.real {
			if s.entails(fLe(lsub(cst(1), lx))) {
				s.lemma(fLe(lsub(ly, linAtom(a))))
			}
			if s.entails(fLe(lsub(cst(1), ly))) {
				s.lemma(fLe(lsub(lx, linAtom(a))))
			}
		}
	}
	// |x| <= A, |y| <= B constant bounds
	if A, ok := e.absBound(s, lx); ok {
		if B, ok := e.absBound(s, ly); ok {
			if c, ok := mulOvf(A, B); ok {
				s.lemma(fLe(laddc(linAtom(a), -c)))
				s.lemma(fLe(laddc(lneg(linAtom(a)), -c)))
			}
		}
	}
	return a
}

// absBound finds a constant bound of |l| (atom intervals and simple constraints).
func (e *Eng) absBound(s *State, l *Lin) (int64, bool) {
	lo, hi, hl, hh := l.interval()
	if hl && hh {
		B := max(abs64(lo), abs64(hi))
		if B == 32768 && s.entails(fLe(laddc(l, -32767))) && s.entails(fLe(laddc(lneg(l), -32767))) {
			B = 32767
		}
		return B, true
	}
	for _, b := range []int64{1, 2, 4, 16, 64, 255, 32767, 32768, 65535} {
		if s.entails(fLe(laddc(l, -b))) && s.entails(fLe(laddc(lneg(l), -b))) {
			return b, true
		}
	}
	return 0, false
}

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// quo is truncated division by a positive divisor (checked by the caller).
func (e *Eng) quo(s *State, x, y *Lin) *Lin {
	if c, ok := s.constOf(y); ok {
		if c == 1 {
			return x
		}
		if xc, ok := s.constOf(x); ok {
			if c == 0 {
				return cst(0)
			}
			return cst(xc / c)
		}
		if c > 1 {
			// divide exactly divisible parts
			all := x.c%c == 0
			for _, t := range x.t {
				if t.k%c != 0 {
					all = false
				}
			}
			if all {
				out := cst(x.c / c)
				for _, t := range x.t {
					out = ladd(out, lmulc(linAtom(t.a), t.k/c))
				}
				return out
			}
			nonneg := s.entails(fLe(lneg(x)))
			if nonneg {
				if s.entails(lt(x, cst(c))) {
					return cst(0)
				}
				// c*A + B with B >= 0 gives A + B/c
				a, b := cst(0), cst(x.c%c)
				a = laddc(a, x.c/c)
				if b.c < 0 {
					a, b = laddc(a, -1), laddc(b, c)
				}
				for _, t := range x.t {
					if t.k%c == 0 {
						a = ladd(a, lmulc(linAtom(t.a), t.k/c))
					} else {
						b = ladd(b, lmulc(linAtom(t.a), t.k))
					}
				}
				if (len(a.t) > 0 || a.c != 0) && s.entails(fLe(lneg(b))) {
					return ladd(a, e.quo(s, b, cst(c)))
				}
				q := UFL("quo"+strconv.FormatInt(c, 10), x)
				ql := linAtom(q)
				s.lemma(fLe(lneg(ql)))
				s.lemma(fLe(lsub(lmulc(ql, c), x)))
				s.lemma(fLe(laddc(lsub(x, lmulc(ql, c)), -(c - 1))))
				return ql
			}
			q := UFL("tquo"+strconv.FormatInt(c, 10), x)
			ql := linAtom(q)
			if lo, hi, hl, hh := x.interval(); hl && hh {
				q.bound(lo/c, hi/c)
			}
			s.lemma(fLe(laddc(lsub(lmulc(ql, c), x), -(c - 1))))
			s.lemma(fLe(laddc(lsub(x, lmulc(ql, c)), -(c - 1))))
			if s.entails(fLe(x)) {
				s.lemma(fLe(ql))
				s.lemma(fLe(lsub(x, lmulc(ql, c))))
			}
			return ql
		}
		if c < 0 {
			return lneg(e.quo(s, x, cst(-c)))
		}
	}
	// symbolic divisor
	nn := s.entails(fLe(lneg(x))) && s.entails(fLe(lsub(cst(1), y)))
	if nn {
		if e.decide(s, lt(x, y)) {
			return cst(0)
		}
		if x.Key() == y.Key() {
			return cst(1)
		}
		q := UFL("quov", x, y)
		s.lemma(fLe(lsub(cst(1), linAtom(q))))
		s.lemma(fLe(lsub(linAtom(q), x)))
		// q*y <= x
		m := e.mul(s, linAtom(q), y)
		s.lemma(fLe(lsub(m, x)))
		s.lemma(lt(lsub(x, m), y))
		return linAtom(q)
	}
	return linAtom(UFL("quov", x, y))
}

func (e *Eng) rem(s *State, x, y *Lin) *Lin {
	if c, ok := s.constOf(y); ok && c > 0 {
		if xc, ok := s.constOf(x); ok {
			return cst(xc % c)
		}
		if c > 1 && s.entails(fLe(lneg(x))) && s.entails(lt(x, cst(2*c))) {
			if e.decide(s, lt(x, y)) {
				return x
			}
			return laddc(x, -c)
		}
		return lsub(x, lmulc(e.quo(s, x, cst(c)), c))
	}
	if s.entails(fLe(lneg(x))) && s.entails(fLe(lsub(cst(1), y))) {
		if e.decide(s, lt(x, y)) {
			return x
		}
		if e.decide(s, lt(x, ladd(y, y))) {
			return lsub(x, y)
		}
		r := UFL("remv", x, y).boundLo(0)
		s.lemma(lt(linAtom(r), y))
		return linAtom(r)
	}
	return linAtom(UFL("remv", x, y))
}

func pow2(c int64) (int, bool) {
	if c <= 0 || c&(c-1) != 0 {
		return 0, false
	}
	n := 0
	for c > 1 {
		c >>= 1
		n++
	}
	return n, true
}

func (e *Eng) binop(p *Path, in *ssa.BinOp) Val {
	s := p.st
	a, b := e.val(p, in.X), e.val(p, in.Y)
	switch in.Op {
	case token.EQL:
		return boolv(e.eqVal(s, a, b, in.X.Type()))
	case token.NEQ:
		return boolv(fNot(e.eqVal(s, a, b, in.X.Type())))
	}
	if sa, ok := a.(VStr); ok {
		sb := b.(VStr)
		switch in.Op {
		case token.ADD:
			return concat(sa, sb)
		}
		return e.fresh("strcmp", in.Type())
	}
	if _, ok := a.(VSym); ok {
		return e.fresh("binop", in.Type())
	}
	x, y := a.(VNum).l, b.(VNum).l
	switch in.Op {
	case token.LSS:
		if x.real() || y.real() {
			return boolv(realLt(x, y))
		}
		return boolv(lt(x, y))
	case token.LEQ:
		return boolv(le(x, y))
	case token.GTR:
		if x.real() || y.real() {
			return boolv(realLt(y, x))
		}
		return boolv(lt(y, x))
	case token.GEQ:
		return boolv(le(y, x))
	}
	t := in.Type()
	ii, isInt := intOf(t)
	switch in.Op {
	case token.ADD:
		return num(e.wrapT(p, ladd(x, y), t, in))
	case token.SUB:
		return num(e.wrapT(p, lsub(x, y), t, in))
	case token.MUL:
		m := e.mul(s, x, y)
		if m.real() && !m.isConst() {
			e.realMulFacts(s, m, x, y)
		}
		return num(e.wrapT(p, m, t, in))
	case token.QUO:
		if !isInt {
			return num(e.fquo(p, x, y))
		}
		if !e.oblige(p, fNe(y), "div", "division by zero", in) {
			return numc(0)
		}
		return num(e.wrapT(p, e.quo(s, x, y), t, in))
	case token.REM:
		if !e.oblige(p, fNe(y), "div", "division by zero", in) {
			return numc(0)
		}
		return num(e.rem(s, x, y))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return num(e.bitop(s, in.Op, x, y, ii))
	case token.SHL:
		c, ok := s.constOf(y)
		if ok && c >= 0 {
			if c >= int64(ii.bits) {
				return numc(0)
			}
			if c < 62 {
				if xc, okx := s.constOf(x); okx && !(ii.bits == 64) {
					return num(e.wrapTo(s, lmulc(cst(xc), 1<<c), ii))
				}
				if ii.bits == 64 {
					// 64-bit values are assumed not to overflow, except by shifts
					if hi, ok := e.upper(s, x); ok && hi < int64(1)<<(62-c) {
						return num(lmulc(x, 1<<c))
					}
					a := UFL("shl64", x, y)
					if !ii.signed {
						a.boundLo(0)
					}
					return num(linAtom(a))
				}
				return num(e.wrapT(p, lmulc(x, 1<<c), t, in))
			}
		}
		e.oblige(p, fLe(lneg(y)), "shift", "negative shift count", in)
		return num(linAtom(boundAtom(UFL("shl"+strconv.Itoa(ii.bits), x, y), t)))
	case token.SHR:
		if c, ok := s.constOf(y); ok && c >= 0 && c < 62 {
			if s.entails(fLe(lneg(x))) {
				return num(e.quo(s, x, cst(1<<c)))
			}
			// floor division
			if xc, ok := s.constOf(x); ok {
				return numc(xc >> uint(c))
			}
			q := UFL("fdiv"+strconv.FormatInt(c, 10), x)
			s.lemma(fLe(lsub(lmulc(linAtom(q), 1<<c), x)))
			s.lemma(fLe(laddc(lsub(x, lmulc(linAtom(q), 1<<c)), -(1<<c - 1))))
			return num(linAtom(q))
		}
		e.oblige(p, fLe(lneg(y)), "shift", "negative shift count", in)
		at := boundAtom(UFL("shr"+strconv.Itoa(ii.bits), x, y), t)
		if s.entails(fLe(lneg(x))) {
			at.boundLo(0)
			s.lemma(le(linAtom(at), x))
		}
		return num(linAtom(at))
	}
	bail("binop %s", in.Op)
	return nil
}

// realLt: strict comparison over reals is represented by the non-strict one with a distinguishing atom on negation.
func realLt(x, y *Lin) *Form {
	return &Form{op: FAnd, sub: []*Form{fLe(lsub(x, y)), {op: FNe, l: lsub(x, y)}}}
}

func (e *Eng) upper(s *State, l *Lin) (int64, bool) {
	_, hi, _, hh := l.interval()
	if hh {
		return hi, true
	}
	for _, b := range []int64{8, 64, 256, 65536, 1 << 32} {
		if s.entails(fLe(laddc(l, -b))) {
			return b, true
		}
	}
	return 0, false
}

func (e *Eng) bitop(s *State, op token.Token, x, y *Lin, ii intInfo) *Lin {
	xc, okx := s.constOf(x)
	yc, oky := s.constOf(y)
	if okx && oky {
		var r int64
		switch op {
		case token.AND:
			r = xc & yc
		case token.OR:
			r = xc | yc
		case token.XOR:
			r = xc ^ yc
		case token.AND_NOT:
			r = xc &^ yc
		}
		return cst(r)
	}
	if okx && op != token.AND_NOT {
		x, y, xc, yc, okx, oky = y, x, yc, xc, oky, okx
	}
	nnx := s.entails(fLe(lneg(x)))
	if oky {
		if op == token.AND_NOT && yc >= 0 {
			// x &^ c == x - (x & c)
			if nnx {
				return lsub(x, e.bitop(s, token.AND, x, y, ii))
			}
		}
		if yc == 0 {
			switch op {
			case token.AND:
				return cst(0)
			case token.OR, token.XOR:
				return x
			}
		}
		if op == token.AND && yc > 0 {
			if k, ok := pow2(yc + 1); ok {
				if nnx {
					return e.rem(s, x, cst(1<<k))
				}
				return linAtom(UFL("and"+strconv.FormatInt(yc, 10), x).bound(0, yc))
			}
			if _, ok := pow2(yc); ok && nnx {
				// single bit: yc * ((x / yc) % 2)
				q := e.quo(s, x, cst(yc))
				return lmulc(e.rem(s, q, cst(2)), yc)
			}
			// contiguous high mask of a byte-like value: x - x % lowbit when mask covers the rest
			low := yc & -yc
			if k, ok := pow2(yc + low); ok && nnx {
				r := e.rem(s, x, cst(1<<k))
				return lsub(r, e.rem(s, r, cst(low)))
			}
			at := UFL("and"+strconv.FormatInt(yc, 10), x).bound(0, yc)
			if nnx {
				s.lemma(le(linAtom(at), x))
			}
			return linAtom(at)
		}
		if op == token.OR && yc > 0 && nnx {
			low := yc & -yc
			if s.entails(lt(x, cst(low))) {
				return laddc(x, yc)
			}
			if _, ok := pow2(yc); ok {
				// set one bit
				b := e.bitop(s, token.AND, x, y, ii)
				return laddc(lsub(x, b), yc)
			}
		}
	}
	nny := s.entails(fLe(lneg(y)))
	if (op == token.OR || op == token.XOR) && nnx && nny {
		// no bit is set in both: x is a multiple of a power of two above y, or the other way round
		disjoint := func(x, y *Lin) bool {
			low := lowBit(x)
			return low > 1 && s.entails(lt(y, cst(low)))
		}
		if disjoint(x, y) || disjoint(y, x) {
			return ladd(x, y)
		}
	}
	k1, k2 := x, y
	if op != token.AND_NOT && k1.Key() > k2.Key() {
		k1, k2 = k2, k1
	}
	at := UFL("bit"+op.String(), k1, k2)
	if nnx && nny {
		at.boundLo(0)
		switch op {
		case token.AND:
			s.lemma(le(linAtom(at), x))
			s.lemma(le(linAtom(at), y))
		case token.OR:
			s.lemma(le(x, linAtom(at)))
			s.lemma(le(y, linAtom(at)))
			s.lemma(le(linAtom(at), ladd(x, y)))
		case token.XOR:
			s.lemma(le(linAtom(at), ladd(x, y)))
		case token.AND_NOT:
			s.lemma(le(linAtom(at), x))
		}
	}
	if ii.bits < 64 {
		lo, hi, _ := ii.rng()
		at.bound(lo, hi)
	}
	return linAtom(at)
}

// lowBit is a power of two that divides an integer expression.
func lowBit(x *Lin) int64 {
	g := x.c
	for _, t := range x.t {
		if t.a.real {
			return 1
		}
		g |= t.k
	}
	if g == 0 {
		return 1
	}
	return g & -g
}

// realMulFacts bounds a product of reals: |x|<=c constant and |y| <= L linear gives |x*y| <= c*L.
func (e *Eng) realMulFacts(s *State, m, x, y *Lin) {
	try := func(a, b *Lin) {
		A, ok := e.absBound(s, a)
		if !ok {
			return
		}
		// candidates for a linear bound of |b|: integer atoms occurring with b in constraints
		seen := map[*Atom]bool{}
		near := map[*Atom]bool{}
		for _, u := range b.t {
			near[u.a] = true
		}
		touches := func(c Con) bool {
			for _, t := range c.l.t {
				if near[t.a] {
					return true
				}
			}
			return false
		}
		var next []*Atom // atoms compared with those of b
		for _, c := range s.cons {
			if touches(c) {
				for _, t := range c.l.t {
					next = append(next, t.a)
				}
			}
		}
		for _, a := range next {
			near[a] = true
		}
		for _, c := range s.cons {
			if !touches(c) {
				continue
			}
			for _, t := range c.l.t {
				if !t.a.real && !seen[t.a] {
					seen[t.a] = true
					L := linAtom(t.a)
					if s.entails(fLe(lsub(b, L))) && s.entails(fLe(lsub(lneg(b), L))) {
						s.lemma(fLe(lsub(m, lmulc(L, A))))
						s.lemma(fLe(lsub(lneg(m), lmulc(L, A))))
					}
				}
			}
		}
	}
	try(x, y)
	try(y, x)
}

// fquo is real division; bounded when |x| <= c*y.
func (e *Eng) fquo(p *Path, x, y *Lin) *Lin {
	s := p.st
	if c, ok := s.constOf(y); ok && c != 0 {
		all := x.c%c == 0
		for _, t := range x.t {
			if t.k%c != 0 {
				all = false
			}
		}
		if all {
			out := cst(x.c / c)
			for _, t := range x.t {
				out = ladd(out, lmulc(linAtom(t.a), t.k/c))
			}
			return out
		}
		q := UFL("fquo", x, y)
		q.real = true
		s.lemma(eqL(lmulc(linAtom(q), c), x))
		return linAtom(q)
	}
	q := UFL("fquo", x, y)
	q.real = true
	if s.entails(fLe(lsub(cst(1), y))) {
		var cands []int64
		seen := map[int64]bool{}
		for _, c := range s.cons {
			for _, t := range c.l.t {
				k := abs64(t.k)
				if !seen[k] && k < 1<<20 {
					seen[k] = true
					cands = append(cands, k)
				}
			}
		}
		for _, k := range cands {
			if s.entails(fLe(lsub(x, lmulc(y, k)))) && s.entails(fLe(lsub(lneg(x), lmulc(y, k)))) {
				s.lemma(fLe(laddc(linAtom(q), -k)))
				s.lemma(fLe(laddc(lneg(linAtom(q)), -k)))
			}
		}
	}
	return linAtom(q)
}

// ---------------------------------------------------------------------------

func concat(a, b VStr) Val {
	if a.c != nil && b.c != nil {
		return strc(*a.c + *b.c)
	}
	if a.c != nil && *a.c == "" {
		return b
	}
	if b.c != nil && *b.c == "" {
		return a
	}
	return catStr([]VStr{a, b})
}

func (e *Eng) strEq(s *State, a, b VStr) *Form {
	if a.c != nil && b.c != nil {
		if *a.c == *b.c {
			return tru
		}
		return fls
	}
	if b.c == nil && a.c != nil {
		a, b = b, a
	}
	if b.c != nil {
		if *b.c == "" {
			return fEq(a.n)
		}
		if s.refutes(eqL(a.n, cst(int64(len(*b.c))))) {
			return fls
		}
		at := UF("streq", a.key, strconv.Quote(*b.c))
		at.base = *b.c
		at.bound(0, 1)
		switch strKnown(s, a.key, strconv.Quote(*b.c)) {
		case 1:
			return tru
		case 0:
			return fls
		}
		if implications[at] == nil {
			if a.n.Key() != linAtom(UF("len", a.key)).Key() {
				implications[at] = &implication{onTrue: eqL(a.n, cst(int64(len(*b.c))))}
			}
		}
		return fAtom(at)
	}
	if a.key == b.key {
		return tru
	}
	switch strKnown(s, a.key, b.key) {
	case 1:
		return tru
	case 0:
		return fls
	}
	k1, k2 := a.key, b.key
	if k1 > k2 {
		k1, k2 = k2, k1
	}
	at := UF("streq2", k1, k2)
	at.bound(0, 1)
	if implications[at] == nil {
		implications[at] = &implication{onTrue: eqL(a.n, b.n)}
	}
	return fAtom(at)
}

// strKnown closes the known equalities of strings under transitivity: 1 equal, 0 different, -1 unknown.
func strKnown(s *State, a, b string) int {
	var par map[string]string
	find := func(x string) string {
		for {
			y, ok := par[x]
			if !ok || y == x {
				return x
			}
			x = y
		}
	}
	var diff [][2]string
	for _, c := range s.cons {
		if len(c.l.t) != 1 {
			continue
		}
		t := c.l.t[0]
		if t.a.op != "streq" && t.a.op != "streq2" {
			continue
		}
		switch {
		case c.eq && c.l.c+t.k == 0 || !c.eq && t.k < 0 && c.l.c == -t.k:
			if par == nil {
				par = map[string]string{}
			}
			x, y := find(t.a.args[0]), find(t.a.args[1])
			if y[0] == '"' {
				x, y = y, x
			}
			par[y] = x
		case c.l.c == 0 && (c.eq || t.k > 0):
			diff = append(diff, [2]string{t.a.args[0], t.a.args[1]})
		}
	}
	x, y := find(a), find(b)
	if x == y {
		return 1
	}
	if x[0] == '"' && y[0] == '"' {
		return 0
	}
	for _, d := range diff {
		u, v := find(d[0]), find(d[1])
		if u == x && v == y || u == y && v == x {
			return 0
		}
	}
	return -1
}

func (e *Eng) strIndex(s *State, x VStr, i *Lin) Val {
	if x.c != nil {
		if c, ok := s.constOf(i); ok && c >= 0 && c < int64(len(*x.c)) {
			return numc(int64((*x.c)[c]))
		}
	}
	k := vkey(x)
	if base, off, ok := subOf(x); ok {
		at := UFL("sidx:"+base, ladd(off, i))
		at.bound(0, 255)
		return num(linAtom(at))
	}
	at := UFL("sidx:"+k, i)
	at.bound(0, 255)
	return num(linAtom(at))
}

// substrings remember their base and offset
type subInfo struct {
	base string
	off  *Lin
}

var subInfos = map[string]subInfo{}

func subOf(x VStr) (string, *Lin, bool) {
	if x.c != nil {
		return "", nil, false
	}
	si, ok := subInfos[x.key]
	return si.base, si.off, ok
}

func substr(s *State, x VStr, lo, hi *Lin) VStr {
	if x.c != nil {
		l, ok1 := s.constOf(lo)
		h, ok2 := s.constOf(hi)
		if ok1 && ok2 && l >= 0 && h >= l && h <= int64(len(*x.c)) {
			return strc((*x.c)[l:h]).(VStr)
		}
	}
	if lo.isConst() && lo.c == 0 && hi.Key() == x.n.Key() {
		return x
	}
	base, off := vkey(x), lo
	if b, o, ok := subOf(x); ok {
		base, off = b, ladd(o, lo)
	}
	n := lsub(hi, lo)
	k := "sub(" + base + "," + off.Key() + "," + n.Key() + ")"
	subInfos[k] = subInfo{base, off}
	return VStr{key: k, n: n}
}

func (e *Eng) eqVal(s *State, a, b Val, t types.Type) *Form {
	switch x := a.(type) {
	case VNum:
		return eqL(x.l, b.(VNum).l)
	case VBool:
		y := b.(VBool)
		switch {
		case x.f.op == FTrue:
			return y.f
		case x.f.op == FFalse:
			return fNot(y.f)
		case y.f.op == FTrue:
			return x.f
		case y.f.op == FFalse:
			return fNot(x.f)
		}
		return fOr(fAnd(x.f, y.f), fAnd(fNot(x.f), fNot(y.f)))
	case VStr:
		return e.strEq(s, x, b.(VStr))
	case *VStruct:
		y, ok := b.(*VStruct)
		if !ok {
			break
		}
		r := tru
		for i := range x.f {
			r = fAnd(r, e.eqVal(s, x.get(i), y.get(i), x.t.Field(i).Type()))
		}
		return r
	case VSlice:
		if _, ok := b.(VNil); ok {
			return x.isNil
		}
		if y, ok := b.(VSlice); ok {
			if y.arr == nil {
				return x.isNil
			}
			if x.arr == nil {
				return y.isNil
			}
		}
	}
	if _, ok := b.(VNil); ok {
		return e.nilForm(a)
	}
	if _, ok := a.(VNil); ok {
		return e.nilForm(b)
	}
	ka, kb := vkey(a), vkey(b)
	if ka == kb {
		if _, isfn := a.(VFn); !isfn {
			return tru
		}
	}
	switch x := a.(type) {
	case VPtr:
		switch y := b.(type) {
		case VPtr:
			if x.obj != y.obj {
				return fls
			}
			if len(x.path) == len(y.path) {
				r := tru
				for i := range x.path {
					if (x.path[i].idx == nil) != (y.path[i].idx == nil) {
						return fls
					}
					if x.path[i].idx != nil {
						r = fAnd(r, eqL(x.path[i].idx, y.path[i].idx))
					} else if x.path[i].field != y.path[i].field {
						return fls
					}
				}
				return r
			}
			return fls
		case VSym:
			if x.obj.lazy == "" {
				return fls // allocated here, cannot be an input
			}
		}
	case VRef:
		if y, ok := b.(VRef); ok {
			return map[bool]*Form{true: tru, false: fls}[x.obj == y.obj]
		}
		return fls
	case VIface:
		if y, ok := b.(VIface); ok {
			if !types.Identical(x.t, y.t) {
				return fls
			}
			return e.eqVal(s, x.v, y.v, x.t)
		}
		if pv, ok := x.v.(VPtr); ok && pv.obj.lazy == "" {
			return fls
		}
	}
	if _, ok := b.(VPtr); ok {
		if _, ok := a.(VSym); ok {
			return e.eqVal(s, b, a, t)
		}
	}
	for _, pair := range [][2]Val{{a, b}, {b, a}} {
		if _, ok := pair[0].(VIface); ok {
			if y, ok := pair[1].(VSym); ok && strings.HasPrefix(y.key, "err:") {
				return fls // a harness error has a type of its own
			}
		}
	}
	if ka > kb {
		ka, kb = kb, ka
	}
	at := UF("refeq", ka, kb)
	at.bound(0, 1)
	if implications[at] == nil {
		na, nb := e.nilForm(a), e.nilForm(b)
		// equal references have the same nilness
		implications[at] = &implication{onTrue: fOr(fAnd(na, nb), fAnd(fNot(na), fNot(nb))), onFalse: fOr(fNot(na), fNot(nb))}
	}
	return fAtom(at)
}

// ---------------------------------------------------------------------------

func (e *Eng) convert(p *Path, v Val, from, to types.Type, in ssa.Instruction) Val {
	s := p.st
	ti, toInt := intOf(to)
	_, fromInt := intOf(from)
	switch {
	case fromInt && toInt:
		return num(e.wrapT(p, v.(VNum).l, to, in))
	case fromInt && isFloat(to):
		return v
	case isFloat(from) && isFloat(to):
		return v
	case isFloat(from) && toInt:
		x := v.(VNum).l
		if !x.real() {
			return num(e.wrapT(p, x, to, in))
		}
		lo, hi, hasHi := ti.rng()
		ok := s.entails(fLe(lsub(cst(lo), x))) && hasHi && s.entails(fLe(laddc(x, -hi)))
		if ti.bits == 64 {
			ok = true
		}
		if e.narrow && ti.bits == 16 && !e.isHarn(in.Parent()) {
			if ok {
				if e.quiet == 0 {
					e.obl["range"]++
				}
			} else {
				if e.dbg && e.quiet == 0 {
					println("FNARROW", x.String())
					e.dumpState(p.st, tru)
				}
				e.report("range", "float sample value may not fit into 16 bits", in)
			}
		}
		at := UFL("trunc"+strconv.Itoa(ti.bits), x)
		if ti.bits < 64 {
			at.bound(lo, hi)
		}
		if ok {
			s.lemma(fLe(laddc(lsub(linAtom(at), x), -1)))
			s.lemma(fLe(laddc(lsub(x, linAtom(at)), -1)))
		}
		return num(linAtom(at))
	case isString(to):
		switch x := v.(type) {
		case VStr:
			return x
		case VSlice:
			if x.arr == nil {
				return strc("")
			}
			a := e.arrOf(s, x.arr)
			// bytes of a string
			if len(a.layers) == 0 && strings.HasPrefix(a.base, "sb:") && x.off.isConst() && x.off.c == 0 {
				if bs, ok := byteStrings[a.base]; ok && bs.n.Key() == x.len.Key() {
					return bs
				}
			}
			k := "str(" + hashStr(vkey(a)) + "," + vkey(x) + ")"
			return VStr{key: k, n: x.len}
		case VNum:
			r := e.fresh("runestr", to).(VStr)
			s.lemma(le(r.n, cst(4)))
			s.lemma(le(cst(1), r.n))
			return r
		}
	case isString(from):
		if sl, ok := under(to).(*types.Slice); ok {
			x := v.(VStr)
			o := newObj("bytes", types.NewArray(sl.Elem(), -1))
			n := x.n
			if !isByteElem(sl.Elem()) {
				n = e.fresh("runes", types.Typ[types.Int]).(VNum).l
				s.lemma(le(cst(0), n))
				s.lemma(le(n, x.n))
			}
			base := "sb:" + vkey(x)
			byteStrings[base] = x
			s.heap[o] = &Arr{n: n, elem: sl.Elem(), base: base}
			return VSlice{arr: o, off: cst(0), len: n, cap: n, isNil: fls, elem: sl.Elem()}
		}
	}
	// pointers, unsafe pointers, C pointers: same referent
	switch x := v.(type) {
	case VPtr, VNil, VRef, VFn, VIface:
		return v
	case VSym:
		return VSym{x.key, to}
	case VNum:
		if _, ok := under(to).(*types.Basic); ok {
			return e.fresh("conv", to)
		}
		return e.fresh("conv", to)
	case VSlice, *VStruct, *Arr:
		return v
	}
	bail("conversion %s -> %s", from, to)
	return nil
}

var byteStrings = map[string]VStr{}

func isByteElem(t types.Type) bool {
	ii, ok := intOf(t)
	return ok && ii.bits == 8
}

func (e *Eng) slice(p *Path, in *ssa.Slice, set func(Val) bool) bool {
	x := e.val(p, in.X)
	opt := func(v ssa.Value, def *Lin) *Lin {
		if v == nil {
			return def
		}
		return e.lin(p, v)
	}
	switch v := x.(type) {
	case VStr:
		lo, hi := opt(in.Low, cst(0)), opt(in.High, v.n)
		if !e.oblige(p, fAnd(le(cst(0), lo), fAnd(le(lo, hi), le(hi, v.n))), "slice", "string slice out of range", in) {
			return false
		}
		return set(substr(p.st, v, lo, hi))
	case VSlice:
		lo, hi := opt(in.Low, cst(0)), opt(in.High, v.len)
		mx := opt(in.Max, v.cap)
		if !e.oblige(p, fAnd(le(cst(0), lo), fAnd(le(lo, hi), fAnd(le(hi, mx), le(mx, v.cap)))), "slice", "slice bounds out of range", in) {
			return false
		}
		if v.arr == nil {
			return set(v)
		}
		return set(VSlice{arr: v.arr, off: ladd(v.off, lo), len: lsub(hi, lo), cap: lsub(mx, lo), isNil: v.isNil, elem: v.elem})
	}
	pt, ok := e.asPtr(p, x, in)
	if !ok {
		return false
	}
	at := under(derefType(in.X.Type())).(*types.Array)
	n := cst(at.Len())
	lo, hi, mx := opt(in.Low, cst(0)), opt(in.High, n), opt(in.Max, n)
	if !e.oblige(p, fAnd(le(cst(0), lo), fAnd(le(lo, hi), fAnd(le(hi, mx), le(mx, n)))), "slice", "slice bounds out of range", in) {
		return false
	}
	o := pt.obj
	if len(pt.path) > 0 {
		// a slice of an array inside another object: copy-out would lose aliasing
		if !(len(pt.path) == 1 && false) {
			o = e.subArr(p.st, pt, at)
		}
	}
	return set(VSlice{arr: o, off: lo, len: lsub(hi, lo), cap: lsub(mx, lo), isNil: fls, elem: at.Elem()})
}

// subArr gives the array at a path inside an object its own identity. Afterwards the enclosing object must
// not be used to access it (reported as undecided if it is).
func (e *Eng) subArr(s *State, pt VPtr, at *types.Array) *Obj {
	o := lazyObj("sub:"+vkey(pt), types.NewArray(at.Elem(), at.Len()))
	if _, ok := s.heap[o]; !ok {
		a, _ := e.load(s, pt).(*Arr)
		if a == nil {
			bail("array expected")
		}
		s.heap[o] = a
	}
	return o
}

func (e *Eng) typeAssert(p *Path, in *ssa.TypeAssert, set func(Val) bool) bool {
	v := e.val(p, in.X)
	T := in.AssertedType
	toIface := types.IsInterface(T)
	fail := func() bool {
		if in.CommaOk {
			return set(VTuple{zeroVal(T), boolv(fls)})
		}
		e.oblige(p, fls, "typeassert", "type assertion may fail", in)
		p.st.dead = true
		return false
	}
	succ := func(x Val) bool {
		if in.CommaOk {
			return set(VTuple{x, boolv(tru)})
		}
		return set(x)
	}
	switch x := v.(type) {
	case VNil:
		return fail()
	case VIface:
		if toIface {
			if types.Implements(x.t, T.Underlying().(*types.Interface)) {
				return succ(v)
			}
			return fail()
		}
		if types.Identical(x.t, T) {
			return succ(x.v)
		}
		return fail()
	case VSym:
		if toIface && types.Implements(x.t, T.Underlying().(*types.Interface)) && types.IsInterface(x.t) {
			if in.CommaOk {
				if e.decide(p.st, fAtom(UF("nil", x.key))) {
					return fail()
				}
				return succ(v)
			}
			e.oblige(p, fNot(fAtom(UF("nil", x.key))), "typeassert", "type assertion on nil interface", in)
			return succ(v)
		}
		at := UF("is", x.key, T.String())
		at.bound(0, 1)
		if implications[at] == nil {
			implications[at] = &implication{onTrue: fNot(fAtom(UF("nil", x.key)))}
		}
		if p.st.refutes(fNot(fAtom(UF("nil", x.key)))) {
			return fail()
		}
		var as Val
		if toIface {
			as = VSym{x.key, T}
		} else {
			as = symVal("as("+x.key+","+T.String()+")", T)
		}
		if !in.CommaOk {
			if !e.oblige(p, fAtom(at), "typeassert", "type assertion may fail", in) {
				return false
			}
			return set(as)
		}
		if e.decide(p.st, fAtom(at)) {
			return succ(as)
		}
		return fail()
	}
	bail("type assertion on %T", v)
	return false
}

// ---------------------------------------------------------------------------
// Maps

func (e *Eng) asMap(p *Path, v Val, in ssa.Instruction, write bool) (*Obj, bool) {
	switch x := v.(type) {
	case VRef:
		return x.obj, true
	case VNil:
		if write {
			e.oblige(p, fls, "nilmap", "assignment to entry in nil map", in)
			p.st.dead = true
		}
		return nil, false
	case VSym:
		if write {
			if !e.oblige(p, fNot(fAtom(UF("nil", x.key))), "nilmap", "assignment to entry in possibly nil map", in) {
				return nil, false
			}
		}
		o := lazyObj("map:"+x.key, x.t)
		if _, ok := p.st.heap[o]; !ok {
			p.st.heap[o] = &MapC{t: under(x.t).(*types.Map), base: x.key, n: linAtom(UF("len", x.key).boundLo(0))}
		}
		return o, true
	}
	bail("map expected, got %T", v)
	return nil, false
}

func (e *Eng) mapGet(s *State, o *Obj, k Val) (Val, bool) {
	m := s.content(o).(*MapC)
	if len(m.ents) > 6 && m.base == "" && !e.tables {
		// large concrete map with a symbolic key
		if n, ok := k.(VNum); ok && !n.l.isConst() {
			if _, isc := s.constOf(n.l); !isc {
				if v, ok, done := e.mapTable(s, m, n.l); done {
					return v, ok
				}
			}
		}
	}
	for _, en := range m.ents {
		if e.decide(s, e.eqVal(s, k, en.key, m.t.Key())) {
			if en.val == nil {
				return zeroVal(m.t.Elem()), false
			}
			return en.val, true
		}
	}
	if m.base == "" {
		return zeroVal(m.t.Elem()), false
	}
	at := UF("mapok", m.base, vkey(k))
	at.bound(0, 1)
	if e.decide(s, fAtom(at)) {
		return mapElem(m, k), true
	}
	return zeroVal(m.t.Elem()), false
}

func mapElem(m *MapC, k Val) Val {
	v := symVal("mapget("+m.base+","+vkey(k)+")", m.t.Elem())
	if y, ok := v.(VSym); ok && nonNilBase[m.base] {
		UF("nil", y.key).bound(0, 0)
	}
	return v
}

// mapTable looks up a symbolic number in a map of constants.
func (e *Eng) mapTable(s *State, m *MapC, k *Lin) (Val, bool, bool) {
	lo, hi := int64(0), int64(0)
	var in *Form = fls
	for i, en := range m.ents {
		kn, ok := en.key.(VNum)
		if !ok || !kn.l.isConst() || en.val == nil {
			return nil, false, false
		}
		v, ok := en.val.(VNum)
		if !ok || !v.l.isConst() {
			return nil, false, false
		}
		if i == 0 || v.l.c < lo {
			lo = v.l.c
		}
		if i == 0 || v.l.c > hi {
			hi = v.l.c
		}
		in = fOr(in, eqL(k, kn.l))
	}
	id := hashStr(vkey(m))
	at := UFL("mapok"+id, k)
	at.bound(0, 1)
	if e.decide(s, fAtom(at)) {
		v := UFL("maptab"+id, k)
		v.bound(lo, hi)
		return num(linAtom(v)), true, true
	}
	return numc(0), false, true
}

func (e *Eng) mapSet(s *State, o *Obj, k, v Val) {
	m := s.content(o).(*MapC)
	n := &MapC{t: m.t, base: m.base, n: m.n}
	var kept []MapEnt
	for _, en := range m.ents {
		f := e.eqVal(s, k, en.key, m.t.Key())
		if e.known(s, f) == 1 {
			continue
		}
		kept = append(kept, en)
	}
	n.ents = append([]MapEnt{{k, v}}, kept...)
	freshSeq++
	ln := intern("maplen#"+strconv.Itoa(freshSeq), "fresh").boundLo(0)
	n.n = linAtom(ln)
	if v != nil {
		s.lemma(le(cst(1), n.n))
		s.lemma(le(n.n, laddc(m.n, 1)))
	} else {
		s.lemma(le(n.n, m.n))
	}
	if len(n.ents) > 400 {
		bail("map content too complex")
	}
	s.heap[o] = n
}

func (e *Eng) lookup(p *Path, in *ssa.Lookup, set func(Val) bool) bool {
	x := e.val(p, in.X)
	if s, ok := x.(VStr); ok {
		i := e.lin(p, in.Index)
		if !e.oblige(p, fAnd(le(cst(0), i), lt(i, s.n)), "index", "string index out of range", in) {
			return false
		}
		return set(e.strIndex(p.st, s, i))
	}
	k := e.val(p, in.Index)
	o, ok := e.asMap(p, x, in, false)
	var v Val
	var found bool
	mt := under(in.X.Type()).(*types.Map)
	if !ok {
		v, found = zeroVal(mt.Elem()), false
	} else {
		if s, isSym := x.(VSym); isSym && e.decide(p.st, fAtom(UF("nil", s.key))) {
			v, found = zeroVal(mt.Elem()), false
		} else {
			v, found = e.mapGet(p.st, o, k)
		}
	}
	if in.CommaOk {
		f := fls
		if found {
			f = tru
		}
		return set(VTuple{v, boolv(f)})
	}
	return set(v)
}

func (e *Eng) nextIter(p *Path, in *ssa.Next, set func(Val) bool) bool {
	it := e.val(p, in.Iter).(VTuple)[0]
	freshSeq++
	okA := intern("next#"+strconv.Itoa(freshSeq), "fresh").bound(0, 1)
	tt := in.Type().(*types.Tuple)
	if in.IsString {
		s := it.(VStr)
		i := e.fresh("ri", types.Typ[types.Int]).(VNum).l
		p.st.lemma(le(cst(0), i))
		implications[okA] = &implication{onTrue: lt(i, s.n)}
		return set(VTuple{boolv(fAtom(okA)), num(i), e.fresh("rune", types.Typ[types.Rune])})
	}
	mt := under(in.Iter.(*ssa.Range).X.Type()).(*types.Map)
	_ = tt
	o, ok := e.asMap(p, it, in, false)
	if !ok {
		return set(VTuple{boolv(fls), zeroVal(mt.Key()), zeroVal(mt.Elem())})
	}
	m := p.st.content(o).(*MapC)
	if m.base == "" && len(m.ents) == 0 {
		return set(VTuple{boolv(fls), zeroVal(mt.Key()), zeroVal(mt.Elem())})
	}
	if cell, ok := e.val(p, in.Iter).(VTuple); ok && len(cell) == 2 && m.base == "" && len(m.ents) <= 30 {
		// entries one by one, in any order
		co := cell[1].(VPtr).obj
		mask := p.st.heap[co].(VNum).l.c
		last := -1
		for i, en := range m.ents {
			if mask>>i&1 == 0 && en.val != nil {
				last = i
			}
		}
		for i, en := range m.ents {
			if mask>>i&1 == 0 && en.val != nil && (i == last || len(m.ents) > 3 || e.decide(p.st, fAtom(intern("order#"+strconv.Itoa(co.id)+"#"+strconv.FormatInt(mask, 10)+"#"+strconv.Itoa(i), "fresh").bound(0, 1)))) {
				p.st.heap[co] = VNum{cst(mask | 1<<i)}
				return set(VTuple{boolv(tru), en.key, en.val})
			}
		}
		return set(VTuple{boolv(fls), zeroVal(mt.Key()), zeroVal(mt.Elem())})
	}
	var k, v Val
	if m.base != "" {
		k = e.fresh("mk", mt.Key())
		v = mapElem(m, k)
		if len(m.ents) > 0 {
			v = e.fresh("mv", mt.Elem())
		}
	} else {
		var ks, vs []Val
		for _, en := range m.ents {
			if en.val != nil {
				ks = append(ks, en.key)
				vs = append(vs, en.val)
			}
		}
		if len(ks) == 0 {
			return set(VTuple{boolv(fls), zeroVal(mt.Key()), zeroVal(mt.Elem())})
		}
		k, v = e.joinVals(p.st, ks, mt.Key()), e.joinVals(p.st, vs, mt.Elem())
	}
	return set(VTuple{boolv(fAtom(okA)), k, v})
}

// ---------------------------------------------------------------------------
// Channels

func (e *Eng) chanObj(p *Path, v Val) (*Obj, bool) {
	switch x := v.(type) {
	case VRef:
		return x.obj, true
	case VSym:
		o := lazyObj("chan:"+x.key, x.t)
		if _, ok := p.st.heap[o]; !ok {
			p.st.heap[o] = &ChanC{t: under(x.t).(*types.Chan), cap: linAtom(UF("ccap", x.key).boundLo(0)), sends: cst(0), recvs: cst(0), closed: fls, tag: x.key}
		}
		return o, true
	}
	return nil, false
}

func (e *Eng) recvVal(p *Path, o *Obj) Val { return e.recvFrom(p, o, false) }

// recvFrom receives a value; if several are possible the others are left in recvMore.
func (e *Eng) recvFrom(p *Path, o *Obj, many bool) Val {
	c, isChan := p.st.content(o).(*ChanC)
	if !isChan {
		bail("channel %s has no content (base %v, lazy %q)", o.name, o.glob, o.lazy)
	}
	n := *c
	n.recvs = laddc(c.recvs, 1)
	p.st.heap[o] = &n
	if h := e.goModel["recv "+types.TypeString(c.t.Elem(), nil)]; h != nil {
		ex := e.callFn(p.st, h, nil, nil, nil)
		if len(ex) == 0 { // blocks forever
			p.st.dead = true
			return zeroVal(c.t.Elem())
		}
		if len(ex) != 1 && !many {
			bail("channel model must be deterministic")
		}
		e.recvMore = ex[1:]
		p.st = ex[0].st
		return ex[0].ret
	}
	if c.qok {
		if len(c.q) > 0 {
			n.q = c.q[1:]
			return c.q[0]
		}
		if p.st.entails(c.closed) {
			return zeroVal(c.t.Elem())
		}
		n.qok = false
	}
	return e.fresh("recv", c.t.Elem())
}

// ready tells when a send or receive does not block, if the channels are used by the scenario alone.
func (c *ChanC) ready(recv bool) *Form {
	buf := lsub(c.sends, c.recvs)
	if recv {
		return fOr(lt(cst(0), buf), c.closed)
	}
	return lt(buf, c.cap)
}

// canSend and canRecv check that a wait ends, in scenarios that model everything that may end it.
func (e *Eng) canSend(p *Path, ch Val, in ssa.Instruction) {
	if o, ok := e.chanObj(p, ch); ok && e.solo && e.goModel["block"] != nil {
		e.oblige(p, p.st.content(o).(*ChanC).ready(false), "assert", "a send may block forever", in)
	}
}

func (e *Eng) canRecv(p *Path, ch Val, in ssa.Instruction) {
	if o, ok := e.chanObj(p, ch); ok && e.solo && e.goModel["block"] != nil {
		e.oblige(p, p.st.content(o).(*ChanC).ready(true), "assert", "a receive may block forever", in)
	}
}

func (e *Eng) recv(p *Path, in *ssa.UnOp, set func(Val) bool) bool {
	o, ok := e.chanObj(p, e.val(p, in.X))
	if !ok {
		p.st.dead = true // blocks forever
		return false
	}
	e.canRecv(p, e.val(p, in.X), in)
	if p.st.dead {
		return false
	}
	v := e.recvVal(p, o)
	if p.st.dead {
		return false
	}
	if in.CommaOk {
		return set(VTuple{v, e.fresh("recvok", types.Typ[types.Bool])})
	}
	return set(v)
}

func (e *Eng) sendTo(p *Path, ch, v Val, in ssa.Instruction) {
	o, ok := e.chanObj(p, ch)
	if !ok {
		p.st.dead = true
		return
	}
	c := p.st.content(o).(*ChanC)
	e.oblige(p, fNot(c.closed), "send", "send on closed channel", in)
	n := *c
	n.sends = laddc(c.sends, 1)
	if n.qok {
		n.q = append(n.q[:len(n.q):len(n.q)], v)
	}
	p.st.heap[o] = &n
	if h := e.goModel["send "+types.TypeString(c.t.Elem(), nil)]; h != nil {
		ex := e.callFn(p.st, h, []Val{v}, nil, in)
		if len(ex) != 1 {
			bail("channel model must be deterministic")
		}
		p.st = ex[0].st
	}
}

func (e *Eng) selectStmt(p *Path, in *ssa.Select, res *[]*Path) bool {
	hook := e.goModel["block"]
	if !in.Blocking || !e.solo || hook == nil {
		return e.selectFrom(p, in, res, e.solo && !in.Blocking)
	}
	// the others act while this one waits, until a case is ready
	for _, ex := range e.callFn(p.st, hook, nil, nil, in) {
		q := p.clone()
		q.st = ex.st
		any := fls
		for _, s := range in.States {
			if o, ok := e.chanObj(q, e.val(q, s.Chan)); ok {
				any = fOr(any, q.st.content(o).(*ChanC).ready(s.Dir == types.RecvOnly))
			}
		}
		if e.oblige(q, any, "assert", "a wait may never end", in) {
			e.selectFrom(q, in, res, true)
		}
	}
	return false
}

func (e *Eng) selectFrom(p *Path, in *ssa.Select, res *[]*Path, exact bool) bool {
	n := 0
	tt := in.Type().(*types.Tuple)
	emit := func(q *Path, idx int, ok *Form, rv []Val) {
		tu := VTuple{numc(int64(idx)), boolv(ok)}
		tu = append(tu, rv...)
		if len(tu) != tt.Len() {
			bail("select arity")
		}
		q.env[in] = tu
		q.idx++
		*res = append(*res, q)
	}
	zeros := func() []Val {
		var rv []Val
		for _, s := range in.States {
			if s.Dir == types.RecvOnly {
				rv = append(rv, zeroVal(under(s.Chan.Type()).(*types.Chan).Elem()))
			}
		}
		return rv
	}
	for i, s := range in.States {
		q := p.clone()
		ch := e.val(q, s.Chan)
		o, ok := e.chanObj(q, ch)
		if !ok {
			continue
		}
		rv := zeros()
		if exact && !q.st.assume(q.st.content(o).(*ChanC).ready(s.Dir == types.RecvOnly)) {
			continue
		}
		if s.Dir == types.RecvOnly {
			e.recvMore = nil
			v := e.recvFrom(q, o, true)
			more := e.recvMore
			e.recvMore = nil
			if q.st.dead {
				continue
			}
			j := 0
			for _, s2 := range in.States[:i] {
				if s2.Dir == types.RecvOnly {
					j++
				}
			}
			for _, x := range more {
				q2 := q.clone()
				q2.st = x.st
				rv2 := zeros()
				rv2[j] = x.ret
				emit(q2, i, e.fresh("recvok", types.Typ[types.Bool]).(VBool).f, rv2)
			}
			rv[j] = v
			emit(q, i, e.fresh("recvok", types.Typ[types.Bool]).(VBool).f, rv)
		} else {
			e.sendTo(q, ch, e.val(q, s.Send), in)
			emit(q, i, fls, rv)
		}
		n++
	}
	if !in.Blocking {
		q := p.clone()
		for _, s := range in.States { // receiving from a closed channel never blocks
			if o, ok := e.chanObj(q, e.val(q, s.Chan)); ok && s.Dir == types.RecvOnly {
				q.st.assume(fNot(q.st.content(o).(*ChanC).closed))
			}
		}
		if e.solo { // nobody else uses the channels: a case is ready exactly when the buffer says so
			for _, s := range in.States {
				if o, ok := e.chanObj(q, e.val(q, s.Chan)); ok {
					c := q.st.content(o).(*ChanC)
					buf := lsub(c.sends, c.recvs)
					if s.Dir == types.RecvOnly {
						q.st.assume(fAnd(le(buf, cst(0)), fNot(c.closed)))
					} else {
						q.st.assume(le(c.cap, buf))
					}
				}
			}
		}
		if !q.st.dead {
			emit(q, -1, fls, zeros())
			n++
		}
	}
	e.paths += n
	return false
}
