package main

import (
	"go/types"
	"strconv"
	"strings"
)

// Strings built from constants, decimal numbers and unknown parts.

var (
	catParts = map[string][]VStr{} // key of a concatenation -> its parts
	itoaOf   = map[string]*Lin{}   // key of a decimal representation -> the number
)

func parts(s VStr) []VStr {
	if s.c != nil {
		if *s.c == "" {
			return nil
		}
		return []VStr{s}
	}
	if ps, ok := catParts[s.key]; ok {
		return ps
	}
	return []VStr{s}
}

func isDec(s VStr) bool { return s.c == nil && itoaOf[s.key] != nil }

// catStr is the concatenation of parts, in a canonical form.
func catStr(ps []VStr) VStr {
	var out []VStr
	for _, p := range ps {
		for _, q := range parts(p) {
			if n := len(out); n > 0 && q.c != nil && out[n-1].c != nil {
				out[n-1] = strc(*out[n-1].c + *q.c).(VStr)
			} else {
				out = append(out, q)
			}
		}
	}
	switch len(out) {
	case 0:
		return strc("").(VStr)
	case 1:
		return out[0]
	}
	n := cst(0)
	ks := make([]string, len(out))
	for i, p := range out {
		n = ladd(n, p.n)
		ks[i] = vkey(p)
	}
	k := "cat(" + strings.Join(ks, ",") + ")"
	catParts[k] = out
	return VStr{key: k, n: n}
}

func decStr(st *State, l *Lin) VStr {
	if c, ok := st.constOf(l); ok {
		return strc(strconv.FormatInt(c, 10)).(VStr)
	}
	k := "itoa(" + l.Key() + ")"
	itoaOf[k] = l
	n := UF("len", k)
	n.bound(1, 20)
	return VStr{key: k, n: linAtom(n)}
}

// cutStr cuts a structured string at the first separator. ok is false if that is unknown.
func cutStr(s VStr, sep string) (before, after VStr, found, ok bool) {
	ps := parts(s)
	for i, p := range ps {
		if p.c != nil {
			if j := strings.Index(*p.c, sep); j >= 0 {
				b := append(append([]VStr{}, ps[:i]...), strc((*p.c)[:j]).(VStr))
				a := append([]VStr{strc((*p.c)[j+len(sep):]).(VStr)}, ps[i+1:]...)
				return catStr(b), catStr(a), true, true
			}
			if len(sep) > 1 && len(ps) > 1 {
				return s, s, false, false
			}
			continue
		}
		if !isDec(p) || sep == "" || strings.ContainsAny(sep, "0123456789-") {
			return s, s, false, false
		}
		if len(sep) > 1 && len(ps) > 1 {
			return s, s, false, false
		}
	}
	return s, strc("").(VStr), false, true
}

// splitStr splits a structured string into at most n parts (n < 0: no limit).
func splitStr(s VStr, sep string, n int) ([]VStr, bool) {
	var out []VStr
	for n != 1 {
		b, a, found, ok := cutStr(s, sep)
		if !ok {
			return nil, false
		}
		if !found {
			break
		}
		out = append(out, b)
		s = a
		n--
	}
	return append(out, s), true
}

func (c *mcall) strSlice(ss []VStr) Val {
	el := under(c.res).(*types.Slice).Elem()
	o := newObj("split", types.NewArray(el, -1))
	a := &Arr{n: cst(int64(len(ss))), elem: el}
	c.st.heap[o] = a
	for i, s := range ss {
		c.e.store(c.st, VPtr{obj: o, path: []Step{{idx: cst(int64(i))}}}, s)
	}
	return VSlice{arr: o, off: cst(0), len: cst(int64(len(ss))), cap: cst(int64(len(ss))), isNil: fls, elem: el}
}

// sprintf gives the text of simple formats.
func (c *mcall) sprintf() (VStr, bool) {
	f := c.str(0)
	if f.c == nil {
		return f, false
	}
	var args []Val
	if s, ok := c.args[1].(VSlice); ok && s.arr != nil {
		n, ok := c.st.constOf(s.len)
		if !ok {
			return f, false
		}
		a := c.e.arrOf(c.st, s.arr)
		for i := int64(0); i < n; i++ {
			args = append(args, c.e.arrGet(c.st, a, laddc(s.off, i)))
		}
	}
	var out []VStr
	t := *f.c
	for t != "" {
		i := strings.IndexByte(t, '%')
		if i < 0 || i+1 >= len(t) {
			out = append(out, strc(t).(VStr))
			break
		}
		out = append(out, strc(t[:i]).(VStr))
		v := t[i+1]
		t = t[i+2:]
		if v == '%' {
			out = append(out, strc("%").(VStr))
			continue
		}
		if len(args) == 0 {
			return f, false
		}
		a := args[0]
		args = args[1:]
		iv, ok := a.(VIface)
		if !ok {
			return f, false
		}
		switch x := iv.v.(type) {
		case VNum:
			if v != 'd' && v != 'v' || x.l.real() || hasMethod(iv.t, "String") {
				return f, false
			}
			out = append(out, decStr(c.st, x.l))
		case VStr:
			if v != 's' && v != 'v' || hasMethod(iv.t, "String") {
				return f, false
			}
			out = append(out, x)
		default:
			return f, false
		}
	}
	if len(args) > 0 {
		return f, false
	}
	return catStr(out), true
}

func hasMethod(t types.Type, name string) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	_, ok := o.(*types.Func)
	return ok
}

// parseInt is the number in a string and whether there is one.
func (c *mcall) parseInt(s VStr, base, bits int64, signed bool) (Val, Val) {
	tt := c.res.(*types.Tuple)
	fail := func() (Val, Val) {
		v := c.e.fresh("parse", tt.At(0).Type())
		er := c.e.fresh("parseerr", tt.At(1).Type())
		c.st.lemma(fNot(c.e.nilForm(er)))
		return v, er
	}
	noErr := zeroVal(tt.At(1).Type())
	if bits == 0 {
		bits = 64
	}
	if s.c != nil {
		var n int64
		var err error
		if signed {
			n, err = strconv.ParseInt(*s.c, int(base), int(bits))
		} else {
			var u uint64
			u, err = strconv.ParseUint(*s.c, int(base), int(bits))
			if u > 1<<62 {
				return c.freshPair()
			}
			n = int64(u)
		}
		if err != nil {
			return fail()
		}
		return numc(n), noErr
	}
	if l := itoaOf[s.key]; l != nil && base == 10 && bits > 62 {
		// numbers of 64 bits are read back (64-bit overflow is outside of the analysis), signs aside
		if !signed && !c.e.decide(c.st, le(cst(0), l)) {
			return fail()
		}
		return num(l), noErr
	}
	if l := itoaOf[s.key]; l != nil && base == 10 && bits <= 62 {
		lo, hi := int64(0), int64(1)<<bits-1
		if signed {
			lo, hi = -(int64(1) << (bits - 1)), int64(1)<<(bits-1)-1
		}
		if !c.e.decide(c.st, fAnd(le(cst(lo), l), le(l, cst(hi)))) {
			return fail()
		}
		return num(l), noErr
	}
	// deterministic in the text
	okA := UF("parses", s.key, strconv.FormatInt(base, 10), strconv.FormatInt(bits, 10))
	okA.bound(0, 1)
	if !c.e.decide(c.st, fAtom(okA)) {
		return fail()
	}
	v := UF("parsed", s.key, strconv.FormatInt(base, 10), strconv.FormatInt(bits, 10))
	if signed {
		if bits < 63 {
			v.bound(-(int64(1) << (bits - 1)), int64(1)<<(bits-1)-1)
		}
	} else if bits < 63 {
		v.bound(0, int64(1)<<bits-1)
	} else {
		v.boundLo(0)
	}
	c.st.lemma(le(cst(1), s.n)) // an empty text is no number
	return num(linAtom(v)), noErr
}

func (c *mcall) freshPair() (Val, Val) {
	tt := c.res.(*types.Tuple)
	return c.e.fresh("parse", tt.At(0).Type()), zeroVal(tt.At(1).Type())
}

func init() {
	models["fmt.Sprintf"] = func(c *mcall) Val {
		if s, ok := c.sprintf(); ok {
			return s
		}
		return pureFresh(c)
	}
	models["strconv.Itoa"] = func(c *mcall) Val { return decStr(c.st, c.num(0)) }
	dec := func(c *mcall) Val {
		if b, ok := c.st.constOf(c.num(1)); ok && b == 10 {
			return decStr(c.st, c.num(0))
		}
		return pureFresh(c)
	}
	models["strconv.FormatInt"] = dec
	models["strconv.FormatUint"] = dec
	models["strconv.Atoi"] = func(c *mcall) Val {
		a, b := c.parseInt(c.str(0), 10, 64, true)
		return VTuple{a, b}
	}
	p := func(signed bool) modelFn {
		return func(c *mcall) Val {
			base, ok1 := c.st.constOf(c.num(1))
			bits, ok2 := c.st.constOf(c.num(2))
			if !ok1 || !ok2 {
				return pureFresh(c)
			}
			a, b := c.parseInt(c.str(0), base, bits, signed)
			return VTuple{a, b}
		}
	}
	models["strconv.ParseUint"] = p(false)
	models["strconv.ParseInt"] = p(true)

	split := models["strings.Split"]
	models["strings.Split"] = func(c *mcall) Val {
		if sep, ok := c.args[1].(VStr); ok && sep.c != nil && *sep.c != "" {
			if ss, ok := splitStr(c.str(0), *sep.c, -1); ok {
				return c.strSlice(ss)
			}
		}
		return split(c)
	}
	splitN := models["strings.SplitN"]
	models["strings.SplitN"] = func(c *mcall) Val {
		n, okn := c.st.constOf(c.num(2))
		if sep, ok := c.args[1].(VStr); ok && okn && n != 0 && sep.c != nil && *sep.c != "" {
			if ss, ok := splitStr(c.str(0), *sep.c, int(n)); ok {
				return c.strSlice(ss)
			}
		}
		return splitN(c)
	}
	cut := models["strings.Cut"]
	models["strings.Cut"] = func(c *mcall) Val {
		if sep, ok := c.args[1].(VStr); ok && sep.c != nil && *sep.c != "" {
			if b, a, found, ok := cutStr(c.str(0), *sep.c); ok {
				if found {
					return VTuple{b, a, boolv(tru)}
				}
				return VTuple{c.str(0), strc(""), boolv(fls)}
			}
		}
		return cut(c)
	}
	models["strings.CutPrefix"] = func(c *mcall) Val {
		s, pre := c.str(0), c.str(1)
		if pre.c != nil {
			if ps := parts(s); len(ps) > 0 && ps[0].c != nil && strings.HasPrefix(*ps[0].c, *pre.c) {
				rest := append([]VStr{strc((*ps[0].c)[len(*pre.c):]).(VStr)}, ps[1:]...)
				return VTuple{catStr(rest), boolv(tru)}
			}
			if s.c != nil {
				return VTuple{s, boolv(fls)}
			}
		}
		a := UF("strpfx", vkey(s), vkey(pre))
		a.bound(0, 1)
		if c.e.decide(c.st, fAtom(a)) {
			c.st.lemma(le(pre.n, s.n))
			r := symVal("cutprefix("+vkey(s)+","+vkey(pre)+")", types.Typ[types.String]).(VStr)
			c.st.lemma(eqL(ladd(r.n, pre.n), s.n))
			return VTuple{r, boolv(tru)}
		}
		return VTuple{s, boolv(fls)}
	}
	trim := models["strings.TrimSpace"]
	models["strings.TrimSpace"] = func(c *mcall) Val {
		s := c.str(0)
		if ps := parts(s); s.c == nil && len(ps) > 0 {
			f, l := ps[0], ps[len(ps)-1]
			solid := func(p VStr, first bool) bool {
				if isDec(p) {
					return true
				}
				if p.c == nil {
					return false
				}
				t := *p.c
				if first {
					return strings.TrimLeft(t, " \t\r\n\v\f\u0085\u00a0") == t
				}
				return strings.TrimRight(t, " \t\r\n\v\f\u0085\u00a0") == t
			}
			if solid(f, true) && solid(l, false) {
				return s
			}
		}
		return trim(c)
	}
	hasPrefix := models["strings.HasPrefix"]
	models["strings.HasPrefix"] = func(c *mcall) Val {
		s, pre := c.str(0), c.str(1)
		if s.c == nil && pre.c != nil {
			if ps := parts(s); len(ps) > 0 && ps[0].c != nil {
				t := *ps[0].c
				if strings.HasPrefix(t, *pre.c) {
					return boolv(tru)
				}
				if n := min(len(t), len(*pre.c)); t[:n] != (*pre.c)[:n] {
					return boolv(fls)
				}
			}
		}
		return hasPrefix(c)
	}
}
