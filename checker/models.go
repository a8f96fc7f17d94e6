package main

import (
	"go/types"
	"strings"
)

// Models of functions outside the analysed packages.

var models map[string]modelFn

func (c *mcall) boolRes(f *Form) Val { return boolv(f) }

func (c *mcall) errConst(k string) Val {
	c.st.lemma(fNot(fAtom(UF("nil", k))))
	return VSym{k, types.Universe.Lookup("error").Type()}
}

func pureFresh(c *mcall) Val {
	return c.freshResult("ext:" + shortName(c.name))
}

// pureFn is a deterministic function of its (abstract) arguments.
func pureFn(c *mcall) Val {
	var ks []string
	for _, a := range c.args {
		ks = append(ks, c.e.deepKey(c.st, a))
	}
	if c.res == nil {
		return nil
	}
	return symVal("fn:"+c.name+"("+hashStr(strings.Join(ks, ";"))+")", c.res)
}

// deepKey identifies a value including slice contents.
func (e *Eng) deepKey(s *State, v Val) string {
	switch x := v.(type) {
	case VSlice:
		if x.arr != nil {
			return vkey(e.arrOf(s, x.arr)) + "[" + x.off.Key() + ":" + x.len.Key() + "]"
		}
	case VIface:
		return "i<" + x.t.String() + ">" + e.deepKey(s, x.v)
	case VPtr:
		return vkey(x) + "=" + vkey(e.load(s, x))
	}
	return vkey(v)
}

func shortName(n string) string {
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		return n[i+1:]
	}
	return n
}

func noop(c *mcall) Val { return c.zeroRes() }
func (c *mcall) zeroRes() Val {
	if c.res == nil {
		return nil
	}
	return zeroVal(c.res)
}

func newErr(c *mcall) Val {
	v := c.e.fresh("newerr", c.res)
	c.st.lemma(fNot(c.e.nilForm(v)))
	return v
}

func lockModel(op string) modelFn {
	return func(c *mcall) Val {
		p, ok := c.e.asPtr(c.p, c.args[0], c.in)
		if !ok {
			c.stop = true
			return nil
		}
		k := vkey(p)
		h := c.st.locks[k]
		switch op {
		case "Lock":
			if h != 0 {
				c.e.report("lock", "lock acquired while already held", c.in)
				c.stop = true
				return nil
			}
			c.st.locks[k] = 1
		case "RLock":
			if h > 0 {
				c.e.report("lock", "read lock acquired while write lock is held", c.in)
				c.stop = true
				return nil
			}
			if h < 0 {
				c.e.report("lock", "read lock acquired recursively", c.in)
			}
			c.st.locks[k] = h - 1
		case "Unlock":
			if h != 1 {
				c.e.report("lock", "unlock of a lock that is not held", c.in)
			}
			c.st.locks[k] = 0
		case "RUnlock":
			if h >= 0 {
				c.e.report("lock", "read unlock of a lock that is not read-locked", c.in)
			} else {
				c.st.locks[k] = h + 1
			}
		case "TryLock":
			f := c.e.fresh("trylock", types.Typ[types.Bool])
			if c.e.decide(c.st, c.e.form(f)) {
				c.st.locks[k] = 1
			}
			return f
		}
		if c.e.quiet == 0 {
			c.e.obl["lock"]++
		}
		return nil
	}
}

// atomicCell is the field of an atomic that holds its value.
func atomicCell(c *mcall) (VPtr, types.Type, bool) {
	p, ok := c.e.asPtr(c.p, c.args[0], c.in)
	if !ok {
		c.stop = true
		return VPtr{}, nil, false
	}
	var vt types.Type
	sig := c.fn.Signature
	switch c.fn.Name() {
	case "Load":
		vt = sig.Results().At(0).Type()
	case "Store", "Swap", "Add", "And", "Or", "CompareAndSwap":
		vt = sig.Params().At(0).Type()
	}
	st := deref(sig.Recv().Type()).Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "v" {
			path := append(p.path[:len(p.path):len(p.path)], Step{field: i})
			return VPtr{obj: p.obj, path: path}, vt, true
		}
	}
	bail("unknown atomic type %s", sig.Recv().Type())
	return VPtr{}, nil, false
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func atomicLoad(c *mcall, p VPtr, vt types.Type) Val {
	v := c.e.load(c.st, p)
	if b, ok := vt.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
		return boolv(fNe(v.(VNum).l))
	}
	if x, ok := v.(VSym); ok && !types.Identical(x.t, vt) {
		return symVal(x.key, vt)
	}
	return v
}

func atomicStore(c *mcall, p VPtr, vt types.Type, v Val) {
	if b, ok := v.(VBool); ok {
		l := boolLin(b.f)
		if l == nil {
			l = cst(0)
			if c.e.decide(c.st, b.f) {
				l = cst(1)
			}
		}
		v = num(l)
	}
	c.e.store(c.st, p, v)
}

func atomicModel(c *mcall) Val {
	p, vt, ok := atomicCell(c)
	if !ok {
		return nil
	}
	old := atomicLoad(c, p, vt)
	switch c.fn.Name() {
	case "Load":
		return old
	case "Store":
		atomicStore(c, p, vt, c.args[1])
		return nil
	case "Swap":
		atomicStore(c, p, vt, c.args[1])
		return old
	case "Add":
		ii, _ := intOf(vt)
		n := num(c.e.wrapTo(c.st, ladd(old.(VNum).l, c.num(1)), ii))
		c.e.store(c.st, p, n)
		return n
	case "CompareAndSwap":
		if c.e.decide(c.st, c.e.eqVal(c.st, old, c.args[1], vt)) {
			atomicStore(c, p, vt, c.args[2])
			return boolv(tru)
		}
		return boolv(fls)
	}
	return pureFresh(c)
}

func atomicFn(c *mcall) Val { // sync/atomic package functions on plain memory
	p, ok := c.e.asPtr(c.p, c.args[0], c.in)
	if !ok {
		c.stop = true
		return nil
	}
	n := c.fn.Name()
	old := c.e.load(c.st, p)
	switch {
	case strings.HasPrefix(n, "Load"):
		return old
	case strings.HasPrefix(n, "Store"):
		c.e.store(c.st, p, c.args[1])
		return nil
	case strings.HasPrefix(n, "Add"):
		ii, _ := intOf(c.res)
		v := num(c.e.wrapTo(c.st, ladd(old.(VNum).l, c.num(1)), ii))
		c.e.store(c.st, p, v)
		return v
	case strings.HasPrefix(n, "Swap"):
		c.e.store(c.st, p, c.args[1])
		return old
	case strings.HasPrefix(n, "CompareAndSwap"):
		if c.e.decide(c.st, c.e.eqVal(c.st, old, c.args[1], nil)) {
			c.e.store(c.st, p, c.args[2])
			return boolv(tru)
		}
		return boolv(fls)
	}
	return pureFresh(c)
}

func onceModel(c *mcall) Val {
	bail("sync.Once.Do must be handled as a call")
	return nil
}

func cloneSlice(c *mcall) Val {
	d, ok := c.args[0].(VSlice)
	if !ok || d.arr == nil {
		return c.args[0]
	}
	if c.e.decide(c.st, d.isNil) {
		return zeroVal(c.res)
	}
	o := newObj("clone", types.NewArray(d.elem, -1))
	x := c.e.fresh("grow", types.Typ[types.Int]).(VNum).l
	x.t[0].a.boundLo(0)
	c.st.heap[o] = c.e.arrCopy(c.st, &Arr{n: ladd(d.len, x), elem: d.elem}, cst(0), c.e.arrOf(c.st, d.arr), d.off, d.len)
	return VSlice{arr: o, off: cst(0), len: d.len, cap: ladd(d.len, x), isNil: fls, elem: d.elem}
}

func growSlice(c *mcall) Val {
	d := c.sl(0)
	n := c.num(1)
	c.e.oblige(c.p, le(cst(0), n), "panic", "slices.Grow with a negative count", c.in)
	if c.e.decide(c.st, le(ladd(d.len, n), d.cap)) {
		return d
	}
	o := newObj("grow", types.NewArray(d.elem, -1))
	x := c.e.fresh("grow", types.Typ[types.Int]).(VNum).l
	x.t[0].a.boundLo(0)
	cp := ladd(ladd(d.len, n), x)
	a := &Arr{n: cp, elem: d.elem}
	if d.arr != nil {
		a = c.e.arrCopy(c.st, a, cst(0), c.e.arrOf(c.st, d.arr), d.off, d.len)
	}
	c.st.heap[o] = a
	return VSlice{arr: o, off: cst(0), len: d.len, cap: cp, isNil: fls, elem: d.elem}
}

func beGet(n int, little bool) modelFn {
	return func(c *mcall) Val {
		s := c.sl(1)
		if !c.e.oblige(c.p, le(cst(int64(n)), s.len), "index", "binary decoding beyond the slice", c.in) {
			c.stop = true
			return nil
		}
		out := cst(0)
		for i := 0; i < n; i++ {
			b := c.e.arrGet(c.st, c.e.arrOf(c.st, s.arr), laddc(s.off, int64(i))).(VNum).l
			sh := 8 * (n - 1 - i)
			if little {
				sh = 8 * i
			}
			if n == 8 {
				return num(linAtom(UF("be64", c.e.deepKey(c.st, s)).boundLo(0)))
			}
			out = ladd(out, lmulc(b, 1<<sh))
		}
		return num(out)
	}
}

func bePut(n int, little bool) modelFn {
	return func(c *mcall) Val {
		s := c.sl(1)
		v := c.num(2)
		if !c.e.oblige(c.p, le(cst(int64(n)), s.len), "index", "binary encoding beyond the slice", c.in) {
			c.stop = true
			return nil
		}
		rest := v
		for i := n - 1; i >= 0; i-- {
			var b *Lin
			if i == 0 {
				b = rest
			} else {
				q := c.e.quo(c.st, rest, cst(256))
				b = lsub(rest, lmulc(q, 256))
				rest = q
			}
			at := i
			if little {
				at = n - 1 - i
			}
			p := laddc(s.off, int64(at))
			c.st.heap[s.arr] = c.e.arrPut(c.st, c.e.arrOf(c.st, s.arr), Layer{lo: p, hi: laddc(p, 1), val: num(b)})
		}
		if c.e.onStore != nil {
			c.e.onStore(c.st, VPtr{obj: s.arr, path: []Step{{idx: s.off}}}, nil)
		}
		return nil
	}
}

// strings

func indexModel(c *mcall) Val {
	s := c.str(0)
	v := c.e.fresh("idx", types.Typ[types.Int]).(VNum)
	c.st.lemma(le(cst(-1), v.l))
	if sub, ok := c.args[1].(VStr); ok {
		c.st.lemma(fOr(eqL(v.l, cst(-1)), le(ladd(v.l, sub.n), s.n)))
	} else {
		c.st.lemma(fOr(eqL(v.l, cst(-1)), lt(v.l, s.n)))
	}
	return v
}

func trimModel(c *mcall) Val {
	s := c.str(0)
	if s.c != nil {
		switch c.name {
		case "strings.ToLower":
			return strc(strings.ToLower(*s.c))
		case "strings.ToUpper":
			return strc(strings.ToUpper(*s.c))
		case "strings.TrimSpace":
			return strc(strings.TrimSpace(*s.c))
		}
	}
	if c.name == "strings.ToLower" && strings.HasPrefix(s.key, "strings.ToLower(") {
		return s // already in lower case
	}
	if len(c.args) == 2 && s.c != nil {
		if b, ok := c.args[1].(VStr); ok && b.c != nil {
			switch c.name {
			case "strings.Trim":
				return strc(strings.Trim(*s.c, *b.c))
			case "strings.TrimPrefix":
				return strc(strings.TrimPrefix(*s.c, *b.c))
			case "strings.TrimSuffix":
				return strc(strings.TrimSuffix(*s.c, *b.c))
			}
		}
	}
	v := c.e.pureStr(c)
	if c.name != "strings.ToLower" && c.name != "strings.ToUpper" {
		c.st.lemma(le(v.n, s.n))
	}
	return v
}

func (e *Eng) pureStr(c *mcall) VStr {
	var ks []string
	for _, a := range c.args {
		ks = append(ks, vkey(a))
	}
	return symVal(c.name+"("+strings.Join(ks, ",")+")", types.Typ[types.String]).(VStr)
}

func splitModel(c *mcall) Val {
	v := c.freshSlice("split")
	lo := int64(1)
	if c.name == "strings.Fields" {
		lo = 0
	}
	c.st.lemma(le(cst(lo), v.len))
	if strings.HasPrefix(c.name, "strings.SplitN") {
		if n, ok := c.st.constOf(c.num(2)); ok && n > 0 {
			c.st.lemma(le(v.len, cst(n)))
		}
	}
	c.st.lemma(fNot(v.isNil))
	return v
}

// freshSlice is an unknown, newly allocated slice.
func (c *mcall) freshSlice(h string) VSlice {
	k := c.e.freshKey(h)
	v := symVal(k, c.res).(VSlice)
	return v
}

func cutModel(c *mcall) Val {
	s := c.str(0)
	k := vkey(s) + "," + vkey(c.args[1])
	found := UF("cutfound", k)
	found.bound(0, 1)
	a := symVal("cutbefore("+k+")", types.Typ[types.String]).(VStr)
	b := symVal("cutafter("+k+")", types.Typ[types.String]).(VStr)
	if s.c != nil {
		if sep, ok := c.args[1].(VStr); ok && sep.c != nil {
			x, y, f := strings.Cut(*s.c, *sep.c)
			ff := fls
			if f {
				ff = tru
			}
			return VTuple{strc(x), strc(y), boolv(ff)}
		}
	}
	if c.e.decide(c.st, fAtom(found)) {
		sep := c.args[1].(VStr)
		c.st.lemma(le(ladd(ladd(a.n, b.n), sep.n), s.n))
		return VTuple{a, b, boolv(tru)}
	}
	return VTuple{s, strc(""), boolv(fls)}
}

func prefixModel(c *mcall) Val {
	s, p := c.str(0), c.str(1)
	if s.c != nil && p.c != nil {
		if strings.HasPrefix(*s.c, *p.c) {
			return boolv(tru)
		}
		return boolv(fls)
	}
	k := vkey(s)
	if s.c == nil {
		k = s.key
	}
	a := UF("strpfx", k, vkey(p))
	a.bound(0, 1)
	if implications[a] == nil {
		implications[a] = &implication{onTrue: le(p.n, s.n)}
	}
	if p.c != nil {
		a.base = *p.c
	}
	return boolv(fAtom(a))
}

func boolFn(c *mcall) Val {
	var ks []string
	for _, a := range c.args {
		ks = append(ks, c.e.deepKey(c.st, a))
	}
	a := UF("fn:"+c.name, ks...)
	a.bound(0, 1)
	return boolv(fAtom(a))
}

func equalFold(c *mcall) Val {
	a, b := c.str(0), c.str(1)
	if a.c != nil && b.c != nil {
		if strings.EqualFold(*a.c, *b.c) {
			return boolv(tru)
		}
		return boolv(fls)
	}
	lower := func(s VStr) Val {
		d := *c
		d.name, d.args = "strings.ToLower", []Val{s}
		return trimModel(&d)
	}
	return boolv(c.e.eqVal(c.st, lower(a), lower(b), types.Typ[types.String]))
}

// countModel is the number of occurrences, never negative.
func countModel(c *mcall) Val {
	a, b := c.str(0), c.str(1)
	if a.c != nil && b.c != nil {
		return numc(int64(strings.Count(*a.c, *b.c)))
	}
	v := UF("strcount", vkey(a), vkey(b))
	v.bound(0, 1<<40)
	return num(linAtom(v))
}

func sinModel(c *mcall) Val {
	a := UF("sin", vkey(c.args[0]))
	a.real = true
	a.bound(-1, 1)
	return num(linAtom(a))
}

func init() {
	models = map[string]modelFn{
		"(*sync.Mutex).Lock":      lockModel("Lock"),
		"(*sync.Mutex).Unlock":    lockModel("Unlock"),
		"(*sync.Mutex).TryLock":   lockModel("TryLock"),
		"(*sync.RWMutex).Lock":    lockModel("Lock"),
		"(*sync.RWMutex).Unlock":  lockModel("Unlock"),
		"(*sync.RWMutex).RLock":   lockModel("RLock"),
		"(*sync.RWMutex).RUnlock": lockModel("RUnlock"),
		"slices.Clone":            cloneSlice,
		"slices.Grow":             growSlice,
		"errors.New":              newErr,
		"fmt.Errorf":              newErr,
		"errors.Is": func(c *mcall) Val {
			if c.e.known(c.st, c.e.nilForm(c.args[0])) == 1 {
				return boolv(c.e.nilForm(c.args[1]))
			}
			f := c.e.eqVal(c.st, c.args[0], c.args[1], nil)
			switch f.op {
			case FTrue:
				return boolv(tru)
			}
			// equal, or wrapping it
			if c.e.decide(c.st, f) {
				return boolv(tru)
			}
			if c.e.decide(c.st, c.e.nilForm(c.args[0])) {
				return boolv(fls)
			}
			if y, ok := c.args[0].(VSym); ok && strings.HasPrefix(y.key, "err:") {
				return boolv(fls) // a plain harness error wraps nothing
			}
			return boolFn(c)
		},
		"errors.As":     pureFresh,
		"errors.Unwrap": pureFresh,
		"errors.Join": func(c *mcall) Val {
			s := c.sl(0)
			n, ok := c.st.constOf(s.len)
			if !ok {
				return pureFresh(c)
			}
			all := tru
			for i := int64(0); i < n; i++ {
				all = fAnd(all, c.e.nilForm(c.e.arrGet(c.st, c.e.arrOf(c.st, s.arr), laddc(s.off, i))))
			}
			if c.e.decide(c.st, all) {
				return VNil{}
			}
			return newErr(c)
		},
		"fmt.Sprintf": pureFresh, "fmt.Sprint": pureFresh, "fmt.Println": pureFresh, "fmt.Printf": pureFresh, "fmt.Fprintf": pureFresh, "fmt.Fprintln": pureFresh, "fmt.Fprint": pureFresh, "fmt.Sprintln": pureFresh,
		"math.Sin": sinModel, "math.Cos": sinModel,
		"math.Abs": pureFresh, "math.Floor": pureFresh, "math.Ceil": pureFresh, "math.Round": pureFresh, "math.Log": pureFresh, "math.Pow": pureFresh, "math.Sqrt": pureFresh, "math.Mod": pureFresh,
		"(encoding/binary.bigEndian).Uint16":       beGet(2, false),
		"(encoding/binary.bigEndian).Uint32":       beGet(4, false),
		"(encoding/binary.bigEndian).Uint64":       beGet(8, false),
		"(encoding/binary.bigEndian).PutUint16":    bePut(2, false),
		"(encoding/binary.bigEndian).PutUint32":    bePut(4, false),
		"(encoding/binary.bigEndian).PutUint64":    bePut(8, false),
		"(encoding/binary.littleEndian).Uint16":    beGet(2, true),
		"(encoding/binary.littleEndian).Uint32":    beGet(4, true),
		"(encoding/binary.littleEndian).Uint64":    beGet(8, true),
		"(encoding/binary.littleEndian).PutUint16": bePut(2, true),
		"(encoding/binary.littleEndian).PutUint32": bePut(4, true),
		"strings.Index": indexModel, "strings.IndexByte": indexModel, "strings.LastIndex": indexModel, "strings.IndexRune": indexModel, "strings.LastIndexByte": indexModel, "strings.IndexAny": indexModel,
		"strings.TrimSpace": trimModel, "strings.Trim": trimModel, "strings.TrimPrefix": trimModel, "strings.TrimSuffix": trimModel, "strings.TrimLeft": trimModel, "strings.TrimRight": trimModel, "strings.ToLower": trimModel, "strings.ToUpper": trimModel,
		"strings.Split": splitModel, "strings.SplitN": splitModel, "strings.Fields": splitModel,
		"strings.Cut": cutModel, "strings.HasPrefix": prefixModel, "strings.HasSuffix": boolFn, "strings.Contains": boolFn, "strings.EqualFold": equalFold,
		"strings.Count":   countModel,
		"strings.Join":    pureFresh,
		"strings.Repeat":  pureFresh,
		"strings.Replace": pureFresh, "strings.ReplaceAll": pureFresh,
		"strings.Compare": pureFresh, "bytes.Equal": boolFn,
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Bool", "Pointer[T]", "Uintptr", "Value"} {
		for _, m := range []string{"Load", "Store", "Swap", "Add", "CompareAndSwap"} {
			models["(*sync/atomic."+t+")."+m] = atomicModel
		}
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Pointer"} {
		for _, m := range []string{"Load", "Store", "Swap", "Add", "CompareAndSwap"} {
			models["sync/atomic."+m+t] = atomicFn
		}
	}
}
