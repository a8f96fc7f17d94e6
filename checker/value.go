package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Abstract values

type Val interface{}

type VNum struct{ l *Lin }
type VBool struct{ f *Form }

// VStr: c is non-nil for constants; otherwise key names the symbolic string.
type VStr struct {
	c   *string
	key string
	n   *Lin
}
type VNil struct{}
type VSym struct { // symbolic reference: pointer, interface, map, chan, func
	key string
	t   types.Type
}
type Step struct {
	field int
	idx   *Lin // non-nil for array elements
}
type VPtr struct {
	obj  *Obj
	path []Step
}
type VRef struct{ obj *Obj } // map or channel
type VSlice struct {
	arr           *Obj // nil for a nil slice
	off, len, cap *Lin
	isNil         *Form
	elem          types.Type
}
type VIface struct {
	t types.Type
	v Val
}
type VFn struct {
	fn   *ssa.Function
	bind []Val
	ext  string // bound external method
}
type VStruct struct {
	t    *types.Struct
	base string // lazily symbolic fields; "" = zero
	f    []Val
}
type VTuple []Val

// Arr is an immutable array content: layers over a base. Newest layer first.
type Arr struct {
	n      *Lin
	elem   types.Type
	base   string // "" = zero, otherwise symbolic contents el(base, i)
	layers []Layer
}
type Layer struct {
	lo, hi *Lin
	src    string // el(src, shift+i), if non-empty; "0" means zero values
	shift  *Lin
	val    Val // otherwise: a single value at every index in [lo,hi)
}
type MapEnt struct {
	key Val
	val Val // nil = deleted
}
type MapC struct {
	t    *types.Map
	base string // "" = empty
	ents []MapEnt
	n    *Lin
}
type ChanC struct {
	t            *types.Chan
	cap          *Lin
	sends, recvs *Lin
	closed       *Form
	tag          string
	q            []Val // elements in the buffer, when known
	qok          bool
}

type Obj struct {
	id   int
	name string
	t    types.Type // type of contents
	lazy string     // symbolic contents
	tmpl bool
	glob bool // a package-level variable, zero until it is first stored to
}

var objSeq int
var lazyObjs = map[string]*Obj{}

func newObj(name string, t types.Type) *Obj {
	objSeq++
	return &Obj{id: objSeq, name: name, t: t}
}
func lazyObj(key string, t types.Type) *Obj {
	if o := lazyObjs[key]; o != nil {
		return o
	}
	o := newObj("*"+key, t)
	o.lazy = key
	lazyObjs[key] = o
	return o
}

func stepKey(p []Step) string {
	var sb strings.Builder
	for _, s := range p {
		if s.idx != nil {
			sb.WriteString("[" + s.idx.Key() + "]")
		} else {
			sb.WriteString("." + strconv.Itoa(s.field))
		}
	}
	return sb.String()
}

func vkey(v Val) string {
	switch v := v.(type) {
	case nil:
		return "?"
	case VNum:
		return v.l.Key()
	case VBool:
		return v.f.Key()
	case VStr:
		if v.c != nil {
			return strconv.Quote(*v.c)
		}
		return "s:" + v.key
	case VNil:
		return "nil"
	case VSym:
		return "y:" + v.key
	case VPtr:
		return "p" + strconv.Itoa(v.obj.id) + stepKey(v.path)
	case VRef:
		return "r" + strconv.Itoa(v.obj.id)
	case VSlice:
		if v.arr == nil {
			return "nilslice"
		}
		return "sl" + strconv.Itoa(v.arr.id) + "[" + v.off.Key() + ";" + v.len.Key() + ";" + v.cap.Key() + ";" + v.isNil.Key() + "]"
	case VIface:
		return "i<" + v.t.String() + ">" + vkey(v.v)
	case VFn:
		s := "fn:" + v.ext
		if v.fn != nil {
			s += v.fn.String()
		}
		for _, b := range v.bind {
			s += "," + vkey(b)
		}
		return s
	case *VStruct:
		var sb strings.Builder
		sb.WriteString("{" + v.base)
		for _, f := range v.f {
			sb.WriteString(";" + vkey(f))
		}
		return sb.String() + "}"
	case VTuple:
		var s []string
		for _, x := range v {
			s = append(s, vkey(x))
		}
		return "(" + strings.Join(s, ",") + ")"
	case *Arr:
		var sb strings.Builder
		sb.WriteString("A" + v.base + "#" + v.n.Key())
		for _, l := range v.layers {
			sb.WriteString("|" + l.lo.Key() + ":" + l.hi.Key() + "=")
			if l.src != "" {
				sb.WriteString(l.src + "+" + l.shift.Key())
			} else {
				sb.WriteString(vkey(l.val))
			}
		}
		return sb.String()
	case *MapC:
		var sb strings.Builder
		sb.WriteString("M" + v.base)
		for _, e := range v.ents {
			sb.WriteString("|" + vkey(e.key) + "=" + vkey(e.val))
		}
		return sb.String()
	case *ChanC:
		k := "C" + v.cap.Key() + "," + v.sends.Key() + "," + v.recvs.Key() + "," + v.closed.Key()
		if v.qok {
			for _, x := range v.q {
				k += "," + vkey(x)
			}
			k += "."
		}
		return k
	}
	return fmt.Sprintf("%T", v)
}

func num(l *Lin) Val   { return VNum{l} }
func numc(c int64) Val { return VNum{cst(c)} }
func boolv(f *Form) Val {
	return VBool{f}
}
func strc(s string) Val {
	return VStr{c: &s, n: cst(int64(len(s)))}
}

// ---------------------------------------------------------------------------
// Types

func under(t types.Type) types.Type { return t.Underlying() }

func coreOf(t types.Type) types.Type {
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
	}
	return t.Underlying()
}

type intInfo struct {
	bits   int
	signed bool
}

func intOf(t types.Type) (intInfo, bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return intInfo{}, false
	}
	switch b.Kind() {
	case types.Int8:
		return intInfo{8, true}, true
	case types.Int16:
		return intInfo{16, true}, true
	case types.Int32:
		return intInfo{32, true}, true
	case types.Int64, types.Int, types.UntypedInt, types.UntypedRune:
		return intInfo{64, true}, true
	case types.Uint8:
		return intInfo{8, false}, true
	case types.Uint16:
		return intInfo{16, false}, true
	case types.Uint32:
		return intInfo{32, false}, true
	case types.Uint64, types.Uint, types.Uintptr:
		return intInfo{64, false}, true
	}
	return intInfo{}, false
}
func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (ii intInfo) rng() (lo, hi int64, hasHi bool) {
	if ii.bits == 64 {
		if ii.signed {
			return -1 << 63, 1<<63 - 1, true
		}
		return 0, 0, false
	}
	if ii.signed {
		return -(1 << (ii.bits - 1)), 1<<(ii.bits-1) - 1, true
	}
	return 0, 1<<ii.bits - 1, true
}

func boundAtom(a *Atom, t types.Type) *Atom {
	if ii, ok := intOf(t); ok {
		if ii.bits < 64 {
			lo, hi, _ := ii.rng()
			a.bound(lo, hi)
		} else if !ii.signed {
			a.boundLo(0)
		}
	} else if isFloat(t) {
		a.real = true
	} else if isBool(t) {
		a.bound(0, 1)
	}
	return a
}

// symVal is the deterministic symbolic value named key.
func symVal(key string, t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return boolv(fAtom(intern("b:"+key, "sym")))
		case u.Info()&types.IsString != 0:
			return VStr{key: key, n: linAtom(UF("len", key).boundLo(0))}
		case u.Kind() == types.UnsafePointer:
			return VSym{key, t}
		case u.Info()&types.IsComplex != 0:
			return VSym{key, t}
		}
		return num(linAtom(boundAtom(intern("n:"+key, "sym"), t)))
	case *types.Slice:
		n := linAtom(UF("len", key).boundLo(0))
		x := linAtom(UF("xcap", key).boundLo(0))
		o := lazyObj("arr:"+key, types.NewArray(u.Elem(), -1))
		return VSlice{arr: o, off: cst(0), len: n, cap: ladd(n, x), isNil: fAtom(UF("nil", key)), elem: u.Elem()}
	case *types.Struct:
		return &VStruct{t: u, base: key, f: make([]Val, u.NumFields())}
	case *types.Array:
		return &Arr{n: cst(u.Len()), elem: u.Elem(), base: key}
	case *types.Tuple:
		var tu VTuple
		for i := 0; i < u.Len(); i++ {
			tu = append(tu, symVal(key+"."+strconv.Itoa(i), u.At(i).Type()))
		}
		return tu
	}
	return VSym{key, t}
}

func zeroVal(t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return boolv(fls)
		case u.Info()&types.IsString != 0:
			return strc("")
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return VNil{}
		case u.Info()&types.IsComplex != 0:
			return VSym{"czero", t}
		}
		return numc(0)
	case *types.Slice:
		return VSlice{off: cst(0), len: cst(0), cap: cst(0), isNil: tru, elem: u.Elem()}
	case *types.Struct:
		return &VStruct{t: u, f: make([]Val, u.NumFields())}
	case *types.Array:
		return &Arr{n: cst(u.Len()), elem: u.Elem()}
	case *types.Tuple:
		var tu VTuple
		for i := 0; i < u.Len(); i++ {
			tu = append(tu, zeroVal(u.At(i).Type()))
		}
		return tu
	}
	return VNil{}
}

func (s *VStruct) get(i int) Val {
	if v := s.f[i]; v != nil {
		return v
	}
	if s.base == "" {
		return zeroVal(s.t.Field(i).Type())
	}
	return symVal(s.base+"."+s.t.Field(i).Name()+"_"+strconv.Itoa(i), s.t.Field(i).Type())
}
func (s *VStruct) set(i int, v Val) *VStruct {
	n := &VStruct{t: s.t, base: s.base, f: append([]Val(nil), s.f...)}
	n.f[i] = v
	return n
}

// elVal is element idx of the symbolic sequence src.
func elVal(src string, idx *Lin, t types.Type) Val {
	if src == "" || src == "0" {
		return zeroVal(t)
	}
	key := "el(" + src + "," + idx.Key() + ")"
	v := symVal(key, t)
	switch v := v.(type) {
	case VSym:
		if nonNilBase[src] {
			UF("nil", v.key).bound(0, 0)
		}
	case VNum:
		a := v.l.t[0].a
		a.op, a.base, a.largs = "el", src, []*Lin{idx}
	case VBool:
		a := v.f.l.t[0].a
		a.op, a.base, a.largs = "el", src, []*Lin{idx}
	}
	return v
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func sortVals(vs []string) []string { sort.Strings(vs); return vs }
