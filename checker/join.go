package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// retVal stands for a result of a call whose exits are joined.
type retVal struct {
	t types.Type
	n string
}

func (v *retVal) Name() string                  { return v.n }
func (v *retVal) String() string                { return v.n }
func (v *retVal) Type() types.Type              { return v.t }
func (v *retVal) Parent() *ssa.Function         { return nil }
func (v *retVal) Referrers() *[]ssa.Instruction { return nil }
func (v *retVal) Pos() token.Pos                { return token.NoPos }

func (e *Eng) wantsJoin(fn *ssa.Function) bool {
	return e.isHarn(fn) && strings.HasPrefix(fn.Name(), "join")
}

// joinAt replaces the exits of a call by one state per shape of the memory, generalised like the states that meet at
// the head of a loop: numeric quantities are related by the equalities and inequalities all exits share.
func (e *Eng) joinAt(fn *ssa.Function, entry *State, seq int, rets []Exit) []Exit {
	f := &fixp{e: e, coarse: e.coarse, join: true, l: &Loop{header: fn.Blocks[0]}, seq: seq, tobj: map[string]*Obj{}, slots: map[string]*Atom{}, base: map[*Obj]bool{}, inPool: map[string]bool{}, tm: map[string]*tmplT{}, entryCons: map[string]bool{}, reds: map[string]*eqReducer{}}
	freshSeq++
	f.id = "J" + strconv.Itoa(freshSeq)
	freshSeq++
	defer delete(changedByLoop, f)
	for o := range entry.heap {
		f.base[o] = true
	}
	for _, c := range entry.cons {
		f.entryCons[c.l.Key()] = true
	}
	f.entry = &Path{st: entry, env: map[ssa.Value]Val{}, blk: fn.Blocks[0]}
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		f.live = append(f.live, &retVal{res.At(i).Type(), "ret" + strconv.Itoa(i)})
	}
	for _, x := range rets {
		if x.st.dead || x.st.inconsistent() {
			continue
		}
		p := &Path{st: x.st, env: map[ssa.Value]Val{}, blk: fn.Blocks[0]}
		for i, v := range f.live {
			if res.Len() == 1 {
				p.env[v] = x.ret
			} else {
				p.env[v] = x.ret.(VTuple)[i]
			}
		}
		f.addInc(p, 0)
	}
	f.regroup()
	f.rebuild(true)
	if loopTrace {
		f.dump("join of " + strconv.Itoa(len(rets)))
	}
	var out []Exit
	for _, k := range f.order {
		t := f.tm[k]
		if len(t.incs) == 1 {
			p := t.incs[0].p
			var r Val
			switch res.Len() {
			case 0:
			case 1:
				r = p.env[f.live[0]]
			default:
				var tu VTuple
				for _, v := range f.live {
					tu = append(tu, p.env[v])
				}
				r = tu
			}
			out = append(out, Exit{p.st, r})
			continue
		}
		// what all exits know about older quantities
		keep := func(fm *Form, l *Lin) {
			if !f.rigidLin(l) || t.sk.st.entails(fm) {
				return
			}
			for _, i := range t.incs {
				if !i.p.st.entails(fm) {
					return
				}
			}
			t.sk.st.assumeRaw(fm)
		}
		for _, i := range t.incs[:min(len(t.incs), 2)] {
			for _, c := range i.p.st.cons {
				if c.eq {
					keep(fEq(c.l), c.l)
				} else {
					keep(fLe(c.l), c.l)
				}
			}
			for _, l := range i.p.st.nes {
				keep(fNe(l), l)
			}
		}
		var r Val
		switch res.Len() {
		case 0:
		case 1:
			r = t.sk.env[f.live[0]]
		default:
			var tu VTuple
			for _, v := range f.live {
				tu = append(tu, t.sk.env[v])
			}
			r = tu
		}
		out = append(out, Exit{t.sk.st, r})
	}
	e.invs += len(out)
	return out
}
