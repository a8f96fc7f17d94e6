package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	flagProp  = flag.String("prop", "", "property")
	flagTier  = flag.String("tier", "quick", "quick or thorough")
	flagEv    = flag.String("evidence", "", "evidence file")
	flagEntry = flag.String("entry", "", "run only this harness entry (debugging)")
	flagScen  = flag.String("scen", "", "write the outcome of the entry to this file")
	flagDbg   = flag.Bool("dbg", false, "explain failures")
	flagExt   = flag.Bool("ext", false, "list unmodelled external calls")
)

func newEng(pr *Program, en *Entry) *Eng {
	e := &Eng{prog: pr.prog, analyse: map[*types.Package]bool{}, inHarn: map[*types.Package]bool{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{},
		viol: map[string]*Violation{}, obl: map[string]int{}, funcs: map[*ssa.Function]bool{}, models: models, goModel: map[string]*ssa.Function{},
		notes: map[string]bool{}, checks: map[string]int{}, ranges: map[string]int{}, ext: map[string]int{}, reached: map[string]bool{}, gos: map[*ssa.Go]bool{},
		deadline: time.Now().Add(240 * time.Second), budget: 40_000_000}
	e.harness = en.pkg + "." + en.fn
	for _, p := range pr.ssaPkgs {
		e.analyse[p.Pkg] = true
	}
	hp := pr.ssaPkgs[pr.modPath+"/"+harnPrefix+en.pkg]
	e.inHarn[hp.Pkg] = true
	for name, fn := range en.models {
		f := hp.Func(fn)
		if f == nil {
			panic(engErr{"no model function " + fn})
		}
		e.goModel[name] = f
	}
	e.track = en.flags["track"]
	e.narrow = en.flags["narrow"]
	e.joins = en.flags["join"]
	e.coarse = en.flags["coarse"]
	e.zeros = en.flags["zeros"]
	e.tables = en.flags["tables"]
	e.unroll = en.flags["unroll"]
	e.solo = en.flags["solo"]
	e.dbg = *flagDbg
	return e
}

// runEntry analyses one harness scenario.
func runEntry(pr *Program, en *Entry) (e *Eng) {
	defer func() {
		if r := recover(); r != nil {
			if e == nil {
				e = &Eng{viol: map[string]*Violation{}, obl: map[string]int{}, funcs: map[*ssa.Function]bool{}, checks: map[string]int{}, ext: map[string]int{}, reached: map[string]bool{}, prog: pr.prog}
			}
			msg := fmt.Sprint(r)
			if x, ok := r.(engErr); ok {
				msg = x.msg
			} else if *flagDbg || os.Getenv("MC_STACK") != "" {
				debug.PrintStack()
			}
			where := ""
			if len(e.stack) > 0 {
				where = e.stack[len(e.stack)-1].fn.String()
			}
			if *flagDbg {
				for _, f := range e.stack {
					fmt.Println("  in", f.fn, e.pos(instrPos(f.call)))
				}
			}
			e.viol["undecided|"+en.pkg+"."+en.fn] = &Violation{Rule: "undecided", Func: where, Msg: "analysis could not decide: " + msg, Key: "undecided|" + en.pkg + "." + en.fn}
		}
	}()
	e = newEng(pr, en)
	hp := pr.ssaPkgs[pr.modPath+"/"+harnPrefix+en.pkg]
	st := newState()
	// package initialisation
	e.quiet++
	e.starting = true
	ex := e.callFn(st, hp.Func("init"), nil, nil, nil)
	e.starting = false
	e.quiet--
	if len(ex) != 1 {
		bail("package initialisation has %d outcomes", len(ex))
	}
	st = ex[0].st
	fn := hp.Func(en.fn)
	if fn == nil {
		bail("no harness function %s", en.fn)
	}
	exits := e.callFn(st, fn, nil, nil, nil)
	if en.flags["panics"] && e.obl["reached-panic"] == 0 {
		e.report("assert", "scenario "+en.fn+" never panics, though it has to", nil)
	}
	if len(exits) == 0 && !en.flags["noexit"] && !en.flags["panics"] {
		e.report("undecided", "scenario "+en.fn+" has no completed path", nil)
	}
	return e
}

var panicKinds = map[string]bool{"nil": true, "index": true, "slice": true, "div": true, "typeassert": true, "makeslice": true, "nilmap": true, "panic": true, "close": true, "send": true, "shift": true, "makechan": true}

func kindMatches(want, rule string) bool {
	for _, w := range strings.Split(want, "+") {
		switch w {
		case "panic":
			if panicKinds[rule] {
				return true
			}
		case "assert": // a path that panics does not give what is asserted
			if rule == "assert" || panicKinds[rule] && rule != "panic" {
				return true
			}
		default:
			if w == rule {
				return true
			}
		}
	}
	return rule == "undecided"
}

// Result of a property check.
type Result struct {
	viols    []*Violation
	coverage map[string]any
	assume   []string
	rules    []string
	obl      int
	level    string
	explain  []string
}

func main() {
	flag.StringVar(&repoDir, "repo", "/repo", "repository")
	flag.StringVar(&verifDir, "verif", "/verif", "verification directory")
	flag.Parse()
	debug.SetGCPercent(400)
	t0 := time.Now()
	if f := os.Getenv("MC_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		time.AfterFunc(40*time.Second, pprof.StopCPUProfile)
	}
	res := func() (res *Result) {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("MC_STACK") != "" {
					debug.PrintStack()
				}
				m := fmt.Sprint(r)
				if x, ok := r.(engErr); ok {
					m = x.msg
				}
				res = &Result{viols: []*Violation{{Rule: "undecided", Msg: "analysis failed: " + m, Key: "undecided|internal"}}, coverage: map[string]any{}}
			}
		}()
		return checkProp(*flagProp)
	}()
	wall := time.Since(t0).Seconds()
	os.Exit(emit(res, wall))
}

func checkProp(prop string) *Result {
	res := &Result{coverage: map[string]any{}}
	ents, err := scanHarness()
	if err != nil {
		panic(engErr{err.Error()})
	}
	var use []*Entry
	hs := map[string]bool{}
	for _, en := range ents {
		if *flagEntry != "" {
			if en.pkg+"."+en.fn != *flagEntry && en.pkg != *flagEntry {
				continue
			}
		} else if en.props[prop] == "" {
			continue
		}
		if en.flags["thorough"] && *flagTier != "thorough" {
			continue
		}
		use = append(use, en)
		hs[en.pkg] = true
	}
	pr, err := loadProgram(sortedKeys(hs))
	if err != nil {
		res.viols = append(res.viols, &Violation{Rule: "undecided", Msg: err.Error(), Key: "undecided|load"})
		return res
	}
	tot := map[string]int{}
	funcs := map[string]bool{}
	checks := map[string]int{}
	var scen []map[string]any
	npaths, nloops, ninv := 0, 0, 0
	var outs []*entryOut
	if *flagEntry != "" || len(use) < 2 {
		for _, en := range use {
			outs = append(outs, runOut(pr, en))
		}
	} else {
		outs = forkEntries(prop, use)
	}
	for i, en := range use {
		o := outs[i]
		nv := 0
		for _, v := range o.Viols {
			if *flagEntry != "" || kindMatches(en.props[prop], v.Rule) {
				res.viols = append(res.viols, v)
				nv++
			}
		}
		n := 0
		for k, c := range o.Obl {
			tot[k] += c
			n += c
		}
		for _, f := range o.Funcs {
			funcs[f] = true
		}
		for k, c := range o.Checks {
			checks[en.fn+": "+k] += c
		}
		npaths += o.Paths
		nloops += o.Loops
		ninv += o.Invs
		scen = append(scen, map[string]any{"scenario": en.pkg + "." + en.fn, "what": en.doc, "obligations": n, "paths": o.Paths, "loops": o.Loops, "violations": nv, "seconds": float64(int(o.Secs*10)) / 10})
		if *flagEntry != "" && *flagScen == "" {
			fmt.Printf("%s: %.1fs paths=%d loops=%d inv=%d obl=%v fm=%d/%d hits=%d/%d atoms=%d\n", en.pkg+"."+en.fn, o.Secs, o.Paths, o.Loops, o.Invs, o.Obl, fmCalls, fmAborts, qhits, queries, len(atoms))
		}
		if o.Obl["assert"] == 0 && !en.flags["panics"] && strings.Contains(en.props[prop], "assert") && nv == 0 {
			res.viols = append(res.viols, &Violation{Rule: "undecided", Msg: "scenario " + en.fn + " reached no assertion", Key: "undecided|vacuous|" + en.fn})
		}
	}
	if *flagScen != "" {
		b, _ := json.Marshal(outs)
		if err := os.WriteFile(*flagScen, b, 0o644); err != nil {
			panic(err)
		}
		os.Exit(0)
	}
	if len(use) > 0 {
		res.coverage["scenarios"] = scen
		nob := 0
		for _, c := range tot {
			nob += c
		}
		res.obl += nob
		res.coverage["obligations_by_kind"] = tot
		res.coverage["functions_analysed"] = sortedSet(funcs)
		res.coverage["assertions"] = checks
		res.coverage["partitions"] = npaths
		res.coverage["loops_solved"] = nloops
		res.coverage["invariant_templates"] = ninv
		res.rules = append(res.rules, "abstract interpretation")
	}
	for _, r := range rulesFor(prop) {
		r(pr, res)
	}
	if len(use) == 0 && len(rulesFor(prop)) == 0 {
		res.viols = append(res.viols, &Violation{Rule: "undecided", Msg: "no check for " + prop, Key: "undecided|nocheck"})
	}
	return res
}

// entryOut is the outcome of one scenario.
type entryOut struct {
	Viols              []*Violation
	Obl                map[string]int
	Funcs              []string
	Checks             map[string]int
	Paths, Loops, Invs int
	Secs               float64
}

func runOut(pr *Program, en *Entry) *entryOut {
	t := time.Now()
	e := runEntry(pr, en)
	o := &entryOut{Obl: e.obl, Checks: e.checks, Paths: e.paths, Loops: e.loopN, Invs: e.invs, Secs: time.Since(t).Seconds()}
	for _, k := range sortedKeys(e.viol) {
		o.Viols = append(o.Viols, e.viol[k])
	}
	fs := map[string]bool{}
	for f := range e.funcs {
		if !e.isHarn(f) {
			fs[fnName(f)] = true
		}
	}
	o.Funcs = sortedSet(fs)
	if *flagExt {
		for _, k := range sortedKeys(e.ext) {
			fmt.Println("EXT", e.ext[k], k)
		}
	}
	return o
}

// forkEntries analyses the scenarios in separate processes.
func forkEntries(prop string, use []*Entry) []*entryOut {
	outs := make([]*entryOut, len(use))
	self, err := os.Executable()
	if err != nil {
		panic(engErr{err.Error()})
	}
	dir, err := os.MkdirTemp("", "mediacheck")
	if err != nil {
		panic(engErr{err.Error()})
	}
	defer os.RemoveAll(dir)
	var wg sync.WaitGroup
	sem := make(chan bool, max(2, min(8, runtime.NumCPU())))
	for i, en := range use {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			f := filepath.Join(dir, strconv.Itoa(i)+".json")
			cmd := exec.Command(self, "-prop", prop, "-tier", *flagTier, "-repo", repoDir, "-verif", verifDir, "-entry", en.pkg+"."+en.fn, "-scen", f)
			msg, err := cmd.CombinedOutput()
			var r []*entryOut
			if b, err2 := os.ReadFile(f); err == nil && err2 == nil && json.Unmarshal(b, &r) == nil && len(r) == 1 {
				outs[i] = r[0]
				return
			}
			outs[i] = &entryOut{Viols: []*Violation{{Rule: "undecided", Msg: fmt.Sprintf("scenario %s was not analysed: %v %s", en.fn, err, trunc(string(msg), 300)), Key: "undecided|" + en.pkg + "." + en.fn}}}
		}()
	}
	wg.Wait()
	return outs
}

func sortedSet(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

type known struct {
	prop, key, what string
}

func knownFindings() []known {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, ln := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(ln, "finding: ") {
			continue
		}
		// finding: property=<id> key=<key> :: <what>
		f := strings.TrimPrefix(ln, "finding: ")
		head, what, _ := strings.Cut(f, " :: ")
		var k known
		k.what = what
		if i := strings.Index(head, " key="); i > 0 {
			k.prop = strings.TrimPrefix(head[:i], "property=")
			k.key = head[i+5:]
		}
		out = append(out, k)
	}
	return out
}

func emit(res *Result, wall float64) int {
	prop := *flagProp
	kf := knownFindings()
	var bad []*Violation
	for _, v := range res.viols {
		isKnown := false
		for _, k := range kf {
			if k.prop == prop && k.key == v.Key {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
				isKnown = true
			}
		}
		if !isKnown {
			bad = append(bad, v)
		}
	}
	for _, v := range bad {
		fmt.Printf("%s: %s: %s [%s]\n", v.Pos, v.Func, v.Msg, v.Rule)
		for _, s := range v.Stack {
			fmt.Printf("    %s\n", s)
		}
	}
	if *flagEv != "" {
		if res.level == "" {
			res.level = "proof"
		}
		res.coverage["obligations"] = res.obl
		res.coverage["discharged"] = max(res.obl-len(res.viols), 0)
		res.coverage["checker_cmd"] = "bash /verif/check.sh " + prop + " " + *flagTier
		res.coverage["trusted_base"] = []string{"go/types and golang.org/x/tools/go/ssa", "the checker in /verif/checker, its models of external functions and the scenarios in /verif/harness"}
		res.coverage["explanation"] = strings.Join(append([]string{"rules applied: " + strings.Join(res.rules, ", ")}, res.explain...), "; ")
		ev := map[string]any{
			"property": prop, "tier": *flagTier, "seed": seed(), "level": res.level, "coverage": res.coverage,
			"assumptions": append(baseAssumptions, res.assume...), "wall_s": wall, "violations": len(bad),
		}
		if len(bad) > 0 {
			ev["violation_details"] = bad
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(*flagEv), 0o755)
		if err := os.WriteFile(*flagEv, append(b, '\n'), 0o644); err != nil {
			fmt.Println("cannot write evidence:", err)
			return 1
		}
	}
	if len(bad) > 0 {
		replay := filepath.Join(verifDir, "evidence", prop+".violations.json")
		b, _ := json.MarshalIndent(bad, "", " ")
		os.MkdirAll(filepath.Dir(replay), 0o755)
		os.WriteFile(replay, append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		return 1
	}
	fmt.Printf("OK property=%s\n", prop)
	return 0
}

func seed() int {
	var n int
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

var baseAssumptions = []string{
	"64-bit integer arithmetic does not overflow",
	"distinct symbolic inputs (arguments, fields of unknown objects) do not alias each other",
}

type ruleFn func(pr *Program, res *Result)

func rulesFor(prop string) []ruleFn { return rules[prop] }

var rules = map[string][]ruleFn{}
