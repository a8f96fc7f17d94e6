package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

const goBin = "/opt/veriftools/go1.24.13/bin"

// Entry is a scenario of a harness package.
type Entry struct {
	pkg    string            // harness directory name
	fn     string            // function name
	props  map[string]string // property -> "assert", "panic", "range", "lock" (several joined by +)
	flags  map[string]bool
	models map[string]string // modelled function -> harness function
	doc    string
}

var dirRe = regexp.MustCompile(`(?m)^//verif:(check|model)[ \t]+(.*)\n(?://.*\n)*func ([A-Za-z0-9_]+)`)
var modRe = regexp.MustCompile(`(?m)^//verif:model[ \t]+(.*)$`)

func scanHarness() ([]*Entry, error) {
	dirs, err := os.ReadDir(filepath.Join(verifDir, "harness"))
	if err != nil {
		return nil, err
	}
	var out []*Entry
	for _, d := range dirs {
		if !d.IsDir() {
			continue
		}
		files, _ := filepath.Glob(filepath.Join(verifDir, "harness", d.Name(), "*.go"))
		var es []*Entry
		ms := map[string]string{}
		for _, f := range files {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			src := string(b)
			// group directives directly above a function
			lines := strings.Split(src, "\n")
			var pend []string
			for _, ln := range lines {
				switch {
				case strings.HasPrefix(ln, "//"):
					pend = append(pend, ln)
				case strings.HasPrefix(ln, "func "):
					name := strings.TrimPrefix(ln, "func ")
					if i := strings.IndexAny(name, "([ "); i > 0 {
						name = name[:i]
					}
					for _, pl := range pend {
						if strings.HasPrefix(pl, "//verif:check ") {
							en := &Entry{pkg: d.Name(), fn: name, props: map[string]string{}, flags: map[string]bool{}}
							for _, w := range strings.Fields(strings.TrimPrefix(pl, "//verif:check ")) {
								if p, k, ok := strings.Cut(w, "="); ok {
									en.props[p] = k
								} else {
									en.flags[w] = true
								}
							}
							var doc []string
							for _, q := range pend {
								if !strings.HasPrefix(q, "//verif:") {
									doc = append(doc, strings.TrimSpace(strings.TrimPrefix(q, "//")))
								}
							}
							en.doc = strings.Join(doc, " ")
							es = append(es, en)
						}
						if strings.HasPrefix(pl, "//verif:model ") {
							ms[strings.TrimSpace(strings.TrimPrefix(pl, "//verif:model "))] = name
						}
					}
					pend = nil
				default:
					pend = nil
				}
			}
		}
		for _, e := range es {
			e.models = ms
		}
		out = append(out, es...)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].pkg+out[i].fn < out[j].pkg+out[j].fn })
	return out, nil
}

// Program is the loaded repository together with the harness packages.
type Program struct {
	prog    *ssa.Program
	pkgs    []*packages.Package
	ssaPkgs map[string]*ssa.Package
	repo    []*ssa.Package // packages of the repository (no harness)
	modPath string
}

func goEnv() []string {
	var env []string
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		switch k {
		case "PATH", "GOTOOLCHAIN", "GOPROXY", "GOFLAGS", "GOWORK", "GO111MODULE", "GOOS", "GOARCH", "CGO_ENABLED":
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "PATH="+goBin+":"+os.Getenv("PATH"), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=1")
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return env
}

const harnPrefix = "zz_verif_"

func loadProgram(harnesses []string) (*Program, error) {
	overlay := map[string][]byte{}
	patterns := []string{"./...", "github.com/frostbyte73/core", "sync", "slices", "maps", "cmp"}
	prelude, err := os.ReadFile(filepath.Join(verifDir, "harness", "prelude.go.txt"))
	if err != nil && len(harnesses) > 0 {
		return nil, err
	}
	for _, h := range harnesses {
		dir := filepath.Join(repoDir, harnPrefix+h)
		files, _ := filepath.Glob(filepath.Join(verifDir, "harness", h, "*.go"))
		for _, f := range files {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			overlay[filepath.Join(dir, filepath.Base(f))] = b
		}
		overlay[filepath.Join(dir, "prelude.go")] = []byte(strings.Replace(string(prelude), "PKG", h, 1))
		patterns = append(patterns, "./"+harnPrefix+h)
	}
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:     repoDir,
		Env:     goEnv(),
		Overlay: overlay,
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, fmt.Errorf("loading %s: %v", repoDir, err)
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the source does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, sps := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	pr := &Program{prog: prog, pkgs: ps, ssaPkgs: map[string]*ssa.Package{}}
	for i, sp := range sps {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", ps[i].PkgPath)
		}
		pr.ssaPkgs[sp.Pkg.Path()] = sp
		if ps[i].Module != nil && ps[i].Module.Main && !strings.Contains(sp.Pkg.Path(), harnPrefix) {
			pr.repo = append(pr.repo, sp)
			pr.modPath = ps[i].Module.Path
		}
	}
	sort.Slice(pr.repo, func(i, j int) bool { return pr.repo[i].Pkg.Path() < pr.repo[j].Pkg.Path() })
	return pr, nil
}

func (pr *Program) isRepo(p *types.Package) bool {
	if p == nil {
		return false
	}
	for _, r := range pr.repo {
		if r.Pkg == p {
			return true
		}
	}
	return false
}
