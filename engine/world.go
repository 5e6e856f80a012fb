package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoMod = "github.com/sbraveyoung/GGmpeg"

// World is the loaded program, shared by all harness runs.
type World struct {
	prog       *ssa.Program
	pkgs       map[string]*ssa.Package // by path
	spkgs      []*packages.Package
	mu         sync.Mutex
	loops      map[*ssa.Function]*loopIdx
	globals    map[*ssa.Global]uint64
	gorder     []*ssa.Global
	errPtrType *types.Pointer
	harnesses  []*HarnessDecl
	contracts  map[*ssa.Function]*ssa.Function // contract fn -> target
	vcVerified map[*ssa.Function]bool          // contracts some harness verifies
	invs       map[*ssa.Package][]invFn
	mutable    map[*ssa.Global]bool
	specFile   map[string]bool
	goModels   map[string]*ssa.Function
	ufs        map[*ssa.Function]bool
	fileText   map[string]string
}

type HarnessDecl struct {
	Name     string
	Dir      string // package dir relative to /repo
	fn       *ssa.Function
	Unroll   int
	Peel     int
	Bounded  int
	Rec      int
	Uses     []string
	TimeS    int
	Note     string
	NoReplay bool
	Thorough bool // too long for the quick tier
}

// Harness is the per-run part.
type Harness struct {
	Name    string
	decl    *HarnessDecl
	Unroll  int
	Peel    int
	Bounded int
	Rec     int
	uses    map[*ssa.Function]*ssa.Function
	invs    []invFn
	ufs     map[string]*Decl
	bvars   map[string]*Term
	bdepth  map[*Term]int
	unkcap  map[*Term]bool
	strkeys map[string]*Term
}

func (h *Harness) recLimit() int {
	if h.Rec > 0 {
		return h.Rec
	}
	return 12
}

type hashRec struct {
	fn   *ssa.Function
	args []Value
	out  []*Term
}

// Load loads the target packages of one property with its specification files overlaid.
func Load(repo, prop, verif string) (*World, error) {
	dirs, overlay, err := overlays(repo, prop, verif, false)
	if err != nil {
		return nil, err
	}
	std := filepath.Join(verif, "contracts", "_std")
	goroot := goRoot()
	filepath.Walk(std, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(std, p)
			b, _ := os.ReadFile(p)
			overlay[filepath.Join(goroot, "src", rel)] = b
		}
		return nil
	})
	var pats []string
	for _, d := range dirs {
		pats = append(pats, "./"+d)
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: overlay, Tests: false,
		Env: append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "CGO_ENABLED=0")}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the specification does not fit the code: %s", strings.Join(errs[:min(len(errs), 6)], "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.GlobalDebug)
	prog.Build()
	w := &World{prog: prog, pkgs: map[string]*ssa.Package{}, spkgs: ps, loops: map[*ssa.Function]*loopIdx{}, globals: map[*ssa.Global]uint64{},
		contracts: map[*ssa.Function]*ssa.Function{}, invs: map[*ssa.Package][]invFn{}, mutable: map[*ssa.Global]bool{}, specFile: map[string]bool{},
		goModels: map[string]*ssa.Function{}, ufs: map[*ssa.Function]bool{}}
	for _, p := range prog.AllPackages() {
		w.pkgs[p.Pkg.Path()] = p
	}
	ep := w.pkgs["errors"]
	if ep == nil {
		return nil, fmt.Errorf("package errors not loaded")
	}
	w.errPtrType = types.NewPointer(ep.Type("errorString").Type())
	for f := range overlay {
		if strings.Contains(f, "zz_verif_") {
			w.specFile[f] = true
		}
	}
	w.numberGlobals()
	for _, p := range ps {
		sp := prog.Package(p.Types)
		rel := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, repoMod), "/")
		w.scanSpec(p, sp, rel)
	}
	sort.Slice(w.harnesses, func(i, j int) bool { return w.harnesses[i].Name < w.harnesses[j].Name })
	w.vcVerified = map[*ssa.Function]bool{}
	for _, h := range w.harnesses {
		for _, b := range h.fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if f := c.Call.StaticCallee(); f != nil && w.contracts[f] != nil {
						w.vcVerified[f] = true
					}
				}
			}
		}
	}
	w.findMutable()
	return w, nil
}

func goRoot() string {
	if r := os.Getenv("GOROOT"); r != "" {
		return r
	}
	b, err := runOut("go", "env", "GOROOT")
	if err != nil {
		return "/usr/local/go"
	}
	return strings.TrimSpace(b)
}

// overlays maps specification files into the target packages.
func overlays(repo, prop, verif string, native bool) ([]string, map[string][]byte, error) {
	root := filepath.Join(verif, "contracts", prop)
	ents, err := os.ReadDir(root)
	if err != nil {
		return nil, nil, err
	}
	ov := map[string][]byte{}
	var dirs []string
	for _, e := range ents {
		if !e.IsDir() {
			continue
		}
		dir := strings.ReplaceAll(e.Name(), "__", "/")
		fs, _ := filepath.Glob(filepath.Join(root, e.Name(), "*.go"))
		if len(fs) == 0 {
			continue
		}
		dirs = append(dirs, dir)
		pkgName := pkgNameOf(filepath.Join(repo, dir))
		suf := ".go"
		api := "api_spec.txt"
		if native {
			suf = "_test.go"
			api = "api_native.txt"
		}
		b, err := os.ReadFile(filepath.Join(verif, "contracts", "_api", api))
		if err != nil {
			return nil, nil, err
		}
		ov[filepath.Join(repo, dir, "zz_verif_api"+suf)] = []byte(strings.ReplaceAll(string(b), "PKGNAME", pkgName))
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, nil, err
			}
			base := strings.TrimSuffix(filepath.Base(f), ".go")
			ov[filepath.Join(repo, dir, "zz_verif_"+base+suf)] = b
		}
		// shared helper files: contracts/_lib/<name>.go included by "//verif:include name"
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "//verif:include ") {
					n := strings.TrimSpace(strings.TrimPrefix(l, "//verif:include "))
					lb, err := os.ReadFile(filepath.Join(verif, "contracts", "_lib", n+".txt"))
					if err != nil {
						return nil, nil, err
					}
					ov[filepath.Join(repo, dir, "zz_verif_lib_"+n+suf)] = []byte(strings.ReplaceAll(string(lb), "PKGNAME", pkgName))
				}
			}
		}
	}
	return dirs, ov, nil
}

func pkgNameOf(dir string) string {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "package ") {
				return strings.Fields(l)[1]
			}
		}
	}
	return filepath.Base(dir)
}

func (w *World) scanSpec(p *packages.Package, sp *ssa.Package, dir string) {
	for _, f := range p.Syntax {
		fname := p.Fset.Position(f.Pos()).Filename
		if !w.specFile[fname] {
			continue
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			fn := sp.Func(fd.Name.Name)
			if fn == nil {
				continue
			}
			dirs := map[string]string{}
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					if strings.HasPrefix(c.Text, "//verif:") {
						t := strings.SplitN(strings.TrimPrefix(c.Text, "//verif:"), " ", 2)
						v := ""
						if len(t) > 1 {
							v = strings.TrimSpace(t[1])
						}
						if dirs[t[0]] != "" {
							v = dirs[t[0]] + " " + v
						}
						dirs[t[0]] = v
						if v == "" {
							dirs[t[0]] = "1"
						}
					}
				}
			}
			n := fd.Name.Name
			atoi := func(s string, d int) int {
				k := d
				if s != "" {
					fmt.Sscanf(s, "%d", &k)
				}
				return k
			}
			switch {
			case strings.HasPrefix(n, "vh_"):
				h := &HarnessDecl{Name: n, Dir: dir, fn: fn, Unroll: atoi(dirs["unroll"], 40), Bounded: atoi(dirs["bounded"], 0), Peel: atoi(dirs["peel"], 0), Rec: atoi(dirs["rec"], 0), TimeS: atoi(dirs["time"], 400), Note: dirs["note"]}
				h.Uses = strings.Fields(dirs["use"])
				h.NoReplay = dirs["noreplay"] != ""
				h.Thorough = dirs["thorough"] != ""
				w.harnesses = append(w.harnesses, h)
			case strings.HasPrefix(n, "vc_"):
				if t := findTarget(w, fn); t != nil {
					w.contracts[fn] = t
				} else {
					fmt.Fprintln(os.Stderr, "warning: contract", n, "has no target call")
				}
			case dirs["model"] != "":
				for _, t := range strings.Fields(dirs["model"]) {
					w.goModels[strings.ReplaceAll(t, "~", " ")] = fn
				}
			case dirs["uf"] != "":
				w.ufs[fn] = true
			case strings.HasPrefix(n, "inv_"):
				w.invs[sp] = append(w.invs[sp], invFn{fn, dirs["scope"]})
			}
		}
	}
}

func findTarget(w *World, vc *ssa.Function) *ssa.Function {
	want := vc.Name()
	i := strings.LastIndex(want, "_")
	want = want[i+1:]
	for _, b := range vc.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && f.Name() == want && !w.isSpec(f) {
					return f
				}
			}
		}
	}
	return nil
}

func (w *World) contractTarget(fn *ssa.Function) *ssa.Function { return w.contracts[fn] }

func (w *World) isSpec(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if !fn.Pos().IsValid() {
		return false
	}
	f := w.prog.Fset.Position(fn.Pos()).Filename
	return strings.Contains(f, "/zz_verif_")
}

func pkgPath(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (w *World) isRepo(fn *ssa.Function) bool {
	return strings.HasPrefix(pkgPath(fn), repoMod)
}

var stdInline = map[string]bool{"encoding/binary": true, "math/bits": true, "io": true, "bytes": true, "strings": true, "bufio": true, "internal/byteorder": true,
	"unicode/utf8": true, "math": true, "container/list": true, "strconv": true, "errors": true, "encoding/hex": true, "container/ring": true, "sync/atomic": true, "time": true}

func (w *World) inlinable(fn *ssa.Function) bool {
	p := pkgPath(fn)
	if p == "" || strings.HasPrefix(p, repoMod) || strings.HasPrefix(p, "github.com/SmartBrave/Athena") {
		return true
	}
	return stdInline[p]
}

func (w *World) loopsOf(fn *ssa.Function) *loopIdx {
	w.mu.Lock()
	defer w.mu.Unlock()
	l := w.loops[fn]
	if l == nil {
		l = computeLoops(fn)
		w.loops[fn] = l
	}
	return l
}

const globBase = strBase + 1<<30

func (w *World) numberGlobals() {
	var gs []*ssa.Global
	for _, p := range w.prog.AllPackages() {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				gs = append(gs, g)
			}
		}
	}
	sort.Slice(gs, func(i, j int) bool {
		a, b := gs[i], gs[j]
		if a.Pkg.Pkg.Path() != b.Pkg.Pkg.Path() {
			return a.Pkg.Pkg.Path() < b.Pkg.Pkg.Path()
		}
		return a.Name() < b.Name()
	})
	for i, g := range gs {
		w.globals[g] = uint64(globBase) + uint64(i)
	}
	w.gorder = gs
}

func (w *World) globalID(g *ssa.Global) uint64 {
	id, ok := w.globals[g]
	if !ok {
		panic("unknown global " + g.String())
	}
	return id
}

func (w *World) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	w.mu.Lock()
	defer w.mu.Unlock()
	sel := w.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return w.prog.MethodValue(sel)
}

// findMutable finds package variables of the repository that are assigned or
// modified outside package initialisation.
func (w *World) findMutable() {
	mark := func(v ssa.Value) {
		for d := 0; d < 6 && v != nil; d++ {
			switch k := v.(type) {
			case *ssa.Global:
				w.mutable[k] = true
				return
			case *ssa.FieldAddr:
				v = k.X
			case *ssa.IndexAddr:
				v = k.X
			case *ssa.UnOp:
				v = k.X
			case *ssa.Slice:
				v = k.X
			default:
				return
			}
		}
	}
	for fn := range ssautil.AllFunctions(w.prog) {
		if !strings.HasPrefix(pkgPath(fn), repoMod) || fn.Name() == "init" && fn.Synthetic != "" || w.isSpec(fn) {
			continue
		}
		isInit := strings.HasPrefix(fn.Name(), "init#") || fn.Name() == "init"
		if isInit {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Store:
					mark(i.Addr)
				case *ssa.MapUpdate:
					mark(i.Map)
				case ssa.CallInstruction:
					cm := i.Common()
					for _, a := range cm.Args {
						if g, ok := a.(*ssa.Global); ok { // address escapes
							w.mutable[g] = true
						}
					}
					if bi, ok := cm.Value.(*ssa.Builtin); ok && (bi.Name() == "copy" || bi.Name() == "delete") {
						mark(cm.Args[0])
					}
				}
			}
		}
	}
}
