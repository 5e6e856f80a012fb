package main

import (
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func runOut(name string, args ...string) (string, error) {
	b, err := exec.Command(name, args...).Output()
	return string(b), err
}

type inputVar struct {
	name string
	typ  types.Type
	val  Value
}

type HarnessResult struct {
	Decl    *HarnessDecl
	Obl     map[string]*Oblig
	Fails   []*Failure
	Err     string // unsupported construct, time limit: undecided
	Rounds  int
	Paths   int
	Instrs  int
	Reach   int // ensures reached
	Returns int
	Inlined []string
	Assumed []string
	Contr   []string
	Covers  []string
	Loops   int
	Cands   int
	Elapsed time.Duration
	Bounded bool
	MapHit  bool
}

func NewExec(w *World, d *HarnessDecl, stats *SolverStats, dbg bool) *Exec {
	c := NewCtx()
	x := &Exec{w: w, c: c, s: NewSolver(c, stats), base: map[string]*MNode{}, strs: map[uint64]string{}, strIDs: map[string]uint64{},
		tids: map[string]uint32{}, obl: map[string]*Oblig{}, loops: map[string]*loopInfo{}, precise: map[string]bool{}, instrID: map[ssa.Instruction]int{},
		covers: map[string]bool{}, inlined: map[string]bool{}, assumed: map[string]bool{}, contr: map[string]bool{}, failed: map[string]int{},
		vers: map[string]*HVer{}, fdecls: map[string]*Decl{}, quantMemo: map[*Term]bool{}, regType: map[string]types.Type{}, dbg: dbg}
	x.zeroNode = &MNode{kind: mBase, ver: x.newVer("zero", symHi)}
	x.h = &Harness{Name: d.Name, decl: d, Unroll: d.Unroll, Peel: d.Peel, Bounded: d.Bounded, Rec: d.Rec, uses: map[*ssa.Function]*ssa.Function{}, invs: w.invs[d.fn.Pkg],
		ufs: map[string]*Decl{}, bvars: map[string]*Term{}, bdepth: map[*Term]int{}, unkcap: map[*Term]bool{}, strkeys: map[string]*Term{}}
	for _, u := range d.Uses {
		vc := d.fn.Pkg.Func(u)
		if vc == nil || w.contracts[vc] == nil {
			panic(unsupported{"contract " + u + " not found"})
		}
		x.h.uses[w.contracts[vc]] = vc
	}
	return x
}

func (x *Exec) initState() *State {
	st := &State{mem: map[string]*MNode{}, next: mark0, super: map[*Term]string{}, globals: map[string]bool{}}
	// exported error variables of dependencies are distinct non-nil errors
	for _, g := range x.w.gorder {
		p := g.Pkg.Pkg.Path()
		if strings.HasPrefix(p, repoMod) {
			continue
		}
		t := g.Type().(*types.Pointer).Elem()
		if tkeyOf(t) == "error" && (p == "io" || p == "bufio" || p == "net" || p == "os" || p == "bytes" || p == "io/fs" || p == "strconv" || p == "net/http") {
			x.storeAt(st, t, tkeyOf(t), x.c.BV(x.w.globalID(g), 64), []*Term{x.c.I(0)}, x.newError(st), false)
		}
	}
	return st
}

// runInit executes the package initialisers of the repository symbolically
// (they take no input, so every step is concrete).
func (x *Exec) runInit(st *State, pkg *ssa.Package, done map[*ssa.Package]bool) *State {
	if done[pkg] {
		return st
	}
	done[pkg] = true
	for _, im := range pkg.Pkg.Imports() {
		if strings.HasPrefix(im.Path(), repoMod) {
			if ip := x.w.pkgs[im.Path()]; ip != nil {
				st = x.runInit(st, ip, done)
			}
		}
	}
	fn := pkg.Func("init")
	if fn == nil || fn.Blocks == nil {
		return st
	}
	var res *State
	save := x.h.Unroll
	sb := x.h.Bounded
	x.h.Unroll, x.h.Bounded = 1<<20, 0
	defer func() { x.h.Unroll, x.h.Bounded = save, sb }()
	work := st.clone()
	if g, ok := pkg.Members["init$guard"].(*ssa.Global); ok {
		x.storeAt(work, types.Typ[types.Bool], tkeyOf(types.Typ[types.Bool]), x.c.BV(x.w.globalID(g), 64), []*Term{x.c.I(0)}, x.c.False, false)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					x.assumed["initialiser of "+pkg.Pkg.Path()+" not executed: "+u.msg] = true
					return
				}
				panic(r)
			}
		}()
		x.push(work, nil, fn, nil, nil, func(x *Exec, s *State, v Value) {
			if res == nil {
				res = s.clone()
				res.frames = nil
			}
			s.dead = true
		})
		x.run(work)
	}()
	if res == nil {
		// unknown contents for this package's variables
		for _, g := range x.w.gorder {
			if g.Pkg == pkg {
				x.havocGlobal(st, g)
			}
		}
		return st
	}
	return res
}

func (x *Exec) havocGlobal(st *State, g *ssa.Global) {
	t := g.Type().(*types.Pointer).Elem()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); !ok {
				panic(r)
			}
		}
	}()
	p := x.ptrTo(t, x.c.BV(x.w.globalID(g), 64), x.c.I(0))
	if at, ok := under(t).(*types.Array); ok {
		x.havocObj(st, at.Elem(), p.root, p.obj)
		return
	}
	x.havocObj(st, t, p.root, p.obj)
}

// input builds the arbitrary argument of a harness.
func (x *Exec) input(st *State, name string, t types.Type, nobj *uint64, top bool) Value {
	c := x.c
	switch u := under(t).(type) {
	case *types.Slice:
		*nobj++
		ln := x.freshRng(st, name+".len", 64, 0, maxLen)
		cp := x.freshRng(st, name+".cap", 64, 0, maxLen)
		st.assume(c.Ule(ln, cp))
		return VSlice{reg: tkeyOf(u.Elem()), obj: c.BV(*nobj, 64), off: c.I(0), len: ln, cap: cp}
	case *types.Basic:
		if isString(t) {
			*nobj++
			return VStr{obj: c.BV(*nobj, 64), off: c.I(0), len: x.freshRng(st, name+".len", 64, 0, maxLen)}
		}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = x.input(st, name+"."+u.Field(i).Name(), u.Field(i).Type(), nobj, false)
		}
		return VStruct{f}
	case *types.Pointer:
		*nobj++
		return x.ptrTo(u.Elem(), c.BV(*nobj, 64), c.I(0))
	case *types.Array:
		*nobj++
		if _, ok := under(u.Elem()).(*types.Struct); ok {
			f := make([]Value, u.Len())
			for i := range f {
				f[i] = x.input(st, fmt.Sprintf("%s[%d]", name, i), u.Elem(), nobj, false)
			}
			return VStruct{f}
		}
		return VArr{node: x.node(st, tkeyOf(u.Elem())), reg: tkeyOf(u.Elem()), ety: u.Elem(), obj: c.BV(*nobj, 64), off: c.I(0), n: u.Len()}
	}
	return x.havocVal(st, t, name)
}

func RunHarness(w *World, d *HarnessDecl, stats *SolverStats, dbg bool, limit time.Duration) (res *HarnessResult) {
	t0 := time.Now()
	res = &HarnessResult{Decl: d}
	var x *Exec
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				res.Err = "not supported: " + e.msg
			case abortRun:
				res.Err = e.why
			default:
				if os.Getenv("GOVC_PANIC") != "" {
					panic(r)
				}
				res.Err = fmt.Sprintf("engine: %v", r)
			}
		}
		res.Elapsed = time.Since(t0)
		if x != nil {
			res.Obl, res.Fails, res.Rounds, res.Paths, res.Instrs, res.Reach = x.obl, x.fails, x.rounds, x.paths, x.instrs, x.reach
			res.Inlined, res.Assumed, res.Contr, res.Covers = sortedKeys(x.inlined), sortedKeys(x.assumed), sortedKeys(x.contr), sortedKeys(x.covers)
			res.Bounded = x.h.Bounded > 0
			res.Loops = len(x.loops)
			x.s.Close()
		}
	}()
	x = NewExec(w, d, stats, dbg)
	x.deadln = t0.Add(limit)
	for x.rounds = 1; ; x.rounds++ {
		if x.rounds > 150 {
			res.Err = "loop invariants did not converge"
			return
		}
		x.dirty, x.pendAny, x.dirtyLoop = false, false, nil
		x.obl = map[string]*Oblig{}
		x.fails = nil
		x.failed = map[string]int{}
		x.reach = 0
		x.assumed = map[string]bool{}
		x.inlined = map[string]bool{}
		x.covers = map[string]bool{}
		x.inputs = nil
		for _, l := range x.loops {
			l.assumed = false
			l.pend = nil
			l.superOut = nil
		}
		res.Returns = 0
		restarted := ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					if rr, ok := r.(restartRound); ok {
						restarted = rr.why
						return
					}
					panic(r)
				}
			}()
			if x.initSt == nil {
				x.inInit = true
				st := x.initState()
				st = x.runInit(st, d.fn.Pkg, map[*ssa.Package]bool{})
				x.inInit = false
				x.initSt = st
				x.initAssumed = x.assumed
				x.obl = map[string]*Oblig{}
				x.fails, x.failed = nil, map[string]int{}
				x.inlined, x.contr, x.covers = map[string]bool{}, map[string]bool{}, map[string]bool{}
				x.paths = 0
				x.dirty = false
			}
			x.assumed = map[string]bool{}
			for k := range x.initAssumed {
				if strings.HasPrefix(k, "initialiser of") {
					x.assumed[k] = true
				}
			}
			st := x.initSt.clone()
			for g := range w.mutable {
				if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), repoMod) {
					x.globals = append(x.globals, g)
				}
			}
			sort.Slice(x.globals, func(i, j int) bool { return w.globals[x.globals[i]] < w.globals[x.globals[j]] })
			for _, g := range x.globals {
				x.havocGlobal(st, g)
			}
			x.globals = nil
			var nobj uint64
			var args []Value
			for _, p := range d.fn.Params {
				v := x.input(st, p.Name(), p.Type(), &nobj, true)
				args = append(args, v)
				x.inputs = append(x.inputs, inputVar{p.Name(), p.Type(), v})
			}
			x.init0 = st.clone()
			x.onRet = nil
			x.push(st, nil, d.fn, args, nil, func(x *Exec, s *State, v Value) {
				res.Returns++
				s.dead = true
			})
			x.run(st)
		}()
		if restarted != "" {
			if dbg {
				fmt.Fprintln(os.Stderr, "   restart:", restarted)
			}
			continue
		}
		if dbg {
			fmt.Fprintf(os.Stderr, "   round %d: paths %d instrs %d dirty %v fails %d\n", x.rounds, x.paths, x.instrs, x.dirty, len(x.fails))
		}
		if !x.dirty {
			for _, l := range x.loops {
				for k := range l.pend {
					l.killed[k] = true
				}
			}
			if !x.pendAny {
				break
			}
		}
	}
	return
}
