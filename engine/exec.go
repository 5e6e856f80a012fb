package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Value
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	ip     int
	defers []deferred
	names  map[string]ssa.Value
	ctx    string
	call   ssa.Instruction // call in the parent frame
	active map[*ssa.BasicBlock]*activeLoop
	unroll map[*ssa.BasicBlock]int
	retTo  func(x *Exec, st *State, v Value) // overrides storing into parent
	sum    *summary
	retv   Value
	inDef  bool
	env    map[string]Value // entry parameter values
}

type State struct {
	mem     map[string]*MNode
	pc      []*Term
	next    uint64
	frames  []*Frame
	pure    bool
	super   map[*Term]string
	dead    bool
	nfresh  int
	globals map[string]bool
	frame   []*frameChk
	hashes  []hashRec
	dup     map[string]*Term
	dec     []*Term // outcomes of forks made to resolve a memory read
}

type summary struct {
	target *ssa.Function
	mods   []modLoc
	mode   int // 1 = assume (summary), 2 = verify
	called bool
}
type modLoc struct {
	reg        string
	obj        *Term
	pre        []*Term
	lo, hi     *Term
	whole      bool
	leafPrefix string
}
type frameChk struct {
	name string
	mods []modLoc
	mark uint64
}

type activeLoop struct {
	info   *loopInfo
	mark   uint64
	end    uint64
	serial int
	ent    map[string]lvar
	mem    map[string]*MNode // memory on entry

	assumed map[string]bool
}

type Failure struct {
	Name   string
	Kind   string
	Msg    string
	Inputs map[string]interface{}
	HasMod bool
	Res    string
	Trace  string
}

type Oblig struct {
	Name       string
	Checked    int
	Trivial    int
	Discharged int
	Failed     int
	Tools      map[string]int
}

type Exec struct {
	entryMem    map[string]*MNode
	allocIDs    map[string][]uint64 // object numbers by allocation site
	allocNext   map[uint64]uint64   // next unused number by epoch
	cur         *State              // path being executed
	pendAny     bool
	quantMemo   map[*Term]bool
	pureDepth   int
	w           *World
	c           *Ctx
	s           *Solver
	base        map[string]*MNode
	strs        map[uint64]string
	strIDs      map[string]uint64
	nextStr     uint64
	memSeq      int
	zeroObj     int
	tids        map[string]uint32
	h           *Harness
	obl         map[string]*Oblig
	fails       []*Failure
	loops       map[string]*loopInfo
	precise     map[string]bool
	dirty       bool
	dirtyLoop   *loopInfo // the loop whose invariant set made the round dirty
	rounds      int
	paths       int
	instrs      int
	deadln      time.Time
	inputs      []inputVar
	dbg         bool
	instrID     map[ssa.Instruction]int
	onRet       func(st *State, v Value)
	covers      map[string]bool
	inlined     map[string]bool
	assumed     map[string]bool
	contr       map[string]bool
	failed      map[string]int
	reach       int
	init0       *State
	gconst      map[*ssa.Global]bool
	liveCut     map[string]bool
	inRepo      map[string]bool
	vers        map[string]*HVer
	fdecls      map[string]*Decl
	zeroNode    *MNode
	regType     map[string]types.Type
	globalsInit bool
	boundHit    bool
	globals     []*ssa.Global
	initSt      *State
	inInit      bool
	initAssumed map[string]bool
}

func (st *State) clone() *State {
	n := *st
	n.mem = make(map[string]*MNode, len(st.mem))
	for k, v := range st.mem {
		n.mem[k] = v
	}
	n.super = make(map[*Term]string, len(st.super))
	for k, v := range st.super {
		n.super[k] = v
	}
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.regs = make(map[ssa.Value]Value, len(f.regs))
		for k, v := range f.regs {
			g.regs[k] = v
		}
		g.names = make(map[string]ssa.Value, len(f.names))
		for k, v := range f.names {
			g.names[k] = v
		}
		g.defers = f.defers[:len(f.defers):len(f.defers)]
		g.active = make(map[*ssa.BasicBlock]*activeLoop, len(f.active))
		for k, v := range f.active {
			g.active[k] = v
		}
		g.unroll = make(map[*ssa.BasicBlock]int, len(f.unroll))
		for k, v := range f.unroll {
			g.unroll[k] = v
		}
		if f.sum != nil {
			s := *f.sum
			s.mods = s.mods[:len(s.mods):len(s.mods)]
			g.sum = &s
		}
		n.frames[i] = &g
	}
	n.frame = st.frame[:len(st.frame):len(st.frame)]
	n.hashes = st.hashes[:len(st.hashes):len(st.hashes)]
	return &n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) assume(t *Term) {
	if t.isTrue() {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			st.assume(a)
		}
		return
	}
	if t.isFalse() {
		st.dead = true
	}
	st.pc = append(st.pc, t)
}

type restartRound struct{ why string }
type abortRun struct{ why string }

func (x *Exec) alloc(st *State) *Term {
	// An object keeps its number across paths and rounds: what a loop is known
	// to write is recorded by number, and another object must not inherit it.
	e := st.next / epochLen
	site := strconv.FormatUint(e, 10)
	if len(st.frames) > 0 {
		fr := st.top()
		site = fmt.Sprintf("%d %s#%d.%d", e, fr.ctx, fr.block.Index, fr.ip)
	}
	if x.allocIDs == nil {
		x.allocIDs, x.allocNext = map[string][]uint64{}, map[uint64]uint64{}
	}
	for _, id := range x.allocIDs[site] {
		if id >= st.next {
			st.next = id + 1
			return x.c.BV(id, 64)
		}
	}
	id := st.next
	if n := x.allocNext[e]; n > id {
		id = n
	}
	x.allocNext[e] = id + 1
	x.allocIDs[site] = append(x.allocIDs[site], id)
	st.next = id + 1
	return x.c.BV(id, 64)
}

func (x *Exec) strConst(s string) VStr {
	c := x.c
	if s == "" {
		return VStr{obj: c.I(0), off: c.I(0), len: c.I(0), lit: &s}
	}
	id, ok := x.strIDs[s]
	if !ok {
		x.nextStr++
		id = strBase + x.nextStr
		x.strIDs[s] = id
		x.strs[id] = s
	}
	return VStr{obj: c.BV(id, 64), off: c.I(0), len: c.I(int64(len(s))), lit: &s}
}

func (x *Exec) feasible(st *State, extra *Term) bool {
	if extra.isFalse() || st.dead {
		return false
	}
	if st.pure {
		return true
	}
	for _, p := range st.pc {
		if p == extra {
			return true
		}
		if p == x.c.Not(extra) {
			return false
		}
	}
	return x.s.Feas(append(st.pc[:len(st.pc):len(st.pc)], extra)) != Unsat
}

// splitGoal appends formulas that together imply t.
func (x *Exec) splitGoal(t *Term, out []*Term) []*Term {
	c := x.c
	switch t.op {
	case OAnd:
		for _, a := range t.args {
			out = x.splitGoal(a, out)
		}
		return out
	case OForall:
		k, lo, hi, bd := t.args[0], t.args[1], t.args[2], t.args[3]
		if bd.op == OAnd {
			for _, a := range bd.args {
				out = x.splitGoal(c.Forall(k, lo, hi, a, t.args[4:]...), out)
			}
			return out
		}
		m := map[*Term]uint64{}
		var kc uint64
		c.lin(hi, 1, m, &kc)
		if kc == 1 && len(m) > 0 && !hi.hasB { // the last index on its own
			last := c.AddC(hi, -1)
			at := c.Subst(bd, k, last)
			guard := c.Not(c.Sle(lo, last))
			if at.op == OAnd {
				for _, a := range at.args {
					out = append(out, c.Or(guard, a))
				}
			} else {
				out = append(out, c.Or(guard, at))
			}
			return append(out, c.Forall(k, lo, last, bd, t.args[4:]...))
		}
	}
	return append(out, t)
}

// prove returns true when pc implies t.
func (x *Exec) prove(st *State, t *Term, long bool) Result {
	if t.isTrue() || st.dead {
		return Unsat
	}
	for _, p := range st.pc {
		if p == t {
			return Unsat
		}
	}
	pc := st.pc[:len(st.pc):len(st.pc)]
	if parts := x.splitGoal(t, nil); long && len(parts) > 1 {
		old := x.s.curMS
		x.s.curMS = 450
		r := x.s.Check(append(pc, x.c.Not(t)), false)
		x.s.curMS = old
		if r != Unknown {
			return r
		}
		for _, a := range parts {
			if r := x.s.Check(append(pc, x.c.Not(a)), true); r == Sat && a.op != OForall {
				return r
			} else if r != Unsat {
				return Unknown
			}
		}
		return Unsat
	}
	return x.s.Check(append(pc, x.c.Not(t)), long)
}

func (x *Exec) fnName(fn *ssa.Function) string {
	n := fn.RelString(nil)
	n = strings.ReplaceAll(n, "github.com/sbraveyoung/GGmpeg/", "")
	return n
}

// check is a proof obligation at the current point.
func (x *Exec) check(st *State, t *Term, kind, detail string) {
	if st.pure || st.dead {
		return
	}
	fr := st.top()
	fn := x.fnName(fr.fn)
	name := fn + ": " + kind
	if detail != "" {
		name += " [" + detail + "]"
	}
	x.checkNamed(st, t, name, kind)
}

func (x *Exec) checkNamed(st *State, t *Term, name, kind string) {
	if st.dead {
		return
	}
	if x.inInit {
		st.assume(t)
		return
	}
	if x.dirty {
		st.assume(t)
		return
	}
	o := x.obl[name]
	if o == nil {
		o = &Oblig{Name: name, Tools: map[string]int{}}
		x.obl[name] = o
	}
	o.Checked++
	if t.isTrue() {
		o.Trivial++
		o.Discharged++
		return
	}
	if x.failed[name] >= 3 {
		// already reported: do not spend more time on the same obligation
		o.Failed++
		st.assume(t)
		return
	}
	r := x.prove(st, t, true)
	if r == Unsat {
		o.Discharged++
		return
	}
	o.Failed++
	x.failed[name]++
	f := &Failure{Name: name, Kind: kind, Res: r.String()}
	x.buildModel(st, t, f)
	if f.Trace == "" {
		f.Trace = x.trace(st)
	}
	x.fails = append(x.fails, f)
	if x.dbg {
		fmt.Fprintf(os.Stderr, "  FAIL %s (%s)\n     goal: %s\n     at %s\n", name, r, t, x.trace(st))
	}
	st.assume(t)
}

func (x *Exec) trace(st *State) string {
	var sb strings.Builder
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		pos := token.NoPos
		if f.ip < len(f.block.Instrs) {
			pos = f.block.Instrs[f.ip].Pos()
		}
		for j := f.ip; pos == token.NoPos && j >= 0; j-- {
			if j < len(f.block.Instrs) {
				pos = f.block.Instrs[j].Pos()
			}
		}
		p := x.w.prog.Fset.Position(pos)
		fmt.Fprintf(&sb, "%s (%s:%d); ", x.fnName(f.fn), p.Filename, p.Line)
	}
	return sb.String()
}

// ---- main loop ----

func (x *Exec) tick() {
	x.instrs++
	if x.instrs&0x3ff == 0 && time.Now().After(x.deadln) {
		panic(abortRun{"time limit reached"})
	}
}

func (x *Exec) run(st *State) {
	for !st.dead {
		if len(st.frames) == 0 {
			return
		}
		x.tick()
		fr := st.top()
		if fr.ip >= len(fr.block.Instrs) {
			panic("fell off block in " + fr.fn.String())
		}
		in := fr.block.Instrs[fr.ip]
		again := x.stepSafe(st, in)
		if again != nil {
			// fork on composite read ambiguity and retry the instruction
			x.fork(st, again, func(s *State) {
				s.dec = append(s.dec[:len(s.dec):len(s.dec)], again)
				x.run(s)
			}, func(s *State) {
				s.dec = append(s.dec[:len(s.dec):len(s.dec)], x.c.Not(again))
				x.run(s)
			})
			return
		}
	}
}

func (x *Exec) fork(st *State, cond *Term, a, b func(*State)) {
	x.paths++
	nc := x.c.Not(cond)
	fa := x.feasible(st, cond)
	fb := true
	if fa {
		fb = x.feasible(st, nc)
	}
	if fa && fb {
		s2 := st.clone()
		st.assume(cond)
		s2.assume(nc)
		a(st)
		b(s2)
		return
	}
	if fa {
		st.assume(cond)
		a(st)
	} else if fb {
		st.assume(nc)
		b(st)
	}
}

func (x *Exec) stepSafe(st *State, in ssa.Instruction) (fork *Term) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(forkReq); ok {
				fork = f.cond
				return
			}
			if u, ok := r.(unsupported); ok && !strings.Contains(u.msg, " @ ") {
				panic(unsupported{u.msg + " @ " + x.trace(st)})
			}
			panic(r)
		}
	}()
	prev := x.cur
	x.cur = st
	defer func() { x.cur = prev }()
	x.step(st, in)
	return nil
}

func (x *Exec) val(fr *Frame, v ssa.Value) Value {
	switch k := v.(type) {
	case *ssa.Const:
		return x.constVal(k)
	case *ssa.Function:
		return VFunc{fn: k}
	case *ssa.Builtin:
		return k
	case *ssa.Global:
		id := x.w.globalID(k)
		return x.ptrTo(k.Type().(*types.Pointer).Elem(), x.c.BV(id, 64), x.c.I(0))
	}
	r, ok := fr.regs[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s = %s in %s", v.Name(), v, fr.fn))
	}
	return r
}

func (x *Exec) constVal(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return x.zero(t)
	}
	if isString(t) {
		return x.strConst(constant.StringVal(k.Value))
	}
	s, _, ok := scalarSort(t)
	if !ok {
		// constant boxed in named non-scalar? treat by kind
		unsup("const of type %s", t)
	}
	if s == SBool {
		return x.c.Bool(constant.BoolVal(k.Value))
	}
	if isFloat(t) {
		f, _ := constant.Float64Val(constant.ToFloat(k.Value))
		if s == 32 {
			return x.c.BV(uint64(math.Float32bits(float32(f))), 32)
		}
		return x.c.BV(math.Float64bits(f), 64)
	}
	iv := constant.ToInt(k.Value)
	if u, ok := constant.Uint64Val(iv); ok {
		return x.c.BV(u, s)
	}
	i, _ := constant.Int64Val(iv)
	return x.c.BV(uint64(i), s)
}

func (x *Exec) set(fr *Frame, v ssa.Value, r Value) { fr.regs[v] = r }

func (x *Exec) nonNil(st *State, p VPtr) {
	x.check(st, x.c.Not(x.c.Eq(p.obj, x.c.I(0))), "nil dereference", "")
}

func (x *Exec) step(st *State, in ssa.Instruction) {
	fr := st.top()
	c := x.c
	if x.dbg && os.Getenv("GOVC_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "%s| %s\n", strings.Repeat(" ", len(st.frames)), in)
	}
	switch i := in.(type) {
	case *ssa.DebugRef:
		if !i.IsAddr {
			if o := i.Object(); o != nil {
				if _, ok := o.(*types.Var); ok {
					fr.names[o.Name()] = i.X
				}
			}
		} else if o := i.Object(); o != nil {
			if _, ok := o.(*types.Var); ok {
				fr.names["&"+o.Name()] = i.X
			}
		}
	case *ssa.Alloc:
		et := i.Type().(*types.Pointer).Elem()
		o := x.alloc(st)
		p := x.ptrTo(et, o, c.I(0))
		x.set(fr, i, p)
		if i.Comment != "" && !strings.Contains(i.Comment, " ") {
			fr.names["&"+i.Comment] = i
		}
	case *ssa.BinOp:
		x.set(fr, i, x.binop(st, i))
	case *ssa.UnOp:
		x.unop(st, fr, i)
	case *ssa.ChangeType:
		x.set(fr, i, x.val(fr, i.X))
	case *ssa.ChangeInterface:
		x.set(fr, i, x.val(fr, i.X))
	case *ssa.Convert:
		x.set(fr, i, x.convert(st, x.val(fr, i.X), i.X.Type(), i.Type()))
	case *ssa.MakeInterface:
		x.set(fr, i, VIface{typ: types.Unalias(i.X.Type()), val: x.val(fr, i.X)})
	case *ssa.Extract:
		x.set(fr, i, x.val(fr, i.Tuple).(VTuple)[i.Index])
	case *ssa.Field:
		x.set(fr, i, x.val(fr, i.X).(VStruct).f[i.Field])
	case *ssa.FieldAddr:
		p := x.val(fr, i.X).(VPtr)
		x.nonNil(st, p)
		stt := under(i.X.Type().Underlying().(*types.Pointer).Elem()).(*types.Struct)
		q := p
		q.path = p.path + "." + stt.Field(i.Field).Name()
		q.arrRoot = false
		x.set(fr, i, q)
	case *ssa.IndexAddr:
		x.indexAddr(st, fr, i)
	case *ssa.Index:
		x.index(st, fr, i)
	case *ssa.Lookup:
		x.lookup(st, fr, i)
	case *ssa.Slice:
		x.set(fr, i, x.slice(st, fr, i))
	case *ssa.Store:
		p := x.val(fr, i.Addr).(VPtr)
		x.nonNil(st, p)
		x.store(st, p, i.Val.Type(), x.val(fr, i.Val))
	case *ssa.MakeSlice:
		x.makeSlice(st, fr, i)
	case *ssa.MakeMap:
		x.set(fr, i, VMap{obj: x.alloc(st), ty: under(i.Type()).(*types.Map)})
	case *ssa.MakeChan:
		x.set(fr, i, VOpaque{what: "chan", obj: x.alloc(st)})
	case *ssa.MakeClosure:
		var b []Value
		for _, v := range i.Bindings {
			b = append(b, x.val(fr, v))
		}
		x.set(fr, i, VFunc{fn: i.Fn.(*ssa.Function), bind: b})
	case *ssa.MapUpdate:
		m := x.val(fr, i.Map).(VMap)
		x.check(st, c.Not(c.Eq(m.obj, c.I(0))), "write to nil map", "")
		x.mapStore(st, m, x.val(fr, i.Key), x.val(fr, i.Value))
	case *ssa.TypeAssert:
		x.typeAssert(st, fr, i)
		return
	case *ssa.Range:
		switch m := x.val(fr, i.X).(type) {
		case VMap:
			ks, known := x.mapKeys(st, m)
			x.set(fr, i, VIter{m: m, keys: ks, known: known})
		case VStr:
			if m.lit == nil {
				unsup("range over symbolic string")
			}
			id := x.alloc(st)
			x.storeAt(st, types.Typ[types.Int], "striter", id, []*Term{c.I(0)}, c.I(0), false)
			x.set(fr, i, VIter{s: &m, pos: id})
		}
	case *ssa.Next:
		x.next(st, fr, i)
		return
	case *ssa.Call:
		x.call(st, fr, i, &i.Call)
		return
	case *ssa.Defer:
		d := deferred{call: &i.Call}
		d.fn, d.args = x.callArgs(st, fr, &i.Call)
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			x.invoke(st, fr, in, d.call, d.fn, d.args, nil)
			return // stay on RunDefers until empty
		}
	case *ssa.Go:
		x.assumed["goroutine started by "+x.fnName(fr.fn)+" not followed"] = true
	case *ssa.Send:
		x.assumed["channel send in "+x.fnName(fr.fn)+" treated as completing"] = true
	case *ssa.Select:
		x.sel(st, fr, i)
		return
	case *ssa.Panic:
		x.check(st, c.False, "explicit panic reached", "")
		st.dead = true
		return
	case *ssa.Return:
		x.ret(st, fr, i)
		return
	case *ssa.Jump:
		x.jump(st, fr, fr.block.Succs[0])
		return
	case *ssa.If:
		x.branch(st, fr, i)
		return
	case *ssa.Phi:
		panic("phi outside jump")
	case *ssa.SliceToArrayPointer:
		s := x.val(fr, i.X).(VSlice)
		n := i.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		x.check(st, c.Sle(c.I(n), s.len), "slice to array pointer length", "")
		x.set(fr, i, VPtr{root: s.reg, obj: s.obj, idx: append(append([]*Term{}, s.pre...), s.off), arrRoot: true})
	default:
		unsup("instruction %T %s", in, in)
	}
	fr.ip++
}

// ---- control flow ----

func (x *Exec) ret(st *State, fr *Frame, i *ssa.Return) {
	var v Value
	switch len(i.Results) {
	case 0:
	case 1:
		v = x.val(fr, i.Results[0])
	default:
		var t VTuple
		for _, r := range i.Results {
			t = append(t, x.val(fr, r))
		}
		v = t
	}
	st.frames = st.frames[:len(st.frames)-1]
	if fr.sum != nil {
		// leaving a contract function
		for k := len(st.frame) - 1; k >= 0; k-- {
			if st.frame[k].name == fr.ctx {
				st.frame = st.frame[:k]
			}
		}
	}
	if fr.retTo != nil {
		fr.retTo(x, st, v)
		return
	}
	if len(st.frames) == 0 {
		if x.onRet != nil {
			x.onRet(st, v)
		}
		return
	}
	p := st.top()
	if fr.call != nil {
		if cv, ok := fr.call.(ssa.Value); ok {
			if v != nil {
				x.set(p, cv, v)
			}
			p.ip++
			return
		}
		// deferred call via RunDefers: stay
	}
}

func (x *Exec) branch(st *State, fr *Frame, i *ssa.If) {
	cond := x.val(fr, i.Cond).(*Term)
	t, f := fr.block.Succs[0], fr.block.Succs[1]
	if fr.tentHeader() == fr.block {
		h := fr.block
		sn := fr.unrollSnap()
		fr.clearTent()
		if !cond.isConst() {
			// not concretely decidable: cut the loop here with its invariant
			*st = *sn
			f2 := st.top()
			x.cut(st, f2, h, f2.prev)
			return
		}
	}
	if cond.isTrue() {
		x.jump(st, fr, t)
		return
	}
	if cond.isFalse() {
		x.jump(st, fr, f)
		return
	}
	if x.tryMerge(st, fr, i, cond) {
		return
	}
	x.fork(st, cond, func(s *State) {
		x.jump(s, s.top(), t)
		x.run(s)
	}, func(s *State) {
		x.jump(s, s.top(), f)
		x.run(s)
	})
	st.dead = true
}

// jump transfers control, evaluating phis.
func (x *Exec) jump(st *State, fr *Frame, to *ssa.BasicBlock) {
	from := fr.block
	li := x.w.loopsOf(fr.fn)
	// leaving loops
	for h := range fr.active {
		if !li.body[h][to] {
			delete(fr.active, h)
		}
	}
	for h := range fr.unroll {
		if !li.body[h][to] {
			delete(fr.unroll, h)
		}
	}
	if li.body[to] != nil { // header
		inLoop := li.body[to][from]
		if inLoop {
			if al := fr.active[to]; al != nil {
				x.backEdge(st, fr, al, from, to)
				st.dead = true
				return
			}
		}
		if x.exactRange(fr, to) {
			x.enter(st, fr, to, from)
			return
		}
		fr.unroll[to]++
		if x.h.Bounded > 0 {
			if fr.unroll[to] > x.h.Bounded+1 {
				x.boundHit = true
				st.dead = true
				return
			}
			x.enter(st, fr, to, from)
			return
		}
		if fr.unroll[to] <= x.h.Unroll && x.canTentative(to, li) {
			sn := st.clone()
			sf := sn.top()
			sf.prev = from
			x.enter(st, fr, to, from)
			fr.setTent(to, sn)
			return
		}
		if fr.unroll[to] <= x.h.Peel && !x.canTentative(to, li) {
			x.enter(st, fr, to, from) // a peeled iteration; cut after Peel of them
			return
		}
		x.cut(st, fr, to, from)
		return
	}
	x.enter(st, fr, to, from)
}

// exactRange: the loop at h ranges over a map with known keys.
func (x *Exec) exactRange(fr *Frame, h *ssa.BasicBlock) bool {
	for _, in := range h.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			it, ok := fr.regs[n.Iter].(VIter)
			return ok && it.known
		}
	}
	return false
}

var tentKey ssa.Value = new(ssa.Parameter)

type tentVal struct {
	h  *ssa.BasicBlock
	sn *State
}

func (f *Frame) setTent(h *ssa.BasicBlock, sn *State) { f.regs[tentKey] = tentVal{h, sn} }
func (f *Frame) tentHeader() *ssa.BasicBlock {
	if t, ok := f.regs[tentKey]; ok {
		return t.(tentVal).h
	}
	return nil
}
func (f *Frame) unrollSnap() *State { return f.regs[tentKey].(tentVal).sn }
func (f *Frame) clearTent()         { delete(f.regs, tentKey) }

// canTentative: the header only computes pure values and ends in a branch
// with one successor outside the loop.
func (x *Exec) canTentative(h *ssa.BasicBlock, li *loopIdx) bool {
	n := len(h.Instrs)
	if _, ok := h.Instrs[n-1].(*ssa.If); !ok {
		return false
	}
	if li.body[h][h.Succs[0]] && li.body[h][h.Succs[1]] {
		return false
	}
	for _, in := range h.Instrs {
		switch v := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.If, *ssa.DebugRef, *ssa.Convert, *ssa.FieldAddr, *ssa.ChangeType, *ssa.Extract:
		case *ssa.UnOp:
			if v.Op == token.ARROW {
				return false
			}
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); !ok || (b.Name() != "len" && b.Name() != "cap") {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (x *Exec) phiVals(fr *Frame, to, from *ssa.BasicBlock) map[*ssa.Phi]Value {
	k := -1
	for j, p := range to.Preds {
		if p == from {
			k = j
		}
	}
	out := map[*ssa.Phi]Value{}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out[p] = x.val(fr, p.Edges[k])
	}
	return out
}

func (x *Exec) enter(st *State, fr *Frame, to, from *ssa.BasicBlock) {
	vals := x.phiVals(fr, to, from)
	for p, v := range vals {
		fr.regs[p] = v
	}
	x.bindPhis(fr, to)
	fr.prev = from
	fr.block = to
	fr.ip = len(vals)
}

func (x *Exec) bindPhis(fr *Frame, b *ssa.BasicBlock) {
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			if p.Comment != "" {
				fr.names[p.Comment] = p
			}
		} else {
			break
		}
	}
}

// tryMerge performs if-conversion of side-effect-free diamonds.
func (x *Exec) tryMerge(st *State, fr *Frame, i *ssa.If, cond *Term) bool {
	b := fr.block
	t, f := b.Succs[0], b.Succs[1]
	pure := func(bb *ssa.BasicBlock) bool {
		if len(bb.Preds) != 1 || len(bb.Succs) != 1 || len(bb.Instrs) > 12 {
			return false
		}
		for _, in := range bb.Instrs {
			switch v := in.(type) {
			case *ssa.BinOp:
				switch v.Op {
				case token.QUO, token.REM:
					return false
				case token.SHL, token.SHR:
					if _, sg, _ := scalarSort(v.Y.Type()); sg {
						if _, ok := v.Y.(*ssa.Const); !ok {
							return false
						}
					}
				}
				if !isScalar(v.X.Type()) || isFloat(v.X.Type()) {
					return false
				}
			case *ssa.Convert:
				if !isScalar(v.Type()) || !isScalar(v.X.Type()) || isFloat(v.Type()) || isFloat(v.X.Type()) {
					return false
				}
			case *ssa.Jump, *ssa.DebugRef, *ssa.ChangeType:
			case *ssa.UnOp:
				if v.Op == token.MUL || v.Op == token.ARROW {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	var join *ssa.BasicBlock
	var tb, fb *ssa.BasicBlock
	switch {
	case pure(t) && t.Succs[0] == f:
		join, tb, fb = f, t, nil
	case pure(f) && f.Succs[0] == t:
		join, tb, fb = t, nil, f
	case pure(t) && pure(f) && t.Succs[0] == f.Succs[0]:
		join, tb, fb = t.Succs[0], t, f
	default:
		return false
	}
	li := x.w.loopsOf(fr.fn)
	if li.body[join] != nil {
		return false
	}
	for h := range li.body {
		if li.body[h][b] != li.body[h][join] {
			return false
		}
	}
	// all phis must be scalar (or equal)
	for _, in := range join.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isScalar(p.Type()) {
			return false
		}
	}
	run := func(bb *ssa.BasicBlock) {
		if bb == nil {
			return
		}
		for _, in := range bb.Instrs {
			switch v := in.(type) {
			case *ssa.BinOp:
				x.set(fr, v, x.binop(st, v))
			case *ssa.Convert:
				x.set(fr, v, x.convert(st, x.val(fr, v.X), v.X.Type(), v.Type()))
			case *ssa.ChangeType:
				x.set(fr, v, x.val(fr, v.X))
			case *ssa.UnOp:
				x.unop(st, fr, v)
			}
		}
	}
	run(tb)
	run(fb)
	from := func(bb *ssa.BasicBlock) *ssa.BasicBlock {
		if bb == nil {
			return b
		}
		return bb
	}
	tv := x.phiVals(fr, join, from(tb))
	fv := x.phiVals(fr, join, from(fb))
	for p := range tv {
		fr.regs[p] = x.c.Ite(cond, tv[p].(*Term), fv[p].(*Term))
	}
	x.bindPhis(fr, join)
	for h := range fr.active {
		if !li.body[h][join] {
			delete(fr.active, h)
		}
	}
	fr.prev = from(tb)
	fr.block = join
	fr.ip = len(tv)
	return true
}

// ---- loop indexing ----

type loopIdx struct {
	body map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

func computeLoops(fn *ssa.Function) *loopIdx {
	li := &loopIdx{body: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				m := li.body[s]
				if m == nil {
					m = map[*ssa.BasicBlock]bool{s: true}
					li.body[s] = m
				}
				var stack []*ssa.BasicBlock
				if !m[b] {
					m[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range n.Preds {
						if !m[p] {
							m[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	return li
}

// ---- scalar operations ----

func (x *Exec) uf(name string, res Sort, args ...*Term) *Term {
	key := name
	var as []Sort
	for _, a := range args {
		as = append(as, a.sort)
		key += fmt.Sprintf("_%d", a.sort)
	}
	d := x.w2decl(key, as, res)
	return x.c.App(d, args...)
}

func (x *Exec) w2decl(key string, as []Sort, res Sort) *Decl {
	m := x.h.ufs
	if d, ok := m[key]; ok {
		return d
	}
	d := x.c.NewDecl(key, as, res)
	m[key] = d
	return d
}

func (x *Exec) binop(st *State, i *ssa.BinOp) Value {
	fr := st.top()
	a, b := x.val(fr, i.X), x.val(fr, i.Y)
	return x.binopv(st, i.Op, a, b, i.X.Type(), i.Y.Type())
}

func (x *Exec) binopv(st *State, op token.Token, a, b Value, xt, yt types.Type) Value {
	c := x.c
	switch op {
	case token.EQL:
		return x.eq(st, a, b, xt)
	case token.NEQ:
		return c.Not(x.eq(st, a, b, xt))
	}
	if isString(xt) {
		return x.strOp(st, op, a.(VStr), b.(VStr))
	}
	p, q := a.(*Term), b.(*Term)
	if isFloat(xt) {
		return x.floatOp(op, p, q)
	}
	_, sg, _ := scalarSort(xt)
	switch op {
	case token.ADD:
		return c.Add(p, q)
	case token.SUB:
		return c.Sub(p, q)
	case token.MUL:
		return c.Mul(p, q)
	case token.QUO, token.REM:
		x.check(st, c.Not(c.Eq(q, c.BV(0, q.sort))), "division by zero", "")
		o := map[token.Token][2]Op{token.QUO: {OUdiv, OSdiv}, token.REM: {OUrem, OSrem}}[op]
		if sg {
			return c.Div(o[1], p, q)
		}
		return c.Div(o[0], p, q)
	case token.AND:
		return c.Band(p, q)
	case token.OR:
		return c.Bor(p, q)
	case token.XOR:
		return c.Bxor(p, q)
	case token.AND_NOT:
		return c.Band(p, c.Bnot(q))
	case token.SHL, token.SHR:
		_, sgy, _ := scalarSort(yt)
		if sgy {
			x.check(st, c.Sle(c.BV(0, q.sort), q), "negative shift count", "")
		}
		if q.sort > p.sort {
			w := c.BV(uint64(p.sort), q.sort)
			q = c.Ite(c.Ult(q, w), c.Extract(q, uint(p.sort)-1, 0), c.BV(uint64(p.sort), p.sort))
		} else {
			q = c.Zext(q, p.sort)
		}
		if op == token.SHL {
			return c.Shl(p, q)
		}
		if sg {
			return c.Ashr(p, q)
		}
		return c.Lshr(p, q)
	case token.LSS:
		if sg {
			return c.Slt(p, q)
		}
		return c.Ult(p, q)
	case token.LEQ:
		if sg {
			return c.Sle(p, q)
		}
		return c.Ule(p, q)
	case token.GTR:
		if sg {
			return c.Slt(q, p)
		}
		return c.Ult(q, p)
	case token.GEQ:
		if sg {
			return c.Sle(q, p)
		}
		return c.Ule(q, p)
	}
	unsup("binop %s", op)
	return nil
}

func (x *Exec) floatOp(op token.Token, p, q *Term) Value {
	nm := map[token.Token]string{token.ADD: "fadd", token.SUB: "fsub", token.MUL: "fmul", token.QUO: "fdiv", token.LSS: "flt", token.LEQ: "fle", token.GTR: "flt", token.GEQ: "fle"}[op]
	if p.isConst() && q.isConst() && p.sort == 64 {
		a, b := math.Float64frombits(p.val), math.Float64frombits(q.val)
		switch op {
		case token.ADD:
			return x.c.BV(math.Float64bits(a+b), 64)
		case token.SUB:
			return x.c.BV(math.Float64bits(a-b), 64)
		case token.MUL:
			return x.c.BV(math.Float64bits(a*b), 64)
		case token.QUO:
			return x.c.BV(math.Float64bits(a/b), 64)
		case token.LSS:
			return x.c.Bool(a < b)
		case token.LEQ:
			return x.c.Bool(a <= b)
		case token.GTR:
			return x.c.Bool(a > b)
		case token.GEQ:
			return x.c.Bool(a >= b)
		}
	}
	switch op {
	case token.LSS, token.LEQ:
		return x.uf(nm, SBool, p, q)
	case token.GTR, token.GEQ:
		return x.uf(nm, SBool, q, p)
	}
	if nm == "" {
		unsup("float op %s", op)
	}
	return x.uf(nm, p.sort, p, q)
}

func (x *Exec) unop(st *State, fr *Frame, i *ssa.UnOp) {
	c := x.c
	switch i.Op {
	case token.MUL:
		p, ok := x.val(fr, i.X).(VPtr)
		if !ok {
			unsup("load through %T", x.val(fr, i.X))
		}
		x.nonNil(st, p)
		x.set(fr, i, x.load(st, p, i.Type()))
	case token.NOT:
		x.set(fr, i, c.Not(x.val(fr, i.X).(*Term)))
	case token.SUB:
		t := x.val(fr, i.X).(*Term)
		if isFloat(i.Type()) {
			x.set(fr, i, c.Bxor(t, c.BV(uint64(1)<<(uint(t.sort)-1), t.sort)))
			return
		}
		x.set(fr, i, c.Neg(t))
	case token.XOR:
		x.set(fr, i, c.Bnot(x.val(fr, i.X).(*Term)))
	case token.ARROW:
		x.assumed["channel receive in "+x.fnName(fr.fn)+" yields an arbitrary value"] = true
		et := under(i.X.Type()).(*types.Chan).Elem()
		v := x.havocVal(st, et, "recv")
		if i.CommaOk {
			x.set(fr, i, VTuple{v, x.fresh(st, "ok", SBool)})
		} else {
			x.set(fr, i, v)
		}
	default:
		unsup("unop %s", i.Op)
	}
}

func (x *Exec) load(st *State, p VPtr, t types.Type) Value {
	x.touch(st, p.obj)
	return x.loadAt(st, t, p.root+p.path, p.obj, p.idx, p.arrRoot)
}
func (x *Exec) store(st *State, p VPtr, t types.Type, v Value) {
	x.touch(st, p.obj)
	x.storeAt(st, t, p.root+p.path, p.obj, p.idx, v, p.arrRoot)
}

func (x *Exec) touch(st *State, obj *Term) {
	if len(st.super) == 0 {
		return
	}
	if site, ok := st.super[obj]; ok {
		if !x.precise[site] {
			x.precise[site] = true
			panic(restartRound{"precise append at " + site})
		}
	}
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	c := x.c
	fs, fsg, fok := scalarSort(from)
	ts, _, tok := scalarSort(to)
	if fok && tok && fs != SBool {
		t := v.(*Term)
		ff, tf := isFloat(from), isFloat(to)
		switch {
		case ff && tf:
			if fs == ts {
				return t
			}
			return x.uf(fmt.Sprintf("f%dtof%d", fs, ts), ts, t)
		case ff:
			if t.isConst() && fs == 64 {
				f := math.Float64frombits(t.val)
				if f >= 0 && f < 1<<62 {
					return c.BV(uint64(f), ts)
				}
				if f < 0 && f > -(1<<62) {
					return c.BV(uint64(int64(f)), ts)
				}
			}
			// inverse of an exact integer-to-float conversion
			if t.op == OApp && (t.decl.Name == "u2f_32" || t.decl.Name == "s2f_32") && t.args[0].sort == 32 && fs == 64 {
				in := t.args[0]
				if ts >= 32 {
					if t.decl.Name == "u2f_32" {
						return c.Zext(in, ts)
					}
					return c.Sext(in, ts)
				}
			}
			_, tsg, _ := scalarSort(to)
			return x.uf(fmt.Sprintf("f%dtoi%d%v", fs, ts, tsg), ts, t)
		case tf:
			if t.isConst() {
				var f float64
				if fsg {
					f = float64(t.sval())
				} else {
					f = float64(t.val)
				}
				if ts == 32 {
					return c.BV(uint64(math.Float32bits(float32(f))), 32)
				}
				return c.BV(math.Float64bits(f), 64)
			}
			nm := "u2f"
			if fsg {
				nm = "s2f"
			}
			if ts == 32 {
				nm += "32"
			}
			return x.uf(nm, ts, t)
		}
		if ts < fs {
			return c.Extract(t, uint(ts)-1, 0)
		}
		if ts > fs {
			if fsg {
				return c.Sext(t, ts)
			}
			return c.Zext(t, ts)
		}
		return t
	}
	if isString(to) {
		switch a := v.(type) {
		case VStr:
			return a
		case VSlice: // []byte -> string
			if tkeyOf(sliceElem(from)) != "uint8" {
				return x.freshStr(st, "conv")
			}
			x.touch(st, a.obj)
			o := x.alloc(st)
			x.copyElems(st, types.Typ[types.Uint8], "str", o, nil, c.I(0), a.len, a.reg, a.obj, a.pre, a.off)
			return VStr{obj: o, off: c.I(0), len: a.len}
		case *Term:
			return x.freshStr(st, "rune")
		}
	}
	if isString(from) {
		s := v.(VStr)
		et := sliceElem(to)
		if tkeyOf(et) != "uint8" {
			unsup("string to %s", to)
		}
		o := x.alloc(st)
		x.copyElems(st, et, "uint8", o, nil, c.I(0), s.len, "str", s.obj, nil, s.off)
		cp := x.freshRng(st, "cap", 64, 0, maxLen)
		st.assume(c.Ule(s.len, cp))
		return VSlice{reg: "uint8", obj: o, off: c.I(0), len: s.len, cap: cp}
	}
	if types.Identical(under(from), under(to)) {
		return v
	}
	if _, ok := under(from).(*types.Pointer); ok {
		return v
	}
	unsup("convert %s to %s", from, to)
	return nil
}

func (x *Exec) freshStr(st *State, n string) VStr {
	c := x.c
	o := x.alloc(st)
	x.havocObj(st, types.Typ[types.Uint8], "str", o)
	return VStr{obj: o, off: c.I(0), len: x.freshRng(st, n+".len", 64, 0, 1<<20)}
}

func (x *Exec) tid(t types.Type) *Term {
	k := tkeyOf(t)
	id, ok := x.tids[k]
	if !ok {
		id = uint32(len(x.tids) + 1)
		x.tids[k] = id
	}
	return x.c.BV(uint64(id), 32)
}

func (x *Exec) ifaceTid(v VIface) *Term {
	if v.tid != nil {
		return v.tid
	}
	if v.typ == nil {
		return x.c.BV(0, 32)
	}
	return x.tid(v.typ)
}

func (x *Exec) eq(st *State, a, b Value, t types.Type) *Term {
	c := x.c
	switch p := a.(type) {
	case *Term:
		q := b.(*Term)
		if isFloat(t) {
			if p.isConst() && q.isConst() && p.sort == 64 {
				return c.Bool(math.Float64frombits(p.val) == math.Float64frombits(q.val))
			}
			if p.id > q.id {
				p, q = q, p
			}
			return x.uf("feq", SBool, p, q)
		}
		return c.Eq(p, q)
	case VStr:
		return x.strEq(st, p, b.(VStr))
	case VPtr:
		q := b.(VPtr)
		if q.obj.isConst() && q.obj.val == 0 || p.obj.isConst() && p.obj.val == 0 {
			return c.Eq(p.obj, q.obj)
		}
		if p.root+p.path != q.root+q.path || len(p.idx) != len(q.idx) {
			return c.And(c.Eq(p.obj, c.I(0)), c.Eq(q.obj, c.I(0)))
		}
		r := c.Eq(p.obj, q.obj)
		for i := range p.idx {
			r = c.And(r, c.Eq(p.idx[i], q.idx[i]))
		}
		return r
	case VSlice:
		return c.Eq(p.obj, b.(VSlice).obj) // only nil comparisons reach here
	case VMap:
		return c.Eq(p.obj, b.(VMap).obj)
	case VOpaque:
		if q, ok := b.(VOpaque); ok && p.obj != nil && q.obj != nil {
			return c.Eq(p.obj, q.obj)
		}
	case VFunc:
		q := b.(VFunc)
		isnil := func(f VFunc) *Term {
			if f.nil_ != nil {
				return f.nil_
			}
			return c.Bool(f.fn == nil)
		}
		return c.Eq(isnil(p), isnil(q))
	case VStruct:
		q := b.(VStruct)
		s := under(t).(*types.Struct)
		r := c.True
		for i := range p.f {
			r = c.And(r, x.eq(st, p.f[i], q.f[i], s.Field(i).Type()))
		}
		return r
	case VArr:
		q := b.(VArr)
		if p.n <= 64 {
			r := c.True
			for k := int64(0); k < p.n; k++ {
				r = c.And(r, x.eq(st, x.arrElem(p, c.I(k)), x.arrElem(q, c.I(k)), p.ety))
			}
			return r
		}
		return x.forall(c.I(0), c.I(p.n), func(k *Term) *Term {
			return x.eq(st, x.arrElem(p, k), x.arrElem(q, k), p.ety)
		})
	case VIface:
		q, ok := b.(VIface)
		if !ok {
			unsup("iface compare %T", b)
		}
		tp, tq := x.ifaceTid(p), x.ifaceTid(q)
		te := c.Eq(tp, tq)
		if te.isFalse() {
			return te
		}
		if p.tid == nil && p.typ == nil || q.tid == nil && q.typ == nil {
			return te
		}
		if p.tid == nil && q.tid == nil {
			return x.eq(st, p.val, q.val, p.typ)
		}
		if p.tid != nil && q.tid != nil && p.tid == q.tid && p.val == q.val {
			return c.True
		}
		return c.And(te, x.fresh(st, "ifaceeq", SBool))
	}
	unsup("eq on %T", a)
	return nil
}

func (x *Exec) strByte(st *State, s VStr, i *Term) *Term {
	return x.readLeaf(x.node(st, "str"), types.Typ[types.Uint8], "str", s.obj, []*Term{x.c.Add(s.off, i)}).(*Term)
}

func (x *Exec) strEq(st *State, p, q VStr) *Term {
	c := x.c
	if p.lit != nil && q.lit != nil {
		return c.Bool(*p.lit == *q.lit)
	}
	if p.lit != nil {
		p, q = q, p
	}
	if q.lit != nil && len(*q.lit) <= 64 {
		r := c.Eq(p.len, q.len)
		for k := 0; k < len(*q.lit) && !r.isFalse(); k++ {
			r = c.And(r, c.Eq(x.strByte(st, p, c.I(int64(k))), c.BV(uint64((*q.lit)[k]), 8)))
		}
		return r
	}
	if p.obj == q.obj && p.off == q.off {
		return c.Eq(p.len, q.len)
	}
	return c.And(c.Eq(p.len, q.len), x.forall(c.I(0), p.len, func(k *Term) *Term {
		return c.Eq(x.strByte(st, p, k), x.strByte(st, q, k))
	}))
}

// forall builds a canonical quantified term.
func (x *Exec) forall(lo, hi *Term, f func(k *Term) *Term, on ...func(k *Term) *Term) *Term {
	c := x.c
	ranged := false
	if l, _ := c.srng(lo); l >= 0 {
		if _, h := c.srng(hi); uint64(h) <= maxLen {
			ranged = true
		}
	}
	tmp := c.FreshBound("k")
	if ranged {
		tmp.decl.HasRng, tmp.decl.Lo, tmp.decl.Hi = true, 0, maxLen
	}
	b := f(tmp)
	d := 0
	c.collect(b, map[int]bool{}, func(t *Term) {
		if t.op == OForall {
			n := t.args[0].decl.Lo >> 48
			_ = n
			if k := x.boundDepth(t.args[0]); k >= d {
				d = k + 1
			}
		}
	})
	kv := x.boundVar(d, ranged)
	var trig []*Term
	for _, g := range on {
		trig = append(trig, c.Subst(g(tmp), tmp, kv))
	}
	return c.Forall(kv, lo, hi, c.Subst(b, tmp, kv), trig...)
}

func (x *Exec) boundVar(d int, ranged bool) *Term {
	key := fmt.Sprintf("k%d_%v", d, ranged)
	if t, ok := x.h.bvars[key]; ok {
		return t
	}
	t := x.c.FreshBound(key)
	if ranged {
		t.decl.HasRng, t.decl.Lo, t.decl.Hi = true, 0, maxLen
	}
	x.h.bvars[key] = t
	x.h.bdepth[t] = d
	return t
}
func (x *Exec) boundDepth(t *Term) int { return x.h.bdepth[t] }

func (x *Exec) strOp(st *State, op token.Token, p, q VStr) Value {
	c := x.c
	if p.lit != nil && q.lit != nil {
		switch op {
		case token.ADD:
			return x.strConst(*p.lit + *q.lit)
		case token.LSS:
			return c.Bool(*p.lit < *q.lit)
		case token.LEQ:
			return c.Bool(*p.lit <= *q.lit)
		case token.GTR:
			return c.Bool(*p.lit > *q.lit)
		case token.GEQ:
			return c.Bool(*p.lit >= *q.lit)
		}
	}
	if op == token.ADD {
		o := x.alloc(st)
		u8 := types.Typ[types.Uint8]
		x.copyElems(st, u8, "str", o, nil, c.I(0), p.len, "str", p.obj, nil, p.off)
		x.copyElems(st, u8, "str", o, nil, p.len, q.len, "str", q.obj, nil, q.off)
		n := c.Add(p.len, q.len)
		st.assume(c.Ule(n, c.BV(maxLen, 64)))
		return VStr{obj: o, off: c.I(0), len: n}
	}
	return x.fresh(st, "strcmp", SBool)
}

// ---- slices, arrays, maps ----

func (x *Exec) toInt(v Value, t types.Type) *Term {
	s, sg, _ := scalarSort(t)
	b := v.(*Term)
	if s == 64 {
		return b
	}
	if sg {
		return x.c.Sext(b, 64)
	}
	return x.c.Zext(b, 64)
}

func (x *Exec) inBounds(st *State, i, n *Term) {
	x.check(st, x.c.Ult(i, n), "index out of range", "")
}

func (x *Exec) indexAddr(st *State, fr *Frame, i *ssa.IndexAddr) {
	c := x.c
	ix := x.toInt(x.val(fr, i.Index), i.Index.Type())
	switch b := x.val(fr, i.X).(type) {
	case VSlice:
		x.inBounds(st, ix, b.len)
		x.set(fr, i, VPtr{root: b.reg, obj: b.obj, idx: append(append([]*Term{}, b.pre...), c.Add(b.off, ix)), arrRoot: x.arrElemRoot(i.Type())})
	case VPtr:
		x.nonNil(st, b)
		at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		x.inBounds(st, ix, c.I(at.Len()))
		q := b
		q.idx = append([]*Term{}, b.idx...)
		if b.arrRoot {
			q.idx[len(q.idx)-1] = c.Add(q.idx[len(q.idx)-1], ix)
		} else {
			q.path += "[]"
			q.idx = append(q.idx, ix)
		}
		q.arrRoot = false
		x.set(fr, i, q)
	default:
		unsup("indexaddr on %T", b)
	}
}
func (x *Exec) arrElemRoot(t types.Type) bool { return false }

func (x *Exec) index(st *State, fr *Frame, i *ssa.Index) {
	c := x.c
	ix := x.toInt(x.val(fr, i.Index), i.Index.Type())
	switch b := x.val(fr, i.X).(type) {
	case VArr:
		x.inBounds(st, ix, c.I(b.n))
		x.set(fr, i, x.arrElem(b, ix))
	case VStr:
		x.inBounds(st, ix, b.len)
		x.set(fr, i, x.strByte(st, b, ix))
	case VStruct:
		if ix.isConst() && ix.val < uint64(len(b.f)) {
			x.set(fr, i, b.f[ix.val])
			return
		}
		unsup("symbolic index into array of structs value")
	default:
		unsup("index on %T", b)
	}
}

func (x *Exec) slice(st *State, fr *Frame, i *ssa.Slice) Value {
	c := x.c
	get := func(v ssa.Value, def *Term) *Term {
		if v == nil {
			return def
		}
		return x.toInt(x.val(fr, v), v.Type())
	}
	switch b := x.val(fr, i.X).(type) {
	case VStr:
		lo := get(i.Low, c.I(0))
		hi := get(i.High, b.len)
		x.check(st, c.And(c.Ule(lo, hi), c.Ule(hi, b.len)), "slice bounds out of range", "")
		if b.lit != nil && lo.isConst() && hi.isConst() && hi.val <= uint64(len(*b.lit)) && lo.val <= hi.val {
			return x.strConst((*b.lit)[lo.val:hi.val])
		}
		return VStr{obj: b.obj, off: c.Add(b.off, lo), len: c.Sub(hi, lo)}
	case VSlice:
		lo := get(i.Low, c.I(0))
		hi := get(i.High, b.len)
		max := get(i.Max, b.cap)
		g := c.And(c.Ule(lo, hi), c.Ule(hi, max), c.Ule(max, b.cap))
		x.check(st, g, "slice bounds out of range", "")
		if st.pure {
			// total semantics
		}
		return VSlice{reg: b.reg, obj: b.obj, pre: b.pre, off: c.Add(b.off, lo), len: x.lenT(st, c.Sub(hi, lo)), cap: x.lenT(st, c.Sub(max, lo))}
	case VPtr: // pointer to array
		x.nonNil(st, b)
		at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := c.I(at.Len())
		lo := get(i.Low, c.I(0))
		hi := get(i.High, n)
		max := get(i.Max, n)
		x.check(st, c.And(c.Ule(lo, hi), c.Ule(hi, max), c.Ule(max, n)), "slice bounds out of range", "")
		s := VSlice{obj: b.obj, len: c.Sub(hi, lo), cap: c.Sub(max, lo)}
		if b.arrRoot {
			s.reg = b.root + b.path
			s.pre = b.idx[:len(b.idx)-1]
			s.off = c.Add(b.idx[len(b.idx)-1], lo)
		} else {
			s.reg = b.root + b.path + "[]"
			s.pre = b.idx
			s.off = lo
		}
		return s
	}
	unsup("slice of %T", x.val(fr, i.X))
	return nil
}

// lenT keeps slice lengths range-annotated so that comparisons simplify.
func (x *Exec) lenT(st *State, t *Term) *Term {
	if st.pure {
		return t
	}
	if _, h := x.c.rng(t); h <= maxLen {
		return t
	}
	return t
}

func (x *Exec) makeSlice(st *State, fr *Frame, i *ssa.MakeSlice) {
	c := x.c
	n := x.toInt(x.val(fr, i.Len), i.Len.Type())
	k := x.toInt(x.val(fr, i.Cap), i.Cap.Type())
	x.check(st, c.And(c.Ule(n, c.BV(1<<46, 64)), c.Sle(n, k), c.Ule(k, c.BV(1<<46, 64))), "makeslice: length out of range", "")
	if !st.pure {
		st.assume(c.Ule(k, c.BV(maxLen, 64)))
		st.assume(c.Ule(n, k))
	}
	et := under(i.Type()).(*types.Slice).Elem()
	x.set(fr, i, VSlice{reg: tkeyOf(et), obj: x.alloc(st), off: c.I(0), len: n, cap: k})
}

// append semantics.
func (x *Exec) appendSlice(st *State, fr *Frame, in ssa.Instruction, s VSlice, ety types.Type, t VSlice, tIsStr bool) (VSlice, *Term) {
	c := x.c
	n := t.len
	sreg := t.reg
	if tIsStr {
		sreg = "str"
	}
	x.touch(st, t.obj)
	x.touch(st, s.obj)
	if n.isConst() && n.val == 0 {
		return s, nil
	}
	nl := c.Add(s.len, n)
	if !st.pure {
		st.assume(c.Ule(nl, c.BV(maxLen, 64)))
	}
	inplace := func() VSlice {
		r := s
		r.len = nl
		x.copyElems(st, ety, s.reg, s.obj, s.pre, c.Add(s.off, s.len), n, sreg, t.obj, t.pre, t.off)
		return r
	}
	fresh := func() VSlice {
		o := x.alloc(st)
		reg := tkeyOf(ety)
		// when n==0 and s is nil the result stays nil: handled by in-place branch
		if !(s.len.isConst() && s.len.val == 0) {
			x.copyElems(st, ety, reg, o, nil, c.I(0), s.len, s.reg, s.obj, s.pre, s.off)
		}
		x.copyElems(st, ety, reg, o, nil, s.len, n, sreg, t.obj, t.pre, t.off)
		cp := x.freshRng(st, "unkcap", 64, 0, maxLen*2)
		x.h.unkcap[cp] = true
		if !st.pure {
			st.assume(c.Ule(nl, cp))
		}
		return VSlice{reg: reg, obj: o, off: c.I(0), len: nl, cap: cp}
	}
	cond := c.Ule(nl, s.cap)
	site := fr.ctx + "@" + fmt.Sprint(x.iid(in))
	if x.h.unkcap[s.cap] && !x.precise[site] {
		r := fresh()
		// n may be zero: then the result is s itself, indistinguishable
		if !st.pure {
			st.super[s.obj] = site
			x.noteSuper(st, s.obj, site)
		}
		return r, nil
	}
	if cond.isTrue() {
		return inplace(), nil
	}
	if cond.isFalse() {
		return fresh(), nil
	}
	if st.pure {
		return fresh(), nil
	}
	if x.s.Feas(append(st.pc[:len(st.pc):len(st.pc)], c.Not(cond))) == Unsat {
		return inplace(), nil
	}
	if x.s.Feas(append(st.pc[:len(st.pc):len(st.pc)], cond)) == Unsat {
		return fresh(), nil
	}
	return s, cond // caller forks and retries with cond decided
}

func (x *Exec) iid(in ssa.Instruction) int {
	if id, ok := x.instrID[in]; ok {
		return id
	}
	x.instrID[in] = len(x.instrID) + 1
	return x.instrID[in]
}

// maps: region "map:K:V" keyed by (obj, key); presence region suffix "?".
func (x *Exec) mapReg(m VMap) string { return "map:" + tkeyOf(m.ty.Key()) + ":" + tkeyOf(m.ty.Elem()) }

func (x *Exec) mapKey(st *State, m VMap, k Value) *Term {
	c := x.c
	switch v := k.(type) {
	case *Term:
		if v.sort == SBool {
			return c.Ite(v, c.I(1), c.I(0))
		}
		return c.Zext(v, 64)
	case VStr:
		// a canonical id per string content
		return x.strKey(st, v)
	}
	unsup("map key %T", k)
	return nil
}

// strKey maps string contents to ids: literals get distinct constants,
// symbolic strings a fresh id constrained by equality with known ones.
func (x *Exec) strKey(st *State, s VStr) *Term {
	c := x.c
	if s.lit != nil {
		if *s.lit == "" {
			return c.BV(strBase, 64)
		}
		return x.strConst(*s.lit).obj
	}
	key := fmt.Sprintf("sk%d,%d,%d", s.obj.id, s.off.id, s.len.id)
	if t, ok := x.h.strkeys[key]; ok {
		return t
	}
	t := x.fresh(st, "strkey", 64)
	x.h.strkeys[key] = t
	return t
}

func (x *Exec) mapStore(st *State, m VMap, k, v Value) {
	key := x.mapKey(st, m, k)
	x.touch(st, m.obj)
	x.mapLenUpdate(st, m, key, true)
	x.storeAt(st, types.Typ[types.Bool], x.mapReg(m)+"?", m.obj, []*Term{key}, x.c.True, false)
	x.storeAt(st, m.ty.Elem(), x.mapReg(m), m.obj, []*Term{key}, v, false)
}

func (x *Exec) lookup(st *State, fr *Frame, i *ssa.Lookup) {
	c := x.c
	switch m := x.val(fr, i.X).(type) {
	case VStr:
		ix := x.toInt(x.val(fr, i.Index), i.Index.Type())
		x.inBounds(st, ix, m.len)
		x.set(fr, i, x.strByte(st, m, ix))
	case VMap:
		key := x.mapKey(st, m, x.val(fr, i.Index))
		isnil := c.Eq(m.obj, c.I(0))
		ok := c.And(c.Not(isnil), x.readLeaf(x.node(st, x.mapReg(m)+"?"), types.Typ[types.Bool], x.mapReg(m)+"?", m.obj, []*Term{key}).(*Term))
		z := x.zero(m.ty.Elem())
		var v Value
		if ok.isFalse() {
			v = z
		} else {
			v = x.loadAt(st, m.ty.Elem(), x.mapReg(m), m.obj, []*Term{key}, false)
			if t, isT := v.(*Term); isT {
				v = c.Ite(ok, t, z.(*Term))
			} else if !ok.isTrue() {
				// composite: decide presence by forking
				known := false
				for _, p := range st.pc {
					if p == ok {
						known = true
					}
					if p == c.Not(ok) {
						known = true
						v = z
					}
				}
				if !known {
					panic(forkReq{ok})
				}
			}
		}
		if i.CommaOk {
			x.set(fr, i, VTuple{v, ok})
		} else {
			x.set(fr, i, v)
		}
	default:
		unsup("lookup on %T", m)
	}
}

// mapKeys lists every key ever stored in a map whose writes are all known.
func (x *Exec) mapKeys(st *State, m VMap) ([]*Term, bool) {
	c := x.c
	if m.obj.isConst() && m.obj.val == 0 {
		return nil, true
	}
	if _, _, ok := scalarSort(m.ty.Key()); !ok || !m.obj.isConst() {
		return nil, false
	}
	if b, ok := under(m.ty.Key()).(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return nil, false
	}
	var ks []*Term
	for n := x.node(st, x.mapReg(m)+"?"); ; n = n.prev {
		switch n.kind {
		case mWrite, mCopy:
			e := c.Eq(n.obj, m.obj)
			if e.isFalse() {
				continue
			}
			if !e.isTrue() {
				return nil, false
			}
			if n.kind == mCopy {
				if n.cond != nil {
					return nil, false
				}
				return ks, true // cleared
			}
			dup := false
			for _, k := range ks {
				dup = dup || k == n.idx[0]
			}
			if !dup {
				ks = append(ks, n.idx[0])
			}
			if len(ks) > 4 {
				return nil, false
			}
		case mHavoc:
			v := n.ver
			if v.all {
				return nil, false
			}
			for _, o := range v.stable {
				if !c.Eq(o, m.obj).isFalse() {
					return nil, false
				}
			}
			if v.end > v.mark && m.obj.val >= v.mark && m.obj.val < v.end {
				return nil, false
			}
		case mBase:
			return ks, m.obj.val >= mark0
		default:
			return nil, false
		}
	}
}

// nextExact visits the remaining keys in every possible order.
func (x *Exec) nextExact(st *State, fr *Frame, i *ssa.Next, it VIter) {
	c := x.c
	if now, ok := x.mapKeys(st, it.m); !ok || len(now) != len(it.keys) {
		unsup("map changed during range")
	}
	reg := x.mapReg(it.m) + "?"
	kt := it.m.ty.Key()
	conds := make([]*Term, len(it.keys))
	done := c.True
	for k, key := range it.keys {
		if it.seen>>uint(k)&1 == 1 {
			continue
		}
		p := x.readLeaf(x.node(st, reg), types.Typ[types.Bool], reg, it.m.obj, []*Term{key}).(*Term)
		for j := 0; j < k; j++ {
			p = c.And(p, c.Not(c.Eq(key, it.keys[j])))
		}
		conds[k] = p
		done = c.And(done, c.Not(p))
	}
	ks, _, _ := scalarSort(kt)
	visit := func(s *State, k int) {
		f := s.top()
		n := it
		n.seen |= 1 << uint(k)
		f.regs[i.Iter] = n
		kv := it.keys[k]
		if ks != 64 {
			kv = c.Extract(kv, uint(ks)-1, 0)
		}
		v := x.loadAt(s, it.m.ty.Elem(), x.mapReg(it.m), it.m.obj, []*Term{it.keys[k]}, false)
		x.set(f, i, VTuple{c.True, kv, v})
		f.ip++
		x.run(s)
	}
	for k := range it.keys {
		if conds[k] == nil || conds[k].isFalse() || !x.feasible(st, conds[k]) {
			continue
		}
		s := st.clone()
		x.paths++
		s.assume(conds[k])
		visit(s, k)
	}
	st.assume(done)
	if st.dead || done.isFalse() {
		st.dead = true
		return
	}
	x.set(fr, i, VTuple{c.False, x.zero(kt), x.zero(it.m.ty.Elem())})
	fr.ip++
}

func (x *Exec) next(st *State, fr *Frame, i *ssa.Next) {
	c := x.c
	it := x.val(fr, i.Iter).(VIter)
	if it.s != nil {
		pos := x.loadAt(st, types.Typ[types.Int], "striter", it.pos, []*Term{c.I(0)}, false).(*Term)
		if !pos.isConst() {
			unsup("string range position")
		}
		s := *it.s.lit
		p := int(pos.val)
		if p >= len(s) {
			x.set(fr, i, VTuple{c.False, c.I(0), c.BV(0, 32)})
		} else {
			r := []rune(s[p:])[0]
			n := len(string(r))
			x.storeAt(st, types.Typ[types.Int], "striter", it.pos, []*Term{c.I(0)}, c.I(int64(p+n)), false)
			x.set(fr, i, VTuple{c.True, c.I(int64(p)), c.BV(uint64(r), 32)})
		}
		fr.ip++
		return
	}
	if it.known {
		x.nextExact(st, fr, i, it)
		return
	}
	ok := x.fresh(st, "next", SBool)
	tt := i.Type().(*types.Tuple)
	var k, v Value = c.I(0), c.I(0)
	if b, isb := tt.At(1).Type().(*types.Basic); !isb || b.Kind() != types.Invalid {
		k = x.havocVal(st, it.m.ty.Key(), "mapkey")
	} else {
		k = x.havocVal(st, it.m.ty.Key(), "mapkey")
	}
	key := x.mapKey(st, it.m, k)
	v = x.loadAt(st, it.m.ty.Elem(), x.mapReg(it.m), it.m.obj, []*Term{key}, false)
	pres := x.readLeaf(x.node(st, x.mapReg(it.m)+"?"), types.Typ[types.Bool], x.mapReg(it.m)+"?", it.m.obj, []*Term{key}).(*Term)
	st.assume(c.Implies(ok, c.And(pres, c.Not(c.Eq(it.m.obj, c.I(0))))))
	x.set(fr, i, VTuple{ok, k, v})
	fr.ip++
}

// ---- type assertions ----

func (x *Exec) typeAssert(st *State, fr *Frame, i *ssa.TypeAssert) {
	c := x.c
	v, okk := x.val(fr, i.X).(VIface)
	if !okk {
		unsup("typeassert on %T", x.val(fr, i.X))
	}
	at := types.Unalias(i.AssertedType)
	_, toIface := under(at).(*types.Interface)
	finish := func(st *State, ok *Term, val Value) {
		fr := st.top()
		if i.CommaOk {
			x.set(fr, i, VTuple{val, ok})
		} else {
			x.check(st, ok, "type assertion", tkeyOf(at))
			x.set(fr, i, val)
		}
		fr.ip++
	}
	zero := x.zero(at)
	if v.tid == nil {
		if v.typ == nil {
			finish(st, c.False, zero)
			if !i.CommaOk {
				st.dead = true
			}
			return
		}
		var ok bool
		if toIface {
			ok = types.Implements(v.typ, under(at).(*types.Interface))
			if ok {
				finish(st, c.True, v)
				return
			}
		} else {
			ok = types.Identical(v.typ, at)
			if ok {
				finish(st, c.True, v.val)
				return
			}
		}
		finish(st, c.False, zero)
		if !i.CommaOk {
			st.dead = true
		}
		return
	}
	// symbolic dynamic type
	var cond *Term
	if toIface {
		cond = c.And(c.Not(c.Eq(v.tid, c.BV(0, 32))), x.uf("implements_"+tkeyOf(at), SBool, v.tid))
	} else {
		cond = c.Eq(v.tid, x.tid(at))
	}
	mk := func(st *State) Value {
		if toIface {
			return v
		}
		return x.ifacePayload(st, v, at)
	}
	if !i.CommaOk {
		x.check(st, cond, "type assertion", tkeyOf(at))
		st.assume(cond)
		if st.dead {
			return
		}
		x.set(fr, i, mk(st))
		fr.ip++
		return
	}
	x.fork(st, cond, func(s *State) {
		finish(s, c.True, mk(s))
		x.run(s)
	}, func(s *State) {
		finish(s, c.False, zero)
		x.run(s)
	})
	st.dead = true
}

// ifacePayload derives the payload of a symbolic interface for a concrete type.
func (x *Exec) ifacePayload(st *State, v VIface, t types.Type) Value {
	key, _ := v.val.(*Term)
	if key == nil {
		return x.havocVal(st, t, "payload")
	}
	nm := "pay:" + tkeyOf(t)
	hi := symHi
	if v.hi > hi {
		hi = v.hi
		nm = fmt.Sprintf("pay%d:%s", hi, tkeyOf(t))
	}
	if s, _, ok := scalarSort(t); ok {
		return x.uf(nm, s, key)
	}
	switch under(t).(type) {
	case *types.Struct, *types.Array:
		return x.havocVal(st, t, "payload")
	}
	get := func(comp string, s Sort) *Decl { return x.w2decl(nm+"#"+comp, []Sort{64}, s) }
	return x.symComposite(t, func(comp string, s Sort, f func(*Decl)) *Term {
		_, had := x.h.ufs[nm+"#"+comp]
		d := get(comp, s)
		if (!had || d.WF == nil && !d.HasRng) && f != nil {
			f(d)
		}
		return x.c.App(d, key)
	}, get, hi, nm)
}

// havocVal makes an arbitrary value of type t.
func (x *Exec) havocVal(st *State, t types.Type, name string) Value {
	c := x.c
	if s, _, ok := scalarSort(t); ok {
		return x.fresh(st, name, s)
	}
	switch u := under(t).(type) {
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = x.havocVal(st, u.Field(i).Type(), name+"."+u.Field(i).Name())
		}
		return VStruct{f}
	case *types.Array:
		hi := symHi
		if st != nil && st.next > mark0 {
			hi = st.next - 1
		}
		v := x.newVerS(st, name, hi)
		if _, ok := under(u.Elem()).(*types.Struct); ok {
			vs := make([]Value, u.Len())
			for i := range vs {
				vs[i] = x.havocVal(st, u.Elem(), name)
			}
			return VStruct{vs}
		}
		return VArr{node: &MNode{kind: mHavoc, ver: &HVer{id: v.id, decls: v.decls, all: true, hiObj: hi, serial: v.serial}}, reg: tkeyOf(u.Elem()), ety: u.Elem(), obj: c.I(0), off: c.I(0), n: u.Len()}
	case *types.Tuple:
		var r VTuple
		for i := 0; i < u.Len(); i++ {
			r = append(r, x.havocVal(st, u.At(i).Type(), name))
		}
		return r
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return VOpaque{what: "unsafe", obj: x.fresh(st, name, 64)}
		}
	}
	hi := symHi
	if st != nil && st.next > mark0 {
		hi = st.next - 1
	}
	ds := map[string]*Decl{}
	get := func(comp string, s Sort) *Decl {
		if d, ok := ds[comp]; ok {
			return d
		}
		d := x.freshDecl(st, fmt.Sprintf("%s.%s^%d", name, comp, hi), s)
		ds[comp] = d
		return d
	}
	return x.symComposite(t, func(comp string, s Sort, f func(*Decl)) *Term {
		d := get(comp, s)
		if f != nil {
			f(d)
		}
		return c.App(d)
	}, get, hi, name)
}

// havocObj forgets the content of one object (type t elements).
func (x *Exec) havocObj(st *State, t types.Type, reg string, obj *Term) {
	leafRegs(t, reg, func(r string, lt types.Type, extra int) {
		v := x.newVerS(st, "hv", st.next-1)
		v.stable = []*Term{obj}
		x.wrote(st, r, obj, nil, nil)
		x.memSeq++
		st.mem[r] = &MNode{kind: mHavoc, prev: x.node(st, r), ver: v, seq: x.memSeq}
	})
}

func sortedKeys(m map[string]bool) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
