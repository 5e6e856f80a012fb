package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fin completes a call instruction that was handled without a frame.
func (x *Exec) fin(st *State, fr *Frame, in ssa.Instruction, v Value) {
	if cv, ok := in.(*ssa.Call); ok {
		if v != nil {
			x.set(fr, cv, v)
		}
		fr.ip++
	}
}

func (x *Exec) callArgs(st *State, fr *Frame, cm *ssa.CallCommon) (Value, []Value) {
	var args []Value
	for _, a := range cm.Args {
		args = append(args, x.val(fr, a))
	}
	if cm.IsInvoke() {
		return x.val(fr, cm.Value), args
	}
	return x.val(fr, cm.Value), args
}

func (x *Exec) call(st *State, fr *Frame, i *ssa.Call, cm *ssa.CallCommon) {
	fn, args := x.callArgs(st, fr, cm)
	x.invoke(st, fr, i, cm, fn, args, nil)
}

func (x *Exec) resultType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (x *Exec) invoke(st *State, fr *Frame, in ssa.Instruction, cm *ssa.CallCommon, fnv Value, args []Value, retTo func(*Exec, *State, Value)) {
	c := x.c
	if cm.IsInvoke() {
		iv, ok := fnv.(VIface)
		if !ok {
			unsup("invoke on %T", fnv)
		}
		if iv.tid == nil && iv.typ == nil {
			x.check(st, c.False, "method call on nil interface", cm.Method.Name())
			st.dead = true
			return
		}
		if iv.tid != nil {
			// unknown dynamic type
			x.check(st, c.Not(c.Eq(iv.tid, c.BV(0, 32))), "method call on nil interface", cm.Method.Name())
			st.assume(c.Not(c.Eq(iv.tid, c.BV(0, 32))))
			if st.dead {
				return
			}
			sig := cm.Method.Type().(*types.Signature)
			x.assumed["interface method "+cm.Method.FullName()+" on an unknown implementation returns an arbitrary value without side effects"] = true
			var v Value
			if rt := x.resultType(sig); rt != nil {
				v = x.havocVal(st, rt, cm.Method.Name())
			}
			x.fin(st, fr, in, v)
			return
		}
		m := x.w.lookupMethod(iv.typ, cm.Method)
		if m == nil {
			// error values made by models
			if rt := x.resultType(cm.Method.Type().(*types.Signature)); rt != nil {
				x.fin(st, fr, in, x.havocVal(st, rt, cm.Method.Name()))
			} else {
				x.fin(st, fr, in, nil)
			}
			return
		}
		x.callFn(st, fr, in, m, append([]Value{iv.val}, args...), nil, retTo)
		return
	}
	switch f := fnv.(type) {
	case *ssa.Builtin:
		x.builtin(st, fr, in, cm, f, args)
	case VFunc:
		if f.fn == nil {
			isnil := f.nil_
			if isnil == nil {
				isnil = c.True
			}
			x.check(st, c.Not(isnil), "call of nil function", "")
			st.assume(c.Not(isnil))
			if st.dead {
				return
			}
			x.assumed["call of an unknown function value in "+x.fnName(fr.fn)+" returns an arbitrary value without side effects"] = true
			var v Value
			if rt := x.resultType(cm.Signature()); rt != nil {
				v = x.havocVal(st, rt, "fnval")
			}
			x.fin(st, fr, in, v)
			return
		}
		x.callFn(st, fr, in, f.fn, args, f.bind, retTo)
	default:
		unsup("call of %T", fnv)
	}
}

func (x *Exec) push(st *State, in ssa.Instruction, fn *ssa.Function, args, bind []Value, retTo func(*Exec, *State, Value)) *Frame {
	ctx := x.fnName(fn)
	if len(st.frames) > 0 && in != nil {
		ctx = st.top().ctx + "/" + fmt.Sprint(x.iid(in)) + ":" + fn.Name()
	}
	nf := &Frame{fn: fn, regs: map[ssa.Value]Value{}, names: map[string]ssa.Value{}, block: fn.Blocks[0], ctx: ctx, call: in,
		active: map[*ssa.BasicBlock]*activeLoop{}, unroll: map[*ssa.BasicBlock]int{}, retTo: retTo, env: map[string]Value{}}
	if len(args) != len(fn.Params) {
		panic(fmt.Sprintf("arity %s: %d args %d params", fn, len(args), len(fn.Params)))
	}
	for i, p := range fn.Params {
		nf.regs[p] = args[i]
		nf.names[p.Name()] = p
		nf.env[p.Name()] = args[i]
	}
	for i, b := range fn.FreeVars {
		nf.regs[b] = bind[i]
		nf.names["&"+b.Name()] = b
	}
	st.frames = append(st.frames, nf)
	if len(st.frames) > 60 {
		unsup("call depth exceeded (recursion) in %s", x.fnName(fn))
	}
	return nf
}

func fullName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.RelString(nil)
}

func (x *Exec) callFn(st *State, fr *Frame, in ssa.Instruction, fn *ssa.Function, args, bind []Value, retTo func(*Exec, *State, Value)) {
	name := fn.Name()
	if name == "init" && fn.Synthetic != "" && fn.Signature.Recv() == nil && fn.Parent() == nil {
		// initialisers of imported packages: repository packages are run by runInit
		x.fin(st, fr, in, nil)
		return
	}
	if x.w.isSpec(fn) && strings.HasPrefix(name, "v") && len(name) > 1 && (name[1] >= 'A' && name[1] <= 'Z') && fn.Signature.Recv() == nil && fn.Parent() == nil {
		if f, ok := intrinsics[name]; ok {
			f(x, st, fr, in, args)
			return
		}
	}
	if x.w.ufs[fn] {
		x.ufCall(st, fr, in, fn, args)
		return
	}
	fq := fullName(fn)
	if m := x.w.goModels[fq]; m != nil {
		x.assumed["dependency "+fq+" behaves as its model "+m.Name()] = true
		x.push(st, in, m, args, nil, retTo)
		return
	}
	if m, ok := models[fq]; ok {
		m(x, st, fr, in, fn, args)
		return
	}
	if m := prefixModel(fq); m != nil {
		m(x, st, fr, in, fn, args)
		return
	}
	// the call to its target inside a contract function
	if fr.sum != nil && fr.sum.target == fn && !fr.sum.called {
		fr.sum.called = true
		if fr.sum.mode == 1 {
			x.summaryCall(st, fr, in, fn, args)
			return
		}
		if !st.pure {
			st.frame = append(st.frame, &frameChk{name: fr.ctx, mods: fr.sum.mods, mark: st.next})
			x.contr[x.fnName(fn)] = true
		}
		x.push(st, in, fn, args, bind, retTo)
		return
	}
	if vc := x.h.uses[fn]; vc != nil && !x.underVerification(st, fn) {
		nf := x.push(st, in, vc, args, nil, retTo)
		nf.sum = &summary{target: fn, mode: 1}
		x.contr["uses contract of "+x.fnName(fn)] = true
		if !x.w.vcVerified[vc] {
			x.assumed["assumed contract (not verified): "+vc.Name()+" for "+x.fnName(fn)] = true
		}
		return
	}
	if t := x.w.contractTarget(fn); t != nil {
		nf := x.push(st, in, fn, args, bind, retTo)
		nf.sum = &summary{target: t, mode: 2}
		return
	}
	if fn.Blocks != nil && x.w.inlinable(fn) {
		// recursion guard
		n := 0
		for _, f := range st.frames {
			if f.fn == fn {
				n++
			}
		}
		if n > x.h.recLimit() {
			if x.h.Bounded > 0 {
				x.assumed[fmt.Sprintf("recursion of %s explored to depth %d only", x.fnName(fn), n)] = true
				st.dead = true
				return
			}
			unsup("recursion of %s", x.fnName(fn))
		}
		if x.w.isRepo(fn) && !x.w.isSpec(fn) {
			x.inlined[x.fnName(fn)] = true
		}
		x.push(st, in, fn, args, bind, retTo)
		return
	}
	// external function: arbitrary result; memory reachable from its arguments is forgotten
	x.assumed["external function "+fq+" returns arbitrary values and modifies at most what its pointer and slice arguments reference directly"] = true
	for k, a := range args {
		var t types.Type
		if k < len(fn.Params) {
			t = fn.Params[k].Type()
		}
		x.havocArg(st, a, t)
	}
	var v Value
	if rt := x.resultType(fn.Signature); rt != nil {
		v = x.havocVal(st, rt, name)
	}
	x.fin(st, fr, in, v)
}

func (x *Exec) underVerification(st *State, fn *ssa.Function) bool { return false }

func (x *Exec) havocArg(st *State, a Value, t types.Type) {
	switch v := a.(type) {
	case VSlice:
		if t != nil {
			x.touch(st, v.obj)
			et := sliceElem(t)
			if et != nil {
				x.havocObj(st, et, v.reg, v.obj)
			}
		}
	case VPtr:
		if t != nil {
			if p, ok := under(t).(*types.Pointer); ok {
				x.touch(st, v.obj)
				et := p.Elem()
				if at, ok := under(et).(*types.Array); ok && v.arrRoot {
					x.havocObj(st, at.Elem(), v.root+v.path, v.obj)
				} else {
					x.havocObj(st, et, v.root+v.path, v.obj)
				}
			}
		}
	case VIface:
		if v.typ != nil {
			x.havocArg(st, v.val, v.typ)
		}
	}
}

// summaryCall replaces the body of the target by its contract.
func (x *Exec) summaryCall(st *State, fr *Frame, in ssa.Instruction, fn *ssa.Function, args []Value) {
	for _, m := range fr.sum.mods {
		x.havocMod(st, m)
	}
	fr.sum.mods = nil
	fr.regs[freshMarkKey] = x.c.BV(st.next, 64)
	st.next += 1 << 20
	var v Value
	if rt := x.resultType(fn.Signature); rt != nil {
		v = x.havocVal(st, rt, fn.Name())
	}
	x.fin(st, fr, in, v)
}

var freshMarkKey ssa.Value = new(ssa.Parameter)

func (x *Exec) havocMod(st *State, m modLoc) {
	v := x.newVerS(st, "mod", st.next-1+(1<<20))
	v.stable = []*Term{m.obj}
	if m.lo != nil {
		v.rngLo, v.rngHi = m.lo, m.hi
	}
	x.wrote(st, m.reg, m.obj, nil, nil)
	x.memSeq++
	st.mem[m.reg] = &MNode{kind: mHavoc, prev: x.node(st, m.reg), ver: v, seq: x.memSeq}
}

// modLocs: the leaf locations named by a vModifies argument.
func (x *Exec) modLocs(st *State, a Value, t types.Type, out *[]modLoc) {
	switch v := a.(type) {
	case VIface:
		if v.typ != nil {
			x.modLocs(st, v.val, v.typ, out)
		}
	case VSlice:
		leafRegs(sliceElem(t), v.reg, func(reg string, lt types.Type, extra int) {
			m := modLoc{reg: reg, obj: v.obj}
			if extra == 0 && len(v.pre) == 0 {
				m.lo, m.hi = v.off, x.c.Add(v.off, v.len)
			}
			*out = append(*out, m)
		})
	case VPtr:
		et := under(t).(*types.Pointer).Elem()
		if at, ok := under(et).(*types.Array); ok && v.arrRoot {
			leafRegs(at.Elem(), v.root+v.path, func(reg string, lt types.Type, extra int) {
				*out = append(*out, modLoc{reg: reg, obj: v.obj})
			})
			return
		}
		leafRegs(et, v.root+v.path, func(reg string, lt types.Type, extra int) {
			*out = append(*out, modLoc{reg: reg, obj: v.obj})
		})
	case VMap:
		mr := x.mapReg(v)
		*out = append(*out, modLoc{reg: mr + "?", obj: v.obj})
		leafRegs(v.ty.Elem(), mr, func(reg string, lt types.Type, extra int) {
			*out = append(*out, modLoc{reg: reg, obj: v.obj})
		})
	default:
		unsup("vModifies of %T", a)
	}
}

// wrote records a write for the active loops and checks frame conditions.
// idx nil = the whole object.
func (x *Exec) wrote(st *State, reg string, obj *Term, idx []*Term, n *Term) {
	if st.pure {
		return
	}
	for _, f := range st.frames {
		for _, al := range f.active {
			al.record(x, st, reg, obj, idx, n)
		}
	}
	c := x.c
	for _, fc := range st.frame {
		if obj.isConst() && obj.val >= fc.mark {
			continue
		}
		g := c.Ule(c.BV(fc.mark, 64), obj)
		for _, m := range fc.mods {
			if m.reg != reg {
				continue
			}
			e := c.Eq(m.obj, obj)
			if m.lo != nil {
				if idx == nil {
					continue
				}
				l := idx[len(idx)-1]
				e = c.And(e, c.Or(c.And(c.Sle(m.lo, l), c.Sle(c.Add(l, n), m.hi)), c.Eq(n, c.I(0))))
			}
			g = c.Or(g, e)
		}
		x.check(st, g, "frame: write outside vModifies", reg)
	}
}

// ---- builtins ----

func (x *Exec) builtin(st *State, fr *Frame, in ssa.Instruction, cm *ssa.CallCommon, b *ssa.Builtin, args []Value) {
	c := x.c
	switch b.Name() {
	case "len", "cap":
		var v *Term
		switch a := args[0].(type) {
		case VSlice:
			v = a.len
			if b.Name() == "cap" {
				v = a.cap
				if x.h.unkcap[v] {
					// capacity of a reallocated slice is unspecified
					v = a.cap
				}
			}
		case VStr:
			v = a.len
		case VMap:
			v = x.mapLen(st, a)
		case VArr:
			v = c.I(a.n)
		case VPtr:
			v = c.I(under(cm.Args[0].Type()).(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		case VStruct:
			v = c.I(int64(len(a.f)))
		case VOpaque:
			v = x.freshRng(st, "chanlen", 64, 0, 1<<30)
		default:
			unsup("len of %T", a)
		}
		x.fin(st, fr, in, v)
	case "append":
		s := args[0].(VSlice)
		ety := sliceElem(cm.Args[0].Type())
		var t VSlice
		isStr := false
		switch a := args[1].(type) {
		case VSlice:
			t = a
		case VStr:
			isStr = true
			t = VSlice{reg: "str", obj: a.obj, off: a.off, len: a.len, cap: a.len}
		}
		r, cond := x.appendSlice(st, fr, in, s, ety, t, isStr)
		if cond != nil {
			panic(forkReq{cond})
		}
		x.fin(st, fr, in, r)
	case "copy":
		d := args[0].(VSlice)
		ety := sliceElem(cm.Args[0].Type())
		var so, soff, sl *Term
		var spre []*Term
		sreg := "str"
		switch a := args[1].(type) {
		case VSlice:
			so, soff, sl, spre, sreg = a.obj, a.off, a.len, a.pre, a.reg
		case VStr:
			so, soff, sl = a.obj, a.off, a.len
		}
		x.touch(st, d.obj)
		x.touch(st, so)
		n := x.minT(st, d.len, sl)
		x.copyElems(st, ety, d.reg, d.obj, d.pre, d.off, n, sreg, so, spre, soff)
		x.fin(st, fr, in, n)
	case "delete":
		m := args[0].(VMap)
		key := x.mapKey(st, m, args[1])
		x.touch(st, m.obj)
		x.mapLenUpdate(st, m, key, false)
		x.storeAt(st, types.Typ[types.Bool], x.mapReg(m)+"?", m.obj, []*Term{key}, c.False, false)
		x.fin(st, fr, in, nil)
	case "min", "max":
		r := args[0].(*Term)
		_, sg, _ := scalarSort(cm.Args[0].Type())
		for _, a := range args[1:] {
			t := a.(*Term)
			var lt *Term
			if sg {
				lt = c.Slt(r, t)
			} else {
				lt = c.Ult(r, t)
			}
			if b.Name() == "min" {
				r = c.Ite(lt, r, t)
			} else {
				r = c.Ite(lt, t, r)
			}
		}
		x.fin(st, fr, in, r)
	case "print", "println":
		x.fin(st, fr, in, nil)
	case "close":
		x.assumed["channel close treated as no-op"] = true
		x.fin(st, fr, in, nil)
	case "recover":
		x.fin(st, fr, in, VIface{})
	case "ssa:wrapnilchk":
		p := args[0].(VPtr)
		x.nonNil(st, p)
		x.fin(st, fr, in, p)
	case "clear":
		switch m := args[0].(type) {
		case VMap:
			x.wrote(st, x.mapReg(m)+"?", m.obj, nil, nil)
			x.clearMap(st, m)
		default:
			unsup("clear of %T", m)
		}
		x.fin(st, fr, in, nil)
	default:
		unsup("builtin %s", b.Name())
	}
}

func (x *Exec) minT(st *State, a, b *Term) *Term {
	c := x.c
	if a == b {
		return a
	}
	le := c.Ule(a, b)
	if le.isTrue() {
		return a
	}
	if le.isFalse() {
		return b
	}
	if !st.pure {
		if x.s.Feas(append(st.pc[:len(st.pc):len(st.pc)], c.Not(le))) == Unsat {
			return a
		}
		if x.s.Feas(append(st.pc[:len(st.pc):len(st.pc)], le)) == Unsat {
			return b
		}
	}
	return c.Ite(le, a, b)
}

// map length: tracked in region "map...#" as a counter per map object.
func (x *Exec) mapLenReg(m VMap) string { return x.mapReg(m) + "#n" }
func (x *Exec) mapLen(st *State, m VMap) *Term {
	c := x.c
	n := x.readLeaf(x.node(st, x.mapLenReg(m)), types.Typ[types.Uint32], x.mapLenReg(m), m.obj, nil).(*Term)
	return c.Ite(c.Eq(m.obj, c.I(0)), c.I(0), c.Zext(c.Extract(n, 30, 0), 64))
}
func (x *Exec) mapLenUpdate(st *State, m VMap, key *Term, add bool) {
	c := x.c
	reg := x.mapLenReg(m)
	pr := x.readLeaf(x.node(st, x.mapReg(m)+"?"), types.Typ[types.Bool], x.mapReg(m)+"?", m.obj, []*Term{key}).(*Term)
	n := x.readLeaf(x.node(st, reg), types.Typ[types.Uint32], reg, m.obj, nil).(*Term)
	var nn *Term
	if add {
		nn = c.Ite(pr, n, c.AddC(n, 1))
	} else {
		nn = c.Ite(pr, c.AddC(n, -1), n)
	}
	x.storeAt(st, types.Typ[types.Uint32], reg, m.obj, nil, nn, false)
}
func (x *Exec) clearMap(st *State, m VMap) {
	// presence becomes false for every key of this object
	reg := x.mapReg(m) + "?"
	x.memSeq++
	z := &MNode{kind: mBase, ver: x.newVer("clr", symHi)}
	st.mem[reg] = &MNode{kind: mCopy, prev: x.node(st, reg), obj: m.obj, dst: x.c.I(0), n: x.c.BV(^uint64(0), 64), src: z, sreg: reg, sobj: x.c.BV(mark0-1, 64), soff: x.c.I(0), val: reg, seq: x.memSeq}
	x.storeAt(st, types.Typ[types.Uint32], x.mapLenReg(m), m.obj, nil, x.c.BV(0, 32), false)
}

func (x *Exec) noteSuper(st *State, obj *Term, site string) {
	for _, f := range st.frames {
		for _, al := range f.active {
			if al.info.superOut == nil {
				al.info.superOut = map[string]bool{}
			}
			if !(obj.isConst() && obj.val >= al.mark) && !al.info.superOut[site] {
				al.info.superOut[site] = true
			}
		}
	}
}

// sel: a select statement picks any case.
func (x *Exec) sel(st *State, fr *Frame, i *ssa.Select) {
	c := x.c
	x.assumed["select in "+x.fnName(fr.fn)+" takes an arbitrary ready case"] = true
	idx := x.fresh(st, "select", 64)
	lo := int64(0)
	if !i.Blocking {
		lo = -1
	}
	st.assume(c.And(c.Sle(c.I(lo), idx), c.Slt(idx, c.I(int64(len(i.States))))))
	r := VTuple{idx, x.fresh(st, "recvok", SBool)}
	for _, s := range i.States {
		if s.Dir == types.RecvOnly {
			r = append(r, x.havocVal(st, under(s.Chan.Type()).(*types.Chan).Elem(), "recv"))
		}
	}
	x.set(fr, i, r)
	fr.ip++
}

// ---- intrinsics ----

type intrinsic func(x *Exec, st *State, fr *Frame, in ssa.Instruction, args []Value)

var intrinsics map[string]intrinsic

func litOf(v Value) string {
	if s, ok := v.(VStr); ok && s.lit != nil {
		return *s.lit
	}
	return "?"
}

func init() {
	intrinsics = map[string]intrinsic{
		"vRequires": func(x *Exec, st *State, fr *Frame, in ssa.Instruction, args []Value) {
			t := args[0].(*Term)
			if fr.sum != nil && fr.sum.mode == 1 && !st.pure {
				caller := fr
				if len(st.frames) > 1 {
					caller = st.frames[len(st.frames)-2]
				}
				x.checkNamed(st, t, x.fnName(caller.fn)+": precondition of "+x.fnName(fr.sum.target), "precondition")
				st.assume(t)
			} else {
				st.assume(t)
				if !st.dead && !st.pure && !t.isTrue() && !x.feasible(st, x.c.True) {
					st.dead = true
				}
			}
			x.fin(st, fr, in, nil)
		},
		"vAssume": func(x *Exec, st *State, fr *Frame, in ssa.Instruction, args []Value) {
			st.assume(args[0].(*Term))
			x.fin(st, fr, in, nil)
		},
		"vEnsures": func(x *Exec, st *State, fr *Frame, in ssa.Instruction, args []Value) {
			t := args[1].(*Term)
			in0 := fr // the contract this is part of
			for i := len(st.frames) - 1; i >= 0 && in0.sum == nil; i-- {
				in0 = st.frames[i]
			}
			if in0.sum != nil && in0.sum.mode == 1 {
				st.assume(t)
			} else {
				nm := x.h.Name
				if in0.sum != nil {
					nm = in0.fn.Name()
				}
				x.reach++
				x.covers["ensures "+nm+":"+litOf(args[0])] = true
				x.checkNamed(st, t, nm+": ensures ["+litOf(args[0])+"]", "ensures")
				if !st.dead {
					st.assume(t)
				}
			}
			x.fin(st, fr, in, nil)
		},
		"vCover": func(x *Exec, st *State, fr *Frame, in ssa.Instruction, args []Value) {
			n := litOf(args[0])
			if !x.covers["cover "+n] && x.s.Check(st.pc, true) == Sat {
				x.covers["cover "+n] = true
			}
			x.fin(st, fr, in, nil)
		},
		"vForall": func(x *Exec, st *State, fr *Frame, in ssa.Instruction, args []Value) {
			f := args[2].(VFunc)
			t := x.forall(args[0].(*Term), args[1].(*Term), func(k *Term) *Term {
				return x.pureCall(st, f.fn, []Value{k}, f.bind).(*Term)
			})
			x.fin(st, fr, in, t)
		},
		"vForallOn": func(x *Exec, st *State, fr *Frame, in ssa.Instruction, args []Value) {
			g, f := args[2].(VFunc), args[3].(VFunc)
			t := x.forall(args[0].(*Term), args[1].(*Term), func(k *Term) *Term {
				return x.pureCall(st, f.fn, []Value{k}, f.bind).(*Term)
			}, func(k *Term) *Term {
				return x.pureCall(st, g.fn, []Value{k}, g.bind).(*Term)
			})
			x.fin(st, fr, in, t)
		},
		"vBytesEq": func(x *Exec, st *State, fr *Frame, in ssa.Instruction, args []Value) {
			x.fin(st, fr, in, x.bytesEq(st, args[0].(VSlice), args[1].(VSlice)))
		},
		"vOff": func(x *Exec, st *State, fr *Frame, in ssa.Instruction, args []Value) {
			p, q := args[0].(VSlice), args[1].(VSlice)
			x.fin(st, fr, in, x.c.Sub(p.off, q.off))
		},
		"vKept": func(x *Exec, st *State, fr *Frame, in ssa.Instruction, args []Value) {
			p := args[0].(VSlice)
			if x.entryMem == nil || len(p.pre) > 0 {
				unsup("vKept outside a loop invariant")
			}
			old := &State{mem: x.entryMem}
			u8 := types.Typ[types.Uint8]
			x.touch(st, p.obj)
			x.fin(st, fr, in, x.forall(args[1].(*Term), args[2].(*Term), func(k *Term) *Term {
				ix := []*Term{x.c.Add(p.off, k)}
				return x.c.Eq(x.readLeaf(x.node(st, p.reg), u8, p.reg, p.obj, ix).(*Term), x.readLeaf(x.node(old, p.reg), u8, p.reg, p.obj, ix).(*Term))
			}))
		},
		"vWasInt": func(x *Exec, st *State, fr *Frame, in ssa.Instruction, args []Value) {
			p := args[0].(VPtr)
			if x.entryMem == nil || p.arrRoot {
				unsup("vWasInt outside a loop invariant")
			}
			x.fin(st, fr, in, x.loadAt(&State{mem: x.entryMem}, types.Typ[types.Int], p.root+p.path, p.obj, p.idx, false))
		},
		"vSameBuf": func(x *Exec, st *State, fr *Frame, in ssa.Instruction, args []Value) {
			p, q := args[0].(VSlice), args[1].(VSlice)
			x.fin(st, fr, in, x.c.Eq(p.obj, q.obj))
		},
		"vPure": func(x *Exec, st *State, fr *Frame, in ssa.Instruction, args []Value) {
			f := args[0].(VFunc)
			x.fin(st, fr, in, x.pureCall(st, f.fn, nil, f.bind))
		},
		"vImplies": func(x *Exec, st *State, fr *Frame, in ssa.Instruction, args []Value) {
			x.fin(st, fr, in, x.c.Implies(args[0].(*Term), args[1].(*Term)))
		},
		"vModifies": func(x *Exec, st *State, fr *Frame, in ssa.Instruction, args []Value) {
			// variadic: args[0] is a []any slice with concrete length
			s := args[0].(VSlice)
			if !s.len.isConst() {
				unsup("vModifies with unknown argument count")
			}
			if fr.sum == nil {
				unsup("vModifies outside a contract")
			}
			for k := int64(0); k < int64(s.len.val); k++ {
				v := x.readLeaf(x.node(st, s.reg), types.NewInterfaceType(nil, nil), s.reg, s.obj, []*Term{x.c.AddC(s.off, k)})
				iv := v.(VIface)
				x.modLocs(st, iv, iv.typ, &fr.sum.mods)
			}
			x.fin(st, fr, in, nil)
		},
		"vFresh": func(x *Exec, st *State, fr *Frame, in ssa.Instruction, args []Value) {
			iv := args[0].(VIface)
			var obj *Term
			switch v := iv.val.(type) {
			case VSlice:
				obj = v.obj
			case VPtr:
				obj = v.obj
			case VMap:
				obj = v.obj
			default:
				unsup("vFresh of %T", iv.val)
			}
			var m *Term
			if t, ok := fr.regs[freshMarkKey]; ok {
				m = t.(*Term)
			} else if len(st.frame) > 0 {
				m = x.c.BV(st.frame[len(st.frame)-1].mark, 64)
			} else {
				m = x.c.BV(mark0, 64)
			}
			x.fin(st, fr, in, x.c.Or(x.c.Eq(obj, x.c.I(0)), x.c.Ule(m, obj)))
		},
	}
}

func (x *Exec) bytesEq(st *State, p, q VSlice) *Term {
	c := x.c
	if p.obj == q.obj && p.off == q.off && p.reg == q.reg && len(p.pre) == 0 && len(q.pre) == 0 {
		return c.Eq(p.len, q.len)
	}
	x.touch(st, p.obj)
	x.touch(st, q.obj)
	le := c.Eq(p.len, q.len)
	if le.isFalse() {
		return le
	}
	n := p.len
	if q.len.isConst() {
		n = q.len
	}
	u8 := types.Typ[types.Uint8]
	rd := func(s VSlice, k *Term) *Term {
		return x.readLeaf(x.node(st, s.reg), u8, s.reg, s.obj, append(append([]*Term{}, s.pre...), c.Add(s.off, k))).(*Term)
	}
	if n.isConst() && n.val <= 64 {
		r := le
		for k := int64(0); k < int64(n.val); k++ {
			r = c.And(r, c.Eq(rd(p, c.I(k)), rd(q, c.I(k))))
		}
		return r
	}
	return c.And(le, x.forall(c.I(0), n, func(k *Term) *Term { return c.Eq(rd(p, k), rd(q, k)) }))
}

// pureCall evaluates a side-effect-free function to a single value,
// merging its paths by conditional terms.
func (x *Exec) pureCall(st *State, fn *ssa.Function, args, bind []Value) Value {
	sub := st.clone()
	sub.frames = nil
	sub.pure = true
	x.pureDepth++
	defer func() { x.pureDepth-- }()
	base := len(st.pc)
	if !st.pure {
		sub.pc = nil
		base = 0
	}
	sub.dead = false
	type out struct {
		pc *Term
		v  Value
	}
	var outs []out
	ctx := "pure"
	if len(st.frames) > 0 {
		ctx = st.top().ctx + "/pure"
	}
	fr := x.push(sub, nil, fn, args, bind, func(x *Exec, s *State, v Value) {
		outs = append(outs, out{x.c.And(s.pc[base:]...), v})
		s.dead = true
	})
	fr.ctx = ctx
	x.run(sub)
	if len(outs) == 0 {
		unsup("specification function %s has no result", fn.Name())
	}
	if len(outs) > 200 {
		unsup("specification function %s has too many paths", fn.Name())
	}
	r := outs[len(outs)-1].v
	for i := len(outs) - 2; i >= 0; i-- {
		if outs[i].v == r {
			continue
		}
		r = x.iteVal(outs[i].pc, outs[i].v, r)
	}
	return r
}

// mergeable: two values of one type that iteVal can combine.
func (x *Exec) mergeable(a, b Value) bool {
	switch p := a.(type) {
	case *Term:
		return true
	case VSlice:
		q, ok := b.(VSlice)
		return ok && p.reg == q.reg && len(p.pre) == 0 && len(q.pre) == 0
	case VStr:
		_, ok := b.(VStr)
		return ok
	case VPtr:
		q, ok := b.(VPtr)
		return ok && p.root == q.root && p.path == q.path && p.arrRoot == q.arrRoot && len(p.idx) == len(q.idx)
	case VMap:
		_, ok := b.(VMap)
		return ok
	}
	return false
}

func (x *Exec) iteVal(cond *Term, a, b Value) Value {
	c := x.c
	if cond.isTrue() {
		return a
	}
	if cond.isFalse() {
		return b
	}
	switch p := a.(type) {
	case *Term:
		return c.Ite(cond, p, b.(*Term))
	case VTuple:
		q := b.(VTuple)
		var r VTuple
		for i := range p {
			r = append(r, x.iteVal(cond, p[i], q[i]))
		}
		return r
	case VSlice:
		q := b.(VSlice)
		if p.reg == q.reg && len(p.pre) == 0 && len(q.pre) == 0 {
			return VSlice{reg: p.reg, obj: c.Ite(cond, p.obj, q.obj), off: c.Ite(cond, p.off, q.off), len: c.Ite(cond, p.len, q.len), cap: c.Ite(cond, p.cap, q.cap)}
		}
	case VStr:
		q := b.(VStr)
		return VStr{obj: c.Ite(cond, p.obj, q.obj), off: c.Ite(cond, p.off, q.off), len: c.Ite(cond, p.len, q.len)}
	case VPtr:
		q := b.(VPtr)
		if x.mergeable(a, b) {
			r := VPtr{root: p.root, path: p.path, arrRoot: p.arrRoot, obj: c.Ite(cond, p.obj, q.obj)}
			for i := range p.idx {
				r.idx = append(r.idx, c.Ite(cond, p.idx[i], q.idx[i]))
			}
			return r
		}
	case VMap:
		return VMap{obj: c.Ite(cond, p.obj, b.(VMap).obj), ty: p.ty}
	case VStruct:
		q := b.(VStruct)
		r := VStruct{make([]Value, len(p.f))}
		for i := range p.f {
			r.f[i] = x.iteVal(cond, p.f[i], q.f[i])
		}
		return r
	}
	unsup("merging values of type %T", a)
	return nil
}

// ---- models of dependencies ----

type model func(x *Exec, st *State, fr *Frame, in ssa.Instruction, fn *ssa.Function, args []Value)

var models map[string]model

func (x *Exec) newError(st *State) VIface {
	o := x.alloc(st)
	t := x.w.errPtrType
	return VIface{typ: t, val: x.ptrTo(t.Elem(), o, x.c.I(0))}
}

func mErr(x *Exec, st *State, fr *Frame, in ssa.Instruction, fn *ssa.Function, args []Value) {
	x.fin(st, fr, in, x.newError(st))
}

// mWrap: nil stays nil, anything else becomes a fresh error.
func mWrap(x *Exec, st *State, fr *Frame, in ssa.Instruction, fn *ssa.Function, args []Value) {
	v := args[0].(VIface)
	if v.tid == nil {
		if v.typ == nil {
			x.fin(st, fr, in, VIface{})
		} else {
			x.fin(st, fr, in, x.newError(st))
		}
		return
	}
	isnil := x.c.Eq(v.tid, x.c.BV(0, 32))
	known := 0
	for _, p := range st.pc {
		if p == isnil {
			known = 1
		}
		if p == x.c.Not(isnil) {
			known = 2
		}
	}
	if isnil.isTrue() {
		known = 1
	} else if isnil.isFalse() {
		known = 2
	}
	switch known {
	case 0:
		panic(forkReq{isnil})
	case 1:
		x.fin(st, fr, in, VIface{})
	default:
		x.fin(st, fr, in, x.newError(st))
	}
}

func mNop(x *Exec, st *State, fr *Frame, in ssa.Instruction, fn *ssa.Function, args []Value) {
	var v Value
	if rt := x.resultType(fn.Signature); rt != nil {
		v = x.zero(rt)
	}
	x.fin(st, fr, in, v)
}
func mHavocRes(x *Exec, st *State, fr *Frame, in ssa.Instruction, fn *ssa.Function, args []Value) {
	var v Value
	if rt := x.resultType(fn.Signature); rt != nil {
		v = x.havocVal(st, rt, fn.Name())
	}
	x.fin(st, fr, in, v)
}
func mStr(x *Exec, st *State, fr *Frame, in ssa.Instruction, fn *ssa.Function, args []Value) {
	x.fin(st, fr, in, x.freshStr(st, fn.Name()))
}

func init() {
	id := func(x *Exec, st *State, fr *Frame, in ssa.Instruction, fn *ssa.Function, args []Value) {
		x.fin(st, fr, in, args[0])
	}
	bytesEq := func(x *Exec, st *State, fr *Frame, in ssa.Instruction, fn *ssa.Function, args []Value) {
		x.fin(st, fr, in, x.bytesEq(st, args[0].(VSlice), args[1].(VSlice)))
	}
	models = map[string]model{
		"errors.New":                        mErr,
		"fmt.Errorf":                        mErr,
		"github.com/pkg/errors.New":         mErr,
		"github.com/pkg/errors.Errorf":      mErr,
		"github.com/pkg/errors.Wrap":        mWrap,
		"github.com/pkg/errors.Wrapf":       mWrap,
		"github.com/pkg/errors.WithMessage": mWrap,
		"github.com/pkg/errors.WithStack":   mWrap,
		"github.com/pkg/errors.Cause":       id,
		"fmt.Println":                       mNop,
		"fmt.Printf":                        mNop,
		"fmt.Print":                         mNop,
		"fmt.Fprintf":                       nil,
		"fmt.Sprintf":                       mStr,
		"fmt.Sprint":                        mStr,
		"fmt.Sprintln":                      mStr,
		"math.Float64bits":                  id,
		"math.Float64frombits":              id,
		"math.Float32bits":                  id,
		"math.Float32frombits":              id,
		"bytes.Equal":                       bytesEq,
		"crypto/hmac.Equal":                 bytesEq,
		"time.Now":                          mHavocRes,
		"time.Since":                        mHavocRes,
		"(time.Time).Unix":                  mHavocRes,
		"(time.Time).UnixNano":              mHavocRes,
		"(time.Time).UnixMilli":             mHavocRes,
		"(time.Time).Sub":                   mHavocRes,
		"(time.Time).Add":                   mHavocRes,
		"(time.Time).After":                 mHavocRes,
		"(time.Time).Before":                mHavocRes,
		"(time.Duration).Milliseconds":      nil,
		"runtime.Gosched":                   mNop,
		"time.Sleep":                        mNop,
		"crypto/subtle.ConstantTimeCompare": func(x *Exec, st *State, fr *Frame, in ssa.Instruction, fn *ssa.Function, args []Value) {
			x.fin(st, fr, in, x.c.Ite(x.bytesEq(st, args[0].(VSlice), args[1].(VSlice)), x.c.I(1), x.c.I(0)))
		},
	}
	for k, v := range models {
		if v == nil {
			delete(models, k)
		}
	}
}

func prefixModel(fq string) model {
	switch {
	case strings.HasPrefix(fq, "(*sync.Mutex)."), strings.HasPrefix(fq, "(*sync.RWMutex)."),
		strings.HasPrefix(fq, "(*sync.WaitGroup)."), strings.HasPrefix(fq, "(*sync.Cond)."):
		if strings.Contains(fq, "Try") {
			return mHavocRes
		}
		return mNop
	case strings.HasPrefix(fq, "log."), strings.HasPrefix(fq, "(*log.Logger)."):
		if strings.Contains(fq, "Fatal") || strings.Contains(fq, "Panic") {
			return nil
		}
		return mHavocRes
	case strings.HasPrefix(fq, "log/slog."), strings.HasPrefix(fq, "(*log/slog.Logger)."):
		return mHavocRes
	case strings.HasPrefix(fq, "github.com/SmartBrave/GGmpeg/") && strings.Contains(fq, "log"):
		return mNop
	}
	return nil
}

var _ = token.NoPos

// ufCall: a specification function marked uninterpreted. With scalar arguments
// it is an uninterpreted function; byte-slice arguments are compared by content
// with those of earlier calls.
func (x *Exec) ufCall(st *State, fr *Frame, in ssa.Instruction, fn *ssa.Function, args []Value) {
	c := x.c
	x.assumed["specification function "+fn.Name()+" is uninterpreted (any function of its arguments)"] = true
	var sorts []Sort
	scal := true
	for _, a := range args {
		if t, ok := a.(*Term); ok {
			sorts = append(sorts, t.sort)
		} else {
			scal = false
		}
	}
	res := fn.Signature.Results()
	var outs []*Term
	for i := 0; i < res.Len(); i++ {
		so, _, ok := scalarSort(res.At(i).Type())
		if !ok {
			unsup("result of uninterpreted %s", fn.Name())
		}
		if scal {
			key := fmt.Sprintf("uf:%s:%d", fn.RelString(nil), i)
			d := x.fdecls[key]
			if d == nil {
				d = c.NewDecl(fn.Name(), sorts, so)
				x.fdecls[key] = d
			}
			var ts []*Term
			for _, a := range args {
				ts = append(ts, a.(*Term))
			}
			outs = append(outs, c.App(d, ts...))
		} else {
			outs = append(outs, x.fresh(st, fn.Name(), so))
		}
	}
	if !scal {
		if st.pure {
			unsup("uninterpreted %s of slices inside a pure expression", fn.Name())
		}
		var snap []Value
		for _, a := range args {
			if s, ok := a.(VSlice); ok {
				o := x.alloc(st)
				n := VSlice{reg: "uint8", obj: o, off: c.I(0), len: s.len, cap: s.len}
				x.touch(st, s.obj)
				x.copyElems(st, types.Typ[types.Uint8], n.reg, o, nil, c.I(0), s.len, s.reg, s.obj, s.pre, s.off)
				snap = append(snap, n)
			} else {
				snap = append(snap, a)
			}
		}
		for _, r := range st.hashes {
			if r.fn != fn {
				continue
			}
			eq := c.True
			for k := range snap {
				switch p := snap[k].(type) {
				case VSlice:
					eq = c.And(eq, x.bytesEq(st, p, r.args[k].(VSlice)))
				case *Term:
					eq = c.And(eq, c.Eq(p, r.args[k].(*Term)))
				default:
					unsup("argument of uninterpreted %s", fn.Name())
				}
			}
			same := c.True
			for k := range outs {
				same = c.And(same, c.Eq(outs[k], r.out[k]))
			}
			st.assume(c.Implies(eq, same))
		}
		st.hashes = append(st.hashes, hashRec{fn, snap, outs})
	}
	var v Value
	switch len(outs) {
	case 0:
	case 1:
		v = outs[0]
	default:
		var t VTuple
		for _, o := range outs {
			t = append(t, o)
		}
		v = t
	}
	x.fin(st, fr, in, v)
}
