package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cellRec struct {
	reg string
	obj *Term
	idx []*Term
}

type modset struct {
	objs  map[*Term]bool
	all   bool
	fresh bool
	cells map[string]cellRec
	multi map[*Term]bool // objects written at varying indices
}

// loopInfo is what is known about one loop (per call context).
type loopInfo struct {
	key      string
	mods     map[string]*modset
	killed   map[string]bool
	superOut map[string]bool
	assumed  bool
	cands    int
	pend     map[string]bool // user invariants that failed in this round
}

// record notes that an iteration of the loop writes to memory.
func (al *activeLoop) record(x *Exec, st *State, reg string, obj *Term, idx []*Term, n *Term) {
	info := al.info
	ms := info.mods[reg]
	if ms == nil {
		ms = &modset{objs: map[*Term]bool{}, cells: map[string]cellRec{}, multi: map[*Term]bool{}}
		info.mods[reg] = ms
	}
	if obj.isConst() && obj.val >= al.mark {
		if !ms.fresh {
			ms.fresh = true
			x.dirtyWhy("fresh objects written in " + reg)
		}
		return
	}
	if d := obj.decl; (obj.op == OVar || obj.op == OApp) && d.ObjMin >= al.mark && d.ObjMin > 0 {
		// nil (no write is possible), freshly allocated, or the object the inner loop started with
		if !ms.fresh {
			ms.fresh = true
			x.dirtyWhy("fresh objects written in " + reg)
		}
		if d.ObjAlt != nil && !(d.ObjAlt.isConst() && d.ObjAlt.val == 0) {
			al.record(x, st, reg, d.ObjAlt, nil, nil)
		}
		return
	}
	if !x.stable(obj, al.serial) {
		if !ms.all {
			ms.all = true
			x.dirtyWhy("unknown object written in " + reg + " in " + info.key + ": " + obj.String())
		}
		return
	}
	if !ms.objs[obj] {
		ms.objs[obj] = true
		x.dirtyWhy("object written in " + reg + " in " + info.key)
	}
	single := idx != nil && n != nil && n.isConst() && n.val == 1
	if idx == nil && n != nil && n.isConst() && n.val == 1 {
		single = true
	}
	if single {
		for _, i := range idx {
			if !x.stable(i, al.serial) {
				single = false
			}
		}
	}
	if !single {
		if !ms.multi[obj] {
			ms.multi[obj] = true
			x.dirtyWhy("many cells written in " + reg + " in " + info.key)
		}
		return
	}
	k := idxKey(obj, idx)
	if _, ok := ms.cells[k]; !ok {
		ms.cells[k] = cellRec{reg, obj, idx}
		x.dirtyWhy("cell written in " + reg + " in " + info.key)
	}
}

func (x *Exec) dirtyWhy(w string) {
	if !x.dirty && x.dbg {
		fmt.Fprintln(os.Stderr, "   round", x.rounds, "dirty:", w)
	}
	x.dirty = true
}

// stable: the term mentions only symbols that existed before the loop was entered.
func (x *Exec) stable(t *Term, serial int) bool {
	ok := true
	x.c.collect(t, map[int]bool{}, func(u *Term) {
		if u.decl != nil && u.decl.Serial > serial {
			ok = false
		}
	})
	return ok
}

type lv struct {
	key    string
	val    *Term
	signed bool
	kind   byte // 'i' integer, 'b' bool, 'o' object, 'x' other scalar
}

func (x *Exec) comps(key string, v Value, t types.Type, out *[]lv) {
	switch a := v.(type) {
	case *Term:
		k := byte('i')
		if a.sort == SBool {
			k = 'b'
		}
		if t != nil && isFloat(t) {
			k = 'x'
		}
		sg := false
		if t != nil {
			_, sg, _ = scalarSort(t)
		}
		*out = append(*out, lv{key, a, sg, k})
	case VSlice:
		*out = append(*out, lv{key + "#obj", a.obj, false, 'o'}, lv{key + "#off", a.off, true, 'i'}, lv{key + "#len", a.len, true, 'i'}, lv{key + "#cap", a.cap, true, 'i'})
	case VStr:
		*out = append(*out, lv{key + "#sobj", a.obj, false, 'o'}, lv{key + "#soff", a.off, true, 'i'}, lv{key + "#slen", a.len, true, 'i'})
	case VPtr:
		*out = append(*out, lv{key + "#ptr", a.obj, false, 'o'})
		if len(a.idx) == 1 {
			*out = append(*out, lv{key + "#pidx", a.idx[0], true, 'i'})
		}
	case VMap:
		*out = append(*out, lv{key + "#map", a.obj, false, 'o'})
	}
}

// rebuild makes a havocked value keeping the components in `same`.
func (x *Exec) havocLike(st *State, key string, entry Value, t types.Type, same func(k string) bool) Value {
	switch a := entry.(type) {
	case *Term:
		if same(key) {
			return a
		}
		return x.fresh(st, "l:"+key, a.sort)
	case VSlice:
		if len(a.pre) > 0 {
			if same(key + "#whole") {
				return a
			}
			return x.havocVal(st, t, "l:"+key)
		}
		h := x.havocVal(st, t, "l:"+key).(VSlice)
		if same(key + "#obj") {
			h.obj = a.obj
			h.reg = a.reg
		} else if a.reg != h.reg {
			unsup("loop variable %s ranges over array storage", key)
		}
		if same(key + "#off") {
			h.off = a.off
		}
		if same(key + "#len") {
			h.len = a.len
		}
		if same(key + "#cap") {
			h.cap = a.cap
		} else if x.h.unkcap[a.cap] {
			x.h.unkcap[h.cap] = true
		}
		st.assume(x.c.Ule(h.len, h.cap))
		if !same(key + "#obj") {
			st.assume(x.c.Implies(x.c.Eq(h.obj, x.c.I(0)), x.c.Eq(h.cap, x.c.I(0))))
		}
		return h
	case VStr:
		h := x.havocVal(st, t, "l:"+key).(VStr)
		if same(key+"#sobj") && same(key+"#soff") && same(key+"#slen") {
			return a
		}
		if same(key + "#sobj") {
			h.obj = a.obj
		}
		if same(key + "#soff") {
			h.off = a.off
		}
		if same(key + "#slen") {
			h.len = a.len
		}
		return h
	case VPtr:
		if a.path == "" && !a.arrRoot && len(a.idx) == 1 {
			h := x.havocVal(st, t, "l:"+key).(VPtr)
			if h.root != a.root {
				unsup("loop pointer %s", key)
			}
			if same(key + "#ptr") {
				h.obj = a.obj
			}
			if same(key + "#pidx") {
				h.idx = a.idx
			}
			return h
		}
		if same(key + "#whole") {
			return a
		}
		return x.havocVal(st, t, "l:"+key)
	case VMap:
		if same(key + "#map") {
			return a
		}
		return x.havocVal(st, t, "l:"+key)
	}
	if same(key + "#whole") {
		return entry
	}
	return x.havocVal(st, t, "l:"+key)
}

// identical: a term stating that two values are the same (used for
// whole-value candidates only).
func (x *Exec) identical(st *State, a, b Value, t types.Type) *Term {
	c := x.c
	switch p := a.(type) {
	case *Term:
		return c.Eq(p, b.(*Term))
	case VIface:
		q := b.(VIface)
		if p.tid != nil && q.tid != nil {
			return c.Bool(p.tid == q.tid && p.val == q.val)
		}
		if p.tid == nil && q.tid == nil {
			if p.typ == nil && q.typ == nil {
				return c.True
			}
			if p.typ == nil || q.typ == nil || !types.Identical(p.typ, q.typ) {
				return c.False
			}
			return x.identical(st, p.val, q.val, p.typ)
		}
		if p.typ == nil && p.tid == nil {
			return c.Eq(q.tid, c.BV(0, 32))
		}
		if q.typ == nil && q.tid == nil {
			return c.Eq(p.tid, c.BV(0, 32))
		}
		return c.False
	case VSlice:
		q := b.(VSlice)
		if p.reg != q.reg || len(p.pre) != len(q.pre) {
			return c.False
		}
		r := c.And(c.Eq(p.obj, q.obj), c.Eq(p.off, q.off), c.Eq(p.len, q.len), c.Eq(p.cap, q.cap))
		for i := range p.pre {
			r = c.And(r, c.Eq(p.pre[i], q.pre[i]))
		}
		return r
	case VPtr:
		q := b.(VPtr)
		if p.root != q.root || p.path != q.path || len(p.idx) != len(q.idx) {
			return c.False
		}
		r := c.Eq(p.obj, q.obj)
		for i := range p.idx {
			r = c.And(r, c.Eq(p.idx[i], q.idx[i]))
		}
		return r
	case VStr:
		q := b.(VStr)
		return c.And(c.Eq(p.obj, q.obj), c.Eq(p.off, q.off), c.Eq(p.len, q.len))
	case VMap:
		return c.Eq(p.obj, b.(VMap).obj)
	case VStruct:
		q := b.(VStruct)
		r := c.True
		for i := range p.f {
			r = c.And(r, x.identical(st, p.f[i], q.f[i], nil))
		}
		return r
	case VArr:
		q := b.(VArr)
		return c.Bool(p.node == q.node && p.obj == q.obj && p.off == q.off)
	case VFunc:
		q := b.(VFunc)
		if p.fn != q.fn || len(p.bind) != len(q.bind) || p.fn == nil && p.nil_ != q.nil_ {
			return c.False
		}
		r := c.True
		for i := range p.bind {
			r = c.And(r, x.identical(st, p.bind[i], q.bind[i], nil))
		}
		return r
	case VOpaque:
		q, ok := b.(VOpaque)
		return c.Bool(ok && p.obj == q.obj)
	}
	return c.False
}

// whole tells whether a value is tracked as one unit instead of by component.
func whole(v Value) bool {
	switch a := v.(type) {
	case VIface, VStruct, VArr, VFunc, VOpaque:
		return true
	case VSlice:
		return len(a.pre) > 0
	case VPtr:
		return !(a.path == "" && !a.arrRoot && len(a.idx) == 1)
	}
	return false
}

type lvar struct {
	key   string
	val   Value
	typ   types.Type
	whole bool
}

type cand struct {
	key string
	t   *Term
}

// vars lists the loop-carried variables: phis and modified memory cells.
func (x *Exec) loopVars(st *State, fr *Frame, h *ssa.BasicBlock, info *loopInfo, entry map[string]lvar) []lvar {
	var out []lvar
	n := map[string]int{}
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		k := p.Comment
		if k == "" {
			k = "phi"
		}
		n[k]++
		if n[k] > 1 {
			k = fmt.Sprintf("%s~%d", k, n[k])
		}
		v := fr.regs[p]
		w := whole(v)
		if entry != nil {
			w = entry[k].whole
		}
		out = append(out, lvar{k, v, p.Type(), w})
	}
	var regs []string
	for r := range info.mods {
		regs = append(regs, r)
	}
	sort.Strings(regs)
	for _, r := range regs {
		ms := info.mods[r]
		t := x.regType[r]
		if t == nil || len(ms.cells) == 0 || len(ms.cells) > 40 {
			continue
		}
		var ks []string
		for k := range ms.cells {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			cr := ms.cells[k]
			if ms.multi[cr.obj] {
				continue
			}
			key := "mem:" + r + ":" + k
			var v Value
			func() {
				defer func() {
					if e := recover(); e != nil {
						if _, ok := e.(forkReq); !ok {
							panic(e)
						}
					}
				}()
				v = x.readLeaf(x.node(st, r), t, r, cr.obj, cr.idx)
			}()
			if v == nil {
				continue
			}
			w := whole(v)
			if entry != nil {
				e, ok := entry[key]
				if !ok {
					continue
				}
				w = e.whole
			}
			out = append(out, lvar{key, v, t, w})
		}
	}
	return out
}

// candidates instantiates the invariant templates at the current point.
func (x *Exec) candidates(st *State, fr *Frame, h *ssa.BasicBlock, info *loopInfo, al *activeLoop, entry map[string]lvar) []cand {
	c := x.c
	defer func(m map[string]*MNode) { x.entryMem = m }(x.entryMem)
	x.entryMem = al.mem
	var out []cand
	add := func(k string, t func() *Term) {
		if info.killed[k] || info.pend[k] {
			return
		}
		out = append(out, cand{k, t()})
	}
	vars := x.loopVars(st, fr, h, info, entry)
	var cur, ent []lv
	for _, v := range vars {
		e := entry[v.key]
		if e.whole || whole(v.val) {
			k := v.key
			add("eq:"+k+"#whole", func() *Term { return x.identical(st, v.val, e.val, v.typ) })
			continue
		}
		var a, b []lv
		x.comps(v.key, v.val, v.typ, &a)
		x.comps(v.key, e.val, e.typ, &b)
		if len(a) != len(b) {
			continue
		}
		if p, ok := v.val.(VSlice); ok {
			if q := e.val.(VSlice); p.reg != q.reg {
				info.killed["eq:"+v.key+"#obj"] = true
			}
		}
		cur = append(cur, a...)
		ent = append(ent, b...)
	}
	var ci, ei []lv // integers not known constant
	for i := range cur {
		v, e := cur[i], ent[i]
		add("eq:"+v.key, func() *Term { return c.Eq(v.val, e.val) })
		if !info.killed["eq:"+v.key] {
			continue
		}
		switch v.kind {
		case 'o':
			add("fresh:"+v.key, func() *Term {
				return c.Or(c.Eq(v.val, c.I(0)), c.Eq(v.val, e.val), c.Ule(c.BV(al.mark, 64), v.val))
			})
			add("nonnil:"+v.key, func() *Term { return c.Not(c.Eq(v.val, c.I(0))) })
		case 'i':
			ci = append(ci, v)
			ei = append(ei, e)
			if v.signed {
				add("ge:"+v.key, func() *Term { return c.Sle(e.val, v.val) })
				add("le:"+v.key, func() *Term { return c.Sle(v.val, e.val) })
				add("nn:"+v.key, func() *Term { return c.Sle(c.BV(0, v.val.sort), v.val) })
				add("m1:"+v.key, func() *Term { return c.Sle(c.BV(^uint64(0), v.val.sort), v.val) })
			} else {
				add("ge:"+v.key, func() *Term { return c.Ule(e.val, v.val) })
				add("le:"+v.key, func() *Term { return c.Ule(v.val, e.val) })
			}
			if v.val.sort == 64 && v.signed {
				add("small:"+v.key, func() *Term { return c.Sle(v.val, c.BV(maxLen*4, 64)) })
			}
		}
	}
	steps := x.loopSteps(h)
	for i := range ci {
		if s := steps[ci[i].key]; s > 1 {
			i := i
			add(fmt.Sprintf("mod%d:%s", s, ci[i].key), func() *Term {
				return c.Eq(c.Div(OUrem, c.Sub(ci[i].val, ei[i].val), c.BV(uint64(s), ci[i].val.sort)), c.BV(0, ci[i].val.sort))
			})
		}
	}
	if len(ci) <= 12 {
		for i := range ci {
			for j := range ci {
				if i >= j || ci[i].val.sort != ci[j].val.sort {
					continue
				}
				i, j := i, j
				add("diff:"+ci[i].key+","+ci[j].key, func() *Term {
					return c.Eq(c.Sub(ci[i].val, ci[j].val), c.Sub(ei[i].val, ei[j].val))
				})
				add("sum:"+ci[i].key+","+ci[j].key, func() *Term {
					return c.Eq(c.Add(ci[i].val, ci[j].val), c.Add(ei[i].val, ei[j].val))
				})
				if !info.killed["diff:"+ci[i].key+","+ci[j].key] || !info.killed["sum:"+ci[i].key+","+ci[j].key] {
					continue
				}
				for _, k := range []uint64{2, 3, 4, 8, 16, 188} {
					if !x.scaleUsed(h, k) {
						continue
					}
					for d := 0; d < 2; d++ {
						a, b := i, j
						if d == 1 {
							a, b = j, i
						}
						k := k
						add(fmt.Sprintf("scale%d:%s,%s", k, ci[a].key, ci[b].key), func() *Term {
							s := ci[a].val.sort
							return c.Eq(c.Sub(ci[a].val, ei[a].val), c.Mul(c.BV(k, s), c.Sub(ci[b].val, ei[b].val)))
						})
					}
				}
			}
		}
	}
	for _, bd := range x.loopBounds(st, fr, h) {
		bd := bd
		p := fr.regs[bd.phi].(*Term)
		if p.sort != bd.n.sort {
			continue
		}
		if info.killed["eq:"+bd.key] {
			if bd.signed {
				add("bnd<="+bd.key+bd.id, func() *Term { return c.Sle(p, bd.n) })
				add("bnd>="+bd.key+bd.id, func() *Term { return c.Sle(bd.n, p) })
				add("bnd<=+"+bd.key+bd.id, func() *Term { return c.Sle(p, c.AddC(bd.n, 1)) })
			} else {
				add("bnd<="+bd.key+bd.id, func() *Term { return c.Ule(p, bd.n) })
				add("bnd>="+bd.key+bd.id, func() *Term { return c.Ule(bd.n, p) })
			}
		}
	}
	// user invariants, matched by the names and types of the variables in scope
	for _, inv := range x.h.invs {
		in := inv.scope == ""
		for _, sc := range strings.Fields(inv.scope) {
			in = in || strings.Contains(fr.ctx, sc) || strings.HasSuffix(x.fnName(fr.fn), sc)
		}
		if !in {
			continue
		}
		for bi, args := range x.bindInv(st, fr, h, inv.fn, entry) {
			key := fmt.Sprintf("user:%s/%d", inv.fn.Name(), bi)
			if info.killed[key] || info.pend[key] {
				continue
			}
			var t *Term
			func() {
				defer func() {
					if e := recover(); e != nil {
						switch e.(type) {
						case forkReq, unsupported:
							t = nil
						default:
							panic(e)
						}
					}
				}()
				t, _ = x.pureCall(st, inv.fn, args, nil).(*Term)
			}()
			if t == nil {
				if x.dbg {
					fmt.Fprintln(os.Stderr, "   invariant not evaluable:", inv.fn.Name())
				}
				info.killed[key] = true
				x.dirtyWhy("invariant not evaluable")
				continue
			}
			out = append(out, cand{key, t})
		}
	}
	return out
}

type invFn struct {
	fn    *ssa.Function
	scope string
}

// bindInv finds arguments for an invariant function among the variables in scope.
func (x *Exec) bindInv(st *State, fr *Frame, h *ssa.BasicBlock, fn *ssa.Function, entry map[string]lvar) [][]Value {
	var args []Value
	for _, p := range fn.Params {
		v := x.lookupName(st, p.Name(), p.Type(), entry)
		if v == nil {
			args = nil
			break
		}
		args = append(args, v)
	}
	if len(args) == len(fn.Params) {
		return [][]Value{args}
	}
	// second chance: bind the missing parameters by type among the loop's phis
	used := map[*ssa.Phi]bool{}
	args = nil
	for _, p := range fn.Params {
		v := x.lookupName(st, p.Name(), p.Type(), entry)
		if v == nil && !strings.HasSuffix(p.Name(), "0") && !strings.HasSuffix(p.Name(), "_in") {
			for _, in := range h.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if !used[ph] && types.Identical(ph.Type(), p.Type()) {
					used[ph] = true
					v = fr.regs[ph]
					break
				}
			}
		}
		if v == nil {
			return nil
		}
		args = append(args, v)
	}
	return [][]Value{args}
}

// lookupName resolves a source variable name in the innermost frame that has it.
func (x *Exec) lookupName(st *State, name string, t types.Type, entry map[string]lvar) Value {
	if strings.HasSuffix(name, "_in") && entry != nil {
		if e, ok := entry[strings.TrimSuffix(name, "_in")]; ok && types.Identical(e.typ, t) {
			return e.val
		}
	}
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		if v, ok := f.names[name]; ok && types.Identical(v.Type(), t) {
			if _, isC := v.(*ssa.Const); isC {
				return x.val(f, v)
			}
			if r, ok := f.regs[v]; ok {
				return r
			}
		}
		if v, ok := f.names["&"+name]; ok {
			if pt, isP := v.Type().Underlying().(*types.Pointer); isP && types.Identical(pt.Elem(), t) {
				if r, ok := f.regs[v]; ok {
					p := r.(VPtr)
					return x.loadAt(st, t, p.root+p.path, p.obj, p.idx, p.arrRoot)
				}
			}
		}
		if strings.HasSuffix(name, "0") {
			if v, ok := f.env[strings.TrimSuffix(name, "0")]; ok {
				for _, p := range f.fn.Params {
					if p.Name() == strings.TrimSuffix(name, "0") && types.Identical(p.Type(), t) {
						return v
					}
				}
			}
		}
	}
	return nil
}

func (x *Exec) loopSteps(h *ssa.BasicBlock) map[string]int64 {
	out := map[string]int64{}
	n := map[string]int{}
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		k := p.Comment
		if k == "" {
			k = "phi"
		}
		n[k]++
		if n[k] > 1 {
			k = fmt.Sprintf("%s~%d", k, n[k])
		}
		for _, e := range p.Edges {
			if b, ok := e.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) && b.X == p {
				if cst, ok := b.Y.(*ssa.Const); ok && cst.Value != nil {
					if isScalar(cst.Type()) && !isFloat(cst.Type()) {
						if v := cst.Int64(); v > 1 {
							out[k] = v
						}
					}
				}
			}
		}
	}
	return out
}

func (x *Exec) scaleUsed(h *ssa.BasicBlock, k uint64) bool {
	li := x.w.loopsOf(h.Parent())
	for b := range li.body[h] {
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok {
				for _, o := range []ssa.Value{bo.X, bo.Y} {
					if cst, ok := o.(*ssa.Const); ok && cst.Value != nil && isScalar(cst.Type()) && !isFloat(cst.Type()) {
						if b, isb := cst.Type().Underlying().(*types.Basic); isb && b.Info()&types.IsInteger != 0 && cst.Uint64() == k {
							return true
						}
					}
				}
			}
			if sl, ok := in.(*ssa.Slice); ok {
				for _, o := range []ssa.Value{sl.Low, sl.High} {
					if cst, ok := o.(*ssa.Const); ok && cst.Value != nil && cst.Uint64() == k {
						return true
					}
				}
			}
		}
	}
	return false
}

type bound struct {
	phi    *ssa.Phi
	key    string
	id     string
	n      *Term
	signed bool
}

// loopBounds collects comparisons between a phi (plus constant) and loop-invariant values.
func (x *Exec) loopBounds(st *State, fr *Frame, h *ssa.BasicBlock) []bound {
	li := x.w.loopsOf(h.Parent())
	body := li.body[h]
	keys := map[*ssa.Phi]string{}
	n := map[string]int{}
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		k := p.Comment
		if k == "" {
			k = "phi"
		}
		n[k]++
		if n[k] > 1 {
			k = fmt.Sprintf("%s~%d", k, n[k])
		}
		keys[p] = k
	}
	var inv func(v ssa.Value, d int) *Term
	inv = func(v ssa.Value, d int) *Term {
		if d > 4 {
			return nil
		}
		switch k := v.(type) {
		case *ssa.Const:
			if k.Value == nil || !isScalar(k.Type()) {
				return nil
			}
			t, _ := x.constVal(k).(*Term)
			return t
		case ssa.Instruction:
			if !body[k.Block()] {
				t, _ := fr.regs[v].(*Term)
				return t
			}
			switch b := v.(type) {
			case *ssa.Call:
				if bi, ok := b.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					a := b.Call.Args[0]
					var av Value
					if ai, ok := a.(ssa.Instruction); ok && body[ai.Block()] {
						// a load of an unmodified location evaluates to the same value
						if u, ok := a.(*ssa.UnOp); ok && u.Op == token.MUL {
							if ad, ok := u.X.(*ssa.Alloc); ok {
								if p, ok := fr.regs[ad].(VPtr); ok {
									av = x.loadAt(st, u.Type(), p.root+p.path, p.obj, p.idx, p.arrRoot)
								}
							}
							if fa, ok := u.X.(*ssa.FieldAddr); ok {
								if p, ok := fr.regs[fa.X].(VPtr); ok {
									stt := under(fa.X.Type().Underlying().(*types.Pointer).Elem()).(*types.Struct)
									func() {
										defer func() { recover() }()
										av = x.loadAt(st, u.Type(), p.root+p.path+"."+stt.Field(fa.Field).Name(), p.obj, p.idx, false)
									}()
								}
							}
						}
						if ph, ok := a.(*ssa.Phi); ok && ph.Block() == h {
							av = fr.regs[ph]
						}
					} else {
						av = fr.regs[a]
					}
					switch s := av.(type) {
					case VSlice:
						return s.len
					case VStr:
						return s.len
					}
				}
			case *ssa.BinOp:
				p, q := inv(b.X, d+1), inv(b.Y, d+1)
				if p == nil || q == nil || p.sort != q.sort || p.sort == SBool {
					return nil
				}
				switch b.Op {
				case token.ADD:
					return x.c.Add(p, q)
				case token.SUB:
					return x.c.Sub(p, q)
				}
			case *ssa.Convert:
				p := inv(b.X, d+1)
				fs, sg, ok1 := scalarSort(b.X.Type())
				ts, _, ok2 := scalarSort(b.Type())
				if p == nil || !ok1 || !ok2 || fs == SBool || ts == SBool || isFloat(b.X.Type()) || isFloat(b.Type()) {
					return nil
				}
				switch {
				case ts < fs:
					return x.c.Extract(p, uint(ts)-1, 0)
				case ts > fs && sg:
					return x.c.Sext(p, ts)
				}
				return x.c.Zext(p, ts)
			}
			return nil
		default:
			t, _ := fr.regs[v].(*Term)
			return t
		}
	}
	// phiOf: v = phi + const
	phiOf := func(v ssa.Value) (*ssa.Phi, int64, bool) {
		if p, ok := v.(*ssa.Phi); ok {
			if _, ok := keys[p]; ok {
				return p, 0, true
			}
		}
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
			if p, ok := b.X.(*ssa.Phi); ok {
				if _, ok := keys[p]; ok {
					if cst, ok := b.Y.(*ssa.Const); ok && cst.Value != nil && isScalar(cst.Type()) && !isFloat(cst.Type()) {
						k := cst.Int64()
						if b.Op == token.SUB {
							k = -k
						}
						return p, k, true
					}
				}
			}
		}
		return nil, 0, false
	}
	var out []bound
	seen := map[string]bool{}
	var blocks []*ssa.BasicBlock
	for b := range body {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	for _, b := range blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			if !isScalar(bo.X.Type()) || isFloat(bo.X.Type()) {
				continue
			}
			for d := 0; d < 2; d++ {
				a, o := bo.X, bo.Y
				if d == 1 {
					a, o = o, a
				}
				p, k, ok := phiOf(a)
				if !ok {
					continue
				}
				nv := inv(o, 0)
				if nv == nil || nv.sort == SBool {
					continue
				}
				_, sg, _ := scalarSort(p.Type())
				id := fmt.Sprintf("@%d.%d", b.Index, x.iid(bo))
				if !seen[id] {
					seen[id] = true
					out = append(out, bound{p, keys[p], id, x.c.AddC(nv, -k), sg})
					if k != 0 {
						out = append(out, bound{p, keys[p], id + "k", nv, sg})
					}
				}
			}
		}
	}
	return out
}

// cut replaces the loop by its invariant: the candidates that survive are
// checked on entry, the modified state is forgotten, the candidates are assumed.
func (x *Exec) cut(st *State, fr *Frame, h, from *ssa.BasicBlock) {
	if st.pure {
		unsup("loop without a concrete bound in a specification function %s", x.fnName(fr.fn))
	}
	key := fmt.Sprintf("%s#%d", fr.ctx, h.Index)
	info := x.loops[key]
	if info == nil {
		info = &loopInfo{key: key, mods: map[string]*modset{}, killed: map[string]bool{}}
		x.loops[key] = info
	}
	al := &activeLoop{info: info, mark: st.next, serial: st.nfresh, mem: map[string]*MNode{}}
	for r, n := range st.mem {
		al.mem[r] = n
	}
	vals := x.phiVals(fr, h, from)
	for p, v := range vals {
		fr.regs[p] = v
	}
	x.bindPhis(fr, h)
	fr.prev, fr.block, fr.ip = from, h, len(vals)
	entry := map[string]lvar{}
	for _, v := range x.loopVars(st, fr, h, info, nil) {
		entry[v.key] = v
	}
	al.ent = entry
	// checked on entry
	x.checkCands(st, info, x.candidates(st, fr, h, info, al, entry), "established")
	same := func(k string) bool { return !info.killed["eq:"+k] }
	// forget
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		_ = p
	}
	// values of an arbitrary iteration may refer to objects allocated by earlier ones
	endObj := (st.next/epochLen + 1) * epochLen
	st.next = endObj
	for _, v := range x.phiKeys(h) {
		fr.regs[v.phi] = x.freshObj(st, info, al, v.key, x.havocLike(st, v.key, entry[v.key].val, v.phi.Type(), same), entry[v.key].val)
	}
	var regs []string
	for r := range info.mods {
		regs = append(regs, r)
	}
	sort.Strings(regs)
	for _, r := range regs {
		ms := info.mods[r]
		v := x.newVerS(st, "lp:"+r, endObj-1)
		v.all = ms.all
		for o := range ms.objs {
			if ms.multi[o] {
				v.stable = append(v.stable, o)
			}
		}
		sort.Slice(v.stable, func(i, j int) bool { return v.stable[i].id < v.stable[j].id })
		if ms.fresh {
			v.mark, v.end = al.mark, endObj
		}
		if ms.all {
			v.mark, v.end = al.mark, endObj
		}
		// the write itself is visible to enclosing loops
		for _, f := range st.frames {
			for _, o := range f.active {
				if ms.all {
					om := o.info.mods[r]
					if om == nil || !om.all {
						o.record(x, st, r, x.c.App(x.freshDecl(st, "anyobj", 64)), nil, nil)
					}
				}
				for _, ob := range v.stable {
					o.record(x, st, r, ob, nil, nil)
				}
				for _, cr := range ms.cells {
					if !ms.multi[cr.obj] {
						o.record(x, st, r, cr.obj, cr.idx, x.c.I(1))
					}
				}
				if ms.fresh {
					o.record(x, st, r, x.c.BV(st.next, 64), nil, nil)
				}
			}
		}
		prev := x.node(st, r)
		x.memSeq++
		st.mem[r] = &MNode{kind: mHavoc, prev: prev, ver: v, seq: x.memSeq}
		// cells that keep (parts of) their value
		if t := x.regType[r]; t != nil {
			var ks []string
			for k := range ms.cells {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				cr := ms.cells[k]
				key := "mem:" + r + ":" + k
				if ms.multi[cr.obj] {
					continue
				}
				e, ok := entry[key]
				var nv Value
				if ok {
					nv = x.freshObj(st, info, al, key, x.havocLike(st, key, e.val, t, same), e.val)
				} else {
					nv = x.havocVal(st, t, "l:"+key)
				}
				x.memSeq++
				st.mem[r] = &MNode{kind: mWrite, prev: x.node(st, r), obj: cr.obj, idx: cr.idx, val: nv, seq: x.memSeq}
			}
		}
	}
	al.end = endObj
	for s := range info.superOut {
		_ = s
	}
	al.assumed = map[string]bool{}
	for _, cd := range x.candidates(st, fr, h, info, al, entry) {
		al.assumed[cd.key] = true
		if x.dbg && os.Getenv("GOVC_CANDS") != "" {
			fmt.Println("   assume", info.key, cd.key, cd.t)
		}
		st.assume(cd.t)
	}
	info.assumed = true
	fr.active[h] = al
	if st.dead {
		return
	}
}

// freshObj refines the object of a havocked slice or pointer by the candidate
// that it is the entry object or was allocated since the loop was entered.
func (x *Exec) freshObj(st *State, info *loopInfo, al *activeLoop, key string, v, entry Value) Value {
	mk := func(sub string, old, alt *Term) *Term {
		k := key + sub
		if old == alt || info.killed["fresh:"+k] || info.pend["fresh:"+k] || !info.killed["eq:"+k] {
			return old
		}
		t := x.freshRng(st, fmt.Sprintf("l:%s.obj~%d~%d", key, al.mark, alt.id), 64, 0, st.next-1)
		t.decl.ObjMin, t.decl.ObjAlt = al.mark, alt
		return t
	}
	switch a := v.(type) {
	case VSlice:
		e, ok := entry.(VSlice)
		if !ok || len(a.pre) > 0 || len(e.pre) > 0 || a.obj == nil || e.obj == nil {
			return v
		}
		n := mk("#obj", a.obj, e.obj)
		if n != a.obj {
			a.obj = n
			st.assume(x.c.Implies(x.c.Eq(n, x.c.I(0)), x.c.Eq(a.cap, x.c.I(0))))
		}
		return a
	case VPtr:
		e, ok := entry.(VPtr)
		if !ok || a.path != "" || a.arrRoot || len(a.idx) != 1 || a.obj == nil || e.obj == nil {
			return v
		}
		a.obj = mk("#ptr", a.obj, e.obj)
		return a
	}
	return v
}

type phiKey struct {
	phi *ssa.Phi
	key string
}

func (x *Exec) phiKeys(h *ssa.BasicBlock) []phiKey {
	var out []phiKey
	n := map[string]int{}
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		k := p.Comment
		if k == "" {
			k = "phi"
		}
		n[k]++
		if n[k] > 1 {
			k = fmt.Sprintf("%s~%d", k, n[k])
		}
		out = append(out, phiKey{p, k})
	}
	return out
}

func (x *Exec) checkCands(st *State, info *loopInfo, cs []cand, what string) {
	if x.dirty && x.dirtyLoop != info {
		// the round will be repeated: other loops are settled then
		return
	}
	var todo []cand
	var all []*Term
	for _, cd := range cs {
		if cd.t.isTrue() {
			continue
		}
		if strings.HasPrefix(cd.key, "user:") && (x.dirty || x.pendAny && info.pend[cd.key]) {
			// this round will be repeated: the invariant is checked then
			continue
		}
		todo = append(todo, cd)
		if !strings.HasPrefix(cd.key, "user:") {
			all = append(all, cd.t)
		}
	}
	if len(todo) == 0 {
		if !x.dirty {
			x.loopOblig(info, what, len(cs), len(cs))
		}
		return
	}
	if x.dbg && os.Getenv("GOVC_CANDS") != "" {
		fmt.Fprintln(os.Stderr, "   check", info.key, what, len(todo), "pc feasible:", x.s.Check(st.pc, true))
		for _, p := range st.pc {
			fmt.Fprintln(os.Stderr, "      pc:", p)
		}
	}
	okn := len(cs) - len(todo)
	// templates are decided from the ground facts alone: quickly either way
	tmplOK := x.proveGround(st, x.c.And(all...)) == Unsat
	for _, cd := range todo {
		user := strings.HasPrefix(cd.key, "user:")
		if !user && (tmplOK || len(all) > 1 && x.proveGround(st, cd.t) == Unsat) ||
			user && x.prove(st, cd.t, true) == Unsat {
			okn++
			continue
		}
		if strings.HasPrefix(cd.key, "user:") {
			// decided at the end of the round: the failure may come from effects
			// of the loop that this round had not yet discovered
			if info.pend == nil {
				info.pend = map[string]bool{}
			}
			info.pend[cd.key] = true
			x.pendAny = x.pendAny || info.assumed || what != "established"
		} else {
			info.killed[cd.key] = true
		}
		if x.dbg && (os.Getenv("GOVC_KILL") != "" || strings.HasPrefix(cd.key, "user:")) {
			fmt.Fprintf(os.Stderr, "   kill %s %s (%s): %s\n", info.key, cd.key, what, cd.t)
			for i, p := range x.splitGoal(cd.t, nil) {
				if os.Getenv("GOVC_KILL") == "" || cd.key[:5] != "user:" {
					break
				}
				fs := append(st.pc[:len(st.pc):len(st.pc)], x.c.Not(p))
				if r := x.s.Check(fs, true); r != Unsat {
					fmt.Fprintf(os.Stderr, "      part %d (%v): %s\n", i, r, p)
					os.WriteFile(fmt.Sprintf("/tmp/fail%d.smt2", i), []byte(x.s.script(x.s.groundN(fs, 3, 200, true))), 0o644)
					for _, f := range fs {
						fmt.Fprintln(os.Stderr, "        pc:", f)
					}
				}
			}
		}
		if info.killed[cd.key] && (info.assumed || what != "established") {
			if !x.dirty {
				x.dirtyLoop = info
			}
			x.dirtyWhy("candidate " + cd.key + " of " + info.key + " not " + what)
		}
	}
	if !x.dirty {
		x.loopOblig(info, what, okn, 0)
	}
}

func (x *Exec) loopOblig(info *loopInfo, what string, n, triv int) {
	if n == 0 {
		return
	}
	name := "loop invariants " + what + " [" + shortCtx(info.key) + "]"
	o := x.obl[name]
	if o == nil {
		o = &Oblig{Name: name, Tools: map[string]int{}}
		x.obl[name] = o
	}
	o.Checked += n
	o.Discharged += n
	o.Trivial += triv
}

func shortCtx(k string) string {
	if i := strings.LastIndex(k, "/"); i >= 0 {
		return k[i+1:]
	}
	return k
}

func (x *Exec) backEdge(st *State, fr *Frame, al *activeLoop, from, h *ssa.BasicBlock) {
	vals := x.phiVals(fr, h, from)
	for p, v := range vals {
		fr.regs[p] = v
	}
	x.bindPhis(fr, h)
	fr.block = h
	fr.ip = len(vals)
	if st.dead {
		return
	}
	cs := x.candidates(st, fr, h, al.info, al, al.ent)
	have := map[string]bool{}
	for _, cd := range cs {
		have[cd.key] = true
	}
	for k := range al.assumed {
		// assumed at the loop head but not expressible here: it cannot be relied on
		if !have[k] && !al.info.killed[k] && !al.info.pend[k] {
			al.info.killed[k] = true
			x.dirtyWhy("candidate " + k + " of " + al.info.key + " not expressible at the back edge")
		}
	}
	x.checkCands(st, al.info, cs, "maintained")
}

// quantified: the formula mentions a quantifier.
func (x *Exec) quantified(t *Term) bool {
	if q, ok := x.quantMemo[t]; ok {
		return q
	}
	q := false
	x.c.collect(t, map[int]bool{}, func(u *Term) {
		if u.op == OForall {
			q = true
		}
	})
	x.quantMemo[t] = q
	return q
}

// proveGround proves t from the unquantified part of the path condition.
func (x *Exec) proveGround(st *State, t *Term) Result {
	if t.isTrue() || st.dead {
		return Unsat
	}
	var fs []*Term
	for _, p := range st.pc {
		if p == t {
			return Unsat
		}
		if !x.quantified(p) {
			fs = append(fs, p)
		}
	}
	x.s.curMS = 900
	defer func() { x.s.curMS = 0 }()
	return x.s.Check(append(fs, x.c.Not(t)), false)
}
