package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	maxLen   = uint64(1) << 40
	symHi    = uint64(1)<<31 - 1 // initial symbolic objects: 1..symHi
	strBase  = uint64(1) << 31   // constant string objects
	mark0    = uint64(1) << 32   // first freshly allocated object
	epochLen = uint64(1) << 32
)

type Value interface{}

type VSlice struct {
	reg string // region of elements (root type + path)
	obj *Term
	pre []*Term // index prefix (for arrays inside structs)
	off *Term
	len *Term
	cap *Term
}
type VStr struct {
	obj, off, len *Term
	lit           *string
}
type VPtr struct {
	root    string // region root
	path    string
	obj     *Term
	idx     []*Term
	arrRoot bool // pointer to array whose elements live directly at (root,path)
}
type VIface struct {
	hi  uint64     // payload objects are at most hi (symbolic values)
	typ types.Type // dynamic type when known (nil for nil interface)
	val Value
	tid *Term // symbolic type id when typ unknown
	key string
}
type VMap struct {
	obj *Term
	ty  *types.Map
}
type VFunc struct {
	fn   *ssa.Function
	bind []Value
	nil_ *Term // symbolic nil-ness for opaque functions
}
type VStruct struct{ f []Value }
type VArr struct { // snapshot of an array in memory
	node *MNode
	reg  string
	ety  types.Type
	obj  *Term
	pre  []*Term
	off  *Term
	n    int64
}
type VTuple []Value
type VOpaque struct {
	what string
	obj  *Term
}
type VIter struct {
	m   VMap
	s   *VStr
	pos *Term
	key string
	// exact iteration: the keys ever stored (nil = unknown), those visited
	known bool
	keys  []*Term
	seen  uint64
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func under(t types.Type) types.Type { return t.Underlying() }

func tkeyOf(t types.Type) string {
	if a, ok := t.(*types.Alias); ok {
		return tkeyOf(types.Unalias(a))
	}
	switch x := t.(type) {
	case *types.Basic:
		return types.Typ[x.Kind()].String()
	case *types.Named:
		return types.TypeString(x, nil)
	case *types.Slice:
		return "[]" + tkeyOf(x.Elem())
	case *types.Pointer:
		return "*" + tkeyOf(x.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", x.Len(), tkeyOf(x.Elem()))
	case *types.Map:
		return "map[" + tkeyOf(x.Key()) + "]" + tkeyOf(x.Elem())
	}
	return types.TypeString(t, nil)
}

// scalarSort returns the sort of a scalar type and whether it is signed.
func scalarSort(t types.Type) (Sort, bool, bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return SBool, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	case types.Float64, types.UntypedFloat:
		return 64, false, true
	case types.Float32:
		return 32, false, true
	}
	return 0, false, false
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ---- memory ----

type mkind uint8

const (
	mBase mkind = iota
	mWrite
	mCopy
	mHavoc
)

type HVer struct {
	id     string
	decls  map[string]*Decl
	stable []*Term
	mark   uint64
	end    uint64
	all    bool
	hiObj  uint64 // objects stored in this version are < hiObj
	rngLo  *Term  // optional element range for single-object havoc
	rngHi  *Term
	robj   *Term
	serial int
}

type MNode struct {
	kind mkind
	prev *MNode
	obj  *Term
	idx  []*Term // write: indices ; copy: prefix
	val  Value
	dst  *Term
	n    *Term
	src  *MNode
	sreg string
	sobj *Term
	spre []*Term
	soff *Term
	ver  *HVer
	cond *Term // copy: optional guard
	memo map[string]*Term
	seq  int
}

func sliceElem(t types.Type) types.Type {
	switch u := under(t).(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return sliceElem(u.Elem())
	}
	return nil
}

func idxKey(obj *Term, idx []*Term) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d", obj.id)
	for _, i := range idx {
		fmt.Fprintf(&sb, ",%d", i.id)
	}
	return sb.String()
}

// leafType: scalars are merged with ite; composites need exact resolution.
func isScalar(t types.Type) bool { _, _, ok := scalarSort(t); return ok }

type forkReq struct{ cond *Term }

func (x *Exec) verDecl(v *HVer, comp string, nidx int, s Sort, f func(d *Decl)) *Decl {
	k := comp
	if d, ok := v.decls[k]; ok {
		return d
	}
	args := make([]Sort, nidx+1)
	for i := range args {
		args[i] = 64
	}
	d := x.c.NewDecl(v.id+"."+comp, args, s)
	d.Serial = v.serial
	if f != nil {
		f(d)
	}
	v.decls[k] = d
	return d
}

func (x *Exec) newVer(id string, hi uint64) *HVer {
	return &HVer{id: x.c.uniq(id), decls: map[string]*Decl{}, hiObj: hi}
}

// symCell builds the symbolic content of a cell in version v.
func (x *Exec) symCell(v *HVer, t types.Type, reg string, obj *Term, idx []*Term) Value {
	args := append([]*Term{obj}, idx...)
	n := len(idx)
	nm := reg
	if s, _, ok := scalarSort(t); ok {
		return x.c.App(x.verDecl(v, nm, n, s, nil), args...)
	}
	return x.symComposite(t, func(comp string, s Sort, f func(d *Decl)) *Term {
		return x.c.App(x.verDecl(v, nm+"#"+comp, n, s, f), args...)
	}, func(comp string, s Sort) *Decl { return x.verDecl(v, nm+"#"+comp, n, s, nil) }, v.hiObj, nm)
}

// symComposite builds slices, strings, pointers, maps, interfaces from component symbols.
func (x *Exec) symComposite(t types.Type, mk func(comp string, s Sort, f func(d *Decl)) *Term, get func(comp string, s Sort) *Decl, hi uint64, nm string) Value {
	c := x.c
	rng := func(lo, h uint64) func(d *Decl) {
		return func(d *Decl) { d.HasRng, d.Lo, d.Hi = true, lo, h }
	}
	switch u := under(t).(type) {
	case *types.Slice:
		obj := mk("obj", 64, rng(0, hi))
		off := mk("off", 64, rng(0, maxLen))
		cp := mk("cap", 64, rng(0, maxLen))
		var ln *Term
		ln = mk("len", 64, func(d *Decl) {
			d.HasRng, d.Lo, d.Hi = true, 0, maxLen
			dc, do := get("cap", 64), get("obj", 64)
			d.WF = func(c *Ctx, a []*Term) []*Term {
				l := c.App(d, a...)
				k := c.App(dc, a...)
				o := c.App(do, a...)
				z := c.I(0)
				return []*Term{c.Ule(l, k), c.Implies(c.Eq(o, z), c.Eq(k, z))}
			}
		})
		return VSlice{reg: tkeyOf(u.Elem()), obj: obj, off: off, len: ln, cap: cp}
	case *types.Basic:
		if isString(t) {
			return VStr{obj: mk("sobj", 64, rng(0, hi)), off: mk("soff", 64, rng(0, maxLen)), len: mk("slen", 64, rng(0, maxLen))}
		}
	case *types.Pointer:
		o := mk("ptr", 64, rng(0, hi))
		return x.ptrTo(u.Elem(), o, c.I(0))
	case *types.Map:
		return VMap{obj: mk("map", 64, rng(0, hi)), ty: u}
	case *types.Chan:
		return VOpaque{what: "chan", obj: mk("chan", 64, rng(0, hi))}
	case *types.Signature:
		return VFunc{nil_: c.Eq(mk("func", 64, rng(0, hi)), c.I(0))}
	case *types.Interface:
		tid := mk("tid", 32, nil)
		key := mk("ifc", 64, nil)
		return VIface{tid: tid, val: key, key: nm, hi: hi}
	}
	unsup("symbolic value of type %s", t)
	return nil
}

// ptrTo builds a pointer value to element 0 (or idx) of object obj of static pointee type t.
func (x *Exec) ptrTo(t types.Type, obj, idx *Term) VPtr {
	if a, ok := under(t).(*types.Array); ok {
		return VPtr{root: tkeyOf(a.Elem()), obj: obj, idx: []*Term{idx}, arrRoot: true}
	}
	return VPtr{root: tkeyOf(t), obj: obj, idx: []*Term{idx}}
}

func (x *Exec) node(st *State, reg string) *MNode {
	if n, ok := st.mem[reg]; ok {
		return n
	}
	n, ok := x.base[reg]
	if !ok {
		n = &MNode{kind: mBase, ver: x.newVer("m0", symHi)}
		x.base[reg] = n
	}
	return n
}

func (x *Exec) zero(t types.Type) Value {
	c := x.c
	if s, _, ok := scalarSort(t); ok {
		if s == SBool {
			return c.False
		}
		return c.BV(0, s)
	}
	z := c.I(0)
	switch u := under(t).(type) {
	case *types.Slice:
		return VSlice{reg: tkeyOf(u.Elem()), obj: z, off: z, len: z, cap: z}
	case *types.Basic:
		if isString(t) {
			e := ""
			return VStr{obj: z, off: z, len: z, lit: &e}
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return VOpaque{what: "unsafe", obj: z}
		}
	case *types.Pointer:
		p := x.ptrTo(u.Elem(), z, z)
		return p
	case *types.Map:
		return VMap{obj: z, ty: u}
	case *types.Chan:
		return VOpaque{what: "chan", obj: z}
	case *types.Signature:
		return VFunc{nil_: c.True}
	case *types.Interface:
		return VIface{}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = x.zero(u.Field(i).Type())
		}
		return VStruct{f}
	case *types.Array:
		// snapshot of a never-written constant object: reads give zero
		return VArr{node: x.zeroNode, reg: tkeyOf(u.Elem()), ety: u.Elem(), obj: c.BV(mark0-1, 64), off: z, n: u.Len()}
	case *types.Tuple:
		var r VTuple
		for i := 0; i < u.Len(); i++ {
			r = append(r, x.zero(u.At(i).Type()))
		}
		return r
	}
	unsup("zero of %s", t)
	return nil
}

// readLeaf reads a scalar or composite leaf cell.
func (x *Exec) readLeaf(n *MNode, t types.Type, reg string, obj *Term, idx []*Term) Value {
	c := x.c
	scalar := isScalar(t)
	if scalar && obj.op == OIte {
		return c.Ite(obj.args[0], x.readLeaf(n, t, reg, obj.args[1], idx).(*Term), x.readLeaf(n, t, reg, obj.args[2], idx).(*Term))
	}
	var mk string
	if scalar {
		mk = idxKey(obj, idx)
		if r, ok := n.memo[mk]; ok {
			return r
		}
	}
	type alt struct {
		c *Term
		v Value
	}
	var alts []alt
	var res Value
	cur := n
	if !scalar && x.pureDepth > 0 && obj.op == OIte {
		p, q := x.readLeaf(n, t, reg, obj.args[1], idx), x.readLeaf(n, t, reg, obj.args[2], idx)
		if x.mergeable(p, q) {
			return x.iteVal(obj.args[0], p, q)
		}
	}
	known := func(cond *Term) *Term { // what an earlier fork of this path decided
		if !scalar && x.cur != nil {
			for _, d := range x.cur.dec {
				if d == cond {
					return c.True
				}
				if d == c.Not(cond) {
					return c.False
				}
			}
		}
		return cond
	}
	ambiguous := func(cond *Term) {
		if !scalar && x.pureDepth == 0 {
			panic(forkReq{cond})
		}
	}
	for res == nil {
		switch cur.kind {
		case mWrite:
			cond := c.Eq(obj, cur.obj)
			for i := range idx {
				if cond.isFalse() {
					break
				}
				cond = c.And(cond, c.Eq(idx[i], cur.idx[i]))
			}
			cond = known(cond)
			if cond.isFalse() {
				cur = cur.prev
				continue
			}
			if cond.isTrue() {
				res = cur.val
				break
			}
			ambiguous(cond)
			alts = append(alts, alt{cond, cur.val})
			cur = cur.prev
		case mCopy:
			cond := c.Eq(obj, cur.obj)
			if cur.cond != nil {
				cond = c.And(cond, cur.cond)
			}
			np := len(cur.idx)
			for i := 0; i < np && !cond.isFalse(); i++ {
				cond = c.And(cond, c.Eq(idx[i], cur.idx[i]))
			}
			if !cond.isFalse() {
				cond = c.And(cond, c.Ult(c.Sub(idx[np], cur.dst), cur.n))
			}
			cond = known(cond)
			if cond.isFalse() {
				cur = cur.prev
				continue
			}
			if !cond.isTrue() {
				ambiguous(cond)
			}
			si := append([]*Term{}, cur.spre...)
			si = append(si, c.Add(cur.soff, c.Sub(idx[np], cur.dst)))
			si = append(si, idx[np+1:]...)
			v := x.readLeaf(cur.src, t, cur.sreg+strings.TrimPrefix(reg, cur.val.(string)), cur.sobj, si)
			if cond.isTrue() {
				res = v
				break
			}
			alts = append(alts, alt{cond, v})
			cur = cur.prev
		case mHavoc:
			cond := c.False
			v := cur.ver
			if v.all {
				cond = c.True
			} else {
				for _, o := range v.stable {
					cond = c.Or(cond, c.Eq(obj, o))
				}
				if _, hi := c.rng(obj); v.end > v.mark && (obj.op == OVar || obj.op == OApp) && obj.decl.ObjMin >= v.mark && hi < v.end &&
					(obj.decl.ObjAlt == nil || obj.decl.ObjAlt.isConst() && obj.decl.ObjAlt.val == 0) {
					cond = c.True // nil (never read) or allocated in the loop
				} else if v.end > v.mark {
					cond = c.Or(cond, c.And(c.Ule(c.BV(v.mark, 64), obj), c.Ult(obj, c.BV(v.end, 64))))
				}
			}
			if v.rngLo != nil && !cond.isFalse() {
				l := idx[len(idx)-1]
				cond = c.And(cond, c.Sle(v.rngLo, l), c.Slt(l, v.rngHi))
			}
			cond = known(cond)
			if cond.isFalse() {
				cur = cur.prev
				continue
			}
			if !cond.isTrue() {
				ambiguous(cond)
			}
			val := x.symCell(v, t, reg, obj, idx)
			if cond.isTrue() {
				res = val
				break
			}
			alts = append(alts, alt{cond, val})
			cur = cur.prev
		case mBase:
			if obj.isConst() && obj.val >= mark0-1 {
				res = x.zero(t)
			} else if obj.isConst() && obj.val >= strBase && reg == "str" {
				s := x.strs[obj.val]
				i := idx[0]
				if i.isConst() {
					if i.val < uint64(len(s)) {
						res = c.BV(uint64(s[i.val]), 8)
					} else {
						res = c.BV(0, 8)
					}
				} else if len(s) <= 300 {
					r := c.BV(0, 8)
					for k := len(s) - 1; k >= 0; k-- {
						r = c.Ite(c.Eq(i, c.I(int64(k))), c.BV(uint64(s[k]), 8), r)
					}
					res = r
				} else {
					res = x.symCell(cur.ver, t, reg, obj, idx)
				}
			} else {
				res = x.symCell(cur.ver, t, reg, obj, idx)
			}
		}
	}
	if !scalar {
		for i := len(alts) - 1; i >= 0; i-- {
			if !x.mergeable(alts[i].v, res) {
				panic(forkReq{alts[0].c})
			}
			res = x.iteVal(alts[i].c, alts[i].v, res)
		}
		return res
	}
	r := res.(*Term)
	for i := len(alts) - 1; i >= 0; i-- {
		r = c.Ite(alts[i].c, alts[i].v.(*Term), r)
	}
	if n.memo == nil {
		n.memo = map[string]*Term{}
	}
	n.memo[mk] = r
	return r
}

// loadAt loads a value of type t at (reg, obj, idx).
func (x *Exec) loadAt(st *State, t types.Type, reg string, obj *Term, idx []*Term, arrRoot bool) Value {
	return x.loadFrom(func(r string) *MNode { return x.node(st, r) }, t, reg, obj, idx, arrRoot)
}

func (x *Exec) loadFrom(nd func(string) *MNode, t types.Type, reg string, obj *Term, idx []*Term, arrRoot bool) Value {
	switch u := under(t).(type) {
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = x.loadFrom(nd, u.Field(i).Type(), reg+"."+u.Field(i).Name(), obj, idx, false)
		}
		return VStruct{f}
	case *types.Array:
		if arrRoot {
			r := idx[:len(idx)-1]
			return x.snap(nd, u.Elem(), reg, obj, r, idx[len(idx)-1], u.Len())
		}
		return x.snap(nd, u.Elem(), reg+"[]", obj, idx, x.c.I(0), u.Len())
	}
	return x.readLeaf(nd(reg), t, reg, obj, idx)
}

func (x *Exec) snap(nd func(string) *MNode, ety types.Type, reg string, obj *Term, pre []*Term, off *Term, n int64) Value {
	if _, ok := under(ety).(*types.Struct); ok {
		// arrays of structs by value: element-wise
		v := make([]Value, n)
		for i := range v {
			v[i] = x.loadFrom(nd, ety, reg, obj, append(append([]*Term{}, pre...), x.c.AddC(off, int64(i))), false)
		}
		return VStruct{v}
	}
	return VArr{node: nd(reg), reg: reg, ety: ety, obj: obj, pre: pre, off: off, n: n}
}

func (x *Exec) arrElem(a VArr, i *Term) Value {
	return x.readLeaf(a.node, a.ety, a.reg, a.obj, append(append([]*Term{}, a.pre...), x.c.Add(a.off, i)))
}

func (x *Exec) storeAt(st *State, t types.Type, reg string, obj *Term, idx []*Term, v Value, arrRoot bool) {
	switch u := under(t).(type) {
	case *types.Struct:
		vs := v.(VStruct)
		for i := 0; i < u.NumFields(); i++ {
			x.storeAt(st, u.Field(i).Type(), reg+"."+u.Field(i).Name(), obj, idx, vs.f[i], false)
		}
		return
	case *types.Array:
		var r string
		var pre []*Term
		off := x.c.I(0)
		if arrRoot {
			r, pre, off = reg, idx[:len(idx)-1], idx[len(idx)-1]
		} else {
			r, pre = reg+"[]", idx
		}
		switch a := v.(type) {
		case VArr:
			x.copyNode(st, r, obj, pre, off, x.c.I(u.Len()), a.node, a.reg, a.obj, a.pre, a.off)
		case VStruct:
			for i, e := range a.f {
				x.storeAt(st, u.Elem(), r, obj, append(append([]*Term{}, pre...), x.c.AddC(off, int64(i))), e, false)
			}
		}
		return
	}
	if _, ok := x.regType[reg]; !ok {
		x.regType[reg] = t
	}
	x.wrote(st, reg, obj, idx, x.c.I(1))
	x.memSeq++
	st.mem[reg] = &MNode{kind: mWrite, prev: x.node(st, reg), obj: obj, idx: idx, val: v, seq: x.memSeq}
}

func (x *Exec) copyNode(st *State, reg string, obj *Term, pre []*Term, dst, n *Term, src *MNode, sreg string, sobj *Term, spre []*Term, soff *Term) {
	if n.isConst() && n.val == 0 {
		return
	}
	x.wrote(st, reg, obj, append(append([]*Term{}, pre...), dst), n)
	x.memSeq++
	st.mem[reg] = &MNode{kind: mCopy, prev: x.node(st, reg), obj: obj, idx: pre, dst: dst, n: n, src: src, sreg: sreg, sobj: sobj, spre: spre, soff: soff, val: reg, seq: x.memSeq}
}

// leafRegs enumerates the leaf regions below (reg,t).
func leafRegs(t types.Type, reg string, f func(reg string, t types.Type, extra int)) {
	leafRegs0(t, reg, 0, f)
}
func leafRegs0(t types.Type, reg string, extra int, f func(string, types.Type, int)) {
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			leafRegs0(u.Field(i).Type(), reg+"."+u.Field(i).Name(), extra, f)
		}
	case *types.Array:
		leafRegs0(u.Elem(), reg+"[]", extra+1, f)
	default:
		f(reg, t, extra)
	}
}

// copyElems copies n elements of type ety between slices' storage (memmove semantics via snapshot).
func (x *Exec) copyElems(st *State, ety types.Type, dreg string, dobj *Term, dpre []*Term, doff, n *Term, sreg string, sobj *Term, spre []*Term, soff *Term) {
	leafRegs(ety, "", func(suffix string, t types.Type, extra int) {
		dr, sr := dreg+suffix, sreg+suffix
		if n.isConst() && n.val <= 16 && extra == 0 {
			vals := make([]Value, n.val)
			for i := range vals {
				vals[i] = x.readLeaf(x.node(st, sr), t, sr, sobj, append(append([]*Term{}, spre...), x.c.AddC(soff, int64(i))))
			}
			for i, v := range vals {
				x.storeAt(st, t, dr, dobj, append(append([]*Term{}, dpre...), x.c.AddC(doff, int64(i))), v, false)
			}
			return
		}
		x.copyNode(st, dr, dobj, dpre, doff, n, x.node(st, sr), sr, sobj, spre, soff)
	})
}

// newVerS: a memory version whose symbols are named deterministically along a path.
func (x *Exec) newVerS(st *State, id string, hi uint64) *HVer {
	st.nfresh++
	key := fmt.Sprintf("%s@%d:%d:%v", id, st.nfresh, hi, st.pure)
	if v, ok := x.vers[key]; ok {
		return &HVer{id: v.id, decls: v.decls, hiObj: hi, serial: st.nfresh}
	}
	v := x.newVer(id, hi)
	v.serial = st.nfresh
	x.vers[key] = v
	return &HVer{id: v.id, decls: v.decls, hiObj: hi, serial: st.nfresh}
}

// freshDecl returns a symbol that is new on this path; the same point of the
// same path prefix in a later round gets the same symbol.
func (x *Exec) freshDecl(st *State, name string, s Sort) *Decl {
	st.nfresh++
	key := fmt.Sprintf("%s@%d:%d:%v", name, st.nfresh, s, st.pure)
	if d, ok := x.fdecls[key]; ok {
		return d
	}
	d := x.c.NewDecl(name, nil, s)
	d.Serial = st.nfresh
	x.fdecls[key] = d
	return d
}
func (x *Exec) fresh(st *State, name string, s Sort) *Term {
	return x.c.App(x.freshDecl(st, name, s))
}
func (x *Exec) freshRng(st *State, name string, s Sort, lo, hi uint64) *Term {
	d := x.freshDecl(st, fmt.Sprintf("%s[%d,%d]", name, lo, hi), s)
	d.HasRng, d.Lo, d.Hi = true, lo, hi
	return x.c.App(d)
}
