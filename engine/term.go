package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// Sorts: 0 = Bool, n>0 = (_ BitVec n).
type Sort int

const SBool Sort = 0

type Op uint8

const (
	OConst Op = iota // bool (val 0/1) or BV const
	OVar             // 0-ary declared symbol (decl)
	OApp             // UF application (decl)
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd // n-ary BV
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract // val = hi<<8|lo
	OZext
	OSext
	OForall // args: bound var, lo, hi, body  (signed 64-bit lo <= k < hi)
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OMul: "bvmul",
	OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OBand: "bvand", OBor: "bvor", OBxor: "bvxor",
	OBnot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat"}

// Decl is a declared symbol (constant or uninterpreted function).
type Decl struct {
	Name   string
	Args   []Sort
	Res    Sort
	HasRng bool
	Lo, Hi uint64 // inclusive unsigned range, asserted as an axiom per occurrence
	// Group links the component functions of a composite memory cell
	// so that well-formedness facts can be generated per application.
	WF     func(c *Ctx, args []*Term) []*Term
	Serial int
	Skol   bool // skolem constant (instantiation candidate)
	Bound  bool // bound variable
	RNG    func(c *Ctx, args []*Term) (uint64, uint64, bool)
	// ObjMin > 0: the object is nil, ObjAlt, or allocated at or after ObjMin
	// (a loop invariant that is assumed and checked where the symbol is made)
	ObjMin uint64
	ObjAlt *Term
}

type Term struct {
	id   int
	op   Op
	sort Sort
	args []*Term
	val  uint64
	decl *Decl
	hasB bool // contains a bound variable
	hasQ bool // contains a quantifier
	rl   uint64
	rh   uint64 // cached unsigned range
	rOK  bool
}

type tkey struct {
	op   Op
	sort Sort
	val  uint64
	decl *Decl
	a    [4]int
	rest string
}

// Ctx holds the hash-consing table of one harness run.
type Ctx struct {
	serial int
	tab    map[tkey]*Term
	next   int
	decls  []*Decl
	names  map[string]int
	True   *Term
	False  *Term
	substC map[[3]int]*Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}, names: map[string]int{}}
	c.True = c.mk(OConst, SBool, 1, nil)
	c.False = c.mk(OConst, SBool, 0, nil)
	return c
}

func mask(s Sort) uint64 {
	if s >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(s)) - 1
}

func (c *Ctx) mkd(op Op, s Sort, val uint64, d *Decl, args ...*Term) *Term {
	k := tkey{op: op, sort: s, val: val, decl: d}
	for i, a := range args {
		if i < 4 {
			k.a[i] = a.id + 1
		} else {
			k.rest += strconv.Itoa(a.id) + ","
		}
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.next++
	t := &Term{id: c.next, op: op, sort: s, val: val, decl: d, args: args}
	if d != nil && d.Bound {
		t.hasB = true
	}
	for _, a := range args {
		if a.hasB {
			t.hasB = true
		}
		if a.hasQ {
			t.hasQ = true
		}
	}
	if op == OForall {
		t.hasQ = true
		// other bound variables may still be free: conservative
		t.hasB = freeBound(args[3], args[0]) || len(args) > 4 && freeBound(args[4], args[0]) || args[1].hasB || args[2].hasB
	}
	c.tab[k] = t
	return t
}

func freeBound(t, except *Term) bool {
	seen := map[int]bool{}
	var f func(t *Term, ex map[*Term]bool) bool
	f = func(t *Term, ex map[*Term]bool) bool {
		if !t.hasB {
			return false
		}
		if t.decl != nil && t.decl.Bound {
			return !ex[t]
		}
		if t.op != OForall {
			if seen[t.id] {
				return false
			}
			seen[t.id] = true
		}
		for _, a := range t.args {
			if f(a, ex) {
				return true
			}
		}
		return false
	}
	return f(t, map[*Term]bool{except: true})
}

func (c *Ctx) mk(op Op, s Sort, val uint64, d *Decl, args ...*Term) *Term {
	return c.mkd(op, s, val, d, args...)
}

func (c *Ctx) BV(v uint64, s Sort) *Term { return c.mk(OConst, s, v&mask(s), nil) }
func (c *Ctx) I(v int64) *Term           { return c.BV(uint64(v), 64) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) uniq(name string) string {
	name = strings.Map(func(r rune) rune {
		if r == '|' || r == '\\' {
			return '_'
		}
		return r
	}, name)
	n := c.names[name]
	c.names[name] = n + 1
	if n == 0 {
		return name
	}
	return fmt.Sprintf("%s!%d", name, n)
}

func (c *Ctx) NewDecl(name string, args []Sort, res Sort) *Decl {
	d := &Decl{Name: c.uniq(name), Args: args, Res: res}
	c.decls = append(c.decls, d)
	return d
}

func (c *Ctx) Fresh(name string, s Sort) *Term {
	d := c.NewDecl(name, nil, s)
	c.serial++
	d.Serial = c.serial
	return c.mk(OVar, s, 0, d)
}
func (c *Ctx) FreshRng(name string, s Sort, lo, hi uint64) *Term {
	d := c.NewDecl(name, nil, s)
	c.serial++
	d.Serial = c.serial
	d.HasRng, d.Lo, d.Hi = true, lo, hi
	return c.mk(OVar, s, 0, d)
}
func (c *Ctx) FreshBound(name string) *Term {
	d := c.NewDecl(name, nil, 64)
	d.Bound = true
	return c.mk(OVar, 64, 0, d)
}
func (c *Ctx) App(d *Decl, args ...*Term) *Term {
	if len(args) == 0 {
		return c.mk(OVar, d.Res, 0, d)
	}
	return c.mk(OApp, d.Res, 0, d, args...)
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.sort == SBool && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.sort == SBool && t.val == 0 }
func (t *Term) sval() int64 {
	if t.sort == 64 {
		return int64(t.val)
	}
	sh := 64 - uint(t.sort)
	return int64(t.val<<sh) >> sh
}

// rng: unsigned inclusive range of a BV term.
func (c *Ctx) rng(t *Term) (uint64, uint64) {
	if t.rOK {
		return t.rl, t.rh
	}
	lo, hi := c.rng0(t)
	t.rl, t.rh, t.rOK = lo, hi, true
	return lo, hi
}

func (c *Ctx) rng0(t *Term) (uint64, uint64) {
	m := mask(t.sort)
	switch t.op {
	case OConst:
		return t.val, t.val
	case OVar, OApp:
		if t.decl.HasRng {
			return t.decl.Lo, t.decl.Hi
		}
	case OZext:
		return c.rng(t.args[0])
	case OIte:
		a, b := c.rng(t.args[1])
		d, e := c.rng(t.args[2])
		return min(a, d), max(b, e)
	case OBand:
		_, h1 := c.rng(t.args[0])
		_, h2 := c.rng(t.args[1])
		return 0, min(h1, h2)
	case OBor, OBxor:
		_, h1 := c.rng(t.args[0])
		_, h2 := c.rng(t.args[1])
		h := max(h1, h2)
		n := bits.Len64(h)
		if n >= 64 {
			return 0, m
		}
		return 0, min(m, (uint64(1)<<uint(n))-1)
	case OAdd:
		var lo, hi uint64
		for _, a := range t.args {
			l, h := c.rng(a)
			nl, c1 := bits.Add64(lo, l, 0)
			nh, c2 := bits.Add64(hi, h, 0)
			if c1 != 0 || c2 != 0 || nh > m {
				return 0, m
			}
			lo, hi = nl, nh
		}
		return lo, hi
	case OMul:
		l1, h1 := c.rng(t.args[0])
		l2, h2 := c.rng(t.args[1])
		hh, hl := bits.Mul64(h1, h2)
		if hh == 0 && hl <= m {
			return l1 * l2, hl
		}
	case OUrem:
		if t.args[1].isConst() && t.args[1].val > 0 {
			_, h := c.rng(t.args[0])
			return 0, min(h, t.args[1].val-1)
		}
	case OUdiv:
		if t.args[1].isConst() && t.args[1].val > 0 {
			l, h := c.rng(t.args[0])
			return l / t.args[1].val, h / t.args[1].val
		}
	case OLshr:
		if t.args[1].isConst() {
			l, h := c.rng(t.args[0])
			if t.args[1].val >= 64 {
				return 0, 0
			}
			return l >> t.args[1].val, h >> t.args[1].val
		}
	case OShl:
		if t.args[1].isConst() && t.args[1].val < 64 {
			l, h := c.rng(t.args[0])
			sh := uint(t.args[1].val)
			if bits.Len64(h)+int(sh) <= int(t.sort) {
				return l << sh, h << sh
			}
		}
	case OExtract:
		lo := t.val & 0xff
		if lo == 0 {
			l, h := c.rng(t.args[0])
			if h <= m {
				return l, h
			}
		} else {
			l, h := c.rng(t.args[0])
			l, h = l>>lo, h>>lo
			if h <= m {
				return l, h
			}
		}
	case OConcat:
		l1, h1 := c.rng(t.args[0])
		l2, h2 := c.rng(t.args[1])
		n := uint(t.args[1].sort)
		return l1<<n | l2, h1<<n | h2
	}
	return 0, m
}

func (c *Ctx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	switch a.op {
	case OUlt:
		return c.Ule(a.args[1], a.args[0])
	case OUle:
		return c.Ult(a.args[1], a.args[0])
	case OSlt:
		return c.Sle(a.args[1], a.args[0])
	case OSle:
		return c.Slt(a.args[1], a.args[0])
	}
	return c.mk(ONot, SBool, 0, nil, a)
}

func (c *Ctx) nary(op Op, unit, zero *Term, ts []*Term) *Term {
	seen := map[int]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == zero {
			return false
		}
		if t == unit || seen[t.id] {
			return true
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	for _, t := range out {
		if t.op == ONot && seen[t.args[0].id] {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(op, SBool, 0, nil, out...)
}
func (c *Ctx) And(ts ...*Term) *Term { return c.nary(OAnd, c.True, c.False, ts) }
func (c *Ctx) Or(ts ...*Term) *Term  { return c.nary(OOr, c.False, c.True, ts) }
func (c *Ctx) Implies(a, b *Term) *Term {
	return c.Or(c.Not(a), b)
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.isTrue() || a == b {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %d %d", a.sort, b.sort))
	}
	if a.sort == SBool {
		if a.isTrue() {
			return c.Or(cond, b)
		}
		if a.isFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.isFalse() {
			return c.And(cond, a)
		}
	}
	if cond.op == ONot {
		return c.Ite(cond.args[0], b, a)
	}
	if b.op == OIte && b.args[0] == cond {
		b = b.args[2]
	}
	if a.op == OIte && a.args[0] == cond {
		a = a.args[1]
	}
	if a == b {
		return a
	}
	// ite c1 a (ite c2 a b) -> ite (c1||c2) a b
	if b.op == OIte && b.args[1] == a {
		return c.Ite(c.Or(cond, b.args[0]), a, b.args[2])
	}
	return c.mk(OIte, a.sort, 0, nil, cond, a, b)
}

// linear normal form -------------------------------------------------

func (c *Ctx) lin(t *Term, coef uint64, m map[*Term]uint64, k *uint64) {
	switch t.op {
	case OConst:
		*k += coef * t.val
	case OAdd:
		for _, a := range t.args {
			c.lin(a, coef, m, k)
		}
	case OMul:
		if t.args[0].isConst() {
			c.lin(t.args[1], coef*t.args[0].val, m, k)
			return
		}
		m[t] += coef
	case OShl:
		if t.args[1].isConst() && t.args[1].val < uint64(t.sort) {
			c.lin(t.args[0], coef<<t.args[1].val, m, k)
			return
		}
		m[t] += coef
	case OConcat:
		if lo := t.args[1]; lo.isConst() && lo.val == 0 && t.args[0].op == OExtract && t.args[0].val&0xff == 0 && t.args[0].args[0].sort == t.sort {
			c.lin(t.args[0].args[0], coef<<uint(lo.sort), m, k)
			return
		}
		m[t] += coef
	case OBnot: // ~x = -x-1
		*k -= coef
		c.lin(t.args[0], -coef, m, k)
	default:
		m[t] += coef
	}
}

func (c *Ctx) fromLin(m map[*Term]uint64, k uint64, s Sort) *Term {
	mk := mask(s)
	var ts []*Term
	for t, co := range m {
		if co&mk != 0 {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var out []*Term
	for _, t := range ts {
		co := m[t] & mk
		if co == 1 {
			out = append(out, t)
		} else {
			out = append(out, c.mk(OMul, s, 0, nil, c.BV(co, s), t))
		}
	}
	k &= mk
	if k != 0 || len(out) == 0 {
		out = append(out, c.BV(k, s))
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(OAdd, s, 0, nil, out...)
}

func (c *Ctx) Add(ts ...*Term) *Term {
	if len(ts) == 2 {
		if ts[0].isConst() && ts[0].val == 0 {
			return ts[1]
		}
		if ts[1].isConst() && ts[1].val == 0 {
			return ts[0]
		}
	}
	s := ts[0].sort
	m := map[*Term]uint64{}
	var k uint64
	for _, t := range ts {
		if t.sort != s {
			panic("add sorts")
		}
		c.lin(t, 1, m, &k)
	}
	return c.fromLin(m, k, s)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.BV(0, a.sort)
	}
	m := map[*Term]uint64{}
	var k uint64
	c.lin(a, 1, m, &k)
	c.lin(b, ^uint64(0), m, &k)
	return c.fromLin(m, k, a.sort)
}
func (c *Ctx) AddC(a *Term, k int64) *Term { return c.Add(a, c.BV(uint64(k), a.sort)) }
func (c *Ctx) Neg(a *Term) *Term           { return c.Sub(c.BV(0, a.sort), a) }
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.BV(a.val*b.val, a.sort)
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		m := map[*Term]uint64{}
		var k uint64
		c.lin(b, a.val, m, &k)
		return c.fromLin(m, k, a.sort)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OMul, a.sort, 0, nil, a, b)
}

// otherObj: a is a loop-carried object that cannot be b, which lies in [bl, bh].
func (c *Ctx) otherObj(a, b *Term, bl, bh uint64) bool {
	if a.op != OVar && a.op != OApp || a.decl.ObjMin == 0 {
		return false
	}
	return bl > 0 && bh < a.decl.ObjMin && (a.decl.ObjAlt == nil || a.decl.ObjAlt != b && c.Eq(a.decl.ObjAlt, b).isFalse())
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %d %d: %s = %s", a.sort, b.sort, a, b))
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val == b.val)
	}
	if a.sort == SBool {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
		if a == c.Not(b) {
			return c.False
		}
	} else {
		al, ah := c.rng(a)
		bl, bh := c.rng(b)
		if ah < bl || bh < al {
			return c.False
		}
		if a.sort == 64 && (a.decl != nil && a.decl.ObjMin > 0 || b.decl != nil && b.decl.ObjMin > 0) {
			if c.otherObj(a, b, bl, bh) || c.otherObj(b, a, al, ah) {
				return c.False
			}
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			switch a.op {
			case OIte:
				if a.args[1].isConst() || a.args[2].isConst() {
					return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
				}
			case OZext:
				if b.val > mask(a.args[0].sort) {
					return c.False
				}
				return c.Eq(a.args[0], c.BV(b.val, a.args[0].sort))
			case OConcat:
				n := a.args[1].sort
				return c.And(c.Eq(a.args[0], c.BV(b.val>>uint(n), a.args[0].sort)), c.Eq(a.args[1], c.BV(b.val, n)))
			}
		}
		if a.op == OZext && b.op == OZext && a.args[0].sort == b.args[0].sort {
			return c.Eq(a.args[0], b.args[0])
		}
		if a.op == OAdd || b.op == OAdd || a.op == OMul || b.op == OMul {
			m := map[*Term]uint64{}
			var k uint64
			c.lin(a, 1, m, &k)
			c.lin(b, ^uint64(0), m, &k)
			mk := mask(a.sort)
			n := 0
			pos := map[*Term]uint64{}
			neg := map[*Term]uint64{}
			for t, co := range m {
				co &= mk
				if co == 0 {
					continue
				}
				n++
				if co>>(uint(a.sort)-1) == 0 {
					pos[t] = co
				} else {
					neg[t] = (-co) & mk
				}
			}
			k &= mk
			if n == 0 {
				return c.Bool(k == 0)
			}
			// range check on pos + k == neg  (constant to whichever side is small)
			var x, y *Term
			if k>>(uint(a.sort)-1) == 0 {
				x, y = c.fromLin(pos, k, a.sort), c.fromLin(neg, 0, a.sort)
			} else {
				x, y = c.fromLin(pos, 0, a.sort), c.fromLin(neg, -k, a.sort)
			}
			xl, xh := c.rng(x)
			yl, yh := c.rng(y)
			if xh < yl || yh < xl {
				return c.False
			}
			a, b = x, y
			if a == b {
				return c.True
			}
		}
		if a.isConst() && b.isConst() {
			return c.Bool(a.val == b.val)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, SBool, 0, nil, a, b)
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	al, ah := c.rng(a)
	bl, bh := c.rng(b)
	if ah < bl {
		return c.True
	}
	if al >= bh {
		return c.False
	}
	if b.isConst() && b.val == 1 {
		return c.Eq(a, c.BV(0, a.sort))
	}
	if a.op == OZext && b.op == OZext && a.args[0].sort == b.args[0].sort {
		return c.Ult(a.args[0], b.args[0])
	}
	return c.mk(OUlt, SBool, 0, nil, a, b)
}
func (c *Ctx) Ule(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	al, ah := c.rng(a)
	bl, bh := c.rng(b)
	if ah <= bl {
		return c.True
	}
	if al > bh {
		return c.False
	}
	return c.mk(OUle, SBool, 0, nil, a, b)
}
func (c *Ctx) srng(t *Term) (int64, int64) {
	l, h := c.rng(t)
	half := uint64(1) << (uint(t.sort) - 1)
	if h < half {
		return int64(l), int64(h)
	}
	if l >= half {
		ext := ^mask(t.sort)
		return int64(l | ext), int64(h | ext)
	}
	// sums with negative constants: try signed interval
	if t.op == OAdd {
		var lo, hi int64
		for _, a := range t.args {
			var x, y int64
			if a.op == OAdd {
				x, y = -1<<62, 1<<62
			} else {
				x, y = c.srng(a)
			}
			if x < -1<<60 || y > 1<<60 {
				goto full
			}
			lo += x
			hi += y
		}
		if lo >= -int64(half) && hi <= int64(half-1) {
			return lo, hi
		}
	}
	if t.op == OMul && t.args[0].isConst() {
		co := t.args[0].sval()
		x, y := c.srng(t.args[1])
		if x > -1<<44 && y < 1<<44 && co > -1<<16 && co < 1<<16 {
			a, b := x*co, y*co
			if a > b {
				a, b = b, a
			}
			if a >= -int64(half) && b <= int64(half-1) {
				return a, b
			}
		}
	}
	if t.op == OSext {
		return c.srng(t.args[0])
	}
	if t.op == OIte {
		a, b := c.srng(t.args[1])
		d, e := c.srng(t.args[2])
		return min(a, d), max(b, e)
	}
full:
	return -int64(half), int64(half - 1)
}
func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	al, ah := c.srng(a)
	bl, bh := c.srng(b)
	if ah < bl {
		return c.True
	}
	if al >= bh {
		return c.False
	}
	// a < b with both sums sharing terms and no overflow possible: compare difference
	if t := c.cmpLin(a, b, true); t != nil {
		return t
	}
	return c.mk(OSlt, SBool, 0, nil, a, b)
}
func (c *Ctx) Sle(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	al, ah := c.srng(a)
	bl, bh := c.srng(b)
	if ah <= bl {
		return c.True
	}
	if al > bh {
		return c.False
	}
	if t := c.cmpLin(a, b, false); t != nil {
		return t
	}
	return c.mk(OSle, SBool, 0, nil, a, b)
}

// cmpLin decides a<b / a<=b from the range of the linear difference when
// neither side nor the difference can overflow.
func (c *Ctx) cmpLin(a, b *Term, strict bool) *Term {
	if a.sort != 64 || (a.op != OAdd && b.op != OAdd) {
		return nil
	}
	const lim = int64(1) << 60
	al, ah := c.srng(a)
	bl, bh := c.srng(b)
	if al < -lim || ah > lim || bl < -lim || bh > lim {
		return nil
	}
	d := c.Sub(b, a)
	dl, dh := c.srng(d)
	if strict {
		if dl > 0 {
			return c.True
		}
		if dh <= 0 {
			return c.False
		}
	} else {
		if dl >= 0 {
			return c.True
		}
		if dh < 0 {
			return c.False
		}
	}
	return nil
}

func (c *Ctx) Extract(t *Term, hi, lo uint) *Term {
	s := Sort(hi - lo + 1)
	if lo == 0 && s == t.sort {
		return t
	}
	switch t.op {
	case OConst:
		return c.BV(t.val>>lo, s)
	case OZext:
		in := uint(t.args[0].sort)
		if lo >= in {
			return c.BV(0, s)
		}
		if hi < in {
			return c.Extract(t.args[0], hi, lo)
		}
		return c.Zext(c.Extract(t.args[0], in-1, lo), s)
	case OSext:
		in := uint(t.args[0].sort)
		if hi < in {
			return c.Extract(t.args[0], hi, lo)
		}
	case OExtract:
		l2 := uint(t.val & 0xff)
		return c.Extract(t.args[0], hi+l2, lo+l2)
	case OConcat:
		n := uint(t.args[1].sort)
		if hi < n {
			return c.Extract(t.args[1], hi, lo)
		}
		if lo >= n {
			return c.Extract(t.args[0], hi-n, lo-n)
		}
		return c.Concat(c.Extract(t.args[0], hi-n, 0), c.Extract(t.args[1], n-1, lo))
	case OBand, OBor, OBxor:
		return c.bitop(t.op, c.Extract(t.args[0], hi, lo), c.Extract(t.args[1], hi, lo))
	case OBnot:
		return c.Bnot(c.Extract(t.args[0], hi, lo))
	case OLshr:
		if t.args[1].isConst() && t.args[1].val+uint64(hi) < uint64(t.sort) {
			k := uint(t.args[1].val)
			return c.Extract(t.args[0], hi+k, lo+k)
		}
		if t.args[1].isConst() && t.args[1].val+uint64(lo) >= uint64(t.sort) {
			return c.BV(0, s)
		}
		if t.args[1].isConst() && t.args[1].val < uint64(t.sort) {
			k := uint(t.args[1].val)
			return c.Zext(c.Extract(t.args[0], uint(t.sort)-1, lo+k), s)
		}
	case OShl:
		if t.args[1].isConst() {
			k := t.args[1].val
			if uint64(lo) >= k {
				return c.Extract(t.args[0], hi-uint(k), lo-uint(k))
			}
			if uint64(hi) < k {
				return c.BV(0, s)
			}
		}
	case OIte:
		if t.args[1].isConst() || t.args[2].isConst() {
			return c.Ite(t.args[0], c.Extract(t.args[1], hi, lo), c.Extract(t.args[2], hi, lo))
		}
	case OAdd:
		if lo == 0 {
			var ts []*Term
			for _, a := range t.args {
				ts = append(ts, c.Extract(a, hi, lo))
			}
			return c.Add(ts...)
		}
	case OMul:
		if lo == 0 {
			return c.Mul(c.Extract(t.args[0], hi, lo), c.Extract(t.args[1], hi, lo))
		}
	}
	return c.mk(OExtract, s, uint64(hi)<<8|uint64(lo), nil, t)
}
func (c *Ctx) Concat(a, b *Term) *Term {
	s := a.sort + b.sort
	if a.isConst() && b.isConst() {
		return c.BV(a.val<<uint(b.sort)|b.val, s)
	}
	if a.isConst() && a.val == 0 {
		return c.Zext(b, s)
	}
	if a.op == OZext { // push zext out
		return c.Zext(c.Concat(a.args[0], b), s)
	}
	if a.op == OExtract && b.op == OExtract && a.args[0] == b.args[0] && uint(a.val&0xff) == uint(b.val>>8)+1 {
		return c.Extract(a.args[0], uint(a.val>>8), uint(b.val&0xff))
	}
	return c.mk(OConcat, s, 0, nil, a, b)
}
func (c *Ctx) Zext(t *Term, s Sort) *Term {
	if s == t.sort {
		return t
	}
	if t.isConst() {
		return c.BV(t.val, s)
	}
	if t.op == OZext {
		return c.Zext(t.args[0], s)
	}
	if t.op == OIte && (t.args[1].isConst() || t.args[2].isConst()) {
		return c.Ite(t.args[0], c.Zext(t.args[1], s), c.Zext(t.args[2], s))
	}
	// zext(extract(n-1..0, x)) where x's range already fits
	if t.op == OExtract && t.val&0xff == 0 {
		x := t.args[0]
		if _, h := c.rng(x); h <= mask(t.sort) {
			if x.sort == s {
				return x
			}
			if x.sort > s {
				return c.Extract(x, uint(s)-1, 0)
			}
		}
	}
	return c.mk(OZext, s, 0, nil, t)
}
func (c *Ctx) Sext(t *Term, s Sort) *Term {
	if s == t.sort {
		return t
	}
	if t.isConst() {
		return c.BV(uint64(t.sval()), s)
	}
	if _, h := c.rng(t); h < uint64(1)<<(uint(t.sort)-1) {
		return c.Zext(t, s)
	}
	return c.mk(OSext, s, 0, nil, t)
}

// concatParts splits t into constant/known-zero/other segments from the high end.
type seg struct {
	t *Term // nil = zero
	n uint
}

func (c *Ctx) segs(t *Term) []seg {
	n := uint(t.sort)
	switch t.op {
	case OConst:
		if t.val == 0 {
			return []seg{{nil, n}}
		}
	case OZext:
		return append([]seg{{nil, n - uint(t.args[0].sort)}}, c.segs(t.args[0])...)
	case OConcat:
		return append(append([]seg{}, c.segs(t.args[0])...), c.segs(t.args[1])...)
	case OShl:
		if t.args[1].isConst() && t.args[1].val < uint64(n) && t.args[1].val > 0 {
			k := uint(t.args[1].val)
			in := c.Extract(t.args[0], n-1-k, 0)
			return append(append([]seg{}, c.segs(in)...), seg{nil, k})
		}
	case OLshr:
		if t.args[1].isConst() && t.args[1].val < uint64(n) && t.args[1].val > 0 {
			k := uint(t.args[1].val)
			in := c.Extract(t.args[0], n-1, k)
			return append([]seg{{nil, k}}, c.segs(in)...)
		}
	case OBand:
		for i := 0; i < 2; i++ {
			if t.args[i].isConst() {
				mv := t.args[i].val
				o := t.args[1-i]
				// contiguous masks
				if mv != 0 {
					lo := uint(bits.TrailingZeros64(mv))
					w := uint(bits.Len64(mv)) - lo
					if mv>>lo == mask(Sort(w)) && w < n {
						var out []seg
						if lo+w < n {
							out = append(out, seg{nil, n - lo - w})
						}
						out = append(out, c.segs(c.Extract(o, lo+w-1, lo))...)
						if lo > 0 {
							out = append(out, seg{nil, lo})
						}
						return out
					}
				}
			}
		}
	}
	return []seg{{t, n}}
}

func (c *Ctx) fromSegs(ss []seg) *Term {
	var r *Term
	for i := len(ss) - 1; i >= 0; i-- {
		if ss[i].n == 0 {
			continue
		}
		t := ss[i].t
		if t == nil {
			t = c.BV(0, Sort(ss[i].n))
		}
		if r == nil {
			r = t
		} else {
			r = c.Concat(t, r)
		}
	}
	return r
}

// tryDisjointOr merges a|b (also a+b, a^b) as a concat when their known-zero segments are complementary.
func (c *Ctx) tryDisjointOr(a, b *Term) *Term {
	sa, sb := c.segs(a), c.segs(b)
	if len(sa) == 1 || len(sb) == 1 {
		return nil
	}
	var out []seg
	i, j := 0, 0
	for i < len(sa) && j < len(sb) {
		x, y := sa[i], sb[j]
		n := min(x.n, y.n)
		take := func(s seg, n uint) (*Term, seg) { // high n bits
			if s.t == nil {
				return nil, seg{nil, s.n - n}
			}
			if n == s.n {
				return s.t, seg{nil, 0}
			}
			return c.Extract(s.t, s.n-1, s.n-n), seg{c.Extract(s.t, s.n-n-1, 0), s.n - n}
		}
		tx, rx := take(x, n)
		ty, ry := take(y, n)
		switch {
		case tx == nil:
			out = append(out, seg{ty, n})
		case ty == nil:
			out = append(out, seg{tx, n})
		default:
			return nil
		}
		if rx.n == 0 {
			i++
		} else {
			sa[i] = rx
		}
		if ry.n == 0 {
			j++
		} else {
			sb[j] = ry
		}
	}
	return c.fromSegs(out)
}

func (c *Ctx) bitop(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		switch op {
		case OBand:
			return c.BV(a.val&b.val, a.sort)
		case OBor:
			return c.BV(a.val|b.val, a.sort)
		default:
			return c.BV(a.val^b.val, a.sort)
		}
	}
	if b.isConst() {
		a, b = b, a
	}
	all := mask(a.sort)
	if a.isConst() {
		switch {
		case op == OBand && a.val == 0:
			return a
		case op == OBand && a.val == all:
			return b
		case op == OBor && a.val == 0:
			return b
		case op == OBor && a.val == all:
			return a
		case op == OBxor && a.val == 0:
			return b
		case op == OBxor && a.val == all:
			return c.Bnot(b)
		}
		if op == OBand {
			if b.op == OBand && b.args[0].isConst() {
				return c.bitop(OBand, c.BV(a.val&b.args[0].val, a.sort), b.args[1])
			}
			if _, h := c.rng(b); a.val&(a.val+1) == 0 && h <= a.val {
				return b
			}
			// contiguous mask -> segments
			lo := uint(bits.TrailingZeros64(a.val))
			w := uint(bits.Len64(a.val)) - lo
			if a.val>>lo == mask(Sort(w)) {
				r := c.Extract(b, lo+w-1, lo)
				if lo > 0 {
					r = c.Concat(r, c.BV(0, Sort(lo)))
				}
				return c.Zext(r, a.sort)
			}
		}
	}
	if a == b {
		if op == OBxor {
			return c.BV(0, a.sort)
		}
		return a
	}
	if op == OBor || op == OBxor {
		if r := c.tryDisjointOr(a, b); r != nil {
			return r
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	if a.op != OConst && b.op == OConst {
		a, b = b, a
	}
	return c.mk(op, a.sort, 0, nil, a, b)
}
func (c *Ctx) Band(a, b *Term) *Term { return c.bitop(OBand, a, b) }
func (c *Ctx) Bor(a, b *Term) *Term  { return c.bitop(OBor, a, b) }
func (c *Ctx) Bxor(a, b *Term) *Term { return c.bitop(OBxor, a, b) }
func (c *Ctx) Bnot(a *Term) *Term {
	if a.isConst() {
		return c.BV(^a.val, a.sort)
	}
	if a.op == OBnot {
		return a.args[0]
	}
	return c.mk(OBnot, a.sort, 0, nil, a)
}

// shifts: SMT semantics (amount >= width gives 0 / sign fill) equal Go's.
func (c *Ctx) Shl(a, n *Term) *Term {
	if n.isConst() {
		if n.val >= uint64(a.sort) {
			return c.BV(0, a.sort)
		}
		if n.val == 0 {
			return a
		}
		if a.isConst() {
			return c.BV(a.val<<n.val, a.sort)
		}
		k := uint(n.val)
		return c.Concat(c.Extract(a, uint(a.sort)-1-k, 0), c.BV(0, Sort(k)))
	}
	return c.mk(OShl, a.sort, 0, nil, a, n)
}
func (c *Ctx) Lshr(a, n *Term) *Term {
	if n.isConst() {
		if n.val >= uint64(a.sort) {
			return c.BV(0, a.sort)
		}
		if n.val == 0 {
			return a
		}
		if a.isConst() {
			return c.BV(a.val>>n.val, a.sort)
		}
		k := uint(n.val)
		return c.Zext(c.Extract(a, uint(a.sort)-1, k), a.sort)
	}
	return c.mk(OLshr, a.sort, 0, nil, a, n)
}
func (c *Ctx) Ashr(a, n *Term) *Term {
	if n.isConst() {
		k := n.val
		if k >= uint64(a.sort) {
			k = uint64(a.sort) - 1
		}
		if k == 0 {
			return a
		}
		if a.isConst() {
			return c.BV(uint64(a.sval()>>k), a.sort)
		}
		if _, h := c.rng(a); h < uint64(1)<<(uint(a.sort)-1) {
			return c.Lshr(a, c.BV(k, a.sort))
		}
		return c.Sext(c.Extract(a, uint(a.sort)-1, uint(k)), a.sort)
	}
	return c.mk(OAshr, a.sort, 0, nil, a, n)
}
func (c *Ctx) Div(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.val != 0 {
		switch op {
		case OUdiv:
			return c.BV(a.val/b.val, a.sort)
		case OUrem:
			return c.BV(a.val%b.val, a.sort)
		case OSdiv:
			return c.BV(uint64(a.sval()/b.sval()), a.sort)
		case OSrem:
			return c.BV(uint64(a.sval()%b.sval()), a.sort)
		}
	}
	if b.isConst() && b.val != 0 && b.val&(b.val-1) == 0 {
		k := uint64(bits.TrailingZeros64(b.val))
		nonneg := false
		if _, h := c.rng(a); h < uint64(1)<<(uint(a.sort)-1) {
			nonneg = true
		}
		if b.sval() > 0 {
			if op == OUdiv || (op == OSdiv && nonneg) {
				return c.Lshr(a, c.BV(k, a.sort))
			}
			if op == OUrem || (op == OSrem && nonneg) {
				return c.Band(a, c.BV(b.val-1, a.sort))
			}
		}
	}
	if (op == OSdiv || op == OSrem) && b.isConst() && b.sval() > 0 {
		if _, h := c.rng(a); h < uint64(1)<<(uint(a.sort)-1) {
			if op == OSdiv {
				return c.Div(OUdiv, a, b)
			}
			return c.Div(OUrem, a, b)
		}
	}
	return c.mk(op, a.sort, 0, nil, a, b)
}

func (c *Ctx) Forall(k, lo, hi, body *Term, trig ...*Term) *Term {
	if body.isTrue() {
		return c.True
	}
	if lo.isConst() && hi.isConst() {
		if lo.sval() >= hi.sval() {
			return c.True
		}
		if hi.sval()-lo.sval() <= 8 && !lo.hasB {
			out := c.True
			for i := lo.sval(); i < hi.sval(); i++ {
				out = c.And(out, c.Subst(body, k, c.I(i)))
			}
			return out
		}
	}
	return c.mk(OForall, SBool, 0, nil, append([]*Term{k, lo, hi, body}, trig...)...)
}

// Subst replaces variable v by r in t, re-simplifying.
func (c *Ctx) Subst(t, v, r *Term) *Term {
	memo := map[int]*Term{}
	return c.subst(t, v, r, memo)
}
func (c *Ctx) subst(t, v, r *Term, memo map[int]*Term) *Term {
	if t == v {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if v.hasB && !t.hasB && t.op != OForall {
		return t
	}
	if x, ok := memo[t.id]; ok {
		return x
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = c.subst(a, v, r, memo)
		if args[i] != a {
			ch = true
		}
	}
	res := t
	if ch {
		res = c.rebuild(t, args)
	}
	memo[t.id] = res
	return res
}
func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OApp:
		return c.App(t.decl, a...)
	case ONot:
		return c.Not(a[0])
	case OAnd:
		return c.And(a...)
	case OOr:
		return c.Or(a...)
	case OIte:
		return c.Ite(a[0], a[1], a[2])
	case OEq:
		return c.Eq(a[0], a[1])
	case OAdd:
		return c.Add(a...)
	case OMul:
		return c.Mul(a[0], a[1])
	case OUdiv, OUrem, OSdiv, OSrem:
		return c.Div(t.op, a[0], a[1])
	case OBand, OBor, OBxor:
		return c.bitop(t.op, a[0], a[1])
	case OBnot:
		return c.Bnot(a[0])
	case OShl:
		return c.Shl(a[0], a[1])
	case OLshr:
		return c.Lshr(a[0], a[1])
	case OAshr:
		return c.Ashr(a[0], a[1])
	case OUlt:
		return c.Ult(a[0], a[1])
	case OUle:
		return c.Ule(a[0], a[1])
	case OSlt:
		return c.Slt(a[0], a[1])
	case OSle:
		return c.Sle(a[0], a[1])
	case OConcat:
		return c.Concat(a[0], a[1])
	case OExtract:
		return c.Extract(a[0], uint(t.val>>8), uint(t.val&0xff))
	case OZext:
		return c.Zext(a[0], t.sort)
	case OSext:
		return c.Sext(a[0], t.sort)
	case OForall:
		return c.Forall(a[0], a[1], a[2], a[3], a[4:]...)
	}
	panic("rebuild")
}

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		if t.sort == SBool {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		if t.val > 1<<62 {
			return fmt.Sprintf("%d", t.sval())
		}
		return fmt.Sprintf("%d", t.val)
	case OVar:
		return t.decl.Name
	}
	if d == 0 {
		return "…"
	}
	var p []string
	for _, a := range t.args {
		p = append(p, a.str(d-1))
	}
	nm := opNames[t.op]
	switch t.op {
	case OApp:
		nm = t.decl.Name
	case OExtract:
		nm = fmt.Sprintf("ext[%d:%d]", t.val>>8, t.val&0xff)
	case OZext:
		nm = fmt.Sprintf("z%d", t.sort)
	case OSext:
		nm = fmt.Sprintf("s%d", t.sort)
	case OForall:
		nm = "forall"
	}
	return "(" + nm + " " + strings.Join(p, " ") + ")"
}
