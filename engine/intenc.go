package main

import (
	"fmt"
	"math/big"
	"strings"
)

// intEnc translates a ground bit-vector query to integer arithmetic. Terms of
// width 64 are represented by their signed value, narrower ones by their
// unsigned value; wrap-around is made explicit wherever interval analysis
// cannot exclude it. Operations with no integer counterpart become
// uninterpreted functions, so "unsat" carries over and "sat" does not.
type intEnc struct {
	w    strings.Builder
	memo map[int]*iexp
	decl map[string]bool
	asr  []string
	fac  []string
}

type iexp struct {
	s      string
	lo, hi *big.Int
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
func bstr(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}
func reprRange(s Sort) (*big.Int, *big.Int) {
	if s >= 64 {
		return new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(63), big.NewInt(1))
	}
	return big.NewInt(0), new(big.Int).Sub(pow2(uint(s)), big.NewInt(1))
}

func (s *Solver) intScript(g []*Term) (r string, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(intUnsup); is {
				ok = false
				return
			}
			panic(e)
		}
	}()
	e := &intEnc{memo: map[int]*iexp{}, decl: map[string]bool{}}
	e.w.WriteString("(set-logic QF_UFLIA)\n")
	for _, f := range g {
		e.asr = append(e.asr, e.b(f))
	}
	for _, f := range e.fac {
		e.w.WriteString("(assert " + f + ")\n")
	}
	for _, a := range e.asr {
		e.w.WriteString("(assert " + a + ")\n")
	}
	e.w.WriteString("(check-sat)\n")
	return e.w.String(), true
}

type intUnsup struct{}

func (e *intEnc) b(t *Term) string {
	x := e.enc(t)
	return x.s
}

func (e *intEnc) declare(name, args, res string) {
	if !e.decl[name] {
		e.decl[name] = true
		fmt.Fprintf(&e.w, "(declare-fun %s (%s) %s)\n", name, args, res)
	}
}

func (e *intEnc) enc(t *Term) *iexp {
	if x, ok := e.memo[t.id]; ok {
		return x
	}
	x := e.enc0(t)
	if len(x.s) > 60 {
		n := fmt.Sprintf("i%d", t.id)
		so := "Int"
		if t.sort == SBool {
			so = "Bool"
		}
		fmt.Fprintf(&e.w, "(define-fun %s () %s %s)\n", n, so, x.s)
		x = &iexp{n, x.lo, x.hi}
	}
	e.memo[t.id] = x
	return x
}

// norm brings the exact integer v into the representation range of sort s.
func (e *intEnc) norm(t *Term, v *iexp, s Sort) *iexp {
	L, H := reprRange(s)
	if v.lo.Cmp(L) >= 0 && v.hi.Cmp(H) <= 0 {
		return v
	}
	M := pow2(uint(s))
	k := func(b *big.Int) *big.Int {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(new(big.Int).Sub(b, L), M, m)
		return q
	}
	k0, k1 := k(v.lo), k(v.hi)
	if k0.Cmp(k1) == 0 {
		d := new(big.Int).Mul(k0, M)
		return &iexp{fmt.Sprintf("(- %s %s)", v.s, bstr(d)), new(big.Int).Sub(v.lo, d), new(big.Int).Sub(v.hi, d)}
	}
	if len(v.s) > 30 {
		n := fmt.Sprintf("n%d_%d", t.id, len(e.decl)+e.w.Len())
		fmt.Fprintf(&e.w, "(define-fun %s () Int %s)\n", n, v.s)
		v = &iexp{n, v.lo, v.hi}
	}
	if new(big.Int).Sub(k1, k0).Cmp(big.NewInt(3)) <= 0 {
		s := ""
		cl := ""
		for q := new(big.Int).Set(k0); q.Cmp(k1) < 0; q = new(big.Int).Add(q, big.NewInt(1)) {
			d := new(big.Int).Mul(q, M)
			up := new(big.Int).Add(d, H) // v <= d+H  => value v-d
			s += fmt.Sprintf("(ite (<= %s %s) (- %s %s) ", v.s, bstr(up), v.s, bstr(d))
			cl += ")"
		}
		d := new(big.Int).Mul(k1, M)
		return &iexp{s + fmt.Sprintf("(- %s %s)", v.s, bstr(d)) + cl, L, H}
	}
	if L.Sign() == 0 {
		return &iexp{fmt.Sprintf("(mod %s %s)", v.s, M), L, H}
	}
	return &iexp{fmt.Sprintf("(+ (mod (- %s %s) %s) %s)", v.s, bstr(L), M, bstr(L)), L, H}
}

// signed value of a term of any width
func (e *intEnc) signed(t *Term) *iexp {
	x := e.enc(t)
	if t.sort >= 64 {
		return x
	}
	h := pow2(uint(t.sort) - 1)
	if x.hi.Cmp(h) < 0 {
		return x
	}
	return &iexp{fmt.Sprintf("(ite (>= %s %s) (- %s %s) %s)", x.s, h, x.s, pow2(uint(t.sort)), x.s), new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))}
}

// unsigned value
func (e *intEnc) unsigned(t *Term) *iexp {
	x := e.enc(t)
	if t.sort < 64 || x.lo.Sign() >= 0 {
		return x
	}
	return &iexp{fmt.Sprintf("(ite (< %s 0) (+ %s %s) %s)", x.s, x.s, pow2(64), x.s), big.NewInt(0), new(big.Int).Sub(pow2(64), big.NewInt(1))}
}

// bits hi..lo of x (two's complement)
func (e *intEnc) bits(x *iexp, lo, w uint) *iexp {
	s, l, h := x.s, x.lo, x.hi
	if lo > 0 {
		s = fmt.Sprintf("(div %s %s)", s, pow2(lo))
		l, h = new(big.Int).Rsh(l, lo), new(big.Int).Rsh(h, lo)
	}
	top := new(big.Int).Sub(pow2(w), big.NewInt(1))
	if l.Sign() >= 0 && h.Cmp(top) <= 0 {
		return &iexp{s, l, h}
	}
	return &iexp{fmt.Sprintf("(mod %s %s)", s, pow2(w)), big.NewInt(0), top}
}

func (e *intEnc) uf(t *Term) *iexp {
	n := fmt.Sprintf("|%s$%d|", opNames[t.op], int(t.sort))
	var as, ss []string
	for _, a := range t.args {
		ss = append(ss, "Int")
		as = append(as, e.enc(a).s)
	}
	e.declare(n, strings.Join(ss, " "), "Int")
	s := "(" + n + " " + strings.Join(as, " ") + ")"
	L, H := reprRange(t.sort)
	if len(s) > 40 {
		nm := fmt.Sprintf("i%d", t.id)
		fmt.Fprintf(&e.w, "(define-fun %s () Int %s)\n", nm, s)
		s = nm
	}
	e.fac = append(e.fac, fmt.Sprintf("(<= %s %s %s)", bstr(L), s, bstr(H)))
	return &iexp{s, L, H}
}

func (e *intEnc) uf2(op Op, t *Term, a, b *iexp, lo, hi *big.Int) *iexp {
	n := fmt.Sprintf("|%s$%d|", opNames[op], int(t.sort))
	e.declare(n, "Int Int", "Int")
	if a.s > b.s {
		a, b = b, a
	}
	s := fmt.Sprintf("(%s %s %s)", n, a.s, b.s)
	nm := fmt.Sprintf("u%d", t.id)
	fmt.Fprintf(&e.w, "(define-fun %s () Int %s)\n", nm, s)
	e.fac = append(e.fac, fmt.Sprintf("(<= %s %s %s)", bstr(lo), nm, bstr(hi)))
	return &iexp{nm, lo, hi}
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// maskConst computes x & m for a constant mask.
func (e *intEnc) maskConst(x *iexp, m uint64, n uint) *iexp {
	var parts []string
	hi := big.NewInt(0)
	for i := uint(0); i < n; {
		if m>>i&1 == 0 {
			i++
			continue
		}
		j := i
		for j < n && m>>j&1 == 1 {
			j++
		}
		b := e.bits(x, i, j-i)
		if i == 0 {
			parts = append(parts, b.s)
		} else {
			parts = append(parts, fmt.Sprintf("(* %s %s)", pow2(i), b.s))
		}
		hi = new(big.Int).Add(hi, new(big.Int).Lsh(b.hi, i))
		i = j
	}
	switch len(parts) {
	case 0:
		return &iexp{"0", big.NewInt(0), big.NewInt(0)}
	case 1:
		return &iexp{parts[0], big.NewInt(0), hi}
	}
	return &iexp{"(+ " + strings.Join(parts, " ") + ")", big.NewInt(0), hi}
}

func (e *intEnc) enc0(t *Term) *iexp {
	zero := big.NewInt(0)
	bl := func(s string) *iexp { return &iexp{s, zero, zero} }
	switch t.op {
	case OConst:
		if t.sort == SBool {
			if t.val == 1 {
				return bl("true")
			}
			return bl("false")
		}
		var v *big.Int
		if t.sort >= 64 {
			v = big.NewInt(int64(t.val))
		} else {
			v = new(big.Int).SetUint64(t.val)
		}
		return &iexp{bstr(v), v, v}
	case OVar, OApp:
		n := quote(t.decl.Name)
		if t.sort == SBool {
			var as []string
			for i := range t.args {
				_ = i
				as = append(as, "Int")
			}
			for i, a := range t.args {
				if a.sort == SBool {
					as[i] = "Bool"
				}
			}
			e.declare(n, strings.Join(as, " "), "Bool")
		} else {
			var as []string
			for _, a := range t.args {
				if a.sort == SBool {
					as = append(as, "Bool")
				} else {
					as = append(as, "Int")
				}
			}
			e.declare(n, strings.Join(as, " "), "Int")
		}
		s := n
		if len(t.args) > 0 {
			var as []string
			for _, a := range t.args {
				as = append(as, e.enc(a).s)
			}
			s = "(" + n + " " + strings.Join(as, " ") + ")"
		}
		if t.sort == SBool {
			return bl(s)
		}
		L, H := reprRange(t.sort)
		d := t.decl
		if d.HasRng && (t.sort < 64 || d.Hi < 1<<63) {
			L = maxB(L, new(big.Int).SetUint64(d.Lo))
			H = minB(H, new(big.Int).SetUint64(d.Hi))
		}
		if len(s) > 40 && len(t.args) > 0 {
			nm := fmt.Sprintf("i%d", t.id)
			fmt.Fprintf(&e.w, "(define-fun %s () Int %s)\n", nm, s)
			s = nm
		}
		e.fac = append(e.fac, fmt.Sprintf("(<= %s %s %s)", bstr(L), s, bstr(H)))
		return &iexp{s, L, H}
	case ONot:
		return bl("(not " + e.b(t.args[0]) + ")")
	case OAnd, OOr:
		var as []string
		for _, a := range t.args {
			as = append(as, e.b(a))
		}
		return bl("(" + opNames[t.op] + " " + strings.Join(as, " ") + ")")
	case OIte:
		c, a, b := e.b(t.args[0]), e.enc(t.args[1]), e.enc(t.args[2])
		return &iexp{fmt.Sprintf("(ite %s %s %s)", c, a.s, b.s), minB(a.lo, b.lo), maxB(a.hi, b.hi)}
	case OEq:
		a, b := e.enc(t.args[0]), e.enc(t.args[1])
		return bl("(= " + a.s + " " + b.s + ")")
	case OUlt, OUle:
		a, b := e.unsigned(t.args[0]), e.unsigned(t.args[1])
		op := "<"
		if t.op == OUle {
			op = "<="
		}
		return bl(fmt.Sprintf("(%s %s %s)", op, a.s, b.s))
	case OSlt, OSle:
		a, b := e.signed(t.args[0]), e.signed(t.args[1])
		op := "<"
		if t.op == OSle {
			op = "<="
		}
		return bl(fmt.Sprintf("(%s %s %s)", op, a.s, b.s))
	case OAdd, OMul:
		ts := t.args
		if t.op == OMul {
			ts = []*Term{t}
		}
		var parts []string
		lo, hi := big.NewInt(0), big.NewInt(0)
		for _, a := range ts {
			if a.op == OMul && len(a.args) == 2 {
				k, x := a.args[0], a.args[1]
				if !k.isConst() {
					k, x = x, k
				}
				if k.isConst() {
					kv := big.NewInt(k.sval())
					v := e.enc(x)
					parts = append(parts, fmt.Sprintf("(* %s %s)", bstr(kv), v.s))
					p, q := new(big.Int).Mul(kv, v.lo), new(big.Int).Mul(kv, v.hi)
					lo, hi = new(big.Int).Add(lo, minB(p, q)), new(big.Int).Add(hi, maxB(p, q))
					continue
				}
			}
			var v *iexp
			if a == t || a.op == OMul {
				v = e.uf(a)
				if a != t {
					e.memo[a.id] = v
				}
			} else {
				v = e.enc(a)
			}
			parts = append(parts, v.s)
			lo, hi = new(big.Int).Add(lo, v.lo), new(big.Int).Add(hi, v.hi)
		}
		s := parts[0]
		if len(parts) > 1 {
			s = "(+ " + strings.Join(parts, " ") + ")"
		}
		return e.norm(t, &iexp{s, lo, hi}, t.sort)
	case OZext:
		x := e.enc(t.args[0])
		if t.args[0].sort >= 64 {
			panic(intUnsup{})
		}
		return x
	case OSext:
		x := e.signed(t.args[0])
		return e.norm(t, x, t.sort)
	case OExtract:
		hi, lo := uint(t.val>>8), uint(t.val&0xff)
		if t.args[0].sort > 64 {
			panic(intUnsup{})
		}
		x := e.bits(e.enc(t.args[0]), lo, hi-lo+1)
		return e.norm(t, x, t.sort)
	case OConcat:
		if t.sort > 64 {
			panic(intUnsup{})
		}
		var parts []string
		lo, hi := big.NewInt(0), big.NewInt(0)
		sh := uint(t.sort)
		for _, a := range t.args {
			sh -= uint(a.sort)
			v := e.unsigned(a)
			if a.isConst() && a.val == 0 {
				continue
			}
			if sh == 0 {
				parts = append(parts, v.s)
			} else {
				parts = append(parts, fmt.Sprintf("(* %s %s)", pow2(sh), v.s))
			}
			lo, hi = new(big.Int).Add(lo, new(big.Int).Lsh(v.lo, sh)), new(big.Int).Add(hi, new(big.Int).Lsh(v.hi, sh))
		}
		s := "0"
		if len(parts) == 1 {
			s = parts[0]
		} else if len(parts) > 1 {
			s = "(+ " + strings.Join(parts, " ") + ")"
		}
		return e.norm(t, &iexp{s, lo, hi}, t.sort)
	case OBand, OBor, OBxor:
		if len(t.args) != 2 || t.sort > 64 {
			return e.uf(t)
		}
		a, b := t.args[0], t.args[1]
		if a.isConst() {
			a, b = b, a
		}
		n := uint(t.sort)
		if b.isConst() {
			x := e.enc(a)
			m := e.maskConst(x, b.val, n)
			switch t.op {
			case OBand:
				return e.norm(t, m, t.sort)
			case OBor:
				u := e.unsigned(a)
				k := new(big.Int).SetUint64(b.val)
				return e.norm(t, &iexp{fmt.Sprintf("(- (+ %s %s) %s)", u.s, k, m.s), maxB(u.lo, k), new(big.Int).Sub(pow2(n), big.NewInt(1))}, t.sort)
			case OBxor:
				u := e.unsigned(a)
				k := new(big.Int).SetUint64(b.val)
				return e.norm(t, &iexp{fmt.Sprintf("(- (+ %s %s) (* 2 %s))", u.s, k, m.s), zero, new(big.Int).Sub(pow2(n), big.NewInt(1))}, t.sort)
			}
		}
		x, y := e.enc(a), e.enc(b)
		if x.lo.Sign() >= 0 && y.lo.Sign() >= 0 {
			switch t.op {
			case OBand:
				r := e.uf2(t.op, t, x, y, zero, minB(x.hi, y.hi))
				e.fac = append(e.fac, fmt.Sprintf("(<= %s %s)", r.s, x.s), fmt.Sprintf("(<= %s %s)", r.s, y.s))
				return r
			case OBor:
				w := uint(maxB(x.hi, y.hi).BitLen())
				r := e.uf2(t.op, t, x, y, maxB(x.lo, y.lo), new(big.Int).Sub(pow2(w), big.NewInt(1)))
				e.fac = append(e.fac, fmt.Sprintf("(>= %s %s)", r.s, x.s), fmt.Sprintf("(>= %s %s)", r.s, y.s), fmt.Sprintf("(<= %s (+ %s %s))", r.s, x.s, y.s))
				return r
			case OBxor:
				w := uint(maxB(x.hi, y.hi).BitLen())
				return e.uf2(t.op, t, x, y, zero, new(big.Int).Sub(pow2(w), big.NewInt(1)))
			}
		}
		return e.uf(t)
	case OBnot:
		x := e.enc(t.args[0])
		if t.sort >= 64 {
			return &iexp{fmt.Sprintf("(- (- 1) %s)", x.s), new(big.Int).Sub(big.NewInt(-1), x.hi), new(big.Int).Sub(big.NewInt(-1), x.lo)}
		}
		m := new(big.Int).Sub(pow2(uint(t.sort)), big.NewInt(1))
		return &iexp{fmt.Sprintf("(- %s %s)", m, x.s), new(big.Int).Sub(m, x.hi), new(big.Int).Sub(m, x.lo)}
	case OShl, OLshr, OAshr:
		k := t.args[1]
		if !k.isConst() || k.val >= uint64(t.sort) {
			return e.uf(t)
		}
		n := uint(k.val)
		x := e.enc(t.args[0])
		switch t.op {
		case OShl:
			return e.norm(t, &iexp{fmt.Sprintf("(* %s %s)", pow2(n), x.s), new(big.Int).Lsh(x.lo, n), new(big.Int).Lsh(x.hi, n)}, t.sort)
		case OLshr:
			return e.norm(t, e.bits(x, n, uint(t.sort)-n), t.sort)
		}
		v := e.signed(t.args[0])
		return e.norm(t, &iexp{fmt.Sprintf("(div %s %s)", v.s, pow2(n)), new(big.Int).Rsh(v.lo, n), new(big.Int).Rsh(v.hi, n)}, t.sort)
	case OUdiv, OUrem, OSdiv, OSrem:
		x, k := e.enc(t.args[0]), t.args[1]
		if k.isConst() && x.lo.Sign() >= 0 && k.val != 0 && (t.sort >= 64 && int64(k.val) > 0 || t.sort < 64 && (t.op == OUdiv || t.op == OUrem || k.val < 1<<(uint(t.sort)-1))) {
			if t.sort < 64 && (t.op == OSdiv || t.op == OSrem) && x.hi.Cmp(pow2(uint(t.sort)-1)) >= 0 {
				return e.uf(t)
			}
			kb := new(big.Int).SetUint64(k.val)
			if t.op == OUdiv || t.op == OSdiv {
				return &iexp{fmt.Sprintf("(div %s %s)", x.s, kb), new(big.Int).Div(x.lo, kb), new(big.Int).Div(x.hi, kb)}
			}
			if x.hi.Cmp(kb) < 0 {
				return x
			}
			return &iexp{fmt.Sprintf("(mod %s %s)", x.s, kb), zero, new(big.Int).Sub(kb, big.NewInt(1))}
		}
		return e.uf(t)
	}
	panic(intUnsup{})
}
