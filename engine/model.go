package main

import (
	"encoding/hex"
	"fmt"
	"go/types"
)

// buildModel asks the solver for concrete harness inputs violating the goal.
func (x *Exec) buildModel(st *State, goal *Term, f *Failure) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abortRun); ok {
				panic(r)
			}
			f.HasMod = false
		}
	}()
	fs := append(append([]*Term{}, st.pc...), x.c.Not(goal))
	c := x.c
	var lens []*Term
	for _, in := range x.inputs {
		switch v := in.val.(type) {
		case VSlice:
			lens = append(lens, v.len)
		case VStr:
			lens = append(lens, v.len)
		}
	}
	okLim := false
	for _, lim := range []uint64{8, 40, 300, 4096, 70000} {
		g := append([]*Term{}, fs...)
		for _, l := range lens {
			g = append(g, c.Ule(l, c.BV(lim, 64)))
		}
		if r := x.s.Check(g, false); r == Sat {
			fs = g
			okLim = true
			break
		}
	}
	if !okLim {
		return
	}
	val := map[*Term]uint64{}
	var want []*Term
	wset := map[*Term]bool{}
	get := func(t *Term) (uint64, bool) {
		if t.isConst() {
			return t.val, true
		}
		if v, ok := val[t]; ok {
			return v, true
		}
		if !wset[t] {
			wset[t] = true
			want = append(want, t)
		}
		return 0, false
	}
	var ext func(v Value, t types.Type, d int) interface{}
	ext = func(v Value, t types.Type, d int) interface{} {
		if d > 4 {
			return nil
		}
		switch a := v.(type) {
		case *Term:
			n, _ := get(a)
			if a.sort == SBool {
				return n == 1
			}
			_, sg, _ := scalarSort(t)
			if sg {
				sh := 64 - uint(a.sort)
				return fmt.Sprint(int64(n<<sh) >> sh)
			}
			return fmt.Sprint(n)
		case VSlice:
			n, ok := get(a.len)
			if !ok {
				return nil
			}
			if n > 70000 {
				return nil
			}
			et := sliceElem(t)
			if tkeyOf(et) == "uint8" {
				b := make([]byte, n)
				for i := range b {
					q, _ := get(x.readLeaf(x.node(x.init0, a.reg), et, a.reg, a.obj, []*Term{c.Add(a.off, c.I(int64(i)))}).(*Term))
					b[i] = byte(q)
				}
				return map[string]interface{}{"hex": hex.EncodeToString(b)}
			}
			if n > 200 {
				n = 200
			}
			var out []interface{}
			for i := int64(0); i < int64(n); i++ {
				out = append(out, ext(x.loadAt(x.init0, et, a.reg, a.obj, []*Term{c.AddC(a.off, i)}, false), et, d+1))
			}
			return map[string]interface{}{"list": out}
		case VStr:
			n, ok := get(a.len)
			if !ok || n > 70000 {
				return nil
			}
			b := make([]byte, n)
			for i := range b {
				q, _ := get(x.strByte(x.init0, a, c.I(int64(i))))
				b[i] = byte(q)
			}
			return map[string]interface{}{"hex": hex.EncodeToString(b)}
		case VStruct:
			if s, ok := under(t).(*types.Struct); ok {
				m := map[string]interface{}{}
				for i := range a.f {
					m[s.Field(i).Name()] = ext(a.f[i], s.Field(i).Type(), d+1)
				}
				return map[string]interface{}{"fields": m}
			}
			var out []interface{}
			for i := range a.f {
				out = append(out, ext(a.f[i], sliceElem(t), d+1))
			}
			return map[string]interface{}{"list": out}
		case VArr:
			if a.n > 5000 {
				return nil
			}
			var out []interface{}
			for i := int64(0); i < a.n; i++ {
				out = append(out, ext(x.arrElem(a, c.I(i)), a.ety, d+1))
			}
			return map[string]interface{}{"list": out}
		case VPtr:
			n, ok := get(a.obj)
			if !ok || n == 0 {
				return nil
			}
			et := under(t).(*types.Pointer).Elem()
			return map[string]interface{}{"ptr": ext(x.loadAt(x.init0, et, a.root+a.path, a.obj, a.idx, a.arrRoot), et, d+1)}
		}
		return nil
	}
	for round := 0; round < 8; round++ {
		want = nil
		out := map[string]interface{}{}
		for _, in := range x.inputs {
			out[in.name] = ext(in.val, in.typ, 0)
		}
		if len(want) == 0 {
			f.Inputs = out
			f.HasMod = true
			return
		}
		g := append([]*Term{}, fs...)
		for t, v := range val {
			if t.sort == SBool {
				if v == 1 {
					g = append(g, t)
				} else {
					g = append(g, c.Not(t))
				}
			} else {
				g = append(g, c.Eq(t, c.BV(v, t.sort)))
			}
		}
		got, ok := x.s.Model(g, want)
		if !ok {
			return
		}
		for t, v := range got {
			val[t] = v
		}
		for _, t := range want {
			if _, ok := val[t]; !ok {
				val[t] = 0
			}
		}
	}
}
