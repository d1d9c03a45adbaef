package main

// The length and shuffle tables.

import (
	"fmt"
	"go/types"
)

// table finds the bytes of an exported table of pkg/shared.
func (h *H) table(name string, size int64) (o *Obj, off *Term, st *State) {
	g := h.P.global(name)
	if g == nil {
		unsup("no variable %s", name)
	}
	st = h.ex.NewState()
	obj := h.ex.globalObj(g)
	t := g.Type().Underlying().(*types.Pointer).Elem()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		v, ok := h.ex.load(st, obj, h.k64(0), t).(*PtrV)
		if !ok || v.obj == nil {
			unsup("%s is not one table", name)
		}
		obj, off, t = v.obj, v.off, p.Elem()
	} else {
		off = h.k64(0)
	}
	if h.ex.sizes.Sizeof(t) != size {
		unsup("%s has %d bytes", name, h.ex.sizes.Sizeof(t))
	}
	return obj, off, st
}

// row reads entry i (of w bytes) of a table.
func (h *H) row(name string, i *Term, w int) []*Term {
	o, off, st := h.table(name, int64(256*w))
	s := h.ex.ostate(st, o)
	out := make([]*Term, w)
	for k := range out {
		out[k] = h.ex.readByte(o, s, h.c.Add(off, h.c.AddC(h.c.MulC(i, uint64(w)), int64(k))), nil)
	}
	return out
}

func (h *H) realRow(name string, i, w int) ([]byte, RReq, error) {
	q := RReq{Fn: name}
	r, err := h.do(nil, q)
	if err != nil {
		return nil, q, err
	}
	b := r.Rets[0].bytes()
	if len(b) < (i+1)*w {
		return nil, q, fmt.Errorf("%s has %d bytes", name, len(b))
	}
	return b[i*w : (i+1)*w], q, nil
}

// shuffle is what pshufb does with a mask.
func (h *H) shuffle(mask, src []*Term) []*Term {
	c := h.c
	out := make([]*Term, 16)
	for i := range out {
		sel := c.Extract(mask[i], 3, 0)
		v := src[15]
		for k := 14; k >= 0; k-- {
			v = c.Ite(c.Eq(sel, c.Const(4, uint64(k))), src[k], v)
		}
		out[i] = c.Ite(c.Eq(c.Extract(mask[i], 7, 7), c.Const(1, 1)), c.Const(8, 0), v)
	}
	return out
}

func refShuffle(mask, src []byte) []byte {
	out := make([]byte, 16)
	for i := range out {
		if mask[i]&0x80 == 0 {
			out[i] = src[mask[i]&15]
		}
	}
	return out
}

func lensOf(ctrl byte) (l [4]int, sum int) {
	for j := range l {
		l[j] = int(ctrl>>uint(2*j)&3) + 1
		sum += l[j]
	}
	return
}

func (h *H) tableCheck(what string) {
	c := h.c
	ctrl := c.Var("ctrl", 8)
	i := c.Zext(ctrl, 64)
	var code [4]*Term
	for j := range code {
		code[j] = c.Extract(ctrl, 2*j+1, 2*j)
	}
	sum := func(w, n int) *Term { return lenSum(c, w, code[:n], uint64(n)) }
	switch what {
	case "PerNumLenTable":
		name := "pkg/shared." + what
		h.fn = name
		row := h.row(name, i, 4)
		h.check = func(m *Model) (string, interface{}, error) {
			cv := byte(m.Eval(ctrl))
			got, q, err := h.realRow(name, int(cv), 4)
			l, _ := lensOf(cv)
			if err == nil && (int(got[0]) != l[0] || int(got[1]) != l[1] || int(got[2]) != l[2] || int(got[3]) != l[3]) {
				return fmt.Sprintf("%s[%#02x] = %v, expected %v", what, cv, got, l), q, nil
			}
			return "", q, err
		}
		for j := range row {
			h.ob(fmt.Sprintf("length of value %d", j), "", c.T, c.Eq(row[j], c.AddC(c.Zext(code[j], 8), 1)))
		}
	case "PerControlLenTable":
		name := "pkg/shared." + what
		h.fn = name
		row := h.row(name, i, 1)
		h.check = func(m *Model) (string, interface{}, error) {
			cv := byte(m.Eval(ctrl))
			got, q, err := h.realRow(name, int(cv), 1)
			if _, s := lensOf(cv); err == nil && int(got[0]) != s {
				return fmt.Sprintf("%s[%#02x] = %d, expected %d", what, cv, got[0], s), q, nil
			}
			return "", q, err
		}
		h.ob("sum of the lengths", "", c.T, c.Eq(row[0], sum(8, 4)))
	case "EncodeShuffleTable", "DecodeShuffleTable":
		name := "pkg/shared." + what
		h.fn = name
		var src []*Term
		for k := 0; k < 16; k++ {
			src = append(src, c.Var(fmt.Sprintf("lane%d", k), 8))
		}
		got := h.shuffle(h.row(name, i, 16), src)
		want := make([]*Term, 16)
		for k := range want {
			want[k] = c.Const(8, 0)
		}
		if what == "DecodeShuffleTable" {
			for j := 0; j < 4; j++ {
				for k := 0; k < 4; k++ {
					v := c.Const(8, 0)
					for p := 15; p >= 0; p-- {
						at := c.Eq(c.AddC(sum(8, j), int64(k)), c.Const(8, uint64(p)))
						v = c.Ite(c.BAnd(at, c.Ule(c.Const(2, uint64(k)), code[j])), src[p], v)
					}
					want[4*j+k] = v
				}
			}
		} else {
			for p := range want {
				for j := 0; j < 4; j++ {
					for k := 0; k < 4; k++ {
						at := c.Eq(c.AddC(sum(8, j), int64(k)), c.Const(8, uint64(p)))
						want[p] = c.Ite(c.BAnd(at, c.Ule(c.Const(2, uint64(k)), code[j])), src[4*j+k], want[p])
					}
				}
			}
		}
		h.check = func(m *Model) (string, interface{}, error) {
			cv, in := byte(m.Eval(ctrl)), evalBytes(m, src)
			mask, q, err := h.realRow(name, int(cv), 16)
			if err != nil {
				return "", nil, err
			}
			exp := make([]byte, 16)
			l, _ := lensOf(cv)
			p := 0
			for j := 0; j < 4; j++ {
				for k := 0; k < l[j]; k++ {
					if what == "DecodeShuffleTable" {
						exp[4*j+k] = in[p]
					} else {
						exp[p] = in[4*j+k]
					}
					p++
				}
			}
			if out := refShuffle(mask, in); string(out) != string(exp) {
				return fmt.Sprintf("%s[%#02x] = %x maps %x to %x, expected %x", what, cv, mask, in, out, exp), q, nil
			}
			return "", q, nil
		}
		for k := range got {
			h.ob(fmt.Sprintf("byte %d of the shuffled lanes", k), "", c.T, c.Eq(got[k], want[k]))
		}
	case "ControlByteToSize", "ControlByteToSizeTwo":
		fn := "pkg/shared." + what
		h.fn = fn
		arg, want := ctrl, sum(h.ex.intW, 4)
		n := 4
		if what == "ControlByteToSizeTwo" {
			hi := c.Var("ctrlHigh", 8)
			arg, n = c.Concat(hi, ctrl), 8
			cs := append([]*Term{}, code[:]...)
			for j := 0; j < 4; j++ {
				cs = append(cs, c.Extract(hi, 2*j+1, 2*j))
			}
			want = lenSum(c, h.ex.intW, cs, 8)
		}
		h.check = func(m *Model) (string, interface{}, error) {
			cv := m.Eval(arg)
			q := RReq{Fn: fn, Args: []RArg{aInt(cv)}}
			r, err := h.do(m, q)
			if err != nil {
				return "", nil, err
			}
			if f := r.failure(); f != "" {
				return f, q, nil
			}
			if exp := refSize(ctrlBytes(cv, n), n); int(r.Rets[0].Int) != exp {
				return fmt.Sprintf("%s(%#x) = %d, expected %d", what, cv, int64(r.Rets[0].Int), exp), q, nil
			}
			return "", q, nil
		}
		st, v := h.call(h.ex.NewState(), fn, arg)
		h.events("panic", "limit", "exit", "oob")
		if st == nil {
			return
		}
		h.returnsAlways(st)
		h.ob("encoded size", "", st.pc, c.Eq(v.(*Term), want))
	}
	h.validate(8, c.T)
}

func init() {
	checks["C14"] = func(r *Run) error {
		if err := r.base(); err != nil {
			return err
		}
		r.bounds["control values"] = "all 256 control bytes (65536 pairs for ControlByteToSizeTwo), all lane contents; complete"
		r.assume["package initialisation is executed from go/ssa; the shuffle instruction behaves as pshufb is documented"] = true
		var items []Item
		for _, w := range []string{"PerNumLenTable", "PerControlLenTable", "EncodeShuffleTable", "DecodeShuffleTable", "ControlByteToSize", "ControlByteToSizeTwo"} {
			items = append(items, Item{"pkg/shared." + w, func(h *H) { h.tableCheck(w) }})
		}
		r.runItems(items)
		return nil
	}
}
