package main

// Buffers that are too small for the portable block and partial-group functions.

import (
	"fmt"
	"strings"
)

// shortBuf checks one portable function with slices of arbitrary length and capacity: it panics
// exactly when a slice is shorter than the call needs. With what "mem": whatever the lengths, it
// touches nothing but the slices' elements.
func shortBuf(fn string, dec, delta bool, n int, cntArg func(h *H) *Term, what string) func(h *H) {
	return func(h *H) {
		h.fn = fn
		c := h.c
		mem := what == "mem"
		h.ex.extents = mem
		li, lo := c.Zext(c.Var("inLen", 8), 64), c.Zext(c.Var("outLen", 8), 64)
		ci, co := c.Add(li, c.Zext(c.Var("inSpare", 8), 64)), c.Add(lo, c.Zext(c.Var("outSpare", 8), 64))
		prev := c.Var("prev", 32)
		var in, out *Obj
		var args []Val
		var needIn, needOut *Term
		var x, ctrl []*Term
		if dec {
			for g := 0; g < max(1, n/4); g++ {
				ctrl = append(ctrl, c.Var(fmt.Sprintf("ctrl%d", g), 8))
			}
			sp := newDec(c, n, delta, ctrl, 0, func(o *Term) *Term { return c.UF("data", 8, o) })
			sp.register(c)
			in = h.ex.newObj("in", ci, &prefixBase{uf: "data"})
			out = h.ex.newObj("out", c.MulC(co, 4), &prefixBase{uf: "out0"})
			needIn, needOut = sp.off[n], h.k64(n)
		} else {
			sp := newEnc(c, n, delta)
			x = sp.x
			in = h.objIn("in", sp.x, ci)
			out = h.ex.newObj("out", co, &prefixBase{uf: "out0"})
			needIn, needOut = h.k64(n), sp.off[n]
		}
		args = []Val{&SliceV{in, h.k64(0), li, ci}, &SliceV{out, h.k64(0), lo, co}}
		if dec {
			args = append(args, c.Concat(reversed(ctrl)...))
		}
		var cnt *Term
		if cntArg != nil {
			cnt = cntArg(h)
			args = append(args, cnt)
		}
		if delta {
			args = append(args, prev)
		}
		if mem {
			in.size, out.size = li, lo
			if dec {
				out.size = c.MulC(lo, 4)
			} else {
				in.size = c.MulC(li, 4)
			}
		}
		short := c.BOr(c.Ult(li, needIn), c.Ult(lo, needOut))
		h.check = func(m *Model) (string, interface{}, error) {
			vli, vlo, vci, vco := int(m.Eval(li)), int(m.Eval(lo)), int(m.Eval(ci)), int(m.Eval(co))
			q := RReq{Fn: fn}
			wci, wco := vci, vco
			if mem {
				vci, vco = vli, vlo
			}
			if dec {
				q.Args = append(q.Args, aBytes(ufBytes(m, "data", 0, vci), vli), aU32(bytesU32(ufBytes(m, "out0", 0, 4*vco)), vlo))
				cv := uint64(0)
				for i, b := range evalBytes(m, ctrl) {
					cv |= uint64(b) << uint(8*i)
				}
				q.Args = append(q.Args, aInt(cv))
			} else {
				full := append(u32bytes(evalU32(m, x)), ufBytes(m, "in.tail", 4*n, 4*max(vci, n))...)[:4*vci]
				q.Args = append(q.Args, aU32(bytesU32(full), vli), aBytes(ufBytes(m, "out0", 0, vco), vlo))
			}
			if mem {
				q.Args[0], q.Args[1] = capped(q.Args[0], wci, true), capped(q.Args[1], wco, true)
			}
			vci, vco = wci, wco
			if cnt != nil {
				q.Args = append(q.Args, aInt(m.Eval(cnt)))
			}
			if delta {
				q.Args = append(q.Args, aInt(m.Eval(prev)))
			}
			r, err := h.do(m, q)
			if err != nil {
				return "", nil, err
			}
			isShort := m.Eval(short) != 0
			f := r.failure()
			if mem {
				if f != "" && !strings.HasPrefix(f, "panic: ") {
					return fmt.Sprintf("%s with input length %d, output length %d", f, vli, vlo), q, nil
				}
				if r.Canary {
					return fmt.Sprintf("wrote outside a buffer with input length %d, output length %d", vli, vlo), q, nil
				}
				return "", q, nil
			}
			need := fmt.Sprintf("input length %d (capacity %d), output length %d (capacity %d), needed %d and %d", vli, vci, vlo, vco, m.Eval(needIn), m.Eval(needOut))
			switch {
			case isShort && f == "":
				return "returned normally with " + need, q, nil
			case isShort && !strings.HasPrefix(f, "panic: "):
				return f + " with " + need, q, nil
			case !isShort && f != "":
				return f + " with " + need, q, nil
			}
			return "", q, nil
		}
		st, _ := h.call(h.ex.NewState(), fn, args...)
		if mem {
			h.events("oob", "misaligned")
			h.validate(2, short)
			h.validate(2, c.BNot(short))
			return
		}
		for _, e := range h.ex.events {
			switch e.kind {
			case "panic":
				h.ob("no panic with sufficient buffers: "+e.what, e.where, c.BAnd(e.g, c.BNot(short)), c.F)
			case "limit", "exit", "oob", "misaligned":
				h.ob("no "+e.kind+": "+e.what, e.where, e.g, c.F)
			}
		}
		if st == nil {
			h.r.inconclusive(h.name, "never returns")
			return
		}
		h.ob("panics when a buffer is too small", "", c.BAnd(st.pc, short), c.F)
		// some run really is too short, and some is not
		h.validate(6, short)
		h.validate(3, c.BNot(short))
	}
}

func init() {
	checks["C13"] = func(r *Run) error {
		if err := r.base(); err != nil {
			return err
		}
		r.bounds["slices"] = "every length 0..255 and spare capacity 0..255 of both slices, all values, control bits and contents"
		r.bounds["count"] = "0..4 and every count from 5 to 2^30+4 (negative counts are not claimed)"
		r.assumeAll()
		r.runItems(shortItems(true, true, ""))
		return nil
	}
}

func shortItems(enc, dec bool, what string) (items []Item) {
	for _, b := range encBlocks {
		if enc && !b.fast {
			items = append(items, Item{b.fn + " any lengths", shortBuf(b.fn, false, b.delta, b.n, nil, what)})
		}
	}
	for _, b := range decBlocks {
		if dec && !b.fast {
			items = append(items, Item{b.fn + " any lengths", shortBuf(b.fn, true, b.delta, b.n, nil, what)})
		}
	}
	for k := 0; k <= 5; k++ {
		for _, delta := range []bool{false, true} {
			cnt := func(h *H) *Term { a, _ := h.count(k); return a }
			if fe := "pkg/encode.PutUint32" + d(delta) + "Scalar"; enc {
				items = append(items, Item{fe + " any lengths " + countName(k), shortBuf(fe, false, delta, min(k, 4), cnt, what)})
			}
			if fd := "pkg/decode.GetUint32" + d(delta) + "Scalar"; dec {
				items = append(items, Item{fd + " any lengths " + countName(k), shortBuf(fd, true, delta, min(k, 4), cnt, what)})
			}
		}
	}
	return
}
