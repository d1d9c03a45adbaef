package main

// Relations between functions: encode then decode (C05), accelerated against portable (C06).

import (
	"bytes"
	"fmt"
)

// roundBlock: decoding what enc produced gives the values back.
func roundBlock(e, dec block, k int) func(h *H) {
	return func(h *H) {
		h.fn = e.fn + " -> " + dec.fn
		c, n := h.c, e.n
		var cnt *Term
		if n == 0 { // partial group
			cnt, n = h.count(k)
		}
		sp := newEnc(c, n, e.delta)
		in := h.objIn("in", sp.x, h.k64(n))
		ne := 4 * n
		buf := h.ex.newObj("buf", h.k64(ne), &prefixBase{uf: "buf0"})
		out := h.ex.newObj("out", h.k64(4*n), &prefixBase{uf: "out0"})
		args := []Val{h.sliceAll(in, n), h.sliceAll(buf, ne)}
		if cnt != nil {
			args = append(args, cnt)
		}
		if e.delta {
			args = append(args, sp.prev)
		}
		h.check = func(m *Model) (string, interface{}, error) {
			x := evalU32(m, sp.x)
			q := RReq{Fn: e.fn, Args: []RArg{aU32(x, n), aBytes(ufBytes(m, "buf0", 0, ne), ne)}}
			if cnt != nil {
				q.Args = append(q.Args, aInt(m.Eval(cnt)))
			}
			if e.delta {
				q.Args = append(q.Args, aInt(m.Eval(sp.prev)))
			}
			r, err := h.do(m, q)
			if err != nil {
				return "", nil, err
			}
			if f := r.failure(); f != "" {
				return f, q, nil
			}
			q2 := RReq{Fn: dec.fn, Args: []RArg{aBytes(r.buf(1), ne), aU32(bytesU32(ufBytes(m, "out0", 0, 4*n)), n), aInt(r.Rets[0].Int)}}
			if cnt != nil {
				q2.Args = append(q2.Args, aInt(m.Eval(cnt)))
			}
			if e.delta {
				q2.Args = append(q2.Args, aInt(m.Eval(sp.prev)))
			}
			r, err = h.do(m, q2)
			if err != nil {
				return "", nil, err
			}
			both := []RReq{q, q2}
			if f := r.failure(); f != "" {
				return f, both, nil
			}
			if !bytes.Equal(r.buf(1), u32bytes(x)) {
				return fmt.Sprintf("decoded %s, encoded %s", hexShort(r.buf(1)), hexShort(u32bytes(x))), both, nil
			}
			return "", both, nil
		}
		st, ret := h.call(h.ex.NewState(), e.fn, args...)
		h.events("panic", "limit", "exit", "misaligned")
		if st == nil {
			return
		}
		h.ex.events = nil
		args = []Val{h.sliceAll(buf, ne), h.sliceAll(out, n), ret}
		if cnt != nil {
			args = append(args, cnt)
		}
		if e.delta {
			args = append(args, sp.prev)
		}
		st, _ = h.call(st, dec.fn, args...)
		h.events("panic", "limit", "exit", "misaligned")
		if st == nil {
			return
		}
		h.returnsAlways(st)
		s := h.ex.ostate(st, out)
		for i := 0; i < n && !h.r.stop.Load(); i++ {
			h.ob(fmt.Sprintf("value %d restored", i), "", st.pc, c.Eq(h.ex.loadInt(out, s, h.k64(4*i), false, 32, nil), sp.x[i]))
		}
		h.validate(2, c.T)
	}
}

// roundStream: the reader returns x from the canonical encoding of x, and the writer returns that
// encoding. Together: reading what the writer wrote gives x.
func roundStream(wfn, rfn string, n int, delta bool) func(h *H) {
	return func(h *H) {
		h.fn = wfn + " -> " + rfn
		c := h.c
		sp := newEnc(c, n, delta)
		h.check = func(m *Model) (string, interface{}, error) {
			x := evalU32(m, sp.x)
			prev := m.Eval(sp.prev)
			q := RReq{Fn: wfn, Args: []RArg{aU32(x, n)}}
			if delta {
				q.Args = append(q.Args, aInt(prev))
			}
			r, err := h.do(m, q)
			if err != nil {
				return "", nil, err
			}
			if f := r.failure(); f != "" {
				return f, q, nil
			}
			s := r.Rets[0].bytes()
			q2 := RReq{Fn: rfn, Args: []RArg{aInt(uint64(n)), aBytes(s, len(s)), aU32(make([]uint32, n), n)}}
			if delta {
				q2.Args = append(q2.Args, aInt(prev))
			}
			r, err = h.do(m, q2)
			if err != nil {
				return "", nil, err
			}
			both := []RReq{q, q2}
			if f := r.failure(); f != "" {
				return f, both, nil
			}
			if !bytes.Equal(r.buf(2), u32bytes(x)) {
				return fmt.Sprintf("decoded %s, encoded %s", hexShort(r.buf(2)), hexShort(u32bytes(x))), both, nil
			}
			return "", both, nil
		}
		// the writer
		in := h.u32Obj("in", sp.x)
		args := []Val{h.sliceAll(in, n)}
		if delta {
			args = append(args, sp.prev)
		}
		st, ret := h.call(h.ex.NewState(), wfn, args...)
		h.events("panic", "limit", "exit", "misaligned")
		if st == nil {
			return
		}
		h.returnsAlways(st)
		h.eachSlice(st.pc, ret, func(g *Term, s *SliceV) { h.encResult(g, st, s, sp) })
		if h.r.stop.Load() {
			return
		}
		// the reader, on the control bytes of x and data bytes known by hypothesis only
		nc := len(sp.ctrl)
		pre := append([]*Term{}, sp.ctrl...)
		for i := 0; i < n && sp.d[i].isConst(); i++ {
			for k := uint64(0); k <= sp.code[i].c; k++ {
				pre = append(pre, c.Const(8, sp.d[i].c>>(8*k)&0xff))
			}
		}
		base := &prefixBase{pre: pre, uf: "data"}
		at := func(o *Term) *Term { return base.at(c, o) }
		ds := newDec(c, n, delta, sp.ctrl, uint64(nc), at)
		ds.register(c)
		total := c.AddC(sp.off[n], int64(nc))
		str := h.ex.newObj("stream", total, base)
		out := h.ex.newObj("out", h.k64(4*n), &prefixBase{uf: "out0"})
		args = []Val{c.Const(h.ex.intW, uint64(n)), h.whole(str, total), h.sliceAll(out, n)}
		if delta {
			args = append(args, sp.prev)
		}
		h.ex.events = nil
		st, _ = h.call(h.ex.NewState(), rfn, args...)
		h.events("panic", "limit", "exit", "misaligned")
		if st == nil {
			return
		}
		h.returnsAlways(st)
		h.outValues(st.pc, st, out, 0, ds, n)
		// what the format describes is x: value i from its bytes, given value i-1
		for i := 0; i < n && !h.r.stop.Load(); i++ {
			hyp := c.T
			for k := 0; k < 4; k++ {
				_, g := h.atLeast(sp.code[i], k)
				b := at(c.AddC(sp.off[i], int64(nc+k)))
				hyp = c.BAnd(hyp, c.Implies(g, c.Eq(b, c.Extract(sp.d[i], 8*k+7, 8*k))))
			}
			v := ds.d[i]
			if delta {
				p := sp.prev
				if i > 0 {
					p = sp.x[i-1]
				}
				v = c.Add(v, p)
			}
			h.ob(fmt.Sprintf("value %d restored", i), "", hyp, c.Eq(v, sp.x[i]))
		}
		h.validate(1, c.T)
	}
}

// samePut: two block encoders give the same control value and data.
func samePut(a, b block) func(h *H) {
	return func(h *H) {
		h.fn = a.fn + " / " + b.fn
		c, n := h.c, a.n
		sp := newEnc(c, n, a.delta)
		in := h.objIn("in", sp.x, h.k64(n))
		var rets []*Term
		var objs []*Obj
		var sts []*State
		h.check = func(m *Model) (string, interface{}, error) {
			x := evalU32(m, sp.x)
			var got []string
			var q RReq
			for _, f := range []block{a, b} {
				q = RReq{Fn: f.fn, Args: []RArg{aU32(x, n), aBytes(ufBytes(m, "out0", 0, 4*n), 4*n)}}
				if a.delta {
					q.Args = append(q.Args, aInt(m.Eval(sp.prev)))
				}
				r, err := h.do(m, q)
				if err != nil {
					return "", nil, err
				}
				if f := r.failure(); f != "" {
					return f, q, nil
				}
				cb := ctrlBytes(r.Rets[0].Int, n)
				got = append(got, fmt.Sprintf("control %x data %x", cb, r.buf(1)[:refSize(cb, n)]))
			}
			if got[0] != got[1] {
				return fmt.Sprintf("%s: %s; %s: %s", a.fn, got[0], b.fn, got[1]), q, nil
			}
			return "", q, nil
		}
		for _, f := range []block{a, b} {
			out := h.ex.newObj("out", h.k64(4*n), &prefixBase{uf: "out0"})
			args := []Val{h.sliceAll(in, n), h.sliceAll(out, 4*n)}
			if a.delta {
				args = append(args, sp.prev)
			}
			h.ex.events = nil
			st, ret := h.call(h.ex.NewState(), f.fn, args...)
			h.events("panic", "limit", "exit", "misaligned")
			if st == nil {
				return
			}
			h.returnsAlways(st)
			rets, objs, sts = append(rets, ret.(*Term)), append(objs, out), append(sts, st)
		}
		pc := c.BAnd(sts[0].pc, sts[1].pc)
		h.ob("same control value", "", pc, c.Eq(rets[0], rets[1]))
		s0, s1 := h.ex.ostate(sts[0], objs[0]), h.ex.ostate(sts[1], objs[1])
		for i := 0; i < n && !h.r.stop.Load(); i++ {
			for k := 0; k < 4; k++ {
				ov, g := h.atLeast(sp.code[i], k)
				o := c.AddC(sp.off[i], int64(k))
				x, y := h.ex.readByte(objs[0], s0, o, ov), h.ex.readByte(objs[1], s1, o, ov)
				h.ob(fmt.Sprintf("same byte %d of value %d", k, i), "", c.BAnd(pc, g), c.Eq(x, y))
			}
		}
		h.validate(2, c.T)
	}
}

// sameGet: two block decoders write the same values.
func sameGet(a, b block) func(h *H) {
	return func(h *H) {
		h.fn = a.fn + " / " + b.fn
		c, n := h.c, a.n
		ctrl := []*Term{c.Var("ctrl0", 8), c.Var("ctrl1", 8)}
		cv := c.Concat(ctrl[1], ctrl[0])
		c.Register(cv)
		sp := newDec(c, n, a.delta, ctrl, 0, func(o *Term) *Term { return c.UF("data", 8, o) })
		sp.register(c)
		in := h.ex.newObj("in", h.k64(32), &prefixBase{uf: "data"})
		h.check = func(m *Model) (string, interface{}, error) {
			var got []string
			var q RReq
			for _, f := range []block{a, b} {
				q = RReq{Fn: f.fn, Args: []RArg{aBytes(ufBytes(m, "data", 0, 32), 32), aU32(bytesU32(ufBytes(m, "out0", 0, 4*n)), n), aInt(m.Eval(cv))}}
				if a.delta {
					q.Args = append(q.Args, aInt(m.Eval(sp.prev)))
				}
				r, err := h.do(m, q)
				if err != nil {
					return "", nil, err
				}
				if f := r.failure(); f != "" {
					return f, q, nil
				}
				got = append(got, fmt.Sprintf("%x", r.buf(1)))
			}
			if got[0] != got[1] {
				return fmt.Sprintf("%s: %s; %s: %s", a.fn, got[0], b.fn, got[1]), q, nil
			}
			return "", q, nil
		}
		var objs []*Obj
		var sts []*State
		for _, f := range []block{a, b} {
			out := h.ex.newObj("out", h.k64(4*n), &prefixBase{uf: "out0"})
			args := []Val{h.sliceAll(in, 32), h.sliceAll(out, n), cv}
			if a.delta {
				args = append(args, sp.prev)
			}
			h.ex.events = nil
			st, _ := h.call(h.ex.NewState(), f.fn, args...)
			h.events("panic", "limit", "exit", "misaligned")
			if st == nil {
				return
			}
			h.returnsAlways(st)
			objs, sts = append(objs, out), append(sts, st)
		}
		h.sameOut(sts, objs, n)
		h.validate(2, c.T)
	}
}

func (h *H) sameOut(sts []*State, objs []*Obj, n int) {
	c := h.c
	pc := c.BAnd(sts[0].pc, sts[1].pc)
	s0, s1 := h.ex.ostate(sts[0], objs[0]), h.ex.ostate(sts[1], objs[1])
	for i := 0; i < n && !h.r.stop.Load(); i++ {
		x := h.ex.loadInt(objs[0], s0, h.k64(4*i), false, 32, nil)
		y := h.ex.loadInt(objs[1], s1, h.k64(4*i), false, 32, nil)
		h.ob(fmt.Sprintf("same value %d", i), "", pc, c.Eq(x, y))
	}
}

// sameWrite: two whole-sequence encoders return the same bytes.
func sameWrite(fa, fb string, n int, delta bool) func(h *H) {
	return func(h *H) {
		h.fn = fa + " / " + fb
		c := h.c
		sp := newEnc(c, n, delta)
		in := h.u32Obj("in", sp.x)
		args := []Val{h.sliceAll(in, n)}
		if delta {
			args = append(args, sp.prev)
		}
		h.check = func(m *Model) (string, interface{}, error) {
			x := evalU32(m, sp.x)
			var got [][]byte
			var q RReq
			for _, f := range []string{fa, fb} {
				q = RReq{Fn: f, Args: []RArg{aU32(x, n)}}
				if delta {
					q.Args = append(q.Args, aInt(m.Eval(sp.prev)))
				}
				r, err := h.do(m, q)
				if err != nil {
					return "", nil, err
				}
				if f := r.failure(); f != "" {
					return f, q, nil
				}
				got = append(got, r.Rets[0].bytes())
			}
			if !bytes.Equal(got[0], got[1]) {
				return fmt.Sprintf("%s: %s; %s: %s", fa, hexShort(got[0]), fb, hexShort(got[1])), q, nil
			}
			return "", q, nil
		}
		type res struct {
			st  *State
			ret Val
		}
		var rs []res
		for _, f := range []string{fa, fb} {
			h.ex.events = nil
			st, ret := h.call(h.ex.NewState(), f, args...)
			h.events("panic", "limit", "exit", "misaligned")
			if st == nil {
				return
			}
			h.returnsAlways(st)
			rs = append(rs, res{st, ret})
		}
		h.eachSlice(rs[0].st.pc, rs[0].ret, func(g0 *Term, a *SliceV) {
			h.eachSlice(c.BAnd(g0, rs[1].st.pc), rs[1].ret, func(pc *Term, b *SliceV) {
				h.ob("same length", "", pc, c.Eq(a.len, b.len))
				if n == 0 {
					return
				}
				sa, sb := h.ex.ostate(rs[0].st, a.obj), h.ex.ostate(rs[1].st, b.obj)
				nc := len(sp.ctrl)
				for i := 0; i < nc && !h.r.stop.Load(); i++ {
					x, y := h.ex.readByte(a.obj, sa, c.AddC(a.off, int64(i)), nil), h.ex.readByte(b.obj, sb, c.AddC(b.off, int64(i)), nil)
					h.ob(fmt.Sprintf("same control byte %d", i), "", pc, c.Eq(x, y))
				}
				for i := 0; i < n && !h.r.stop.Load(); i++ {
					for k := 0; k < 4; k++ {
						ov, g := h.atLeast(sp.code[i], k)
						o := c.AddC(sp.off[i], int64(nc+k))
						x, y := h.ex.readByte(a.obj, sa, c.Add(a.off, o), ov), h.ex.readByte(b.obj, sb, c.Add(b.off, o), ov)
						h.ob(fmt.Sprintf("same byte %d of value %d", k, i), "", c.BAnd(pc, g), c.Eq(x, y))
					}
				}
			})
		})
		h.validate(1, c.T)
	}
}

// sameRead: two whole-stream decoders write the same values.
func sameRead(fa, fb string, n int, delta bool) func(h *H) {
	return func(h *H) {
		h.fn = fa + " / " + fb
		c := h.c
		ctrl, pre := streamBytes(c, n)
		nc := len(ctrl)
		in := h.ex.newObj("stream", h.k64(0), &prefixBase{pre: pre, uf: "data"})
		sp := newDec(c, n, delta, ctrl, uint64(nc), func(o *Term) *Term { return in.base.at(c, o) })
		sp.register(c)
		total := c.Add(c.AddC(sp.off[n], int64(nc)), c.Zext(c.Var("trail", 8), 64))
		in.size, in.csize = total, -1
		h.check = func(m *Model) (string, interface{}, error) {
			var got [][]byte
			var q RReq
			ln := int(m.Eval(total))
			stream := append(evalBytes(m, pre), ufBytes(m, "data", len(pre), ln)...)
			for _, f := range []string{fa, fb} {
				q = RReq{Fn: f, Args: []RArg{aInt(uint64(n)), aBytes(stream, ln), aU32(bytesU32(ufBytes(m, "out0", 0, 4*n)), n)}}
				if delta {
					q.Args = append(q.Args, aInt(m.Eval(sp.prev)))
				}
				r, err := h.do(m, q)
				if err != nil {
					return "", nil, err
				}
				if f := r.failure(); f != "" {
					return f, q, nil
				}
				got = append(got, r.buf(2))
			}
			if !bytes.Equal(got[0], got[1]) {
				return fmt.Sprintf("%s: %s; %s: %s", fa, hexShort(got[0]), fb, hexShort(got[1])), q, nil
			}
			return "", q, nil
		}
		var objs []*Obj
		var sts []*State
		for _, f := range []string{fa, fb} {
			out := h.ex.newObj("out", h.k64(4*n), &prefixBase{uf: "out0"})
			args := []Val{c.Const(h.ex.intW, uint64(n)), h.whole(in, total), h.sliceAll(out, n)}
			if delta {
				args = append(args, sp.prev)
			}
			h.ex.events = nil
			st, _ := h.call(h.ex.NewState(), f, args...)
			h.events("panic", "limit", "exit", "misaligned")
			if st == nil {
				return
			}
			h.returnsAlways(st)
			objs, sts = append(objs, out), append(sts, st)
		}
		h.sameOut(sts, objs, n)
		h.validate(1, c.T)
	}
}

func init() {
	checks["C05"] = func(r *Run) error {
		if err := r.base(); err != nil {
			return err
		}
		ns := r.streamSizes(pick(r, 70, 200), someLong...)
		r.bounds["sequence length n"] = r.sizesBound(ns)
		r.bounds["blocks"] = "every pair of matching encoder and decoder on 8, 4 and up to 4 values; all values and prev"
		r.assumeAll(asmFeatures)
		var items []Item
		for _, e := range encBlocks {
			for _, dd := range decBlocks {
				if e.n == dd.n && e.delta == dd.delta {
					items = append(items, Item{e.fn + " -> " + dd.fn, roundBlock(e, dd, 0)})
				}
			}
		}
		for k := 0; k <= 5; k++ {
			for _, delta := range []bool{false, true} {
				e := block{"pkg/encode.PutUint32" + d(delta) + "Scalar", 0, delta, false}
				dd := block{"pkg/decode.GetUint32" + d(delta) + "Scalar", 0, delta, false}
				items = append(items, Item{e.fn + " -> " + dd.fn + " " + countName(k), roundBlock(e, dd, k)})
			}
		}
		var st []Item
		for _, n := range ns {
			for _, delta := range []bool{false, true} {
				w, rd := writers(delta), readers(delta)
				for i := range w {
					// every writer and every reader appears; all writers return the same bytes
					st = append(st, Item{fmt.Sprintf("%s -> %s n=%d", w[i], rd[i], n), roundStream(w[i], rd[i], n, delta)})
				}
			}
		}
		r.runItems(append(items, largestFirst(st)...))
		return nil
	}
	checks["C06"] = func(r *Run) error {
		if err := r.base(); err != nil {
			return err
		}
		ns := r.streamSizes(pick(r, 70, 200), someLong...)
		r.bounds["sequence length / count n"] = r.sizesBound(ns)
		r.bounds["blocks"] = "all values, control values, data bytes and prev"
		r.assumeAll(asmFeatures)
		var items []Item
		for i := 0; i < 8; i += 4 {
			items = append(items,
				Item{encBlocks[i+1].fn + " / " + encBlocks[i+2].fn, samePut(encBlocks[i+1], encBlocks[i+2])},
				Item{encBlocks[i].fn + " / " + encBlocks[i+2].fn, samePut(encBlocks[i], encBlocks[i+2])},
				Item{decBlocks[i+1].fn + " / " + decBlocks[i+2].fn, sameGet(decBlocks[i+1], decBlocks[i+2])},
				Item{decBlocks[i].fn + " / " + decBlocks[i+2].fn, sameGet(decBlocks[i], decBlocks[i+2])})
		}
		var st []Item
		for _, n := range ns {
			for _, delta := range []bool{false, true} {
				w, rd := writers(delta), readers(delta)
				for _, k := range []int{0, 2} {
					st = append(st,
						Item{fmt.Sprintf("%s / %s n=%d", w[k], w[1], n), sameWrite(w[k], w[1], n, delta)},
						Item{fmt.Sprintf("%s / %s n=%d", rd[k], rd[1], n), sameRead(rd[k], rd[1], n, delta)})
				}
			}
		}
		r.runItems(append(items, largestFirst(st)...))
		return nil
	}
}
