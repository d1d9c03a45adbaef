package main

import (
	"bytes"
	"fmt"
)

// streamBytes are the control bytes of a stream of n values, and its leading known bytes.
func streamBytes(c *Ctx, n int) (ctrl, pre []*Term) {
	for g := 0; g < (n+3)/4; g++ {
		if n > bigN && 4*g+4 <= n-bigFree {
			ctrl = append(ctrl, c.Const(8, bigCtrl(g)))
		} else {
			ctrl = append(ctrl, c.Var(fmt.Sprintf("ctrl%d", g), 8))
		}
	}
	pre = append(pre, ctrl...)
	for g := 0; g < len(ctrl) && ctrl[g].isConst(); g++ {
		for k := refSize([]byte{byte(ctrl[g].c)}, 4); k > 0; k-- {
			pre = append(pre, c.Const(8, uint64(bigValue(len(pre))>>7&0xff)))
		}
	}
	return
}

// decStream checks one whole-stream decoder for one n. The stream is any ceil(n/4) control bytes
// and any data, of exactly the announced length plus an arbitrary number of trailing bytes; out has
// n elements plus an arbitrary number more.
func decStream(fn string, n int, delta bool, what string) func(h *H) {
	return func(h *H) {
		h.fn = fn
		c := h.c
		h.ex.extents = what == "mem"
		ctrl, pre := streamBytes(c, n)
		nc := len(ctrl)
		trail := c.Var("trail", 8)
		extra := c.Var("extra", 4)
		if what == "mem" {
			extra = c.Const(4, 0)
		}
		in := h.ex.newObj("stream", h.k64(0), &prefixBase{pre: pre, uf: "data"})
		sp := newDec(c, n, delta, ctrl, uint64(nc), func(o *Term) *Term { return in.base.at(c, o) })
		sp.register(c)
		total := c.Add(c.AddC(sp.off[n], int64(nc)), c.Zext(trail, 64))
		in.size, in.csize = total, -1
		outLen := c.AddC(c.Zext(extra, 64), int64(n))
		out := h.ex.newObj("out", c.MulC(outLen, 4), &prefixBase{uf: "out0"})
		inCap, outCap := c.Add(total, h.spare("inSpare")), c.Add(outLen, h.spare("outSpare"))
		if what != "mem" {
			in.size, out.size = inCap, c.MulC(outCap, 4)
		}
		st := h.ex.NewState()
		z := h.k64(0)
		args := []Val{c.Const(h.ex.intW, uint64(n)), &SliceV{in, z, total, inCap}, &SliceV{out, z, outLen, outCap}}
		if delta {
			args = append(args, sp.prev)
		}
		h.check = func(m *Model) (string, interface{}, error) {
			cb := evalBytes(m, ctrl)
			ln := int(m.Eval(total))
			ol := int(m.Eval(outLen))
			prev := uint32(m.Eval(sp.prev))
			ic, oc := int(m.Eval(inCap)), int(m.Eval(outCap))
			sl := ln
			if what != "mem" {
				sl, ol = ic, oc
			}
			stream := make([]byte, sl)
			copy(stream, evalBytes(m, pre))
			for i := len(pre); i < len(stream); i++ {
				stream[i] = byte(m.UF("data", uint64(i)))
			}
			out0 := make([]byte, 4*ol)
			for i := range out0 {
				out0[i] = byte(m.UF("out0", uint64(i)))
			}
			q := RReq{Fn: fn, Args: []RArg{aInt(uint64(n)), capped(aBytes(stream, ln), ic, what == "mem"), capped(aU32(bytesU32(out0), int(m.Eval(outLen))), oc, what == "mem")}}
			if delta {
				q.Args = append(q.Args, aInt(uint64(prev)))
			}
			if what == "frame" {
				q.Peek = h.P.peeks()
			}
			r, err := h.do(m, q)
			q.Peek = nil
			if err != nil {
				return "", nil, err
			}
			if what == "isa" {
				return h.isaBad(r), q, nil
			}
			if f := r.failure(); f != "" {
				return f, q, nil
			}
			want := refDecode(cb, stream[nc:], n)
			if delta {
				want = refSums(want, prev)
			}
			got := r.buf(2)
			switch what {
			case "frame":
				if !bytes.Equal(r.buf(1), stream) {
					return "stream modified", q, nil
				}
				if !bytes.Equal(got[4*n:], out0[4*n:]) {
					return "out modified beyond the decoded count", q, nil
				}
				return h.P.peekDiff(r), q, nil
			case "mem":
				if r.Canary {
					return "wrote outside a buffer", q, nil
				}
				return "", q, nil
			}
			if !bytes.Equal(got[:4*n], u32bytes(want)) {
				return fmt.Sprintf("decoded %s, expected %s", hexShort(got[:4*n]), hexShort(u32bytes(want))), q, nil
			}
			return "", q, nil
		}
		st, _ = h.call(st, fn, args...)
		switch what {
		case "isa":
			h.isaObs()
			return
		case "mem":
			h.events("oob", "misaligned")
			if st != nil {
				h.validate(2, c.Eq(trail, c.Const(8, 0)))
			}
			return
		case "frame":
			if st != nil {
				h.unchanged(st, in, nil)
				h.tailUnchanged(st, out, n, 16)
				h.globalsUnchanged(st)
			}
			h.validate(1, c.T)
			return
		}
		h.events("panic", "limit", "exit", "misaligned")
		if st == nil {
			return
		}
		h.returnsAlways(st)
		h.outValues(st.pc, st, out, 0, sp, n)
		h.validate(2, c.T)
	}
}

// outValues: object out holds the first n values of sp from element at on.
func (h *H) outValues(pc *Term, st *State, out *Obj, at int, sp *decSpec, n int) {
	c := h.c
	s := h.ex.ostate(st, out)
	for i := 0; i < n && !h.r.stop.Load(); i++ {
		bs := make([]*Term, 4)
		for k := range bs {
			bs[k] = h.ex.readByte(out, s, h.k64(4*(at+i)+k), nil)
		}
		h.ob(fmt.Sprintf("value %d", i), "", pc, c.Eq(joinBytes(c, bs), sp.v[i]))
	}
}
