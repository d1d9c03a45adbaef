package main

// The varint helpers.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"strings"
)

func refVarint(d []uint32) []byte {
	var b []byte
	for _, v := range d {
		b = binary.AppendUvarint(b, uint64(v))
	}
	return b
}

// regVarint registers the terms code over lengths code+1 (3 bits, 0..4) tends to build.
func regVarint(c *Ctx, code []*Term) {
	for _, cd := range code {
		for _, w := range []int{8, 16, 32, 64} {
			c.Register(c.Zext(cd, w))
			c.Register(c.AddC(c.Zext(cd, w), 1))
		}
		for k := uint64(0); k < 5; k++ {
			c.Register(c.Eq(cd, c.Const(3, k)))
			if k > 0 {
				c.Register(c.Ule(c.Const(3, k), cd))
			}
		}
	}
}

// fixedVarint are the fixed values of a list: values of all lengths, or small ones.
func fixedVarint(i int, small bool) uint32 {
	if small {
		return uint32(i*37) & 0x7f
	}
	return bigValue(i)
}

// putVarint: n values encoded into a large enough buffer, the last free ones arbitrary.
func putVarint(fn string, n, free int, small, delta bool, pat func(i int) int) func(h *H) {
	return func(h *H) {
		h.fn = fn
		c := h.c
		prev := c.Var("prev", 32)
		var x, dd, code []*Term
		off := []*Term{h.k64(0)}
		p := prev
		for i := 0; i < n; i++ {
			v := c.Var(fmt.Sprintf("x%d", i), 32)
			if i < n-free {
				v = c.Const(32, uint64(fixedVarint(i, small)))
				if small && delta {
					v = c.Const(32, uint64(3*i)) // small differences
				}
			}
			t := v
			if pat != nil {
				// arbitrary among the values (differences) of at most the pattern's length
				t = c.Zext(c.Var(fmt.Sprintf("x%d", i), min(7*pat(i), 32)), 32)
				v = t
				if delta {
					v = c.Add(p, t)
					p = v
				}
			} else if delta {
				t = c.Sub(v, p)
				p = v
			}
			x = append(x, v)
			dd = append(dd, t)
			c.Register(t)
			cd := c.Const(3, 4)
			for k := 4; k >= 1; k-- {
				lt := c.Ult(t, c.Const(32, 1<<uint(7*k)))
				c.Register(lt)
				cd = c.Ite(lt, c.Const(3, uint64(k-1)), cd)
			}
			c.Register(cd)
			code = append(code, cd)
			off = append(off, c.Add(off[i], c.AddC(c.Zext(cd, 64), 1)))
		}
		regVarint(c, code)
		for _, o := range off {
			if len(o.args) <= 12 {
				c.Register(o)
			}
		}
		in := h.u32Obj("nums", x)
		nout := c.Add(off[n], c.Zext(c.Var("outExtra", 5), 64))
		out := h.ex.newObj("out", nout, &prefixBase{uf: "out0"})
		args := []Val{h.sliceAll(in, n), h.whole(out, nout)}
		if n == 0 {
			args[0] = h.ex.nilSlice
		}
		if delta {
			args = append(args, prev)
		}
		h.check = func(m *Model) (string, interface{}, error) {
			xv := evalU32(m, x)
			pv := uint32(m.Eval(prev))
			lo := int(m.Eval(nout))
			q := RReq{Fn: fn, Args: []RArg{aU32(xv, n), aBytes(ufBytes(m, "out0", 0, lo), lo)}}
			d := xv
			if delta {
				q.Args = append(q.Args, aInt(uint64(pv)))
				d = refDeltas(xv, pv)
			}
			r, err := h.do(m, q)
			if err != nil {
				return "", nil, err
			}
			if f := r.failure(); f != "" {
				return f, q, nil
			}
			want := refVarint(d)
			if got := int64(r.Rets[0].Int); got != int64(len(want)) {
				return fmt.Sprintf("returned %d, expected %d", got, len(want)), q, nil
			}
			if got := r.buf(1); !bytes.HasPrefix(got, want) {
				return fmt.Sprintf("wrote %s, expected %s", hexShort(got), hexShort(want)), q, nil
			}
			return "", q, nil
		}
		st, ret := h.call(h.ex.NewState(), fn, args...)
		h.events("panic", "limit", "exit", "oob")
		if st == nil {
			return
		}
		h.returnsAlways(st)
		h.ob("bytes written", "", st.pc, c.Eq(h.ex.to64(ret.(*Term)), off[n]))
		s := h.ex.ostate(st, out)
		for i := 0; i < n && !h.r.stop.Load(); i++ {
			for k := 0; k < 5; k++ {
				ov := map[*Term][2]uint64{code[i]: {uint64(k), 4}}
				for _, w := range []int{8, 16, 32, 64} {
					ov[c.Zext(code[i], w)] = [2]uint64{uint64(k), 4}
				}
				b := h.ex.readByte(out, s, c.AddC(off[i], int64(k)), ov)
				var low *Term
				if k < 4 {
					low = c.Zext(c.Extract(dd[i], 7*k+6, 7*k), 8)
				} else {
					low = c.Zext(c.Extract(dd[i], 31, 28), 8)
				}
				more := c.Ule(c.Const(3, uint64(k+1)), code[i])
				want := c.Ite(more, c.Or(low, c.Const(8, 0x80)), low)
				h.ob(fmt.Sprintf("value %d byte %d", i, k), "", c.BAnd(st.pc, c.Ule(c.Const(3, uint64(k)), code[i])), c.Eq(b, want))
			}
		}
		h.validate(3, c.T)
	}
}

// getVarint: the minimal encodings of n values, the last free ones arbitrary, in a slice of exactly
// their length.
func getVarint(fn string, n, free int, small, delta bool, pat func(i int) int) func(h *H) {
	return func(h *H) {
		h.fn = fn
		c := h.c
		prev := c.Var("prev", 32)
		base := &prefixBase{uf: "data"}
		for i := 0; i < n-free; i++ {
			for _, b := range refVarint([]uint32{fixedVarint(i, small)}) {
				base.pre = append(base.pre, c.Const(8, uint64(b)))
			}
		}
		if pat != nil {
			for i := 0; i < n; i++ {
				for k, l := 0, pat(i); k < l; k++ {
					more := uint64(1)
					if k == l-1 {
						more = 0
					}
					base.pre = append(base.pre, c.Concat(c.Const(1, more), c.Var(fmt.Sprintf("b%d.%d", i, k), 7)))
				}
			}
		}
		at := func(o *Term) *Term { return base.at(c, o) }
		off := []*Term{h.k64(0)}
		var code, dd, v []*Term
		p := prev
		for i := 0; i < n; i++ {
			var bs [5]*Term
			var end [5]*Term
			for k := range bs {
				bs[k] = at(c.AddC(off[i], int64(k)))
				end[k] = c.Ult(bs[k], c.Const(8, 0x80))
				c.Register(end[k])
			}
			cd := c.Const(3, 4)
			for k := 3; k >= 0; k-- {
				cd = c.Ite(end[k], c.Const(3, uint64(k)), cd)
			}
			c.Register(cd)
			code = append(code, cd)
			// at most five bytes, 32 bits, minimal
			c.assume = append(c.assume, c.BOr(c.Ule(cd, c.Const(3, 3)), c.Ult(bs[4], c.Const(8, 0x10))))
			for k := 1; k < 5; k++ {
				c.assume = append(c.assume, c.BOr(c.BNot(c.Eq(cd, c.Const(3, uint64(k)))), c.BNot(c.Eq(bs[k], c.Const(8, 0)))))
			}
			val := c.Const(32, 0)
			for k := 4; k >= 0; k-- {
				w := 7
				if k == 4 {
					w = 4
				}
				part := c.ShlC(c.Zext(c.Extract(bs[k], w-1, 0), 32), uint64(7*k))
				if k > 0 {
					part = c.Ite(c.Ule(c.Const(3, uint64(k)), cd), part, c.Const(32, 0))
				}
				val = c.Or(val, part)
			}
			c.Register(val)
			dd = append(dd, val)
			if delta {
				p = c.Add(p, val)
				v = append(v, p)
			} else {
				v = append(v, val)
			}
			off = append(off, c.Add(off[i], c.AddC(c.Zext(cd, 64), 1)))
		}
		regVarint(c, code)
		for _, o := range off {
			if len(o.args) <= 12 {
				c.Register(o)
			}
		}
		total := off[n]
		spare := c.Add(total, c.Zext(c.Var("inSpare", 4), 64))
		in := h.ex.newObj("data", spare, base)
		nout := c.AddC(c.Zext(c.Var("outExtra", 3), 64), int64(n))
		out := h.ex.newObj("out", c.MulC(nout, 4), &prefixBase{uf: "out0"})
		args := []Val{&SliceV{in, h.k64(0), total, spare}, h.whole(out, nout)}
		if delta {
			args = append(args, prev)
		}
		h.check = func(m *Model) (string, interface{}, error) {
			d := evalU32(m, dd)
			data := refVarint(d)
			if len(data) != int(m.Eval(total)) {
				return "", nil, fmt.Errorf("model outside the assumptions")
			}
			pv := uint32(m.Eval(prev))
			lo := int(m.Eval(nout))
			full := append(append([]byte{}, data...), ufBytes(m, "data", len(data), int(m.Eval(spare)))...)
			q := RReq{Fn: fn, Args: []RArg{aBytes(full, len(data)), aU32(bytesU32(ufBytes(m, "out0", 0, 4*lo)), lo)}}
			want := d
			if delta {
				q.Args = append(q.Args, aInt(uint64(pv)))
				want = refSums(d, pv)
			}
			r, err := h.do(m, q)
			if err != nil {
				return "", nil, err
			}
			if f := r.failure(); f != "" {
				return f, q, nil
			}
			if got := int64(r.Rets[0].Int); got != int64(len(data)) {
				return fmt.Sprintf("returned %d, expected %d", got, len(data)), q, nil
			}
			if got := r.buf(1)[:4*n]; !bytes.Equal(got, u32bytes(want)) {
				return fmt.Sprintf("restored %s, expected %s", hexShort(got), hexShort(u32bytes(want))), q, nil
			}
			return "", q, nil
		}
		st, ret := h.call(h.ex.NewState(), fn, args...)
		h.events("panic", "limit", "exit", "oob")
		if st == nil {
			return
		}
		h.returnsAlways(st)
		h.ob("bytes read", "", st.pc, c.Eq(h.ex.to64(ret.(*Term)), total))
		s := h.ex.ostate(st, out)
		for i := 0; i < n && !h.r.stop.Load(); i++ {
			bs := make([]*Term, 4)
			for k := range bs {
				bs[k] = h.ex.readByte(out, s, h.k64(4*i+k), nil)
			}
			h.ob(fmt.Sprintf("value %d", i), "", st.pc, c.Eq(joinBytes(c, bs), v[i]))
		}
		h.validate(3, c.T)
	}
}

// varintPatterns are the fixed sequences of encoded lengths of a list of n values.
func varintPatterns(n int) map[string]func(i int) int {
	out := map[string]func(i int) int{}
	for l := 1; l <= 5; l++ {
		l := l
		out[fmt.Sprint(l)] = func(int) int { return l }
	}
	out["1..5"] = func(i int) int { return i%5 + 1 }
	out["1, one 2"] = func(i int) int {
		if i == n/2 {
			return 2
		}
		return 1
	}
	out["1, last 5"] = func(i int) int {
		if i == n-1 {
			return 5
		}
		return 1
	}
	return out
}

func init() {
	checks["C18"] = func(r *Run) error {
		if err := r.base(); err != nil {
			return err
		}
		ps := r.sizes(pick(r, 24, 64))
		gs := r.sizes(pick(r, 6, 8))
		var long []int
		if os.Getenv("VERIF_SIZES") == "" {
			long = longLists(r, "pkg/util", pick(r, 40, 70))
		}
		const free = 3
		var pn []int
		for n := 1; n <= pick(r, 64, 130); n++ {
			pn = append(pn, n)
		}
		for _, n := range long {
			if n > pn[len(pn)-1] {
				pn = append(pn, n)
			}
		}
		r.bounds["list length n, the encoded lengths fixed (for GetVarint, GetDeltaVarint: 1, 2, 3, 4 or 5 throughout, a cycle of them, or one longer value among single bytes; for PutVarint, PutDeltaVarint: 1 throughout or one value of at most 2 or 5 among them)"] = sizesText(pn)
		r.bounds["list length n"] = map[string]string{"PutVarint, PutDeltaVarint": sizesText(ps), "GetVarint, GetDeltaVarint": sizesText(gs),
			"all but the last 3 values fixed, to values of all lengths and to small ones": sizesText(long)}
		r.bounds["values"] = "all of uint32 for every element and prev; output buffers of exactly the needed size plus 0..31 bytes / 0..7 elements"
		r.assume["the Go compiler translates the Go functions faithfully (they are executed from go/ssa, encoding/binary included)"] = true
		var items []Item
		for _, delta := range []bool{false, true} {
			fn := "pkg/util.Put" + d(delta) + "Varint"
			for _, n := range ps {
				items = append(items, Item{fmt.Sprintf("%s n=%d", fn, n), putVarint(fn, n, n, false, delta, nil)})
			}
			for _, n := range long {
				for _, small := range []bool{false, true} {
					items = append(items, Item{fmt.Sprintf("%s n=%d, small=%t, last %d free", fn, n, small, free), putVarint(fn, n, free, small, delta, nil)})
				}
			}
			for _, n := range pn {
				for name, pat := range varintPatterns(n) {
					if !strings.HasPrefix(name, "1,") && name != "1" || n <= ps[len(ps)-1] {
						continue
					}
					items = append(items, Item{fmt.Sprintf("%s n=%d, lengths %s or less", fn, n, name), putVarint(fn, n, n, false, delta, pat)})
				}
			}
			fn = "pkg/util.Get" + d(delta) + "Varint"
			for _, n := range pn {
				for name, pat := range varintPatterns(n) {
					items = append(items, Item{fmt.Sprintf("%s n=%d, lengths %s", fn, n, name), getVarint(fn, n, n, false, delta, pat)})
				}
			}
			for _, n := range gs {
				items = append(items, Item{fmt.Sprintf("%s n=%d", fn, n), getVarint(fn, n, n, false, delta, nil)})
			}
			for _, n := range long {
				for _, small := range []bool{false, true} {
					items = append(items, Item{fmt.Sprintf("%s n=%d, small=%t, last %d free", fn, n, small, free), getVarint(fn, n, free, small, delta, nil)})
				}
			}
		}
		r.runItems(largestFirst(items))
		return nil
	}
}
