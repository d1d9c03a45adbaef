package main

// Block and partial-group functions.

import (
	"bytes"
	"debug/elf"
	"encoding/base64"
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// block is one function on a fixed number of values. need is the number of input bytes a decoder
// may rely on (0: exactly the announced data).
type block struct {
	fn    string
	n     int
	delta bool
	fast  bool // accelerated or dispatching to the accelerated one
}

var encBlocks = []block{
	{"pkg/encode.Put8uint32", 8, false, true},
	{"pkg/encode.Put8uint32Fast", 8, false, true},
	{"pkg/encode.Put8uint32Scalar", 8, false, false},
	{"pkg/encode.Put4uint32Scalar", 4, false, false},
	{"pkg/encode.Put8uint32Delta", 8, true, true},
	{"pkg/encode.Put8uint32DeltaFast", 8, true, true},
	{"pkg/encode.Put8uint32DeltaScalar", 8, true, false},
	{"pkg/encode.Put4uint32DeltaScalar", 4, true, false},
}

var decBlocks = []block{
	{"pkg/decode.Get8uint32", 8, false, true},
	{"pkg/decode.Get8uint32Fast", 8, false, true},
	{"pkg/decode.Get8uint32Scalar", 8, false, false},
	{"pkg/decode.Get4uint32Scalar", 4, false, false},
	{"pkg/decode.Get8uint32Delta", 8, true, true},
	{"pkg/decode.Get8uint32DeltaFast", 8, true, true},
	{"pkg/decode.Get8uint32DeltaScalar", 8, true, false},
	{"pkg/decode.Get4uint32DeltaScalar", 4, true, false},
}

func ctrlBytes(v uint64, n int) []byte {
	b := make([]byte, (n+3)/4)
	for i := range b {
		b[i] = byte(v >> uint(8*i))
	}
	return b
}

// objIn is a slice of u32 elements: the given values followed by unknown ones.
func (h *H) objIn(name string, xs []*Term, elems *Term) *Obj {
	var bs []*Term
	for _, x := range xs {
		bs = append(bs, h.ex.intBytes(x)...)
	}
	return h.ex.newObj(name, h.c.MulC(elems, 4), &prefixBase{pre: bs, uf: name + ".tail"})
}

// buffer is a slice of n elements with an arbitrary capacity.
func (h *H) buffer(o *Obj, n *Term) *SliceV {
	return &SliceV{o, h.k64(0), n, h.c.Add(n, h.spare(o.name+".spare"))}
}

func (h *H) capOf(m *Model, o *Obj, n *Term) int { return int(m.Eval(h.buffer(o, n).cap)) }

func (h *H) whole(o *Obj, n *Term) *SliceV { return &SliceV{o, h.k64(0), n, n} }

func ufBytes(m *Model, name string, from, to int) []byte {
	b := []byte{}
	for i := from; i < to; i++ {
		b = append(b, byte(m.UF(name, uint64(i))))
	}
	return b
}

// encBlock checks a block encoder on n arbitrary values. what: "" result, "mem" extents, "frame".
func encBlock(b block, what string) func(h *H) {
	return func(h *H) {
		h.fn = b.fn
		c, n := h.c, b.n
		h.ex.extents = what == "mem"
		sp := newEnc(c, n, b.delta)
		xin, xout := h.k64(0), h.k64(0)
		if what != "mem" {
			xin, xout = c.Zext(c.Var("inExtra", 3), 64), c.Zext(c.Var("outExtra", 6), 64)
		}
		nin, nout := c.AddC(xin, int64(n)), c.AddC(xout, int64(4*n))
		in := h.objIn("in", sp.x, nin)
		out := h.ex.newObj("out", nout, &prefixBase{uf: "out0"})
		args := []Val{h.buffer(in, nin), h.buffer(out, nout)}
		if b.delta {
			args = append(args, sp.prev)
		}
		h.check = func(m *Model) (string, interface{}, error) {
			x := evalU32(m, sp.x)
			prev := uint32(m.Eval(sp.prev))
			li, lo := int(m.Eval(nin)), int(m.Eval(nout))
			full := append(u32bytes(x), ufBytes(m, "in.tail", 4*n, 4*li)...)
			q := RReq{Fn: b.fn, Args: []RArg{capped(aU32(bytesU32(full), li), h.capOf(m, in, nin), what == "mem"), capped(aBytes(ufBytes(m, "out0", 0, lo), lo), h.capOf(m, out, nout), what == "mem")}}
			d := x
			if b.delta {
				q.Args = append(q.Args, aInt(uint64(prev)))
				d = refDeltas(x, prev)
			}
			if what == "frame" {
				q.Peek = h.P.peeks()
			}
			ctrl, data := refEncode(d)
			r, err := h.do(m, q)
			q.Peek = nil
			if err != nil {
				return "", nil, err
			}
			if what == "isa" {
				return h.isaBad(r), q, nil
			}
			if f := r.failure(); f != "" {
				return f, q, nil
			}
			switch what {
			case "frame":
				if !bytes.Equal(r.buf(0), full) {
					return "input slice modified", q, nil
				}
				return h.P.peekDiff(r), q, nil
			case "mem":
				if r.Canary {
					return "wrote outside a buffer", q, nil
				}
				return "", q, nil
			}
			if got := ctrlBytes(r.Rets[0].Int, n); !bytes.Equal(got, ctrl) {
				return fmt.Sprintf("control %x, expected %x", got, ctrl), q, nil
			}
			if got := r.buf(1); !bytes.HasPrefix(got, data) {
				return fmt.Sprintf("data %s, expected %s", hexShort(got), hexShort(data)), q, nil
			}
			return "", q, nil
		}
		st, ret := h.call(h.ex.NewState(), b.fn, args...)
		switch what {
		case "isa":
			h.isaObs()
			return
		case "mem":
			h.events("oob", "misaligned")
			h.validate(2, c.T)
			return
		case "frame":
			if st != nil {
				h.unchanged(st, in, nil)
				h.globalsUnchanged(st)
			}
			h.validate(1, c.T)
			return
		}
		h.events("panic", "limit", "exit", "misaligned")
		if st == nil {
			return
		}
		h.returnsAlways(st)
		want := c.Concat(reversed(sp.ctrl)...)
		h.ob("control value", "", st.pc, c.Eq(ret.(*Term), want))
		h.dataBytes(st.pc, st, h.whole(out, nout), sp, 0)
		h.validate(3, c.T)
	}
}

func reversed(ts []*Term) []*Term {
	r := make([]*Term, len(ts))
	for i, t := range ts {
		r[len(ts)-1-i] = t
	}
	return r
}

// decBlock checks a block decoder for every control value and data.
func decBlock(b block, what string) func(h *H) {
	return func(h *H) {
		h.fn = b.fn
		c, n := h.c, b.n
		h.ex.extents = what == "mem"
		var ctrl []*Term
		for g := 0; g < n/4; g++ {
			ctrl = append(ctrl, c.Var(fmt.Sprintf("ctrl%d", g), 8))
		}
		if len(ctrl) == 2 {
			c.Register(c.Concat(ctrl[1], ctrl[0]))
		}
		sp := newDec(c, n, b.delta, ctrl, 0, func(o *Term) *Term { return c.UF("data", 8, o) })
		sp.register(c)
		xin, xout := h.k64(0), h.k64(0)
		if what != "mem" {
			xin, xout = c.Zext(c.Var("inExtra", 6), 64), c.Zext(c.Var("outExtra", 3), 64)
		}
		nin, nout := c.Add(sp.off[n], xin), c.AddC(xout, int64(n))
		if b.fast {
			nin = c.AddC(xin, 32)
		}
		in := h.ex.newObj("in", nin, &prefixBase{uf: "data"})
		out := h.ex.newObj("out", c.MulC(nout, 4), &prefixBase{uf: "out0"})
		args := []Val{h.buffer(in, nin), h.buffer(out, nout), c.Concat(reversed(ctrl)...)}
		if b.delta {
			args = append(args, sp.prev)
		}
		h.check = func(m *Model) (string, interface{}, error) {
			cb := evalBytes(m, ctrl)
			li, lo := int(m.Eval(nin)), int(m.Eval(nout))
			data := ufBytes(m, "data", 0, li)
			out0 := ufBytes(m, "out0", 0, 4*lo)
			prev := uint32(m.Eval(sp.prev))
			cv := uint64(0)
			for i, x := range cb {
				cv |= uint64(x) << uint(8*i)
			}
			q := RReq{Fn: b.fn, Args: []RArg{capped(aBytes(data, li), h.capOf(m, in, nin), what == "mem"), capped(aU32(bytesU32(out0), lo), h.capOf(m, out, nout), what == "mem"), aInt(cv)}}
			if b.delta {
				q.Args = append(q.Args, aInt(uint64(prev)))
			}
			if what == "frame" {
				q.Peek = h.P.peeks()
			}
			r, err := h.do(m, q)
			q.Peek = nil
			if err != nil {
				return "", nil, err
			}
			if what == "isa" {
				return h.isaBad(r), q, nil
			}
			if f := r.failure(); f != "" {
				return f, q, nil
			}
			got := r.buf(1)
			switch what {
			case "frame":
				if !bytes.Equal(r.buf(0), data) {
					return "input modified", q, nil
				}
				if !bytes.Equal(got[4*n:], out0[4*n:]) {
					return "out modified beyond the block", q, nil
				}
				return h.P.peekDiff(r), q, nil
			case "mem":
				if r.Canary {
					return "wrote outside a buffer", q, nil
				}
				return "", q, nil
			}
			want := refDecode(cb, data, n)
			if b.delta {
				want = refSums(want, prev)
			}
			if !bytes.Equal(got[:4*n], u32bytes(want)) {
				return fmt.Sprintf("decoded %s, expected %s", hexShort(got[:4*n]), hexShort(u32bytes(want))), q, nil
			}
			return "", q, nil
		}
		st, _ := h.call(h.ex.NewState(), b.fn, args...)
		switch what {
		case "isa":
			h.isaObs()
			return
		case "mem":
			h.events("oob", "misaligned")
			h.validate(2, c.T)
			return
		case "frame":
			if st != nil {
				h.unchanged(st, in, nil)
				h.tailUnchanged(st, out, n, 8)
				h.globalsUnchanged(st)
			}
			h.validate(1, c.T)
			return
		}
		h.events("panic", "limit", "exit", "misaligned")
		if st == nil {
			return
		}
		h.returnsAlways(st)
		h.outValues(st.pc, st, out, 0, sp, n)
		h.validate(3, c.T)
	}
}

// tailUnchanged: elements n..n+k of out (as far as it has them) keep their contents.
func (h *H) tailUnchanged(st *State, out *Obj, n, k int) {
	c := h.c
	s := h.ex.ostate(st, out)
	for i := 0; i < 4*k && !h.r.stop.Load(); i++ {
		o := h.k64(4*n + i)
		b := h.ex.readByte(out, s, o, nil)
		h.ob(fmt.Sprintf("out beyond the count unchanged (byte %d)", i), "", c.BAnd(st.pc, c.Ult(o, out.size)), c.Eq(b, c.UF("out0", 8, o)))
	}
}

// count is an argument value of the partial-group functions: 0..4, or any larger one.
func (h *H) count(k int) (arg *Term, m int) {
	c := h.c
	if k <= 4 {
		return c.Const(h.ex.intW, uint64(k)), k
	}
	v := c.Var("countBeyond4", 30)
	return c.AddC(c.Zext(v, h.ex.intW), 5), 4
}

func countName(k int) string {
	if k <= 4 {
		return fmt.Sprintf("count=%d", k)
	}
	return "count>4"
}

// encPart checks PutUint32Scalar and PutUint32DeltaScalar for one count.
func encPart(fn string, delta bool, k int, what string) func(h *H) {
	return func(h *H) {
		h.fn = fn
		c := h.c
		h.ex.extents = what == ""
		cnt, n := h.count(k)
		sp := newEnc(c, n, delta)
		xin, xout := c.Zext(c.Var("inExtra", 3), 64), c.Zext(c.Var("outExtra", 5), 64)
		nin, nout := c.AddC(xin, int64(n)), c.Add(sp.off[n], xout)
		in := h.objIn("in", sp.x, nin)
		out := h.ex.newObj("out", nout, &prefixBase{uf: "out0"})
		args := []Val{h.buffer(in, nin), h.buffer(out, nout), cnt}
		if delta {
			args = append(args, sp.prev)
		}
		h.check = func(m *Model) (string, interface{}, error) {
			x := evalU32(m, sp.x)
			prev := uint32(m.Eval(sp.prev))
			li, lo := int(m.Eval(nin)), int(m.Eval(nout))
			full := append(u32bytes(x), ufBytes(m, "in.tail", 4*n, 4*li)...)
			out0 := ufBytes(m, "out0", 0, lo)
			q := RReq{Fn: fn, Args: []RArg{capped(aU32(bytesU32(full), li), h.capOf(m, in, nin), what != "frame"), capped(aBytes(out0, lo), h.capOf(m, out, nout), what != "frame"), aInt(m.Eval(cnt))}}
			d := x
			if delta {
				q.Args = append(q.Args, aInt(uint64(prev)))
				d = refDeltas(x, prev)
			}
			if what == "frame" {
				q.Peek = h.P.peeks()
			}
			ctrl, data := refEncode(d)
			r, err := h.do(m, q)
			q.Peek = nil
			if err != nil {
				return "", nil, err
			}
			if what == "isa" {
				return h.isaBad(r), q, nil
			}
			if f := r.failure(); f != "" {
				return f, q, nil
			}
			if what == "frame" {
				if !bytes.Equal(r.buf(0), full) {
					return "input modified", q, nil
				}
				return h.P.peekDiff(r), q, nil
			}
			want := byte(0)
			if n > 0 {
				want = ctrl[0]
			}
			if byte(r.Rets[0].Int) != want {
				return fmt.Sprintf("control %x, expected %x", r.Rets[0].Int, want), q, nil
			}
			if exp := append(append([]byte{}, data...), out0[len(data):]...); !bytes.Equal(r.buf(1), exp) {
				return fmt.Sprintf("out %s, expected %s", hexShort(r.buf(1)), hexShort(exp)), q, nil
			}
			return "", q, nil
		}
		st, ret := h.call(h.ex.NewState(), fn, args...)
		if what == "frame" {
			if st != nil {
				h.unchanged(st, in, nil)
				h.globalsUnchanged(st)
			}
			h.validate(1, c.T)
			return
		}
		h.events("panic", "limit", "exit", "oob", "misaligned")
		if st == nil {
			return
		}
		h.returnsAlways(st)
		want := c.Const(8, 0)
		if n > 0 {
			want = sp.ctrl[0]
		}
		h.ob("control value", "", st.pc, c.Eq(ret.(*Term), want))
		h.dataBytes(st.pc, st, h.whole(out, nout), sp, 0)
		s := h.ex.ostate(st, out)
		for i := n; i < 4*n+16 && !h.r.stop.Load(); i++ {
			o := h.k64(i)
			v := h.ex.readByte(out, s, o, nil)
			h.ob(fmt.Sprintf("byte %d beyond the encoded data unchanged", i), "", c.BAnd(st.pc, c.Ule(sp.off[n], o), c.Ult(o, nout)), c.Eq(v, c.UF("out0", 8, o)))
		}
		h.validate(3, c.T)
	}
}

// decPart checks GetUint32Scalar and GetUint32DeltaScalar for one count.
func decPart(fn string, delta bool, k int, what string) func(h *H) {
	return func(h *H) {
		h.fn = fn
		c := h.c
		h.ex.extents = what == ""
		cnt, n := h.count(k)
		ctrl := []*Term{c.Var("ctrl0", 8)}
		sp := newDec(c, n, delta, ctrl, 0, func(o *Term) *Term { return c.UF("data", 8, o) })
		sp.register(c)
		xin, xout := c.Zext(c.Var("inExtra", 5), 64), c.Zext(c.Var("outExtra", 3), 64)
		nin, nout := c.Add(sp.off[n], xin), c.AddC(xout, int64(n))
		in := h.ex.newObj("in", nin, &prefixBase{uf: "data"})
		out := h.ex.newObj("out", c.MulC(nout, 4), &prefixBase{uf: "out0"})
		args := []Val{h.buffer(in, nin), h.buffer(out, nout), ctrl[0], cnt}
		if delta {
			args = append(args, sp.prev)
		}
		h.check = func(m *Model) (string, interface{}, error) {
			cb := evalBytes(m, ctrl)
			li, lo := int(m.Eval(nin)), int(m.Eval(nout))
			data := ufBytes(m, "data", 0, li)
			out0 := ufBytes(m, "out0", 0, 4*lo)
			prev := uint32(m.Eval(sp.prev))
			q := RReq{Fn: fn, Args: []RArg{capped(aBytes(data, li), h.capOf(m, in, nin), what != "frame"), capped(aU32(bytesU32(out0), lo), h.capOf(m, out, nout), what != "frame"), aInt(uint64(cb[0])), aInt(m.Eval(cnt))}}
			if delta {
				q.Args = append(q.Args, aInt(uint64(prev)))
			}
			if what == "frame" {
				q.Peek = h.P.peeks()
			}
			r, err := h.do(m, q)
			q.Peek = nil
			if err != nil {
				return "", nil, err
			}
			if what == "isa" {
				return h.isaBad(r), q, nil
			}
			if f := r.failure(); f != "" {
				return f, q, nil
			}
			if what == "frame" {
				if !bytes.Equal(r.buf(0), data) {
					return "input modified", q, nil
				}
				if !bytes.Equal(r.buf(1)[4*n:], out0[4*n:]) {
					return "out modified beyond the count", q, nil
				}
				return h.P.peekDiff(r), q, nil
			}
			want := refDecode(cb, data, n)
			if delta {
				want = refSums(want, prev)
			}
			if int(r.Rets[0].Int) != refSize(cb, n) {
				return fmt.Sprintf("returned %d, expected %d", int64(r.Rets[0].Int), refSize(cb, n)), q, nil
			}
			if exp := append(u32bytes(want), out0[4*n:]...); !bytes.Equal(r.buf(1), exp) {
				return fmt.Sprintf("out %s, expected %s", hexShort(r.buf(1)), hexShort(exp)), q, nil
			}
			return "", q, nil
		}
		st, ret := h.call(h.ex.NewState(), fn, args...)
		if what == "frame" {
			if st != nil {
				h.unchanged(st, in, nil)
				h.tailUnchanged(st, out, n, 8)
				h.globalsUnchanged(st)
			}
			h.validate(1, c.T)
			return
		}
		h.events("panic", "limit", "exit", "oob", "misaligned")
		if st == nil {
			return
		}
		h.returnsAlways(st)
		h.ob("bytes consumed", "", st.pc, c.Eq(h.ex.to64(ret.(*Term)), sp.off[n]))
		h.outValues(st.pc, st, out, 0, sp, n)
		h.tailUnchanged(st, out, n, 8)
		h.validate(3, c.T)
	}
}

func (ex *Exec) to64(t *Term) *Term {
	if t.w < 64 {
		return ex.c.Sext(t, 64)
	}
	return t
}

// ---- package-level state ----

type peekSet struct {
	p     []RPeek
	names []string
}

// peeks lists the memory of the repository's package variables in the replay binary.
func (P *Program) peeks() []RPeek {
	P.mu.Lock()
	defer P.mu.Unlock()
	if P.pk != nil {
		return P.pk.p
	}
	P.pk = &peekSet{}
	f, err := elf.Open(P.bin)
	if err != nil {
		return nil
	}
	defer f.Close()
	ss, _ := f.Symbols()
	addr := map[string]uint64{}
	for _, s := range ss {
		addr[s.Name] = s.Value
	}
	sizes := types.SizesFor("gc", P.arch)
	var gs []*ssa.Global
	for _, p := range P.pkgs {
		if !P.isRepo(p) || p.Pkg.Name() == "main" {
			continue
		}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				gs = append(gs, g)
			}
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		a, ok := addr[g.String()]
		t := g.Type().Underlying().(*types.Pointer).Elem()
		n := sizes.Sizeof(t)
		if !ok || n == 0 || n > 1<<16 {
			continue
		}
		P.pk.p = append(P.pk.p, RPeek{Addr: a, Len: int(n)})
		P.pk.names = append(P.pk.names, g.Name())
		if st, ok := t.Underlying().(*types.Slice); ok {
			P.pk.p = append(P.pk.p, RPeek{Addr: a, Len: int(sizes.Sizeof(st.Elem())), Slice: true})
			P.pk.names = append(P.pk.names, g.Name()+"[...]")
		}
		if _, ok := t.Underlying().(*types.Map); ok {
			P.pk.p = append(P.pk.p, RPeek{Addr: a, Len: 8, Deref: true})
			P.pk.names = append(P.pk.names, "number of entries of "+g.Name())
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			if n := sizes.Sizeof(pt.Elem()); n > 0 && n <= 1<<16 {
				P.pk.p = append(P.pk.p, RPeek{Addr: a, Len: int(n), Deref: true})
				P.pk.names = append(P.pk.names, "*"+g.Name())
			}
		}
	}
	return P.pk.p
}

// peekDiff reports the package variables a call changed.
func (P *Program) peekDiff(r *RResp) string {
	for i := range r.Before {
		if i < len(r.After) && r.Before[i] != r.After[i] {
			a, _ := base64.StdEncoding.DecodeString(r.Before[i])
			b, _ := base64.StdEncoding.DecodeString(r.After[i])
			for k := range a {
				if k < len(b) && a[k] != b[k] {
					return fmt.Sprintf("package variable %s changed at byte %d: %02x -> %02x", P.pk.names[i], k, a[k], b[k])
				}
			}
		}
	}
	return ""
}

// globalsUnchanged: every object that existed before the call and belongs to the repository's
// package state still has its initial contents.
func (h *H) globalsUnchanged(st *State) {
	ex, c := h.ex, h.c
	var objs []*Obj
	for o := range st.mem {
		if _, ok := ex.initMem[o]; ok || o.glob != nil && ex.P.isRepo(o.glob.Pkg) {
			objs = append(objs, o)
		}
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	for _, o := range objs {
		if o.glob != nil && strings.HasPrefix(o.glob.Name(), "init$") {
			continue
		}
		s, s0 := st.mem[o], ex.initMem[o]
		if s0 == nil {
			s0 = emptyState
		}
		if s == s0 {
			continue
		}
		for i := int64(0); i < o.csize && !h.r.stop.Load(); i++ {
			a, b := ex.readByte(o, s, h.k64(int(i)), nil), ex.readByte(o, s0, h.k64(int(i)), nil)
			if a != b {
				h.ob(fmt.Sprintf("package state %s unchanged", o.name), "", st.pc, c.Eq(a, b))
			}
		}
		for _, k := range cellKeys(s.cells) {
			v, v0 := s.cells[k], s0.cells[k]
			if v0 == nil {
				v0 = ex.zeroLike(v)
			}
			if !sameVal(v, v0) {
				h.ob(fmt.Sprintf("package state %s unchanged", o.name), "", st.pc, ex.valEq(st, v, v0))
			}
		}
	}
	h.st.Obligations++
	h.st.Syntactic++
}
