package main

import (
	"bytes"
	"fmt"
)

// bytesObj is a symbolic object whose bytes are given.
func (h *H) bytesObj(name string, bs []*Term) *Obj {
	return h.ex.newObj(name, h.c.Const(64, uint64(len(bs))), &prefixBase{pre: bs})
}

func (h *H) u32Obj(name string, xs []*Term) *Obj {
	var bs []*Term
	for _, x := range xs {
		bs = append(bs, h.ex.intBytes(x)...)
	}
	return h.bytesObj(name, bs)
}

func (h *H) k64(v int) *Term { return h.c.Const(64, uint64(v)) }

// spare is an arbitrary number of elements of capacity beyond a slice's length.
func (h *H) spare(name string) *Term { return h.c.Zext(h.c.Var(name, 5), 64) }

// capped gives a slice argument the capacity of the model. With fit the memory ends with the
// slice's length, so that touching the rest of its capacity faults.
func capped(a RArg, capacity int, fit bool) RArg {
	a.Slice.Cap, a.Slice.Fit = capacity, fit
	return a
}

func (h *H) sliceAll(o *Obj, n int) *SliceV {
	return &SliceV{o, h.k64(0), h.k64(n), h.k64(n)}
}

// unsigned variable evaluation helpers for replays
func evalU32(m *Model, ts []*Term) []uint32 {
	out := make([]uint32, len(ts))
	for i, t := range ts {
		out[i] = uint32(m.Eval(t))
	}
	return out
}

func evalBytes(m *Model, ts []*Term) []byte {
	out := make([]byte, len(ts))
	for i, t := range ts {
		out[i] = byte(m.Eval(t))
	}
	return out
}

func hexShort(b []byte) string {
	if len(b) > 64 {
		return fmt.Sprintf("%x... (%d bytes)", b[:64], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// overrides for "value i takes more than k bytes"
func (h *H) atLeast(cd *Term, k int) (map[*Term][2]uint64, *Term) {
	c := h.c
	ov := map[*Term][2]uint64{}
	for _, w := range []int{8, 16, 32, 64} {
		ov[c.Zext(cd, w)] = [2]uint64{uint64(k), 3}
	}
	ov[cd] = [2]uint64{uint64(k), 3}
	if k == 0 {
		return ov, c.T
	}
	return ov, c.Ule(c.Const(2, uint64(k)), cd)
}

// encStream checks one whole-sequence encoder for one n.
func encStream(fn string, n int, delta bool, what string) func(h *H) {
	return func(h *H) {
		h.fn = fn
		c := h.c
		again := false
		h.ex.extents = what == "mem"
		sp := newEnc(c, n, delta)
		in := h.u32Obj("in", sp.x)
		capn := c.AddC(h.spare("spare"), int64(n))
		st := h.ex.NewState()
		args := []Val{&SliceV{in, h.k64(0), h.k64(n), capn}}
		if delta {
			args = append(args, sp.prev)
		}
		if n == 0 {
			args[0] = h.ex.nilSlice
		}
		h.check = func(m *Model) (string, interface{}, error) {
			x := evalU32(m, sp.x)
			prev := uint32(m.Eval(sp.prev))
			q := RReq{Fn: fn, Args: []RArg{capped(aU32(x, n), int(m.Eval(capn)), what == "mem")}}
			d := x
			if delta {
				q.Args = append(q.Args, aInt(uint64(prev)))
				d = refDeltas(x, prev)
			}
			q.Args[0].Slice.Nil = n == 0
			ctrl, data := refEncode(d)
			if what == "frame" {
				q.Peek = h.P.peeks()
				if again {
					q.Again = &RReq{Fn: fn, Args: append([]RArg{}, q.Args...)}
					inv := make([]uint32, n)
					for i := range x {
						inv[i] = ^x[i]
					}
					q.Again.Args[0] = capped(aU32(inv, n), n, false)
				}
			}
			r, err := h.do(m, q)
			q.Peek = nil
			if err != nil {
				return "", nil, err
			}
			if what == "isa" {
				return h.isaBad(r), q, nil
			}
			if f := r.failure(); f != "" {
				return f, q, nil
			}
			got := r.Rets[0].bytes()
			want := append(append([]byte{}, ctrl...), data...)
			switch what {
			case "frame":
				if !bytes.Equal(r.buf(0), u32bytes(x)) {
					return "input slice modified", q, nil
				}
				if again && !bytes.Equal(got, want) {
					return fmt.Sprintf("after a second call with other values the first result is %s, expected %s", hexShort(got), hexShort(want)), q, nil
				}
				return h.P.peekDiff(r), q, nil
			case "mem":
				if r.Canary {
					return "wrote outside the input buffer", q, nil
				}
				return "", q, nil
			}
			if !bytes.Equal(got, want) {
				return fmt.Sprintf("returned %s, expected %s", hexShort(got), hexShort(want)), q, nil
			}
			return "", q, nil
		}
		st, ret := h.call(st, fn, args...)
		switch what {
		case "isa":
			h.isaObs()
			return
		case "mem":
			h.events("oob", "misaligned")
			return
		case "frame":
			if st != nil {
				h.unchanged(st, in, sp.x)
				h.globalsUnchanged(st)
				again = true
				shared := h.ex.reachable(st)
				h.eachSlice(st.pc, ret, func(g *Term, s *SliceV) {
					if s.obj != nil && shared[s.obj] {
						h.ob("the result shares no memory with package state", "", g, h.c.F)
					}
				})
			}
			h.validate(1, c.T)
			return
		}
		h.events("panic", "limit", "exit", "misaligned")
		if st == nil {
			return
		}
		h.returnsAlways(st)
		h.eachSlice(st.pc, ret, func(g *Term, s *SliceV) {
			h.encResult(g, st, s, sp)
		})
		h.validate(2, c.T)
	}
}

// returnsAlways: the paths that return cover every input (what is missing shows up as events, so
// this only guards the engine itself).
func (h *H) returnsAlways(st *State) {
	if st.pc.isTrue() || len(h.ex.events) > 0 {
		return
	}
	h.ob("returns for every input", "", h.c.T, st.pc)
}

// eachSlice visits the alternatives of a slice value with their guards.
func (h *H) eachSlice(pc *Term, v Val, f func(g *Term, s *SliceV)) {
	switch x := v.(type) {
	case *SliceV:
		f(pc, x)
	case *UnionV:
		for i := range x.vs {
			s, ok := x.vs[i].(*SliceV)
			if !ok {
				unsup("result %T", x.vs[i])
			}
			g := h.c.BAnd(pc, x.gs[i])
			if h.ex.feasible(g, h.c.T) {
				f(g, s)
			}
		}
	default:
		unsup("result %T", v)
	}
}

// encResult: slice s holds exactly the canonical encoding.
func (h *H) encResult(pc *Term, st *State, s *SliceV, sp *encSpec) {
	c := h.c
	nc := len(sp.ctrl)
	if !h.ob("result length", "", pc, c.Eq(s.len, c.AddC(sp.off[sp.n], int64(nc)))) {
		if h.r.stop.Load() {
			return
		}
	}
	if sp.n == 0 {
		return
	}
	os := h.ex.ostate(st, s.obj)
	for g := 0; g < nc && !h.r.stop.Load(); g++ {
		b := h.ex.readByte(s.obj, os, c.AddC(s.off, int64(g)), nil)
		h.ob(fmt.Sprintf("control byte %d", g), "", pc, c.Eq(b, sp.ctrl[g]))
	}
	h.dataBytes(pc, st, s, sp, nc)
}

// dataBytes: the data bytes of sp start at s[base].
func (h *H) dataBytes(pc *Term, st *State, s *SliceV, sp *encSpec, base int) {
	c := h.c
	os := h.ex.ostate(st, s.obj)
	for i := 0; i < sp.n && !h.r.stop.Load(); i++ {
		for k := 0; k < 4; k++ {
			ov, g := h.atLeast(sp.code[i], k)
			o := c.Add(s.off, c.AddC(sp.off[i], int64(base+k)))
			b := h.ex.readByte(s.obj, os, o, ov)
			h.ob(fmt.Sprintf("value %d byte %d", i, k), "", c.BAnd(pc, g), c.Eq(b, c.Extract(sp.d[i], 8*k+7, 8*k)))
		}
	}
}

// unchanged: object o still holds its initial contents.
func (h *H) unchanged(st *State, o *Obj, xs []*Term) {
	c := h.c
	s, ok := st.mem[o]
	if !ok {
		h.st.Obligations++
		h.st.Syntactic++
		return
	}
	if s.log == nil {
		same := true
		for _, p := range s.pages {
			if p != nil {
				same = false
			}
		}
		if same {
			h.st.Obligations++
			h.st.Syntactic++
			return
		}
	}
	for i := int64(0); i < o.csize; i++ {
		a := h.ex.readByte(o, s, c.Const(64, uint64(i)), nil)
		b := o.base.at(c, c.Const(64, uint64(i)))
		if !h.ob(fmt.Sprintf("%s byte %d unchanged", o.name, i), "", st.pc, c.Eq(a, b)) && h.r.stop.Load() {
			return
		}
	}
}
