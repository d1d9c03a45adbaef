package main

// Which instruction-set extensions run under which CPU features.

import (
	"fmt"
	"go/constant"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type isaUse struct {
	ext, where string
	g          *Term
}

// isaTrack records the extensions executed from now on.
func (h *H) isaTrack() {
	h.isaOn = true
	seen := map[string]bool{}
	h.ex.isaLog = func(ext, where string, g *Term) {
		k := fmt.Sprintf("%s|%d", ext, g.id)
		if !seen[k] {
			seen[k] = true
			h.isa = append(h.isa, isaUse{ext, where, g})
		}
	}
	// a CPU with AVX has every SSE extension
	c := h.c
	f := func(n string) *Term { return h.ex.Feature(n) }
	for _, p := range [][2]string{{"AVX", "SSE42"}, {"SSE42", "SSE41"}, {"SSE41", "SSSE3"}, {"SSSE3", "SSE3"}} {
		c.assume = append(c.assume, c.BOr(c.BNot(f(p[0])), f(p[1])))
	}
}

func (h *H) isaObs() {
	for _, u := range h.isa {
		h.ob("an instruction of "+u.ext+" runs only when the CPU has it", u.where, u.g, h.ex.Feature(u.ext))
	}
	h.isa = nil
	h.validate(1, h.c.T)
}

// pokes are the instructions the CPU of the model cannot execute.
func (h *H) pokes(m *Model) []uint64 {
	var out []uint64
	if h.P.asm == nil {
		return nil
	}
	for _, ins := range h.P.asm.funcs {
		for _, i := range ins {
			if x := isaNeed(i); x != "" && m.Eval(h.ex.Feature(x)) == 0 {
				out = append(out, i.addr)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (h *H) isaBad(r *RResp) string {
	if r.Crash != "" {
		return "executes an instruction the CPU does not have (replaced by an illegal one for the replay): " + r.Crash
	}
	return ""
}

// isaItem wraps a harness run with what="isa".
func isaItem(name string, run func(h *H)) Item {
	return Item{name, func(h *H) {
		h.isaTrack()
		defer func() {
			e := recover()
			if e == nil {
				return
			}
			if _, ok := e.(Unsupported); ok && len(h.isa) > 0 {
				h.isaObs()
			}
			panic(e)
		}()
		run(h)
	}}
}

func featSet(h *H) string {
	var s []string
	for _, n := range sortedKeys(h.ex.feat) {
		s = append(s, n)
	}
	return strings.Join(s, ",")
}

// modeItem: GetMode of a package reports the accelerated mode only when every instruction of the
// package's kernels is supported.
func modeItem(pkg string) func(h *H) {
	return func(h *H) {
		fn := pkg + ".GetMode"
		h.fn = fn
		h.isaTrack()
		c := h.c
		fast, _ := h.P.constInt("pkg/shared.Fast")
		needs := map[string]string{}
		for _, f := range h.P.asmFuncs() {
			if f.Pkg.Pkg.Path() != h.P.module+"/"+pkg {
				continue
			}
			for _, i := range h.P.asm.funcs[asmSymbol(f)] {
				if x := isaNeed(i); x != "" && needs[x] == "" {
					needs[x] = f.Name() + ": " + i.text
				}
			}
		}
		st, v := h.call(h.ex.NewState(), fn)
		if st == nil {
			unsup("GetMode does not return")
		}
		isFast := c.Eq(v.(*Term), c.Const(h.ex.intW, uint64(fast)))
		h.check = func(m *Model) (string, interface{}, error) {
			q := RReq{Fn: fn}
			env, err := h.env(m)
			if err != nil {
				return "", nil, err
			}
			r, err := h.r.do(h.P.bin, env, q)
			if err != nil {
				return "", nil, err
			}
			rep := map[string]interface{}{"request": q, "environment": env}
			if f := r.failure(); f != "" {
				return f, rep, nil
			}
			if int64(r.Rets[0].Int) == fast {
				for _, x := range sortedKeys(needs) {
					if m.Eval(h.ex.Feature(x)) == 0 {
						return fmt.Sprintf("GetMode reports the accelerated mode without %s, which %s needs", x, needs[x]), rep, nil
					}
				}
			}
			return "", rep, nil
		}
		for _, x := range sortedKeys(needs) {
			h.ob("accelerated mode implies "+x, needs[x], c.BAnd(st.pc, isFast), h.ex.Feature(x))
		}
		h.validate(8, c.T)
	}
}

// constInt is the value of a package-level constant.
func (P *Program) constInt(name string) (int64, bool) {
	i := strings.LastIndexByte(name, '.')
	p := P.pkgs[P.module+"/"+name[:i]]
	if p == nil {
		unsup("no package %s", name[:i])
	}
	k, ok := p.Members[name[i+1:]].(*ssa.NamedConst)
	if !ok {
		unsup("no constant %s", name)
	}
	return constant.Int64Val(constant.ToInt(k.Value.Value))
}

func general(fn string) bool {
	return !strings.HasSuffix(fn, "Fast") && !strings.HasSuffix(fn, "Scalar")
}

func init() {
	checks["C15"] = func(r *Run) error {
		if err := r.base(); err != nil {
			return err
		}
		ns := r.streamSizes(pick(r, 70, 200), someLong...)
		r.bounds["CPU features"] = "every combination of the flags the library or its instructions depend on, AVX implying the SSE extensions"
		r.bounds["sequence length / count n"] = r.sizesBound(ns)
		r.bounds["values"] = "all values, control bits, data bytes and prev"
		r.assumeAll("AVX implies SSE4.2, SSE4.1, SSSE3 and SSE3; nothing else is assumed about feature combinations")
		items := []Item{}
		for _, p := range []string{"pkg/encode", "pkg/decode", "pkg/stream/writer", "pkg/stream/reader", "pkg/shared"} {
			if r.P.fn(p+".GetMode") != nil {
				items = append(items, Item{p + ".GetMode", modeItem(p)})
			}
		}
		for _, b := range encBlocks {
			if general(b.fn) {
				items = append(items, isaItem(b.fn, encBlock(b, "isa")))
			}
		}
		for _, b := range decBlocks {
			if general(b.fn) {
				items = append(items, isaItem(b.fn, decBlock(b, "isa")))
			}
		}
		var ss []Item
		for _, n := range ns {
			for _, delta := range []bool{false, true} {
				w, rd := writers(delta)[0], readers(delta)[0]
				ss = append(ss, isaItem(fmt.Sprintf("%s n=%d", w, n), encStream(w, n, delta, "isa")),
					isaItem(fmt.Sprintf("%s n=%d", rd, n), decStream(rd, n, delta, "isa")))
			}
		}
		r.runItems(append(items, largestFirst(ss)...))
		return nil
	}
}
