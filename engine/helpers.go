package main

// C19: the helpers that produce test data.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// randFns: the top-level functions of math/rand and math/rand/v2, in terms of one 64-bit draw each.
// A bounded draw is any value below its bound.
var randFns = []struct {
	name  string
	typ   string
	shift uint
	n     bool
}{
	{"Uint32", "uint32", 32, false}, {"Uint64", "uint64", 0, false}, {"Int63", "int64", 1, false},
	{"Int31", "int32", 33, false}, {"Int", "int", 1, false}, {"Int32", "int32", 33, false}, {"Int64", "int64", 1, false},
	{"Int63n", "int64", 1, true}, {"Int31n", "int32", 1, true}, {"Intn", "int", 1, true},
	{"IntN", "int", 1, true}, {"Int32N", "int32", 1, true}, {"Int64N", "int64", 1, true},
	{"Uint32N", "uint32", 1, true}, {"Uint64N", "uint64", 1, true}, {"UintN", "uint", 1, true}, {"Uint", "uint", 0, false},
}

// randSource makes ex take the results of random functions from draw(k), k counting the calls.
func randSource(ex *Exec, draw func(k uint64) *Term) (counter *Obj) {
	c := ex.c
	counter = ex.newObj("number of draws", c.Const(64, 8), zeroBase{})
	next := func(st *State) *Term {
		k := c.Canon(ex.loadInt(counter, ex.ostate(st, counter), c.Const(64, 0), false, 64, nil))
		if k.uhi-k.ulo > 32 {
			unsup("number of draws unclear")
		}
		d := draw(k.uhi)
		for i := int64(k.uhi) - 1; i >= int64(k.ulo); i-- {
			d = c.Ite(c.Eq(k, c.Const(64, uint64(i))), draw(uint64(i)), d)
		}
		ex.writeBytes(st, counter, c.Const(64, 0), ex.intBytes(c.AddC(k, 1)), c.T)
		return d
	}
	for _, f := range randFns {
		w := 64
		if strings.HasSuffix(f.typ, "32") || ex.intW == 32 && (f.typ == "int" || f.typ == "uint") {
			w = 32
		}
		in := func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
			if !f.n {
				return st, c.Canon(c.Extract(c.LshrC(next(st), uint64(f.shift)), w-1, 0))
			}
			n, ok := args[0].(*Term)
			if !ok {
				unsup("bound %T", args[0])
			}
			good := c.Slt(c.Const(w, 0), n)
			if strings.HasPrefix(f.typ, "u") {
				good = c.BNot(c.Eq(n, c.Const(w, 0)))
			}
			if !ex.require(st, good, "panic", "invalid argument to "+f.name, in) {
				return nil, nil
			}
			v := c.Div(OpUrem, c.LshrC(next(st), 1), c.Zext(n, 64))
			return st, c.Canon(c.Extract(v, w-1, 0))
		}
		for _, p := range []string{"math/rand.", "math/rand/v2."} {
			ex.intr[p+f.name] = in
		}
	}
	nop := func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) { return st, &TupleV{} }
	ex.intr["math/rand.Seed"] = nop
	return counter
}

// sortIntr runs sort.Slice and sort.SliceStable on the standard library's own code, with the
// reflection-based swapper replaced by one on the engine's slices.
func sortIntr(ex *Exec) {
	c := ex.c
	run := func(inner string, lim bool) Intrinsic {
		return func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
			i, ok := args[0].(*IfaceV)
			if !ok || i.t == nil {
				unsup("sort of %T", args[0])
			}
			sl, ok := i.t.Underlying().(*types.Slice)
			s, ok2 := i.v.(*SliceV)
			if !ok || !ok2 {
				unsup("sort of %s", i.t)
			}
			es := uint64(ex.sizes.Sizeof(sl.Elem()))
			if !s.len.isConst() {
				unsup("sort of a slice of unknown length")
			}
			swap := &FuncV{name: "swapper", stub: func(ex *Exec, st *State, args []Val) []Outcome {
				x, y := args[0].(*Term), args[1].(*Term)
				for _, k := range []*Term{x, y} {
					if !ex.require(st, c.Ult(c.Sext(k, 64), s.len), "panic", "swap index out of range", in) {
						return nil
					}
				}
				at := func(k *Term) *Term { return c.Add(s.off, c.MulC(c.Sext(k, 64), es)) }
				read := func(k *Term) []*Term {
					bs := make([]*Term, es)
					for j := range bs {
						bs[j] = ex.readByte(s.obj, ex.ostate(st, s.obj), c.AddC(at(k), int64(j)), nil)
					}
					return bs
				}
				a, b := read(x), read(y)
				ex.writeBytes(st, s.obj, at(x), b, c.T)
				ex.writeBytes(st, s.obj, at(y), a, c.T)
				return []Outcome{{st, &TupleV{}}}
			}}
			p := ex.P.prog.ImportedPackage("sort")
			if p == nil || p.Func(inner) == nil {
				unsup("no sort.%s", inner)
			}
			n := c.Const(ex.intW, s.len.c)
			a := []Val{&StructV{[]Val{args[1], swap}}}
			if lim {
				b := 0
				for s.len.c>>uint(b) != 0 {
					b++
				}
				a = append(a, c.Const(ex.intW, 0), n, c.Const(ex.intW, uint64(b)))
			} else {
				a = append(a, n)
			}
			st, _ = ex.call(st, p.Func(inner), a, in)
			return st, &TupleV{}
		}
	}
	ex.intr["sort.Slice"] = run("pdqsort_func", true)
	ex.intr["sort.SliceStable"] = run("stable_func", false)
}

const randStub = `package zz_verif_rand

import (
	"os"
	"strconv"
	"strings"
)

var draws []uint64
var at int

func init() {
	for _, s := range strings.Split(os.Getenv("VERIF_DRAWS"), ",") {
		v, _ := strconv.ParseUint(s, 16, 64)
		draws = append(draws, v)
	}
}

func draw() uint64 {
	if at >= len(draws) {
		return uint64(at) * 0x9e3779b97f4a7c15
	}
	at++
	return draws[at-1]
}

func Seed(int64) {}
`

// randBinary links the replay program with pkg/util's math/rand replaced by a source that yields
// the draws in the environment.
func (P *Program) randBinary(tmp string) (string, error) {
	dir := filepath.Join(tmp, "rand")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	var sb strings.Builder
	sb.WriteString(randStub)
	for _, f := range randFns {
		if f.n {
			fmt.Fprintf(&sb, "func %s(n %s) %s {\n\tif n <= 0 {\n\t\tpanic(\"invalid argument to %s\")\n\t}\n\treturn %s((draw() >> 1) %% uint64(n))\n}\n", f.name, f.typ, f.typ, f.name, f.typ)
		} else {
			fmt.Fprintf(&sb, "func %s() %s { return %s(draw() >> %d) }\n", f.name, f.typ, f.typ, f.shift)
		}
	}
	rep := map[string]string{}
	put := func(target, name, s string) error {
		p := filepath.Join(dir, name)
		rep[target] = p
		return os.WriteFile(p, []byte(s), 0o644)
	}
	if err := put(filepath.Join(repoDir, "zz_verif_replay", "main.go"), "main.go", string(P.replayMain())); err != nil {
		return "", err
	}
	if err := put(filepath.Join(repoDir, "zz_verif_rand", "r.go"), "rand.go", sb.String()); err != nil {
		return "", err
	}
	k := 0
	for path, p := range P.tpkgs {
		if !strings.HasPrefix(path, P.module+"/") || p.Name == "main" {
			continue
		}
		for _, f := range p.Syntax {
			for _, im := range f.Imports {
				if im.Path.Value != `"math/rand"` && im.Path.Value != `"math/rand/v2"` {
					continue
				}
				file := p.Fset.Position(f.Pos()).Filename
				b, err := os.ReadFile(file)
				if err != nil {
					return "", err
				}
				name := "rand "
				if im.Name != nil {
					name = ""
				}
				at, to := p.Fset.Position(im.Path.Pos()).Offset, p.Fset.Position(im.Path.End()).Offset
				k++
				if err := put(file, fmt.Sprintf("f%d.go", k), string(b[:at])+name+strconv.Quote(P.module+"/zz_verif_rand")+string(b[to:])); err != nil {
					return "", err
				}
			}
		}
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "replay.bin")
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", bin, "./zz_verif_replay")
	cmd.Dir = repoDir
	cmd.Env = goEnv(P.hostArch())
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("build: %v\n%s", err, out)
	}
	return bin, nil
}

// oneShot runs one request in a process of its own.
func (r *Run) oneShot(bin, env string, q RReq) (*RResp, error) {
	x := &Replayer{bin: bin, env: []string{env}}
	defer x.Close()
	return x.Do(q)
}

func drawsEnv(m *Model, prefix string, n int, first string) string {
	var s []string
	for k := 0; k < n; k++ {
		nm := fmt.Sprintf("%s%d", prefix, k)
		if k == 0 {
			nm = first
		}
		s = append(s, fmt.Sprintf("%x", m.varOr(nm, 64)))
	}
	return "VERIF_DRAWS=" + strings.Join(s, ",")
}

const maxDraws = 64

// randUint32 checks RandUint32 over every output of the random source.
func randUint32(bin func() (string, error)) func(h *H) {
	return func(h *H) {
		fn := "pkg/util.RandUint32"
		h.fn = fn
		c := h.c
		first := c.Var("draw0", 64)
		src := func(p string) func(k uint64) *Term {
			return func(k uint64) *Term {
				if k == 0 {
					return first
				}
				if k >= maxDraws {
					unsup("more than %d draws", maxDraws)
				}
				return c.Var(fmt.Sprintf("%s%d", p, k), 64)
			}
		}
		randSource(h.ex, src("draw"))
		ex2 := NewExec(h.P, c)
		ex2.nvar = 1 << 20
		randSource(ex2, src("other"))
		real := func(m *Model, p string) (uint32, string, RReq, error) {
			q := RReq{Fn: fn}
			b, err := bin()
			if err != nil {
				return 0, "", q, err
			}
			r, err := h.r.oneShot(b, drawsEnv(m, p, maxDraws, "draw0"), q)
			if err != nil {
				return 0, "", q, err
			}
			if f := r.failure(); f != "" {
				return 0, f, q, nil
			}
			return uint32(r.Rets[0].Int), "", q, nil
		}
		h.check = func(m *Model) (string, interface{}, error) {
			a, f, q, err := real(m, "draw")
			rep := map[string]interface{}{"request": q, "draws": drawsEnv(m, "draw", 4, "draw0"), "other draws": drawsEnv(m, "other", 4, "draw0")}
			if err != nil || f != "" {
				return f, rep, err
			}
			b, f, _, err := real(m, "other")
			if err != nil || f != "" {
				return f, rep, err
			}
			if refLen(a) != refLen(b) {
				return fmt.Sprintf("the same first draw gives %#x (%d bytes) and %#x (%d bytes)", a, refLen(a), b, refLen(b)), rep, nil
			}
			return "", rep, nil
		}
		st1, v1 := h.call(h.ex.NewState(), fn)
		h.events("panic", "limit", "exit")
		if st1 == nil {
			return
		}
		h.returnsAlways(st1)
		st2, v2 := ex2.call(ex2.NewState(), h.mustFn(fn), nil, nil)
		if st2 == nil {
			return
		}
		l1, l2 := lenCode(c, v1.(*Term)), lenCode(c, v2.(*Term))
		pc := c.BAnd(st1.pc, st2.pc)
		h.ob("the first draw decides the byte length", "", pc, c.Eq(l1, l2))
		h.validate(8, c.T)
		for k := uint64(0); k < 4 && !h.r.stop.Load(); k++ {
			h.st.Obligations++
			is := c.Eq(l1, c.Const(2, k))
			res, _ := c.sv.Check(c, append(conjs(is), conjs(st1.pc)...), h.obMS, true)
			switch res {
			case Sat:
			case Unsat:
				// confirmed by running it: 4000 calls with the real source
				seen := map[int]int{}
				q := RReq{Fn: fn}
				for i := 0; i < 4000; i++ {
					r, err := h.r.do(h.P.bin, "", q)
					if err != nil || r.failure() != "" {
						break
					}
					seen[refLen(uint32(r.Rets[0].Int))]++
				}
				if seen[int(k)+1] == 0 && len(seen) > 0 {
					h.r.violation(Violation{Item: h.name, What: fmt.Sprintf("no output of the random source gives a %d-byte value", k+1),
						Observed: fmt.Sprintf("4000 calls returned values of these lengths: %v", seen), Replay: q, Key: h.fn + ": lengths"})
				}
			default:
				h.r.inconclusive(h.name, fmt.Sprintf("length %d reachable: solver answered %s", k+1, res))
			}
		}
	}
}

// genUint32: n values come back whatever the source yields.
func genUint32(bin func() (string, error), n int) func(h *H) {
	return func(h *H) {
		maxDraws := max(maxDraws, 4*n)
		fn := "pkg/util.GenUint32"
		h.fn = fn
		c := h.c
		randSource(h.ex, func(k uint64) *Term {
			if k >= uint64(maxDraws) {
				unsup("more than %d draws", maxDraws)
			}
			return c.Var(fmt.Sprintf("draw%d", k), 64)
		})
		h.check = func(m *Model) (string, interface{}, error) {
			q := RReq{Fn: fn, Args: []RArg{aInt(uint64(n))}}
			env := drawsEnv(m, "draw", maxDraws, "draw0")
			rep := map[string]interface{}{"request": q, "draws": env}
			b, err := bin()
			if err != nil {
				return "", nil, err
			}
			r, err := h.r.oneShot(b, env, q)
			if err != nil {
				return "", nil, err
			}
			if f := r.failure(); f != "" {
				return f, rep, nil
			}
			if r.Rets[0].Len != n {
				return fmt.Sprintf("GenUint32(%d) returned %d values", n, r.Rets[0].Len), rep, nil
			}
			return "", rep, nil
		}
		st, ret := h.call(h.ex.NewState(), fn, c.Const(h.ex.intW, uint64(n)))
		h.events("panic", "limit", "exit")
		if st == nil {
			return
		}
		h.returnsAlways(st)
		h.eachSlice(st.pc, ret, func(g *Term, s *SliceV) {
			h.ob("number of values", "", g, c.Eq(s.len, h.k64(n)))
		})
		// every position is a draw: each of the four byte lengths is possible there
		pos := []int{0, 1, n / 2, n - 2, n - 1}
		if n <= 8 {
			pos = nil
			for i := 0; i < n; i++ {
				pos = append(pos, i)
			}
		}
		for _, i := range pos {
			if i < 0 || i >= n {
				continue
			}
			for k := uint64(0); k < 4 && !h.r.stop.Load(); k++ {
				h.st.Obligations++
				any, unknown := false, false
				h.eachSlice(st.pc, ret, func(g *Term, s *SliceV) {
					if any {
						return
					}
					os := h.ex.ostate(st, s.obj)
					var bs []*Term
					for b := 0; b < 4; b++ {
						bs = append([]*Term{h.ex.readByte(s.obj, os, c.AddC(s.off, int64(4*i+b)), nil)}, bs...)
					}
					l := lenCode(c, c.Concat(bs...))
					res, _ := c.sv.Check(c, append(conjs(c.Eq(l, c.Const(2, k))), conjs(g)...), h.obMS, true)
					any = any || res == Sat
					unknown = unknown || res != Sat && res != Unsat
				})
				if any {
					continue
				}
				if unknown {
					h.r.inconclusive(h.name, fmt.Sprintf("length %d at position %d: no answer", k+1, i))
					continue
				}
				// confirmed by running it: 500 calls with the real source
				seen := map[int]int{}
				q := RReq{Fn: fn, Args: []RArg{aInt(uint64(n))}}
				for j := 0; j < 500; j++ {
					r, err := h.r.do(h.P.bin, "", q)
					if err != nil || r.failure() != "" || r.Rets[0].Len <= i {
						break
					}
					bs := r.Rets[0].bytes()
					seen[refLen(binary.LittleEndian.Uint32(bs[4*i:]))]++
				}
				if seen[int(k)+1] == 0 && len(seen) > 0 {
					h.r.violation(Violation{Item: h.name, What: fmt.Sprintf("no output of the random source gives a %d-byte value at position %d", k+1, i),
						Observed: fmt.Sprintf("500 calls returned values of these lengths there: %v", seen), Replay: q, Key: h.fn + ": lengths"})
				}
			}
		}
		h.validate(1, c.T)
	}
}

// deltaItem: Delta on n values.
func deltaItem(n int) func(h *H) {
	return func(h *H) {
		fn := "pkg/util.Delta"
		h.fn = fn
		c := h.c
		var x []*Term
		for i := 0; i < n; i++ {
			x = append(x, c.Var(fmt.Sprintf("x%d", i), 32))
		}
		nout := c.AddC(c.Zext(c.Var("outExtra", 2), 64), int64(n))
		in := h.u32Obj("in", x)
		out := h.ex.newObj("out", c.MulC(nout, 4), &prefixBase{uf: "out0"})
		h.check = func(m *Model) (string, interface{}, error) {
			xs, lo := evalU32(m, x), int(m.Eval(nout))
			out0 := ufBytes(m, "out0", 0, 4*lo)
			q := RReq{Fn: fn, Args: []RArg{aU32(xs, n), aU32(bytesU32(out0), lo)}}
			r, err := h.do(m, q)
			if err != nil {
				return "", nil, err
			}
			if f := r.failure(); f != "" {
				return f, q, nil
			}
			want := append(u32bytes(refDeltas(xs, 0)), out0[4*n:]...)
			if string(r.buf(1)) != string(want) {
				return fmt.Sprintf("out %s, expected %s", hexShort(r.buf(1)), hexShort(want)), q, nil
			}
			return "", q, nil
		}
		st, _ := h.call(h.ex.NewState(), fn, h.sliceAll(in, n), h.whole(out, nout))
		h.events("panic", "limit", "exit")
		if st == nil {
			return
		}
		h.returnsAlways(st)
		s := h.ex.ostate(st, out)
		for i := 0; i < n; i++ {
			d := x[i]
			if i > 0 {
				d = c.Sub(x[i], x[i-1])
			}
			h.ob(fmt.Sprintf("difference %d", i), "", st.pc, c.Eq(h.ex.loadInt(out, s, h.k64(4*i), false, 32, nil), d))
		}
		h.tailUnchanged(st, out, n, 3)
		h.validate(2, c.T)
	}
}

// sortItem: SortUint32 on n values. All are arbitrary, or (pattern not empty) only the one at
// position at, the others fixed in some arrangement.
func sortItem(n int, pattern string, at int) func(h *H) {
	return func(h *H) {
		fn := "pkg/util.SortUint32"
		h.fn = fn
		c := h.c
		sortIntr(h.ex)
		if n > 6 {
			h.obMS = 400000
		}
		if pattern != "" && h.dec == nil {
			unsup("path by path") // one path per place of the free value
		}
		var x []*Term
		for i := 0; i < n; i++ {
			v := uint32(0)
			switch pattern {
			case "mixed":
				v = bigValue(i)
			case "ascending":
				v = uint32(i) * 40000000
			case "descending":
				v = uint32(n-i) * 40000000
			case "few distinct":
				v = bigValue(i) >> 3 % 3 << 30
			}
			if pattern == "" || i == at {
				x = append(x, c.Var(fmt.Sprintf("x%d", i), 32))
			} else {
				x = append(x, c.Const(32, uint64(v)))
			}
		}
		in := h.u32Obj("in", x)
		h.check = func(m *Model) (string, interface{}, error) {
			xs := evalU32(m, x)
			q := RReq{Fn: fn, Args: []RArg{aU32(xs, n)}}
			r, err := h.do(m, q)
			if err != nil {
				return "", nil, err
			}
			if f := r.failure(); f != "" {
				return f, q, nil
			}
			want := append([]uint32{}, xs...)
			sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
			if got := bytesU32(r.buf(0)); fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Sprintf("sorted %v to %v", xs, got), q, nil
			}
			return "", q, nil
		}
		st, _ := h.call(h.ex.NewState(), fn, h.sliceAll(in, n))
		h.events("panic", "limit", "exit")
		if st == nil {
			return
		}
		h.returnsAlways(st)
		s := h.ex.ostate(st, in)
		var y []*Term
		for i := 0; i < n; i++ {
			y = append(y, h.ex.loadInt(in, s, h.k64(4*i), false, 32, nil))
		}
		for i := 1; i < n; i++ {
			h.ob(fmt.Sprintf("values %d and %d in order", i-1, i), "", st.pc, c.Ule(y[i-1], y[i]))
		}
		v := c.Var("any", 32)
		count := func(xs []*Term) *Term {
			t := c.Const(8, 0)
			for _, x := range xs {
				t = c.Add(t, c.B2BV(c.Eq(x, v), 8))
			}
			return t
		}
		h.ob("every value occurs as often as before", "", st.pc, c.Eq(count(x), count(y)))
		h.validate(2, c.T)
	}
}

func init() {
	checks["C19"] = func(r *Run) error {
		if err := r.base(); err != nil {
			return err
		}
		var once sync.Once
		var b string
		var berr error
		bin := func() (string, error) {
			once.Do(func() { b, berr = r.P.randBinary(r.tmp) })
			return b, berr
		}
		sl := []int{7, 8, 9, 10, 11, 12, 13, 14, 16, 20, 24, 32, 33, 49, 50, 51, 64, 65, 100}
		ds, ss, gs := pick(r, 40, 130), pick(r, 6, 7), pick(r, 8, 20)
		r.bounds["random source"] = "every sequence of results of the math/rand functions (a bounded draw: every value below its bound)"
		var dl []int
		for n := 0; n <= ds; n++ {
			dl = append(dl, n)
		}
		for _, n := range longLists(r, "pkg/util", ds) {
			if n > ds {
				dl = append(dl, n)
			}
		}
		gl := []int{12, 16, 17, 24, 32, 33, 64, 65, 100, 128, 129, 256, 257}
		r.bounds["Delta"] = "lists of n values, n: " + sizesText(dl)
		r.bounds["SortUint32"] = fmt.Sprintf("lists of 0..%d arbitrary values; lists of %s values in four arrangements (mixed, ascending, descending, few distinct values) with one arbitrary value", ss, sizesText(sl))
		r.bounds["GenUint32"] = fmt.Sprintf("n = 0..%d, %s", gs, sizesText(gl))
		r.assume["the Go compiler translates the Go functions faithfully (they are executed from go/ssa, package sort included; its reflection-based swapper is replaced by a stub)"] = true
		var items []Item
		for n := ss; n >= 0; n-- {
			items = append(items, Item{fmt.Sprintf("pkg/util.SortUint32 n=%d", n), sortItem(n, "", 0)})
		}
		for _, n := range sl {
			for i, p := range []string{"mixed", "ascending", "descending", "few distinct"} {
				for k, at := range []int{n / 3, n - 1, 0, n / 2} {
					if r.tier == "thorough" || k == (i+n)%4 {
						items = append(items, Item{fmt.Sprintf("pkg/util.SortUint32 n=%d, %s, free value at %d", n, p, at), sortItem(n, p, at)})
					}
				}
			}
		}
		items = append(items, Item{"pkg/util.RandUint32", randUint32(bin)})
		for n := 0; n <= gs; n++ {
			items = append(items, Item{fmt.Sprintf("pkg/util.GenUint32 n=%d", n), genUint32(bin, n)})
		}
		for _, n := range gl {
			items = append(items, Item{fmt.Sprintf("pkg/util.GenUint32 n=%d", n), genUint32(bin, n)})
		}
		for _, n := range dl {
			items = append(items, Item{fmt.Sprintf("pkg/util.Delta n=%d", n), deltaItem(n)})
		}
		r.runItems(items)
		return nil
	}
}
