package main

// C17: what the generators emit today behaves like what is committed.

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"go/types"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// regenerate runs every go:generate command of the library in a copy of the repository and
// returns the files that come out, by the path of the committed file.
func (r *Run) regenerate() (out map[string]string, cmds []string, fail string, err error) {
	dir := filepath.Join(r.tmp, "regen")
	cp := filepath.Join(dir, "repo")
	if err = copyTree(repoDir, cp); err != nil {
		return
	}
	out = map[string]string{}
	for _, path := range sortedKeys(r.P.tpkgs) {
		p := r.P.tpkgs[path]
		if path != r.P.module && !strings.HasPrefix(path, r.P.module+"/") {
			continue
		}
		for _, f := range p.GoFiles {
			b, e := os.ReadFile(f)
			if e != nil {
				err = e
				return
			}
			for _, l := range strings.Split(string(b), "\n") {
				if !strings.HasPrefix(l, "//go:generate ") {
					continue
				}
				args := strings.Fields(strings.TrimPrefix(l, "//go:generate "))
				if len(args) < 3 || args[0] != "go" || args[1] != "run" {
					err = fmt.Errorf("unexpected generator command %q", l)
					return
				}
				rel, _ := filepath.Rel(repoDir, filepath.Dir(f))
				for i := range args {
					if i > 0 && (args[i-1] == "-out" || args[i-1] == "-stubs") {
						target := filepath.Join(filepath.Dir(f), args[i])
						to := filepath.Join(dir, fmt.Sprintf("gen%d%s", len(out), filepath.Ext(target)))
						out[target] = to
						args[i] = to
					}
				}
				cmd := exec.Command("go", args[1:]...)
				cmd.Dir = filepath.Join(cp, rel)
				cmd.Env = goEnv("amd64")
				cmds = append(cmds, "(cd "+rel+" && "+strings.TrimPrefix(l, "//go:generate ")+")")
				if b, e := cmd.CombinedOutput(); e != nil {
					fail = fmt.Sprintf("%s: %v\n%s", cmds[len(cmds)-1], e, bytes.TrimSpace(b))
					return
				}
			}
		}
	}
	for t, f := range out {
		if _, e := os.Stat(f); e != nil {
			fail = "the generator of " + t + " wrote nothing"
		}
	}
	return
}

func copyTree(from, to string) error {
	return filepath.WalkDir(from, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if d.IsDir() {
			if d.Name() == ".git" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(to, rel), 0o755)
		}
		if !d.Type().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, rel), b, 0o644)
	})
}

// tableArg finds which package-level table the library passes for parameter k of f.
func (P *Program) tableArg(f *ssa.Function, k int) *ssa.Global {
	var found *ssa.Global
	for _, p := range P.pkgs {
		if !P.isRepo(p) {
			continue
		}
		for _, m := range p.Members {
			g, ok := m.(*ssa.Function)
			if !ok {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok || call.Common().StaticCallee() != f {
						continue
					}
					a := call.Common().Args[k]
					if u, ok := a.(*ssa.UnOp); ok {
						a = u.X
					}
					if x, ok := a.(*ssa.Global); ok {
						found = x
					}
				}
			}
		}
	}
	return found
}

type kernelRun struct {
	P    *Program
	ex   *Exec
	st   *State
	ret  Val
	objs []*Obj // by argument, nil for numbers and tables
	args []Val
}

// kernelSame: a kernel and its regenerated version, on the same arguments.
func kernelSame(P2 *Program, name string, exact bool) func(h *H) {
	return func(h *H) {
		f1 := h.mustFn(name)
		h.fn = name
		c := h.c
		f2 := P2.fn(name)
		if f2 == nil || f2.Signature.String() != f1.Signature.String() {
			unsup("%s has another declaration", name)
		}
		params := f1.Signature.Params()
		size := map[int]int64{} // bytes
		for k := 0; k < params.Len(); k++ {
			if _, ok := params.At(k).Type().Underlying().(*types.Slice); !ok {
				continue
			}
			size[k] = 32
			if !exact {
				size[k] = 96
			}
		}
		ints := map[int]*Term{}
		tabs := map[int]string{}
		run := func(P *Program, ex *Exec, f *ssa.Function) *kernelRun {
			kr := &kernelRun{P: P, ex: ex, st: ex.NewState()}
			for k := 0; k < params.Len(); k++ {
				t := params.At(k).Type()
				var o *Obj
				switch u := t.Underlying().(type) {
				case *types.Slice:
					es := ex.sizes.Sizeof(u.Elem())
					o = ex.newObj(params.At(k).Name(), c.Const(64, uint64(size[k])), &prefixBase{uf: fmt.Sprintf("arg%d", k)})
					n := c.Const(64, uint64(size[k]/es))
					kr.args = append(kr.args, &SliceV{o, c.Const(64, 0), n, n})
				case *types.Basic:
					if ints[k] == nil {
						ints[k] = c.Var(fmt.Sprintf("int%d", k), ex.width(t))
					}
					kr.args = append(kr.args, ints[k])
				case *types.Pointer:
					g := P.tableArg(f, k)
					if g == nil {
						unsup("argument %d of %s", k, name)
					}
					tabs[k] = strings.TrimPrefix(g.Pkg.Pkg.Path(), P.module+"/") + "." + g.Name()
					gt := g.Type().Underlying().(*types.Pointer).Elem()
					if _, ok := gt.Underlying().(*types.Pointer); ok {
						kr.args = append(kr.args, ex.load(kr.st, ex.globalObj(g), c.Const(64, 0), gt))
					} else {
						kr.args = append(kr.args, &PtrV{ex.globalObj(g), c.Const(64, 0)})
					}
				default:
					unsup("argument %s of %s", t, name)
				}
				kr.objs = append(kr.objs, o)
			}
			kr.st, kr.ret = ex.call(kr.st, f, kr.args, nil)
			return kr
		}
		h.check = func(m *Model) (string, interface{}, error) {
			q := RReq{Fn: name}
			for k := 0; k < params.Len(); k++ {
				switch {
				case size[k] > 0:
					a := RArg{Slice: &RSlice{Data: base64.StdEncoding.EncodeToString(ufBytes(m, fmt.Sprintf("arg%d", k), 0, int(size[k])))}}
					n := int(size[k] / h.ex.sizes.Sizeof(params.At(k).Type().Underlying().(*types.Slice).Elem()))
					a.Slice.Len, a.Slice.Cap = n, n
					q.Args = append(q.Args, a)
				case ints[k] != nil:
					q.Args = append(q.Args, aInt(m.Eval(ints[k])))
				default:
					q.Args = append(q.Args, RArg{Table: tabs[k]})
				}
			}
			a, err := h.r.do(h.P.bin, "", q)
			if err != nil {
				return "", nil, err
			}
			b, err := h.r.do(P2.bin, "", q)
			if err != nil {
				return "", nil, err
			}
			fa, fb := a.failure(), b.failure()
			if (fa == "") != (fb == "") {
				return fmt.Sprintf("committed kernel: %q, regenerated kernel: %q", orFine(fa), orFine(fb)), q, nil
			}
			if fa != "" {
				return "", q, nil
			}
			for i := range a.Rets {
				if a.Rets[i].Int != b.Rets[i].Int {
					return fmt.Sprintf("committed kernel returns %#x, regenerated kernel %#x", a.Rets[i].Int, b.Rets[i].Int), q, nil
				}
			}
			for i := range a.Bufs {
				if a.Bufs[i] != b.Bufs[i] {
					return fmt.Sprintf("committed kernel leaves %s in argument %d, regenerated kernel %s", hexShort(a.buf(i)), i, hexShort(b.buf(i))), q, nil
				}
			}
			return "", q, nil
		}
		k1 := run(h.P, h.ex, f1)
		ex2 := NewExec(P2, c)
		ex2.nvar = 1 << 20 // its fresh variables are others
		k2 := run(P2, ex2, f2)
		fault := func(k *kernelRun) *Term {
			g := c.F
			for _, e := range k.ex.events {
				g = c.BOr(g, e.g)
			}
			return g
		}
		h.ob("memory faults in the same cases", "", c.T, c.Eq(fault(k1), fault(k2)))
		h.ex.events = nil
		if k1.st == nil || k2.st == nil {
			h.ob("both return", "", c.T, c.Bool(k1.st == nil && k2.st == nil))
			h.validate(4, c.T)
			return
		}
		pc := c.BAnd(k1.st.pc, k2.st.pc)
		var r1, r2 []Val
		switch x := k1.ret.(type) {
		case *Term:
			r1, r2 = []Val{x}, []Val{k2.ret}
		case *TupleV:
			r1, r2 = x.e, k2.ret.(*TupleV).e
		}
		for i := range r1 {
			h.ob(fmt.Sprintf("result %d", i), "", pc, c.Eq(r1[i].(*Term), r2[i].(*Term)))
		}
		for k, o := range k1.objs {
			if o == nil {
				continue
			}
			s1, s2 := h.ex.ostate(k1.st, o), ex2.ostate(k2.st, k2.objs[k])
			for i := int64(0); i < size[k] && !h.r.stop.Load(); i++ {
				a, b := h.ex.readByte(o, s1, h.k64(int(i)), nil), ex2.readByte(k2.objs[k], s2, h.k64(int(i)), nil)
				h.ob(fmt.Sprintf("byte %d of %s", i, o.name), "", pc, c.Eq(a, b))
			}
		}
		h.validate(4, c.T)
	}
}

func orFine(s string) string {
	if s == "" {
		return "no fault"
	}
	return s
}

// tableSame: a package-level variable of a generated Go file, entry by entry.
func tableSame(P2 *Program, name string) func(h *H) {
	return func(h *H) {
		h.fn = name
		c := h.c
		g1, g2 := h.P.global(name), P2.global(name)
		h.check = func(m *Model) (string, interface{}, error) {
			q := RReq{Fn: name}
			a, err := h.r.do(h.P.bin, "", q)
			if err != nil {
				return "", nil, err
			}
			b, err := h.r.do(P2.bin, "", q)
			if err != nil {
				return "", nil, err
			}
			x, y := a.Rets[0].bytes(), b.Rets[0].bytes()
			for i := range x {
				if i >= len(y) || x[i] != y[i] {
					return fmt.Sprintf("byte %d of %s is %#x, regenerated %#x", i, name, x[i], y[min(i, len(y)-1)]), q, nil
				}
			}
			return "", q, nil
		}
		if g2 == nil || g1.Type().String() != g2.Type().String() {
			unsup("%s is declared differently in the generated file", name)
		}
		get := func(P *Program, ex *Exec, g *ssa.Global) (*Exec, *Obj, *State, *Term, int64) {
			st := ex.NewState()
			o := ex.globalObj(g)
			t := g.Type().Underlying().(*types.Pointer).Elem()
			off := c.Const(64, 0)
			if p, ok := t.Underlying().(*types.Pointer); ok {
				v, ok := ex.load(st, o, off, t).(*PtrV)
				if !ok || v.obj == nil {
					unsup("%s is not one table", name)
				}
				o, off, t = v.obj, v.off, p.Elem()
			}
			return ex, o, st, off, ex.sizes.Sizeof(t)
		}
		ex1, o1, st1, off1, n := get(h.P, h.ex, g1)
		ex2, o2, st2, off2, _ := get(P2, NewExec(P2, c), g2)
		w := 1
		for 1<<uint(w) < n {
			w++
		}
		i := c.Zext(c.Var("index", w), 64)
		c.assume = append(c.assume, c.Ult(i, c.Const(64, uint64(n))))
		a := ex1.readByte(o1, ex1.ostate(st1, o1), c.Add(off1, i), nil)
		b := ex2.readByte(o2, ex2.ostate(st2, o2), c.Add(off2, i), nil)
		h.ob("every byte of the table", "", c.Ult(i, c.Const(64, uint64(n))), c.Eq(a, b))
		h.validate(1, c.T)
	}
}

func init() {
	checks["C17"] = func(r *Run) error {
		if err := r.base(); err != nil {
			return err
		}
		key := "generators"
		files, cmds, fail, err := r.regenerate()
		if err != nil {
			r.inconclusive(key, err.Error())
			return nil
		}
		r.bounds["generators run"] = cmds
		r.bounds["kernels"] = "every assembly kernel, all arguments; slices of 32 bytes exactly and of 96 bytes, every byte of which is compared"
		r.bounds["tables"] = "every byte of every table, at a symbolic index"
		r.assume["the generators are run as they are; their output is compared symbolically with the committed files"] = true
		r.assumeAll()
		rep := map[string]interface{}{"commands": cmds}
		bad := func(what, obs string) {
			r.violation(Violation{Item: key, What: what, Observed: obs, Replay: rep, Key: key + ": " + what})
		}
		r.st.Obligations++
		if fail != "" {
			bad("a generator fails", fail)
			return nil
		}
		ov := map[string][]byte{}
		extra := map[string]string{}
		for t, f := range files {
			extra[t] = f
			if strings.HasSuffix(t, ".go") {
				if ov[t], err = os.ReadFile(f); err != nil {
					return err
				}
			}
		}
		P2, err := LoadProgram("amd64", ov)
		if err != nil {
			return err
		}
		if len(P2.errs) > 0 {
			bad("the regenerated files do not compile", strings.Join(P2.errs, "\n"))
			return nil
		}
		dir := filepath.Join(r.tmp, "gen2")
		os.MkdirAll(dir, 0o755)
		if err := P2.BuildBinary(dir, extra); err != nil {
			bad("the library does not link with the regenerated files", err.Error())
			return nil
		}
		var items []Item
		for _, f := range r.P.asmFuncs() {
			n := strings.TrimPrefix(f.Pkg.Pkg.Path(), r.P.module+"/") + "." + f.Name()
			for _, exact := range []bool{true, false} {
				items = append(items, Item{fmt.Sprintf("%s exact=%v", n, exact), kernelSame(P2, n, exact)})
			}
		}
		for t := range files {
			if !strings.HasSuffix(t, ".go") {
				continue
			}
			for path, p := range r.P.pkgs {
				if !r.P.isRepo(p) {
					continue
				}
				for _, m := range p.Members {
					g, ok := m.(*ssa.Global)
					if ok && g.Pos().IsValid() && r.P.prog.Fset.Position(g.Pos()).Filename == t {
						n := strings.TrimPrefix(path, r.P.module+"/") + "." + g.Name()
						items = append(items, Item{n, tableSame(P2, n)})
					}
				}
			}
		}
		sort.Slice(items, func(i, j int) bool { return items[i].name < items[j].name })
		r.runItems(items)
		return nil
	}
}
