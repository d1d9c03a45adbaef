package main

// Loading the repository: SSA for a target architecture, and a binary linked from the working
// tree that is both the source of the machine code and the program counterexamples are replayed on.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"

type Program struct {
	arch      string
	module    string
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	tpkgs     map[string]*packages.Package
	finfos    sync.Map
	asm       *AsmImage
	bin       string
	tmp       string
	mu        sync.Mutex
	notes     map[string]bool
	errs      []string // type errors in repository packages
	overlay   map[string]string
	pk        *peekSet
	guard     guardBin
	buildArch string // architecture the replay program is built for, when not arch
}

func goEnv(arch string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e+"=", '=')]
		switch k {
		case "GOARCH", "GOOS", "GOFLAGS", "GO111MODULE", "CGO_ENABLED", "GOPROXY", "GOSUMDB", "GOWORK", "GODEBUG":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOARCH="+arch, "GOOS=linux", "GOFLAGS=-mod=mod", "CGO_ENABLED=0", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off")
}

// LoadProgram loads and type-checks every package of the repository for arch.
func LoadProgram(arch string, overlay map[string][]byte) (*Program, error) {
	mode := packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes |
		packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedDeps
	cfg := &packages.Config{Mode: mode, Dir: repoDir, Env: goEnv(arch), Overlay: overlay}
	pkgs, err := packages.Load(cfg, "./...", "math/bits", "encoding/binary")
	if err != nil {
		return nil, err
	}
	P := &Program{arch: arch, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*packages.Package{}, notes: map[string]bool{}}
	for _, p := range pkgs {
		if p.Module != nil && p.Module.Main {
			P.module = p.Module.Path
		}
	}
	for _, p := range pkgs {
		P.tpkgs[p.PkgPath] = p
		if p.Module != nil && p.Module.Main {
			for _, e := range p.Errors {
				P.errs = append(P.errs, e.Error())
			}
		}
	}
	if P.module == "" {
		return nil, fmt.Errorf("no main module in %s", repoDir)
	}
	if len(P.errs) > 0 {
		return P, nil
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	P.prog = prog
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	for _, p := range sp {
		if p != nil {
			p.Build()
		}
	}
	return P, nil
}

func (P *Program) isRepo(p *ssa.Package) bool {
	return p != nil && (p.Pkg.Path() == P.module || strings.HasPrefix(p.Pkg.Path(), P.module+"/"))
}

func (P *Program) initNote(s string) {
	P.mu.Lock()
	P.notes[s] = true
	P.mu.Unlock()
}

// fn finds a function by short package path and name: "pkg/encode.Put8uint32".
func (P *Program) fn(name string) *ssa.Function {
	i := strings.LastIndexByte(name, '.')
	p := P.pkgs[P.module+"/"+name[:i]]
	if p == nil {
		return nil
	}
	return p.Func(name[i+1:])
}

func (P *Program) global(name string) *ssa.Global {
	i := strings.LastIndexByte(name, '.')
	p := P.pkgs[P.module+"/"+name[:i]]
	if p == nil {
		return nil
	}
	return p.Var(name[i+1:])
}

// asmFuncs lists the repository's functions without a Go body.
func (P *Program) asmFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, p := range P.pkgs {
		if !P.isRepo(p) {
			continue
		}
		for _, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok && f.Blocks == nil && f.Syntax() != nil {
				out = append(out, f)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func replayable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsInteger|types.IsBoolean) != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Uint32)
	case *types.Pointer:
		a, ok := u.Elem().Underlying().(*types.Array)
		if !ok {
			return false
		}
		if b, ok := a.Elem().Underlying().(*types.Basic); ok {
			return b.Kind() == types.Uint8
		}
		if b, ok := a.Elem().Underlying().(*types.Array); ok {
			e, ok := b.Elem().Underlying().(*types.Basic)
			return ok && e.Kind() == types.Uint8
		}
	}
	return false
}

// replayMain generates the replay program: every exported function of the library whose
// parameters are numbers and slices can be called with given buffers.
func (P *Program) replayMain() []byte {
	var imp, fns bytes.Buffer
	var paths []string
	for path, p := range P.pkgs {
		if P.isRepo(p) && p.Pkg.Name() != "main" && P.tpkgs[path] != nil && len(P.tpkgs[path].CompiledGoFiles) > 0 {
			paths = append(paths, path)
		}
	}
	sort.Strings(paths)
	for i, path := range paths {
		p := P.pkgs[path]
		short := strings.TrimPrefix(path, P.module+"/")
		used := false
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			f, ok := p.Members[n].(*ssa.Function)
			if !ok || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil || f.Signature.TypeParams().Len() > 0 || f.Signature.Variadic() {
				continue
			}
			good := true
			for k := 0; k < f.Signature.Params().Len(); k++ {
				good = good && replayable(f.Signature.Params().At(k).Type())
			}
			for k := 0; k < f.Signature.Results().Len(); k++ {
				good = good && replayable(f.Signature.Results().At(k).Type())
			}
			if !good {
				continue
			}
			used = true
			fmt.Fprintf(&fns, "\t%q: p%d.%s,\n", short+"."+n, i, n)
		}
		for _, n := range names {
			if g, ok := p.Members[n].(*ssa.Global); ok && g.Object() != nil && g.Object().Exported() {
				t := g.Type().Underlying().(*types.Pointer).Elem()
				if _, ok := t.Underlying().(*types.Pointer); ok && replayable(t) {
					used = true
					fmt.Fprintf(&fns, "\t%q: p%d.%s,\n", short+"."+n, i, n)
				}
			}
		}
		if used {
			fmt.Fprintf(&imp, "\tp%d %q\n", i, path)
		} else {
			fmt.Fprintf(&imp, "\t_ %q\n", path)
		}
	}
	s := strings.Replace(replaySrc, "//IMPORTS", imp.String(), 1)
	s = strings.Replace(s, "//FUNCS", fns.String(), 1)
	return []byte(s)
}

func (P *Program) hostArch() string {
	if P.buildArch != "" {
		return P.buildArch
	}
	return P.arch
}

// BuildBinary links the replay program from the working tree (with extra overlay files) and
// disassembles the repository's assembly functions.
func (P *Program) BuildBinary(tmp string, extra map[string]string) error {
	P.tmp = tmp
	src := filepath.Join(tmp, "replay_main.go")
	if err := os.WriteFile(src, P.replayMain(), 0o644); err != nil {
		return err
	}
	rep := map[string]string{filepath.Join(repoDir, "zz_verif_replay", "main.go"): src}
	for k, v := range extra {
		rep[k] = v
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(tmp, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		return err
	}
	bin := filepath.Join(tmp, "replay.bin")
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", bin, "./zz_verif_replay")
	cmd.Dir = repoDir
	cmd.Env = goEnv(P.hostArch())
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("build: %v\n%s", err, out)
	}
	P.bin = bin
	var syms []string
	for _, f := range P.asmFuncs() {
		syms = append(syms, asmSymbol(f))
	}
	if len(syms) > 0 && P.arch == "amd64" {
		im, err := LoadAsm(bin, syms)
		if err != nil {
			return err
		}
		P.asm = im
	}
	return nil
}

// ---- intrinsics ----

func stdIntrinsics(ex *Exec) {
	c := ex.c
	one := func(f func(x *Term) *Term) Intrinsic {
		return func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
			x, ok := args[0].(*Term)
			if !ok {
				unsup("intrinsic argument %T", args[0])
			}
			return st, c.Canon(f(x))
		}
	}
	for _, s := range []string{"", "8", "16", "32", "64"} {
		ex.intr["math/bits.Len"+s] = one(func(x *Term) *Term { return bitLenW(c, x, ex.intW) })
		ex.intr["math/bits.LeadingZeros"+s] = one(func(x *Term) *Term { return leadZ(c, x, ex.intW) })
		ex.intr["math/bits.TrailingZeros"+s] = one(func(x *Term) *Term { return trailZ(c, x, ex.intW) })
		ex.intr["math/bits.OnesCount"+s] = one(func(x *Term) *Term { return popcount(c, x, ex.intW) })
		ex.intr["math/bits.ReverseBytes"+s] = one(func(x *Term) *Term {
			var ps []*Term
			for k := 0; k < x.w; k += 8 {
				ps = append(ps, c.Extract(x, k+7, k))
			}
			return c.Concat(ps...)
		})
	}
	nop := func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) { return st, &TupleV{} }
	ex.intr["runtime.KeepAlive"] = nop
	ex.intr["runtime.Gosched"] = nop
	ex.intr["runtime.GC"] = nop
}

// lengthHints are sequence lengths at which the code of the stream packages, or what it calls, might
// change its behaviour: lengths around the integer constants it contains.
func (P *Program) lengthHints() []int { return P.intHints("/stream/", 131) }

// intHints: constants above min, in the code reachable from the packages whose path contains part.
func (P *Program) intHints(part string, min int64) []int {
	seen := map[*ssa.Function]bool{}
	consts := map[int64]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !P.isRepo(f.Pkg) || f.Synthetic != "" {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					switch x := (*op).(type) {
					case *ssa.Const:
						if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 && x.Value != nil && x.Value.Kind() == constant.Int {
							if v, exact := constant.Int64Val(x.Value); exact && v > min && v <= 1<<17 && v != 255 && v != 256 {
								consts[v] = true
							}
						}
					case *ssa.Function:
						visit(x)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	for path, p := range P.pkgs {
		if !P.isRepo(p) || !strings.Contains(path, part) {
			continue
		}
		for _, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok {
				visit(f)
			}
		}
	}
	var vs []int64
	for v := range consts {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	var out []int
	for _, f := range []func(v int) []int{
		func(v int) []int { return []int{v + 1, v, v - 1} },
		func(v int) []int { return []int{4*v + 1, 4 * v, v/4 + 1, v / 4, v + 9} },
		func(v int) []int { return []int{8*v + 9, 8 * v, 2*v + 1, v/8 + 1, 4*v + 9} },
	} {
		for _, v := range vs {
			for _, n := range f(int(v)) {
				if n > 0 && n <= 1<<17 {
					out = append(out, n)
				}
			}
		}
	}
	return out
}
