package main

// The build for other architectures: loaded with that architecture's files and sizes.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
)

// archItem runs an item against another program.
func archItem(P *Program, it Item) Item {
	return Item{P.arch + " " + it.name, func(h *H) {
		h.reset(P)
		it.run(h)
	}}
}

var buildLine = regexp.MustCompile(`(?m)^//(go:build| \+build).*$`)

// swapFiles is an overlay under which an amd64 build of the repository consists of the files the
// build for P's architecture has: the portable code, run natively.
func (P *Program) swapFiles(amd *Program, dir string) (map[string]string, error) {
	rep := map[string]string{}
	k := 0
	for path, p := range P.tpkgs {
		if path != P.module && !strings.HasPrefix(path, P.module+"/") {
			continue
		}
		here := map[string]bool{}
		for _, f := range p.CompiledGoFiles {
			here[f] = true
		}
		there := map[string]bool{}
		if q := amd.tpkgs[path]; q != nil {
			for _, f := range append(append([]string{}, q.CompiledGoFiles...), q.OtherFiles...) {
				there[f] = true
				if !here[f] {
					rep[f] = ""
				}
			}
		}
		for f := range here {
			if there[f] {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			k++
			to := filepath.Join(dir, fmt.Sprintf("swap%d.go", k))
			if err := os.WriteFile(to, buildLine.ReplaceAll(b, nil), 0o644); err != nil {
				return nil, err
			}
			rep[filepath.Join(filepath.Dir(f), fmt.Sprintf("zz_verif_swap%d.go", k))] = to
			rep[f] = ""
		}
	}
	return rep, nil
}

// buildPortable links the replay program of P: natively for 386, and for 64-bit architectures as
// an amd64 binary made of that architecture's files.
func (P *Program) buildPortable(amd *Program, tmp string) error {
	dir := filepath.Join(tmp, P.arch)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	P.tmp = dir
	if P.arch == "386" {
		return P.BuildBinary(dir, nil)
	}
	rep, err := P.swapFiles(amd, dir)
	if err != nil {
		return err
	}
	P.buildArch = "amd64"
	return P.BuildBinary(dir, rep)
}

// exported lists the exported package-level objects of a package with their types.
func (P *Program) exported(path string) map[string]string {
	out := map[string]string{}
	p := P.tpkgs[path]
	if p == nil || p.Types == nil {
		return out
	}
	q := func(x *types.Package) string { return x.Path() }
	s := p.Types.Scope()
	for _, n := range s.Names() {
		o := s.Lookup(n)
		if !o.Exported() {
			continue
		}
		d := strings.Fields(o.String())[0] + " " + types.TypeString(o.Type(), q)
		if k, ok := o.(*types.Const); ok {
			d += " = " + k.Val().ExactString()
		}
		if t, ok := o.(*types.TypeName); ok {
			d = "type " + types.TypeString(t.Type().Underlying(), q)
			if nt, ok := t.Type().(*types.Named); ok {
				for i := 0; i < nt.NumMethods(); i++ {
					if m := nt.Method(i); m.Exported() {
						d += "; " + m.Name() + types.TypeString(m.Type(), q)
					}
				}
			}
		}
		out[n] = d
	}
	return out
}

// goBuild runs the compiler for an architecture over the library packages.
func goBuild(arch string) (string, error) {
	cmd := exec.Command("go", "build", "./...")
	cmd.Dir = repoDir
	cmd.Env = goEnv(arch)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return strings.TrimSpace(string(out)), err
	}
	return "", nil
}

// useAPI confirms with the compiler that a name is missing.
func useAPI(P *Program, tmp, path, name string) string {
	src := filepath.Join(tmp, "use_main.go")
	os.WriteFile(src, []byte(fmt.Sprintf("package main\nimport p %q\nfunc main() { _ = p.%s }\n", path, name)), 0o644)
	ov, _ := json.Marshal(map[string]interface{}{"Replace": map[string]string{filepath.Join(repoDir, "zz_verif_use", "main.go"): src}})
	ovf := filepath.Join(tmp, "use_overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", filepath.Join(tmp, "use.bin"), "./zz_verif_use")
	cmd.Dir = repoDir
	cmd.Env = goEnv(P.arch)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return strings.TrimSpace(string(out))
	}
	return ""
}

// normalMode: GetMode reports the normal mode.
func normalMode(pkg string) func(h *H) {
	return func(h *H) {
		fn := pkg + ".GetMode"
		h.fn = fn
		normal, _ := h.P.constInt("pkg/shared.Normal")
		h.check = func(m *Model) (string, interface{}, error) {
			q := RReq{Fn: fn}
			r, err := h.do(m, q)
			if err != nil {
				return "", nil, err
			}
			if f := r.failure(); f != "" {
				return f, q, nil
			}
			if int64(r.Rets[0].Int) != normal {
				return fmt.Sprintf("GetMode on %s reports mode %d, not normal (%d)", h.P.arch, r.Rets[0].Int, normal), q, nil
			}
			return "", q, nil
		}
		st, v := h.call(h.ex.NewState(), fn)
		h.events("panic", "limit", "exit", "misaligned")
		if st == nil {
			return
		}
		h.ob("GetMode reports normal mode", "", st.pc, h.c.Eq(v.(*Term), h.c.Const(h.ex.intW, uint64(normal))))
		h.validate(1, h.c.T)
	}
}

// otherArchs compares the files the library is built from on further architectures with those of
// the given ones: same are the architectures with the files of one of them and its integer size, more
// stand for the others.
func otherArchs(archs []string) (same, more []string, err error) {
	narrow := map[string]bool{"386": true, "arm": true, "mips": true, "mipsle": true}
	files := func(a string) (string, error) {
		cmd := exec.Command("go", "list", "-f", "{{if ne .Name \"main\"}}{{.ImportPath}} {{.GoFiles}} {{.SFiles}}{{end}}", "./...")
		cmd.Dir = repoDir
		cmd.Env = goEnv(a)
		out, err := cmd.Output()
		if err != nil {
			return "", fmt.Errorf("go list for %s: %v", a, err)
		}
		return fmt.Sprint(narrow[a], " ", string(out)), nil
	}
	seen := map[string]bool{}
	for _, a := range archs {
		f, err := files(a)
		if err != nil {
			return nil, nil, err
		}
		seen[f] = true
	}
	for _, a := range []string{"arm", "loong64", "mips", "mipsle", "mips64", "mips64le", "ppc64", "ppc64le", "riscv64", "s390x"} {
		f, err := files(a)
		if err != nil {
			return nil, nil, err
		}
		if seen[f] {
			same = append(same, a)
			continue
		}
		seen[f] = true
		more = append(more, a)
	}
	return
}

func portable(fn string) bool { return !strings.HasSuffix(fn, "Fast") }

func init() {
	checks["C16"] = func(r *Run) error {
		if err := r.base(); err != nil {
			return err
		}
		ns := r.streamSizes(pick(r, 70, 200), someLong...)
		archs := []string{"arm64", "386"}
		same, more, err := otherArchs(archs)
		if err != nil {
			return err
		}
		archs = append(archs, more...)
		r.bounds["architectures"] = strings.Join(archs, ", ") + "; the same files are built for " + strings.Join(same, ", ")
		r.bounds["sequence length / count n"] = r.sizesBound(ns)
		r.bounds["values"] = "all values, control bits, data bytes and prev; block and partial-group functions complete"
		r.assume["the Go compiler translates the Go functions faithfully (they are executed from go/ssa with the architecture's files and integer sizes)"] = true
		r.assume["arm64 counterexamples and validation inputs run as an amd64 binary built from the arm64 file set; 386 ones run natively"] = true
		var items []Item
		for _, a := range archs {
			P, err := LoadProgram(a, nil)
			if err != nil {
				return err
			}
			key := "build for " + a
			r.st.Obligations++
			if len(P.errs) > 0 {
				if out, err := goBuild(a); err != nil {
					r.violation(Violation{Item: key, What: "the repository does not compile for " + a, Where: P.errs[0], Observed: out,
						Replay: map[string]string{"command": "GOARCH=" + a + " go build ./..."}, Key: key})
					return nil
				}
				return fmt.Errorf("%s: %s", a, P.errs[0])
			}
			for path := range r.P.tpkgs {
				if path != r.P.module && !strings.HasPrefix(path, r.P.module+"/") || r.P.tpkgs[path].Name == "main" {
					continue
				}
				have := P.exported(path)
				for n, d := range r.P.exported(path) {
					if strings.HasSuffix(n, "Fast") || strings.HasSuffix(n, "Asm") {
						if n != "Fast" {
							continue
						}
					}
					r.st.Obligations++
					if have[n] == d {
						continue
					}
					obs := fmt.Sprintf("on amd64: %s; on %s: %q", d, a, have[n])
					if have[n] == "" {
						if obs = useAPI(P, r.tmp, path, n); obs == "" {
							continue
						}
					}
					r.violation(Violation{Item: key, What: "API differs: " + path + "." + n, Where: path, Observed: obs,
						Replay: map[string]string{"architecture": a, "object": path + "." + n}, Key: "api " + path + "." + n})
					return nil
				}
			}
			if err := P.buildPortable(r.P, r.tmp); err != nil {
				if a == "386" {
					r.violation(Violation{Item: key, What: "the library does not link for " + a, Where: a, Observed: err.Error(),
						Replay: map[string]string{"command": "GOARCH=" + a + " go build ./..."}, Key: key})
					return nil
				}
				r.inconclusive(key, err.Error())
				continue
			}
			r.progs[a] = P
			add := func(its ...Item) {
				for _, it := range its {
					items = append(items, archItem(P, it))
				}
			}
			for _, p := range []string{"pkg/encode", "pkg/decode", "pkg/stream/writer", "pkg/stream/reader", "pkg/shared"} {
				if P.fn(p+".GetMode") != nil {
					add(Item{p + ".GetMode", normalMode(p)})
				}
			}
			for _, b := range encBlocks {
				if portable(b.fn) {
					b.fast = false
					add(Item{b.fn, encBlock(b, "")})
				}
			}
			for _, b := range decBlocks {
				if portable(b.fn) {
					b.fast = false
					add(Item{b.fn, decBlock(b, "")})
				}
			}
			add(partItems(true, true, "")...)
			for _, w := range []string{"ControlByteToSize", "ControlByteToSizeTwo"} {
				add(Item{"pkg/shared." + w, func(h *H) { h.tableCheck(w) }})
			}
			for _, delta := range []bool{false, true} {
				for n := 0; n <= 4; n++ {
					fn := "pkg/util.Put" + d(delta) + "Varint"
					add(Item{fmt.Sprintf("%s n=%d", fn, n), putVarint(fn, n, n, false, delta, nil)})
					fn = "pkg/util.Get" + d(delta) + "Varint"
					add(Item{fmt.Sprintf("%s n=%d", fn, n), getVarint(fn, n, n, false, delta, nil)})
				}
			}
		}
		var ss []Item
		for _, n := range ns {
			for _, a := range archs {
				P := r.progs[a]
				if P == nil {
					continue
				}
				for _, delta := range []bool{false, true} {
					for k := 0; k < 2; k++ {
						w, rd := writers(delta)[k], readers(delta)[k]
						ss = append(ss, archItem(P, Item{fmt.Sprintf("%s n=%d", w, n), encStream(w, n, delta, "")}),
							archItem(P, Item{fmt.Sprintf("%s n=%d", rd, n), decStream(rd, n, delta, "")}))
					}
				}
			}
		}
		r.runItems(append(items, largestFirst(ss)...))
		return nil
	}
}
