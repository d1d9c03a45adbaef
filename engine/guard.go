package main

// A second replay program in which the library's own make([]byte, n) and make([]uint32, n) return
// memory that ends at an inaccessible page, so that an access beyond it faults there and then.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

const guardSrc = `package zz_verif_alloc

import (
	"syscall"
	"unsafe"
)

func block(n int) uintptr {
	pg := (n + 4095) / 4096
	m, err := syscall.Mmap(-1, 0, (pg+2)*4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	syscall.Mprotect(m[:4096], syscall.PROT_NONE)
	syscall.Mprotect(m[(pg+1)*4096:], syscall.PROT_NONE)
	return uintptr(unsafe.Pointer(&m[0])) + uintptr((pg+1)*4096-n)
}

func slice(h unsafe.Pointer, n, c, es int) {
	*(*[3]uintptr)(h) = [3]uintptr{block(c * es), uintptr(n), uintptr(c)}
}

func Bytes(n int) []byte      { return Bytes2(n, n) }
func Uint32s(n int) []uint32  { return Uint32s2(n, n) }
func Bytes2(n, c int) []byte {
	if n < 0 || c < n || c > 1<<26 {
		return make([]byte, n, c)
	}
	var s []byte
	slice(unsafe.Pointer(&s), n, c, 1)
	return s
}
func Uint32s2(n, c int) []uint32 {
	if n < 0 || c < n || c > 1<<26 {
		return make([]uint32, n, c)
	}
	var s []uint32
	slice(unsafe.Pointer(&s), n, c, 4)
	return s
}
`

type guardBin struct {
	once sync.Once
	bin  string
	err  error
}

// Guarded builds that program (once).
func (P *Program) Guarded() (string, error) {
	P.guard.once.Do(func() { P.guard.bin, P.guard.err = P.buildGuarded() })
	return P.guard.bin, P.guard.err
}

func (P *Program) buildGuarded() (string, error) {
	dir := filepath.Join(P.tmp, "guarded-"+P.arch)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	rep := map[string]string{}
	put := func(target, name string, b []byte) error {
		p := filepath.Join(dir, name)
		rep[target] = p
		return os.WriteFile(p, b, 0o644)
	}
	if err := put(filepath.Join(repoDir, "zz_verif_replay", "main.go"), "main.go", P.replayMain()); err != nil {
		return "", err
	}
	if err := put(filepath.Join(repoDir, "zz_verif_alloc", "a.go"), "alloc.go", []byte(guardSrc)); err != nil {
		return "", err
	}
	k := 0
	for path, p := range P.tpkgs {
		if path != P.module && !strings.HasPrefix(path, P.module+"/") || p.Name == "main" {
			continue
		}
		for _, f := range p.Syntax {
			file := p.Fset.Position(f.Pos()).Filename
			src, err := os.ReadFile(file)
			if err != nil {
				return "", err
			}
			type edit struct {
				at, to int
				s      string
			}
			var es []edit
			ast.Inspect(f, func(n ast.Node) bool {
				call, ok := n.(*ast.CallExpr)
				if !ok || len(call.Args) < 2 || call.Ellipsis.IsValid() {
					return true
				}
				id, ok := call.Fun.(*ast.Ident)
				if !ok {
					return true
				}
				if b, ok := p.TypesInfo.Uses[id].(*types.Builtin); !ok || b.Name() != "make" {
					return true
				}
				sl, ok := p.TypesInfo.TypeOf(call).(*types.Slice)
				if !ok {
					return true
				}
				b, ok := sl.Elem().(*types.Basic)
				if !ok || b.Kind() != types.Uint8 && b.Kind() != types.Uint32 {
					return true
				}
				name := map[types.BasicKind]string{types.Uint8: "Bytes", types.Uint32: "Uint32s"}[b.Kind()]
				if len(call.Args) == 3 {
					name += "2"
				}
				pos := func(x int) int { return x }
				o := func(n ast.Node) (int, int) {
					return pos(p.Fset.Position(n.Pos()).Offset), pos(p.Fset.Position(n.End()).Offset)
				}
				from, _ := o(call)
				a0, _ := o(call.Args[1])
				es = append(es, edit{from, a0, "zz_verif_alloc." + name + "(int("})
				_, e0 := o(call.Args[1])
				if len(call.Args) == 3 {
					es = append(es, edit{e0, e0, ")"})
					a1, e1 := o(call.Args[2])
					es = append(es, edit{a1, a1, "int("}, edit{e1, e1, ")"})
				} else {
					es = append(es, edit{e0, e0, ")"})
				}
				return true
			})
			if len(es) == 0 {
				continue
			}
			e := p.Fset.Position(f.Name.End()).Offset
			es = append(es, edit{e, e, fmt.Sprintf("; import %q", P.module+"/zz_verif_alloc")})
			sort.SliceStable(es, func(i, j int) bool { return es[i].at < es[j].at })
			var out strings.Builder
			last := 0
			for _, x := range es {
				out.Write(src[last:x.at])
				out.WriteString(x.s)
				last = x.to
			}
			out.Write(src[last:])
			k++
			if err := put(file, fmt.Sprintf("f%d.go", k), []byte(out.String())); err != nil {
				return "", err
			}
		}
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "replay.bin")
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", bin, "./zz_verif_replay")
	cmd.Dir = repoDir
	cmd.Env = goEnv(P.arch)
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("build: %v\n%s", err, out)
	}
	return bin, nil
}
