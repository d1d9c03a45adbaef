package main

// C20: the benchmark updater. The operating system (files, standard streams, environment, flags)
// is modelled; everything between, the standard library included, is executed symbolically.

import (
	"bytes"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

const fileMax = 1 << 20

// file is a file's contents; handle is one open descriptor.
type file struct{ data, size *Obj }
type handle struct {
	f     *file
	pos   *Obj
	app   bool
	chunk int // longest read, 0: unlimited
}

type osModel struct {
	ex    *Exec
	files map[string]*file
	hs    map[*Obj]*handle
	exits []Outcome // os.Exit(0)
	std   map[string]*PtrV
	n     int
}

func (m *osModel) word(o *Obj, st *State) *Term {
	return m.ex.c.Canon(m.ex.loadInt(o, m.ex.ostate(st, o), m.ex.c.Const(64, 0), false, 64, nil))
}

func (m *osModel) setWord(st *State, o *Obj, v *Term) {
	m.ex.writeBytes(st, o, m.ex.c.Const(64, 0), m.ex.intBytes(v), m.ex.c.T)
}

func (m *osModel) newWord(name string, v *Term) *Obj {
	var bs []*Term
	for k := 0; k < 64; k += 8 {
		bs = append(bs, m.ex.c.Extract(v, k+7, k))
	}
	return m.ex.newObj(name, m.ex.c.Const(64, 8), &prefixBase{pre: bs})
}

func (m *osModel) newFile(name string, content []*Term) *file {
	c := m.ex.c
	f := &file{m.ex.newObj(name, c.Const(64, fileMax), &prefixBase{pre: content}), m.newWord("size of "+name, c.Const(64, uint64(len(content))))}
	m.files[name] = f
	return f
}

func (m *osModel) open(f *file, app bool) *PtrV {
	m.n++
	c := m.ex.c
	o := m.ex.newObj(fmt.Sprintf("os.File %d", m.n), c.Const(64, 64), zeroBase{})
	m.hs[o] = &handle{f: f, pos: m.newWord(fmt.Sprintf("position %d", m.n), c.Const(64, 0)), app: app}
	return &PtrV{o, c.Const(64, 0)}
}

func (m *osModel) handle(v Val) *handle {
	p, ok := v.(*PtrV)
	if !ok || m.hs[p.obj] == nil {
		unsup("unknown file")
	}
	return m.hs[p.obj]
}

// str is the constant value of a string.
func (ex *Exec) str(st *State, v Val) string {
	s, ok := v.(*StrV)
	if !ok || !s.len.isConst() {
		unsup("string not constant")
	}
	b := make([]byte, s.len.c)
	for i := range b {
		t := ex.readByte(s.obj, ex.ostate(st, s.obj), ex.c.AddC(s.off, int64(i)), nil)
		if !t.isConst() {
			unsup("string not constant")
		}
		b[i] = byte(t.c)
	}
	return string(b)
}

func (m *osModel) path(st *State, v Val) *file {
	p := filepath.Clean(m.ex.str(st, v))
	f := m.files[p]
	if f == nil {
		unsup("file %s", p)
	}
	return f
}

type rng struct {
	o   *Obj
	off *Term
	len *Term
}

func asRange(v Val) rng {
	switch x := v.(type) {
	case *SliceV:
		return rng{x.obj, x.off, x.len}
	case *StrV:
		return rng{x.obj, x.off, x.len}
	}
	unsup("text of %T", v)
	return rng{}
}

func (m *osModel) write(st *State, h *handle, r rng) {
	c := m.ex.c
	pos, size := m.word(h.pos, st), m.word(h.f.size, st)
	if h.app {
		pos = size
	}
	if r.o != nil {
		m.ex.copyRange(st, h.f.data, pos, r.o, r.off, r.len)
	}
	end := c.Add(pos, r.len)
	m.setWord(st, h.pos, end)
	m.setWord(st, h.f.size, c.Ite(c.Ult(size, end), end, size))
}

// byteAt is byte i of a range, i constant.
func (ex *Exec) byteAt(st *State, r rng, i uint64) *Term {
	return ex.readByte(r.o, ex.ostate(st, r.o), ex.c.AddC(r.off, int64(i)), nil)
}

// assumed: the negation of t is one of the assumptions.
func (ex *Exec) assumedFalse(st *State, t *Term) bool {
	n := ex.c.BNot(t)
	for _, a := range ex.c.assume {
		if a == n {
			return true
		}
	}
	for _, a := range conjs(st.pc) {
		if a == n {
			return true
		}
	}
	return false
}

func (ex *Exec) matchAt(st *State, s, sep rng, p uint64) *Term {
	c := ex.c
	var eq []*Term
	for k := uint64(0); k < sep.len.c; k++ {
		e := c.Eq(ex.byteAt(st, s, p+k), ex.byteAt(st, sep, k))
		if e.isFalse() {
			return e
		}
		eq = append(eq, e)
	}
	return c.BAnd(eq...)
}

// indexOf is the position of the first (or last) match of sep in s, or -1.
func (ex *Exec) indexOf(st *State, s, sep rng, last bool) *Term {
	c := ex.c
	if !s.len.isConst() || !sep.len.isConst() {
		unsup("search with unknown lengths")
	}
	minus := c.Const(ex.intW, ^uint64(0))
	if sep.len.c > s.len.c {
		return minus
	}
	type hit struct {
		p uint64
		g *Term
	}
	var hits []hit
	n := s.len.c - sep.len.c
	r := minus
	for i := uint64(0); i <= n; i++ {
		p := i
		if last {
			p = n - i
		}
		g := ex.matchAt(st, s, sep, p)
		if g.isFalse() || ex.assumedFalse(st, g) || !ex.feasible(st.pc, g) {
			continue
		}
		if g.isTrue() || !ex.feasible(st.pc, c.BNot(g)) {
			r = c.Const(ex.intW, p)
			break
		}
		if c.dec != nil && ex.inInit == 0 {
			if c.decide(g) {
				return c.Const(ex.intW, p)
			}
			continue
		}
		hits = append(hits, hit{p, g})
	}
	for i := len(hits) - 1; i >= 0; i-- {
		r = c.Ite(hits[i].g, c.Const(ex.intW, hits[i].p), r)
	}
	return c.Canon(r)
}

func (ex *Exec) ioEOF(st *State) Val {
	p := ex.P.pkgs["io"]
	if p == nil || p.Var("EOF") == nil {
		unsup("no io.EOF")
	}
	g := p.Var("EOF")
	ex.ensureInit(g)
	return ex.load(st, ex.globalObj(g), ex.c.Const(64, 0), g.Type().Underlying().(*types.Pointer).Elem())
}

// osIntrinsics installs the model; flags gives the values of boolean flags.
func osIntrinsics(ex *Exec, flags map[string]bool, env map[string]string, stdin []*Term, chunk int) *osModel {
	c := ex.c
	m := &osModel{ex: ex, files: map[string]*file{}, hs: map[*Obj]*handle{}, std: map[string]*PtrV{}}
	def := func(f Intrinsic, names ...string) {
		for _, n := range names {
			ex.intr[n] = f
		}
	}
	nilErr := &IfaceV{}
	nop := func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) { return st, &TupleV{} }
	ok := func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) { return st, nilErr }
	num := func(n *Term) *Term { return ex.fromI64(n) }
	str := func(st *State, s string) Val { return ex.strConst(s) }

	// files
	def(func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
		return st, &TupleV{[]Val{m.open(m.path(st, args[0]), false), nilErr}}
	}, "os.Open")
	def(func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
		p := filepath.Clean(ex.str(st, args[0]))
		if m.files[p] == nil {
			m.newFile(p, nil)
		}
		f := m.files[p]
		m.setWord(st, f.size, c.Const(64, 0))
		return st, &TupleV{[]Val{m.open(f, false), nilErr}}
	}, "os.Create")
	def(func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
		fl, isT := args[1].(*Term)
		if !isT || !fl.isConst() {
			unsup("open flags")
		}
		p := filepath.Clean(ex.str(st, args[0]))
		if m.files[p] == nil {
			if fl.c&uint64(os.O_CREATE) == 0 {
				unsup("file %s", p)
			}
			m.newFile(p, nil)
		}
		f := m.files[p]
		if fl.c&uint64(os.O_EXCL) != 0 {
			unsup("O_EXCL")
		}
		if fl.c&uint64(os.O_TRUNC) != 0 {
			m.setWord(st, f.size, c.Const(64, 0))
		}
		return st, &TupleV{[]Val{m.open(f, fl.c&uint64(os.O_APPEND) != 0), nilErr}}
	}, "os.OpenFile")
	def(func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
		f := m.path(st, args[0])
		n := m.word(f.size, st)
		cp := c.Ite(c.Ult(n, c.Const(64, 512)), c.Const(64, 512), c.AddC(n, 1))
		o := ex.allocArr(st, "file contents", cp, types.Typ[types.Uint8])
		ex.copyRange(st, o, c.Const(64, 0), f.data, c.Const(64, 0), n)
		return st, &TupleV{[]Val{&SliceV{o, c.Const(64, 0), n, c.Canon(cp)}, nilErr}}
	}, "os.ReadFile", "io/ioutil.ReadFile")
	def(func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
		p := filepath.Clean(ex.str(st, args[0]))
		if m.files[p] == nil {
			m.newFile(p, nil)
		}
		f := m.files[p]
		m.setWord(st, f.size, c.Const(64, 0))
		m.write(st, m.handle(m.open(f, false)), asRange(args[1]))
		return st, nilErr
	}, "os.WriteFile", "io/ioutil.WriteFile")
	def(func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
		src, p := m.path(st, args[0]), filepath.Clean(ex.str(st, args[1]))
		if m.files[p] == nil {
			m.newFile(p, nil)
		}
		dst, n := m.files[p], m.word(src.size, st)
		ex.copyRange(st, dst.data, c.Const(64, 0), src.data, c.Const(64, 0), n)
		m.setWord(st, dst.size, n)
		return st, nilErr
	}, "os.Rename")
	def(ok, "os.Remove", "os.Chmod", "(*os.File).Close", "(*os.File).Sync", "(*os.File).Chmod")
	def(func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
		h := m.handle(args[0])
		d, isS := args[1].(*SliceV)
		if !isS {
			unsup("read into %T", args[1])
		}
		pos, size := m.word(h.pos, st), m.word(h.f.size, st)
		if !pos.isConst() || !size.isConst() || !d.len.isConst() {
			unsup("read of unknown length")
		}
		n := min(d.len.c, size.c-min(size.c, pos.c))
		if h.chunk > 0 {
			n = min(n, uint64(h.chunk))
		}
		if n == 0 {
			var e Val = nilErr
			if d.len.c > 0 {
				e = ex.ioEOF(st)
			}
			return st, &TupleV{[]Val{c.Const(ex.intW, 0), e}}
		}
		ex.copyRange(st, d.obj, d.off, h.f.data, pos, c.Const(64, n))
		m.setWord(st, h.pos, c.AddC(pos, int64(n)))
		return st, &TupleV{[]Val{c.Const(ex.intW, n), nilErr}}
	}, "(*os.File).Read")
	def(func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
		r := asRange(args[1])
		m.write(st, m.handle(args[0]), r)
		return st, &TupleV{[]Val{num(r.len), nilErr}}
	}, "(*os.File).Write", "(*os.File).WriteString")
	def(func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
		h, off := m.handle(args[0]), c.Sext(args[1].(*Term), 64)
		w, isT := args[2].(*Term)
		if !isT || !w.isConst() {
			unsup("seek")
		}
		switch w.c {
		case 1:
			off = c.Add(off, m.word(h.pos, st))
		case 2:
			off = c.Add(off, m.word(h.f.size, st))
		}
		m.setWord(st, h.pos, off)
		return st, &TupleV{[]Val{off, nilErr}}
	}, "(*os.File).Seek")
	def(func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
		n := c.Sext(args[1].(*Term), 64)
		if f := m.handle(args[0]).f; c.Ule(n, m.word(f.size, st)).isTrue() {
			m.setWord(st, f.size, n)
			return st, nilErr
		}
		unsup("truncation to a larger size")
		return nil, nil
	}, "(*os.File).Truncate")
	// copying between files goes through Read and Write
	no := func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
		unsup("file operation")
		return nil, nil
	}
	def(no, "(*os.File).ReadFrom", "(*os.File).WriteTo")

	// environment, flags and exits
	def(func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
		return st, str(st, env[ex.str(st, args[0])])
	}, "os.Getenv")
	def(func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
		v, has := env[ex.str(st, args[0])]
		return st, &TupleV{[]Val{str(st, v), c.Bool(has)}}
	}, "os.LookupEnv")
	def(func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
		s, isS := args[0].(*SliceV)
		if !isS || !s.len.isConst() {
			unsup("path elements")
		}
		var ps []string
		for i := uint64(0); i < s.len.c; i++ {
			ps = append(ps, ex.str(st, ex.load(st, s.obj, c.AddC(s.off, int64(i)*2*ex.ptrSize), types.Typ[types.String])))
		}
		return st, str(st, filepath.Join(ps...))
	}, "path/filepath.Join", "path.Join")
	boolFlag := func(st *State, o *PtrV, name, dflt Val) {
		v := c.B2BV(dflt.(*Term), 8)
		if b, has := flags[ex.str(st, name)]; has {
			v = c.B2BV(c.Bool(b), 8)
		}
		ex.writeBytes(st, o.obj, o.off, []*Term{v}, c.T)
	}
	def(func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
		p := &PtrV{ex.allocArr(st, "flag", c.Const(64, 1), types.Typ[types.Bool]), c.Const(64, 0)}
		boolFlag(st, p, args[0], args[1])
		return st, p
	}, "flag.Bool")
	def(func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
		boolFlag(st, args[0].(*PtrV), args[1], args[2])
		return st, &TupleV{}
	}, "flag.BoolVar")
	def(nop, "flag.Parse", "log.SetFlags", "log.SetPrefix", "log.Printf", "log.Println", "log.Print")
	def(func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
		ex.event("exit", "the program gives up", st.pc, in)
		return nil, nil
	}, "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln")
	def(func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
		code, isT := args[0].(*Term)
		if !isT || !code.isConst() {
			unsup("exit status")
		}
		if code.c == 0 {
			m.exits = append(m.exits, Outcome{st, nil})
		} else {
			ex.event("exit", "the program gives up", st.pc, in)
		}
		return nil, nil
	}, "os.Exit")

	// searches
	chr := func(st *State, v Val) rng {
		b := v.(*Term)
		return rng{ex.newObj("character", c.Const(64, 1), &prefixBase{pre: []*Term{c.Extract(b, 7, 0)}}), c.Const(64, 0), c.Const(64, 1)}
	}
	search := func(last, byt bool) Intrinsic {
		return func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
			return ex.fanout(st, args[0], func(st *State, a Val) (*State, Val) {
				return ex.fanout(st, args[1], func(st *State, b Val) (*State, Val) {
					if byt {
						return st, ex.indexOf(st, asRange(a), chr(st, b), last)
					}
					return st, ex.indexOf(st, asRange(a), asRange(b), last)
				})
			})
		}
	}
	def(search(false, false), "bytes.Index", "strings.Index", "internal/stringslite.Index", "internal/bytealg.Index", "internal/bytealg.IndexString")
	def(search(true, false), "bytes.LastIndex", "strings.LastIndex")
	def(search(false, true), "bytes.IndexByte", "strings.IndexByte", "internal/stringslite.IndexByte", "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString")
	def(search(true, true), "bytes.LastIndexByte", "strings.LastIndexByte", "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString")
	count := func(byt bool) Intrinsic {
		return func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
			s := asRange(args[0])
			var sep rng
			if byt {
				sep = chr(st, args[1])
			} else {
				sep = asRange(args[1])
			}
			if !sep.len.isConst() || sep.len.c == 0 {
				unsup("count of empty texts")
			}
			for n := uint64(0); ; n++ {
				p := ex.indexOf(st, s, sep, false)
				if !p.isConst() {
					unsup("unknown number of matches")
				}
				if sext64(p.c, ex.intW) < 0 {
					return st, c.Const(ex.intW, n)
				}
				d := c.Const(64, p.c+sep.len.c)
				s = rng{s.o, c.Add(s.off, d), c.Sub(s.len, d)}
			}
		}
	}
	def(count(false), "bytes.Count", "strings.Count")
	def(count(true), "internal/bytealg.Count", "internal/bytealg.CountString")
	def(func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
		a, b := asRange(args[0]), asRange(args[1])
		return st, ex.strEq(st, &StrV{a.o, a.off, a.len}, &StrV{b.o, b.off, b.len})
	}, "bytes.Equal", "internal/bytealg.Equal")

	// strings
	def(nop, "(*strings.Builder).copyCheck")
	def(func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
		n := c.Sext(args[0].(*Term), 64)
		return st, &SliceV{ex.allocArr(st, "buffer", n, types.Typ[types.Uint8]), c.Const(64, 0), n, n}
	}, "internal/bytealg.MakeNoZero")
	strs := func(st *State, v Val) []*StrV {
		s, isS := v.(*SliceV)
		if !isS || !s.len.isConst() || !s.off.isConst() {
			unsup("unknown number of strings")
		}
		var out []*StrV
		for i := uint64(0); i < s.len.c; i++ {
			e, isStr := ex.load(st, s.obj, c.AddC(s.off, int64(i)*2*ex.ptrSize), types.Typ[types.String]).(*StrV)
			if !isStr {
				unsup("string by cases")
			}
			out = append(out, e)
		}
		return out
	}
	def(func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
		return ex.fanout(st, args[0], func(st *State, v Val) (*State, Val) {
			var r Val = ex.emptyStr
			for i, s := range strs(st, v) {
				if i > 0 {
					r = ex.strConcat(st, r.(*StrV), args[1].(*StrV))
				}
				r = ex.strConcat(st, r.(*StrV), s)
			}
			return st, r
		})
	}, "strings.Join")
	// formatting with plain verbs
	format := func(st *State, f string, args []Val) *StrV {
		r := ex.emptyStr
		add := func(s *StrV) { r = ex.strConcat(st, r, s).(*StrV) }
		for i := 0; i < len(f); i++ {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				add(ex.strConst(f[i:]))
				break
			}
			if j > 0 {
				add(ex.strConst(f[i : i+j]))
			}
			i += j + 1
			if i < len(f) && f[i] == '%' {
				add(ex.strConst("%"))
				continue
			}
			if i >= len(f) || f[i] != 's' && f[i] != 'v' || len(args) == 0 {
				unsup("format %q", f)
			}
			iv, isI := args[0].(*IfaceV)
			args = args[1:]
			if !isI {
				unsup("format argument")
			}
			switch x := iv.v.(type) {
			case *StrV:
				add(x)
			case *SliceV:
				if f[i] != 's' {
					unsup("format argument")
				}
				add(&StrV{x.obj, x.off, x.len})
			default:
				unsup("format argument %T", iv.v)
			}
		}
		return r
	}
	anys := func(st *State, v Val) []Val {
		s, isS := v.(*SliceV)
		if !isS || !s.len.isConst() || !s.off.isConst() {
			unsup("arguments")
		}
		var out []Val
		for i := uint64(0); i < s.len.c; i++ {
			out = append(out, ex.load(st, s.obj, c.AddC(s.off, int64(i)*2*ex.ptrSize), types.NewInterfaceType(nil, nil)))
		}
		return out
	}
	line := func(st *State, args []Val, ln bool) *StrV {
		f := strings.Repeat("%s", len(args))
		if ln {
			f = strings.TrimSuffix(strings.Repeat("%s ", len(args)), " ") + "\n"
		} else if len(args) > 1 {
			unsup("fmt.Print of several values")
		}
		return format(st, f, args)
	}
	out := func(st *State, w Val, s *StrV) (*State, Val) {
		return ex.fanout(st, w, func(st *State, w Val) (*State, Val) {
			i, isI := w.(*IfaceV)
			if !isI || i.t == nil {
				unsup("writer")
			}
			fn := ex.P.prog.LookupMethod(i.t, nil, "Write")
			if fn == nil {
				unsup("writer %s", i.t)
			}
			return ex.call(st, fn, []Val{i.v, &SliceV{s.obj, s.off, s.len, s.len}}, nil)
		})
	}
	def(func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
		return st, format(st, ex.str(st, args[0]), anys(st, args[1]))
	}, "fmt.Sprintf")
	def(func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
		return out(st, args[0], format(st, ex.str(st, args[1]), anys(st, args[2])))
	}, "fmt.Fprintf")
	stdout := func() Val {
		g := ex.P.pkgs["os"].Var("Stdout")
		return &IfaceV{g.Type().Underlying().(*types.Pointer).Elem(), m.std["Stdout"]}
	}
	def(func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
		return out(st, stdout(), format(st, ex.str(st, args[0]), anys(st, args[1])))
	}, "fmt.Printf")
	for _, ln := range []bool{false, true} {
		suf := ""
		if ln {
			suf = "ln"
		}
		def(func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
			return out(st, args[0], line(st, anys(st, args[1]), ln))
		}, "fmt.Fprint"+suf)
		def(func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
			return out(st, stdout(), line(st, anys(st, args[0]), ln))
		}, "fmt.Print"+suf)
		def(func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
			return st, line(st, anys(st, args[0]), ln)
		}, "fmt.Sprint"+suf)
	}
	for _, n := range []string{"Stdin", "Stdout", "Stderr"} {
		g := ex.P.pkgs["os"].Var(n)
		var content []*Term
		if n == "Stdin" {
			content = stdin
		}
		p := m.open(m.newFile(n, content), n != "Stdin")
		if n == "Stdin" {
			m.hs[p.obj].chunk = chunk
		}
		m.std[n] = p
		st := ex.NewState()
		o := ex.globalObj(g)
		ex.initMem[o] = emptyState
		ex.store(st, o, c.Const(64, 0), g.Type().Underlying().(*types.Pointer).Elem(), p)
		ex.initMem[o] = st.mem[o]
	}
	return m
}

// ---- the property ----

const (
	toolStart = "## Benchmarks\n\n```text\n"
	toolEnd   = "```\n"
)

var toolPrefixes = []string{"goos", "goarch", "pkg", "cpu", "Benchmark"}

// text is a sequence of bytes being built: constants and symbolic ones.
type text struct {
	h  *H
	bs []*Term
}

func (t *text) lit(s string) {
	for i := 0; i < len(s); i++ {
		t.bs = append(t.bs, t.h.c.Const(8, uint64(s[i])))
	}
}

func (t *text) sym(n int, name string) []*Term {
	var out []*Term
	for i := 0; i < n; i++ {
		out = append(out, t.h.c.Var(fmt.Sprintf("%s.%d", name, i), 8))
	}
	t.bs = append(t.bs, out...)
	return out
}

// noMatch assumes that s does not occur at position p.
func (h *H) noMatch(bs []*Term, p int, s string) {
	c := h.c
	if p+len(s) > len(bs) {
		return
	}
	var eq []*Term
	for k := 0; k < len(s); k++ {
		eq = append(eq, c.Eq(bs[p+k], c.Const(8, uint64(s[k]))))
	}
	if g := c.BAnd(eq...); !g.isFalse() {
		c.assume = append(c.assume, c.BNot(g))
	}
}

// toolLine is one line of the benchmark output: a recognised prefix, or "" for any other line,
// followed by free bytes.
type toolLine struct {
	prefix string
	fill   string // constant bytes after the prefix
	tail   int
}

// toolShape is the layout of both inputs.
type toolShape struct {
	name        string
	pre         string // constant text before the free bytes before the section
	s, b, r     int    // free bytes before the section, in it, and after its closing fence
	bodyLit     string
	restLit     string
	lines       []toolLine
	noFinalLine bool // the input does not end with a newline
	write       bool
	chunk       int
}

func termBytes(m *Model, ts []*Term) []byte {
	b := make([]byte, len(ts))
	for i, t := range ts {
		b[i] = byte(m.Eval(t))
	}
	return b
}

func toolItem(bin func() (string, error), sh toolShape) func(h *H) {
	return func(h *H) {
		h.fn = "tools.main"
		c, ex := h.c, h.ex
		// README.md
		rd := &text{h: h}
		rd.lit(sh.pre)
		rd.sym(sh.s, "before")
		start := len(rd.bs)
		rd.lit(toolStart)
		bodyStart := len(rd.bs)
		rd.lit(sh.bodyLit)
		rd.sym(sh.b, "body")
		end := len(rd.bs)
		rd.lit(toolEnd)
		rd.lit(sh.restLit)
		rd.sym(sh.r, "rest")
		for p := 0; p < start; p++ {
			h.noMatch(rd.bs, p, toolStart)
		}
		for p := bodyStart; p < end; p++ {
			h.noMatch(rd.bs, p, toolEnd)
		}
		// the benchmark output, and the section it gives
		in, sec := &text{h: h}, &text{h: h}
		seen := false
		first := true
		for i, l := range sh.lines {
			from := len(in.bs)
			in.lit(l.prefix)
			in.lit(l.fill)
			for _, t := range in.sym(l.tail, fmt.Sprintf("line%d", i)) {
				for _, b := range []uint64{10, 13} {
					c.assume = append(c.assume, c.BNot(c.Eq(t, c.Const(8, b))))
				}
			}
			ln := in.bs[from:]
			if l.prefix == "" {
				for _, p := range toolPrefixes {
					h.noMatch(ln, 0, p)
				}
			} else {
				add := func(bs []*Term) {
					if !first {
						sec.lit("\n")
					}
					first = false
					sec.bs = append(sec.bs, bs...)
				}
				seen = seen || l.prefix == "Benchmark"
				if seen && l.prefix == "goos" {
					add(nil)
				}
				if l.prefix == "Benchmark" {
					add(ln[len("Benchmark"):])
				} else {
					add(ln)
				}
				if l.prefix == "cpu" {
					sec.lit("\n--")
				}
			}
			if i < len(sh.lines)-1 || !sh.noFinalLine {
				in.lit("\n")
			}
		}
		sec.lit("\n")
		want := append([]*Term{}, rd.bs[:bodyStart]...)
		want = append(want, sec.bs...)
		want = append(want, rd.bs[end:]...)

		h.check = func(m *Model) (string, interface{}, error) {
			b, err := bin()
			if err != nil {
				return "", nil, err
			}
			readme, stdin := termBytes(m, rd.bs), termBytes(m, in.bs)
			rep := map[string]interface{}{"program": "tools", "README.md": string(readme), "stdin": string(stdin), "w": sh.write}
			dir, err := os.MkdirTemp(h.r.tmp, "tool")
			if err != nil {
				return "", nil, err
			}
			defer os.RemoveAll(dir)
			f := filepath.Join(dir, "README.md")
			if err := os.WriteFile(f, readme, 0o644); err != nil {
				return "", nil, err
			}
			var args []string
			if sh.write {
				args = append(args, "-w")
			}
			cmd := exec.Command(b, args...)
			cmd.Dir = dir
			cmd.Env = append(os.Environ(), "SBYTE_HOME="+dir)
			cmd.Stdin = bytes.NewReader(stdin)
			var so, se bytes.Buffer
			cmd.Stdout, cmd.Stderr = &so, &se
			if err := cmd.Start(); err != nil {
				return "", nil, err
			}
			tm := time.AfterFunc(20*time.Second, func() { cmd.Process.Kill() })
			err = cmd.Wait()
			tm.Stop()
			if err != nil {
				return fmt.Sprintf("the updater fails: %v %.200s", err, se.String()), rep, nil
			}
			after, err := os.ReadFile(f)
			if err != nil {
				return "the updater removed README.md", rep, nil
			}
			exp := termBytes(m, want)
			got := so.Bytes()
			if sh.write {
				got = after
			} else if !bytes.Equal(after, readme) {
				return fmt.Sprintf("README.md changed without -w to %.300q", after), rep, nil
			}
			if !bytes.Equal(got, exp) {
				return fmt.Sprintf("output %.300q, expected %.300q", got, exp), rep, nil
			}
			return "", rep, nil
		}

		m := osIntrinsics(ex, map[string]bool{"w": sh.write}, map[string]string{"SBYTE_HOME": "/sbyte"}, in.bs, sh.chunk)
		readme := m.newFile("/sbyte/README.md", rd.bs)
		st, _ := h.call(ex.NewState(), "tools.main")
		h.events("panic", "limit", "exit", "oob")
		outs := m.exits
		if st != nil {
			outs = append(outs, Outcome{st, nil})
		}
		st, _ = ex.mergeOutcomes(outs)
		if st == nil {
			return
		}
		h.returnsAlways(st)
		same := func(what string, f *file, w []*Term) {
			if !h.ob("length of "+what, "", st.pc, c.Eq(m.word(f.size, st), c.Const(64, uint64(len(w))))) {
				return
			}
			for i, t := range w {
				if !h.ob(fmt.Sprintf("%s, byte %d", what, i), "", st.pc, c.Eq(ex.byteAt(st, rng{o: f.data, off: c.Const(64, 0)}, uint64(i)), t)) {
					return
				}
			}
		}
		if sh.write {
			same("README.md", readme, want)
		} else {
			same("the standard output", m.files["Stdout"], want)
			same("README.md left alone", readme, rd.bs)
		}
		h.validate(1, st.pc)
	}
}

func toolShapes(r *Run) []toolShape {
	var out []toolShape
	run := []toolLine{{prefix: "goos", tail: 2}, {prefix: "cpu", tail: 1}, {tail: 3}, {prefix: "Benchmark", tail: 4}}
	both := func(sh toolShape) {
		for _, w := range []bool{false, true} {
			sh.write = w
			m := "standard output"
			if w {
				m = "-w"
			}
			s := sh
			s.name = fmt.Sprintf("%s, %s", sh.name, m)
			out = append(out, s)
		}
	}
	for _, s := range pick(r, []int{0, 1, 2, 3, 4, 5, 8, 12, 24, 40}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 25, 40, 64, 150}) {
		for _, b := range pick(r, []int{0, 1, 2, 3, 4, 5, 6, 9, 16, 30}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 30, 100}) {
			for _, q := range pick(r, []int{0, 1, 2, 3, 4, 5, 9, 24, 40}, []int{0, 1, 2, 3, 4, 5, 6, 9, 16, 24, 25, 40, 64, 150}) {
				both(toolShape{name: fmt.Sprintf("README with %d, %d and %d free bytes before, in and after the section", s, b, q), s: s, b: b, r: q, lines: run})
			}
		}
	}
	long := strings.Repeat("some text in a line of the document\n", 40)
	both(toolShape{name: "long README", pre: long, s: 6, b: 6, r: 6, bodyLit: strings.Repeat("EncodeScalar 1 2 ns/op\n", 30), restLit: long, lines: run})
	both(toolShape{name: "code before, second benchmark section after", pre: "# T\n\n```text\nx\n```\n\n## Benchmark\n", s: 3, b: 3, r: 3,
		restLit: "\n" + toolStart + "old\n" + toolEnd + "end\n", lines: run})
	both(toolShape{name: "fence with a language in the section", s: 1, b: 2, r: 2, bodyLit: "```go\n", lines: run})
	// benchmark outputs
	kinds := append([]string{""}, toolPrefixes...)
	k := pick(r, 4, 5)
	var rec func(ls []toolLine)
	rec = func(ls []toolLine) {
		var nm []string
		for _, l := range ls {
			n := l.prefix
			if n == "" {
				n = "other"
			}
			nm = append(nm, n)
		}
		sh := toolShape{name: fmt.Sprintf("input lines [%s]", strings.Join(nm, " ")), s: 2, b: 2, r: 2, lines: append([]toolLine{}, ls...), write: len(ls)%2 == 0}
		out = append(out, sh)
		if len(ls) == k {
			return
		}
		for _, p := range kinds {
			t := 2
			switch p {
			case "":
				t = 4
			case "Benchmark":
				t = 12
			}
			rec(append(append([]toolLine{}, ls...), toolLine{prefix: p, tail: t}))
		}
	}
	rec(nil)
	for _, p := range kinds {
		for _, t := range pick(r, []int{0, 1, 2, 3, 5, 8, 11, 20}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 20, 32, 64}) {
			ls := []toolLine{{prefix: p, tail: t}, {prefix: "Benchmark", tail: t}, {prefix: p, tail: t}}
			both(toolShape{name: fmt.Sprintf("lines %q, Benchmark, %q with %d free bytes", p, p, t), s: 1, b: 1, r: 1, lines: ls})
			both(toolShape{name: fmt.Sprintf("lines %q, Benchmark, %q with %d free bytes, last line not ended", p, p, t), s: 1, b: 1, r: 1, lines: ls, noFinalLine: t > 0})
		}
	}
	both(toolShape{name: "input delivered in pieces", s: 2, b: 2, r: 2, lines: append(append([]toolLine{}, run...), run...), chunk: 7})
	for _, n := range pick(r, []int{10, 40}, []int{10, 40, 120}) {
		var ls []toolLine
		for i := 0; i < n; i++ {
			p := toolPrefixes[4]
			switch i % 10 {
			case 0, 1, 2, 3:
				p = toolPrefixes[i%10]
			case 6, 9:
				p = ""
			}
			ls = append(ls, toolLine{prefix: p, tail: 3 + i%7})
		}
		both(toolShape{name: fmt.Sprintf("%d lines", n), s: 2, b: 9, r: 9, lines: ls})
		both(toolShape{name: fmt.Sprintf("%d lines, delivered in pieces", n), s: 9, b: 2, r: 2, lines: ls, chunk: 16})
	}
	for _, n := range []int{600, 5000, 20000} {
		both(toolShape{name: fmt.Sprintf("lines of %d bytes", n), s: 2, b: 2, r: 2, chunk: 3000,
			lines: []toolLine{{prefix: "goos", tail: 1}, {prefix: "Benchmark", fill: strings.Repeat("x", n), tail: 2}, {fill: strings.Repeat("y", n), tail: 0}, {prefix: "Benchmark", fill: strings.Repeat("z", n), tail: 2}}})
	}
	return out
}

func init() {
	checks["C20"] = func(r *Run) error {
		if err := r.base(); err != nil {
			return err
		}
		var once sync.Once
		var b string
		var berr error
		bin := func() (string, error) {
			once.Do(func() {
				b = filepath.Join(r.tmp, "updater")
				cmd := exec.Command("go", "build", "-o", b, "./tools")
				cmd.Dir = repoDir
				cmd.Env = goEnv(r.P.hostArch())
				if o, err := cmd.CombinedOutput(); err != nil {
					berr = fmt.Errorf("build of the updater: %v %s", err, o)
				}
			})
			return b, berr
		}
		sh := toolShapes(r)
		r.bounds["README"] = "first start marker after 0..40 (quick) or 0..150 free bytes, 0..30 (0..100) free bytes in the section, 0..40 (0..150) after it, their values unconstrained apart from the position of the first start marker and of the first closing fence after it; plus a 3 kB document, one with several fences, and one with a second section"
		r.bounds["benchmark output"] = fmt.Sprintf("every sequence of up to %d lines over the five prefixes and 'other', runs of up to 120 lines in a fixed order of kinds, free bytes after the prefix (no line breaks), lines up to 20 kB, input in one piece or several", pick(r, 4, 5))
		r.assume["the operating system's files, standard streams, environment and flag parsing behave as modelled (no I/O errors)"] = true
		r.assume["the Go compiler translates the Go functions faithfully (they are executed from go/ssa, packages bufio, io, bytes and strings included; searches for a text in another are modelled by their definition)"] = true
		var items []Item
		for i := range sh {
			items = append(items, Item{"tools.main: " + sh[i].name, toolItem(bin, sh[i])})
		}
		r.runItems(items)
		return nil
	}
}
