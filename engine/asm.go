package main

// Symbolic execution of x86-64 machine code (as disassembled by objdump from a binary linked
// from the repository) for functions without a Go body.

import (
	"bytes"
	"debug/elf"
	"fmt"
	"go/types"
	"os/exec"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type operand struct {
	kind  byte // r: gp register, x: vector register, i: immediate, m: memory, t: jump target
	reg   int
	size  int // register or memory size in bytes (0: unspecified)
	high  bool
	imm   int64
	base  int // -1 none, 16 rip
	index int
	scale int64
	disp  int64
	abs   uint64 // rip-relative address
	seg   bool
}

type inst struct {
	addr uint64
	op   string
	ops  []operand
	text string
}

type AsmImage struct {
	file  *elf.File
	funcs map[string][]inst
	err   map[string]string
}

var gpNames = map[string][3]int{} // name -> reg, size, high

func init() {
	r64 := []string{"rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi"}
	r32 := []string{"eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi"}
	r16 := []string{"ax", "cx", "dx", "bx", "sp", "bp", "si", "di"}
	r8 := []string{"al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil"}
	for i := range r64 {
		gpNames[r64[i]] = [3]int{i, 8, 0}
		gpNames[r32[i]] = [3]int{i, 4, 0}
		gpNames[r16[i]] = [3]int{i, 2, 0}
		gpNames[r8[i]] = [3]int{i, 1, 0}
	}
	for i, n := range []string{"ah", "ch", "dh", "bh"} {
		gpNames[n] = [3]int{i, 1, 1}
	}
	for i := 8; i < 16; i++ {
		gpNames[fmt.Sprintf("r%d", i)] = [3]int{i, 8, 0}
		gpNames[fmt.Sprintf("r%dd", i)] = [3]int{i, 4, 0}
		gpNames[fmt.Sprintf("r%dw", i)] = [3]int{i, 2, 0}
		gpNames[fmt.Sprintf("r%db", i)] = [3]int{i, 1, 0}
	}
}

// LoadAsm disassembles the given symbols of a binary.
func LoadAsm(bin string, syms []string) (*AsmImage, error) {
	f, err := elf.Open(bin)
	if err != nil {
		return nil, err
	}
	im := &AsmImage{file: f, funcs: map[string][]inst{}, err: map[string]string{}}
	ss, err := f.Symbols()
	if err != nil {
		return nil, err
	}
	addr := map[string]elf.Symbol{}
	for _, s := range ss {
		addr[s.Name] = s
	}
	for _, n := range syms {
		s, ok := addr[n]
		if !ok {
			im.err[n] = "symbol not found"
			continue
		}
		end := s.Value + s.Size
		out, err := exec.Command("objdump", "-d", "-w", "-M", "intel", "--no-show-raw-insn",
			fmt.Sprintf("--start-address=0x%x", s.Value), fmt.Sprintf("--stop-address=0x%x", end), bin).Output()
		if err != nil {
			return nil, fmt.Errorf("objdump: %v", err)
		}
		var ins []inst
		for _, l := range strings.Split(string(out), "\n") {
			i := strings.Index(l, ":\t")
			if i < 0 {
				continue
			}
			a, err := strconv.ParseUint(strings.TrimSpace(l[:i]), 16, 64)
			if err != nil {
				continue
			}
			in, err := parseInst(a, strings.TrimSpace(l[i+2:]))
			if err != nil {
				im.err[n] = err.Error()
			}
			ins = append(ins, in)
		}
		im.funcs[n] = ins
	}
	return im, nil
}

func parseInst(addr uint64, s string) (inst, error) {
	in := inst{addr: addr, text: s}
	ripAbs := uint64(0)
	if i := strings.Index(s, "#"); i >= 0 {
		h := strings.Fields(strings.TrimSpace(s[i+1:]))
		if len(h) > 0 {
			ripAbs, _ = strconv.ParseUint(h[0], 16, 64)
		}
		s = strings.TrimSpace(s[:i])
	}
	f := strings.SplitN(s, " ", 2)
	in.op = f[0]
	for in.op == "rep" || in.op == "lock" || in.op == "repz" || in.op == "repnz" || in.op == "bnd" || in.op == "data16" || in.op == "cs" || in.op == "notrack" {
		if in.op != "data16" && in.op != "cs" && in.op != "notrack" && in.op != "bnd" {
			return in, fmt.Errorf("prefix %s", in.op)
		}
		f = strings.SplitN(strings.TrimSpace(f[1]), " ", 2)
		in.op = f[0]
	}
	if len(f) == 1 {
		return in, nil
	}
	rest := strings.TrimSpace(f[1])
	if i := strings.Index(rest, "<"); i >= 0 && !strings.Contains(rest, "[") {
		rest = strings.TrimSpace(rest[:i])
	}
	depth := 0
	start := 0
	var parts []string
	for i := 0; i <= len(rest); i++ {
		if i == len(rest) || rest[i] == ',' && depth == 0 {
			parts = append(parts, strings.TrimSpace(rest[start:i]))
			start = i + 1
			continue
		}
		switch rest[i] {
		case '[':
			depth++
		case ']':
			depth--
		}
	}
	jump := strings.HasPrefix(in.op, "j") || in.op == "call" || strings.HasPrefix(in.op, "loop")
	for _, p := range parts {
		o, err := parseOperand(p, jump, ripAbs)
		if err != nil {
			return in, fmt.Errorf("%s: %v", in.text, err)
		}
		in.ops = append(in.ops, o)
	}
	return in, nil
}

func parseOperand(p string, jump bool, ripAbs uint64) (operand, error) {
	o := operand{base: -1, index: -1}
	size := 0
	for pre, n := range map[string]int{"BYTE PTR ": 1, "WORD PTR ": 2, "DWORD PTR ": 4, "QWORD PTR ": 8, "XMMWORD PTR ": 16, "YMMWORD PTR ": 32} {
		if strings.HasPrefix(p, pre) {
			size = n
			p = p[len(pre):]
			break
		}
	}
	if strings.HasPrefix(p, "ds:") || strings.HasPrefix(p, "fs:") || strings.HasPrefix(p, "gs:") || strings.HasPrefix(p, "ss:") || strings.HasPrefix(p, "cs:") || strings.HasPrefix(p, "es:") {
		return o, fmt.Errorf("segment operand %s", p)
	}
	if r, ok := gpNames[p]; ok {
		o.kind, o.reg, o.size, o.high = 'r', r[0], r[1], r[2] == 1
		return o, nil
	}
	if strings.HasPrefix(p, "xmm") || strings.HasPrefix(p, "ymm") {
		n, err := strconv.Atoi(p[3:])
		if err != nil || n > 15 {
			return o, fmt.Errorf("register %s", p)
		}
		o.kind, o.reg, o.size = 'x', n, 16
		if p[0] == 'y' {
			o.size = 32
		}
		return o, nil
	}
	if strings.HasPrefix(p, "[") && strings.HasSuffix(p, "]") {
		o.kind, o.size = 'm', size
		body := p[1 : len(p)-1]
		body = strings.ReplaceAll(body, "-", "+-")
		for _, t := range strings.Split(body, "+") {
			if t == "" {
				continue
			}
			sc := int64(1)
			hasScale := false
			if i := strings.Index(t, "*"); i >= 0 {
				v, err := strconv.ParseInt(t[i+1:], 0, 64)
				if err != nil {
					return o, err
				}
				sc, t, hasScale = v, t[:i], true
			}
			if t == "rip" {
				o.base = 16
				o.abs = ripAbs
				continue
			}
			if t == "riz" || t == "eiz" {
				continue
			}
			if r, ok := gpNames[t]; ok {
				if r[1] != 8 {
					return o, fmt.Errorf("address register %s", t)
				}
				if o.base == -1 && !hasScale {
					o.base = r[0]
				} else {
					o.index, o.scale = r[0], sc
				}
				continue
			}
			v, err := strconv.ParseInt(t, 0, 64)
			if err != nil {
				u, err2 := strconv.ParseUint(t, 0, 64)
				if err2 != nil {
					return o, err
				}
				v = int64(u)
			}
			o.disp += v
		}
		return o, nil
	}
	if jump {
		v, err := strconv.ParseUint(p, 16, 64)
		if err != nil {
			return o, fmt.Errorf("jump target %s", p)
		}
		o.kind, o.imm = 't', int64(v)
		return o, nil
	}
	v, err := strconv.ParseInt(p, 0, 64)
	if err != nil {
		u, err2 := strconv.ParseUint(p, 0, 64)
		if err2 != nil {
			return o, fmt.Errorf("operand %s", p)
		}
		v = int64(u)
	}
	o.kind, o.imm = 'i', v
	return o, nil
}

func (im *AsmImage) data(addr uint64, n int) ([]byte, bool) {
	for _, s := range im.file.Sections {
		if s.Type == elf.SHT_PROGBITS && s.Flags&elf.SHF_ALLOC != 0 && addr >= s.Addr && addr+uint64(n) <= s.Addr+s.Size {
			b := make([]byte, n)
			if _, err := s.ReadAt(b, int64(addr-s.Addr)); err != nil {
				return nil, false
			}
			return b, true
		}
	}
	return nil, false
}

// ---- machine state ----

type aval struct {
	obj *Obj
	t   *Term // 64 bit
}

type mach struct {
	st                 *State
	gp                 [16]aval
	v                  [16][32]*Term
	zf, sf, cf, of, pf *Term
	pc                 int
	n                  int
}

type asmRun struct {
	ex   *Exec
	name string
	ins  []inst
	at   map[uint64]int
	in   ssa.Instruction
	fn   *ssa.Function
}

func asmSymbol(fn *ssa.Function) string {
	return fn.Pkg.Pkg.Path() + "." + fn.Name() + ".abi0"
}

// argument layout of the stack ABI
func (ex *Exec) abiLayout(fn *ssa.Function) (offs []int64, rets []int64, total int64) {
	var o int64
	al := func(t types.Type) int64 {
		a := ex.sizes.Alignof(t)
		o = (o + a - 1) / a * a
		r := o
		o += ex.sizes.Sizeof(t)
		return r
	}
	sig := fn.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		offs = append(offs, al(sig.Params().At(i).Type()))
	}
	o = (o + 7) / 8 * 8
	for i := 0; i < sig.Results().Len(); i++ {
		rets = append(rets, al(sig.Results().At(i).Type()))
	}
	return offs, rets, o
}

func (ex *Exec) callAsm(st *State, fn *ssa.Function, args []Val, in ssa.Instruction) (*State, Val) {
	if ex.P.asm == nil || fn.Pkg == nil {
		unsup("no body for %s", fn)
	}
	sym := asmSymbol(fn)
	ins, ok := ex.P.asm.funcs[sym]
	if !ok {
		unsup("no body for %s", fn)
	}
	if e := ex.P.asm.err[sym]; e != "" {
		if ex.isaLog != nil { // not executable here, but the extensions it needs are known
			for _, i := range ins {
				if x := isaNeed(i); x != "" {
					ex.isaLog(x, fn.Name()+": "+i.text, st.pc)
				}
			}
		}
		unsup("%s: %s", fn.Name(), e)
	}
	// unions among the arguments: case split
	for i, a := range args {
		if u, ok := a.(*UnionV); ok {
			return ex.fanout(st, u, func(st *State, v Val) (*State, Val) {
				na := append([]Val{}, args...)
				na[i] = v
				return ex.callAsm(st, fn, na, in)
			})
		}
	}
	ex.st.Funcs[fn.String()+" [machine code]"] = true
	c := ex.c
	const spBase = 4096
	offs, rets, total := ex.abiLayout(fn)
	frame := ex.newObj("stack of "+fn.Name(), c.Const(64, uint64(spBase+8+total)), zeroBase{})
	frame.born = &ex.born
	st.mem[frame] = &ObjState{gen: st.gen}
	for i, a := range args {
		off := int64(spBase) + 8 + offs[i]
		put := func(k int64, v Val) {
			ex.store(st, frame, c.Const(64, uint64(off+k)), types.Typ[types.UnsafePointer], v)
		}
		switch x := a.(type) {
		case *Term:
			ex.writeBytes(st, frame, c.Const(64, uint64(off)), ex.intBytes(x), c.T)
		case *PtrV:
			put(0, x)
		case *SliceV:
			put(0, &PtrV{x.obj, x.off})
			ex.writeBytes(st, frame, c.Const(64, uint64(off+8)), ex.intBytes(x.len), c.T)
			ex.writeBytes(st, frame, c.Const(64, uint64(off+16)), ex.intBytes(x.cap), c.T)
		case *StrV:
			put(0, &PtrV{x.obj, x.off})
			ex.writeBytes(st, frame, c.Const(64, uint64(off+8)), ex.intBytes(x.len), c.T)
		default:
			unsup("argument %T of %s", a, fn.Name())
		}
	}
	r := &asmRun{ex: ex, name: fn.Name(), ins: ins, at: map[uint64]int{}, in: in, fn: fn}
	for i, x := range ins {
		r.at[x.addr] = i
	}
	m := &mach{st: st}
	for i := range m.gp {
		m.gp[i] = aval{nil, ex.fresh("reg", 64)}
	}
	m.gp[4] = aval{frame, c.Const(64, spBase)}
	for i := range m.v {
		for j := range m.v[i] {
			m.v[i][j] = nil
		}
	}
	var outs []Outcome
	work := []*mach{m}
	for len(work) > 0 {
		m := work[len(work)-1]
		work = work[:len(work)-1]
		for m != nil {
			if m.n++; m.n > 5000 {
				unsup("machine code step limit in %s", fn.Name())
			}
			if len(outs)+len(work) > 200 {
				unsup("machine code path limit in %s", fn.Name())
			}
			ex.st.AsmInstr++
			i := ins[m.pc]
			if i.op == "ret" {
				if m.gp[4].obj != frame || !m.gp[4].t.isConst() || m.gp[4].t.c != spBase {
					unsup("unbalanced stack in %s", fn.Name())
				}
				var rv []Val
				for k := range rets {
					t := fn.Signature.Results().At(k).Type()
					v := ex.load(m.st, frame, c.Const(64, uint64(spBase+8+rets[k])), t)
					if _, ok := t.Underlying().(*types.Slice); ok {
						unsup("slice result of machine code")
					}
					rv = append(rv, ex.canonVal(v))
				}
				delete(m.st.mem, frame)
				var ret Val
				switch len(rv) {
				case 0:
				case 1:
					ret = rv[0]
				default:
					ret = &TupleV{rv}
				}
				outs = append(outs, Outcome{m.st, ret})
				break
			}
			var other *mach
			m, other = r.step(m, i)
			if other != nil {
				work = append(work, other)
			}
		}
	}
	return ex.mergeOutcomes(outs)
}

func (r *asmRun) where(i inst) string {
	return fmt.Sprintf("%s: %s", r.name, strings.Join(strings.Fields(i.text), " "))
}

func (r *asmRun) gpv(m *mach, o operand) aval {
	c := r.ex.c
	v := m.gp[o.reg]
	if o.size == 8 {
		return v
	}
	if v.obj != nil {
		unsup("partial pointer register in %s", r.name)
	}
	lo := 0
	if o.high {
		lo = 8
	}
	return aval{nil, c.Extract(v.t, lo+8*o.size-1, lo)}
}

func (r *asmRun) setgp(m *mach, o operand, v aval) {
	c := r.ex.c
	switch o.size {
	case 8:
		if v.t.w != 64 {
			v.t = c.Zext(v.t, 64)
		}
		if v.obj == nil {
			v.t = c.Canon(v.t)
		}
		m.gp[o.reg] = v
	case 4:
		m.gp[o.reg] = aval{nil, c.Canon(c.Zext(c.Canon(v.t), 64))}
	default:
		old := m.gp[o.reg]
		if old.obj != nil {
			unsup("partial write to pointer register in %s", r.name)
		}
		lo := 0
		if o.high {
			lo = 8
		}
		w := 8 * o.size
		parts := []*Term{c.Extract(old.t, 63, lo+w), v.t}
		if lo > 0 {
			parts = append(parts, c.Extract(old.t, lo-1, 0))
		}
		m.gp[o.reg] = aval{nil, c.Concat(parts...)}
	}
}

// address of a memory operand
func (r *asmRun) addr(m *mach, o operand) aval {
	c := r.ex.c
	if o.base == 16 {
		return aval{nil, c.Const(64, o.abs)}
	}
	a := aval{nil, c.Const(64, uint64(o.disp))}
	if o.base >= 0 {
		b := m.gp[o.base]
		a.obj = b.obj
		a.t = c.Add(a.t, b.t)
	}
	if o.index >= 0 {
		b := m.gp[o.index]
		if b.obj != nil {
			if a.obj != nil || o.scale != 1 {
				unsup("address arithmetic in %s", r.name)
			}
			a.obj = b.obj
		}
		a.t = c.Add(a.t, c.MulC(b.t, uint64(o.scale)))
	}
	return a
}

func (r *asmRun) check(m *mach, a aval, n int, i inst, what string) *Term {
	ex, c := r.ex, r.ex.c
	ex.st.MemChecks++
	if a.obj.csize >= 0 && a.t.isConst() && a.t.c+uint64(n) <= uint64(a.obj.csize) {
		return c.T
	}
	sz := a.obj.size
	nn := c.Const(64, uint64(n))
	ok := c.BAnd(c.Ule(nn, sz), c.Ule(a.t, c.Sub(sz, nn)))
	if c.Sub(sz, nn).op == OpAdd { // prefer the difference form
		ok2 := c.BAnd(c.Ule(c.Add(a.t, nn), sz), c.Ule(a.t, c.Const(64, 1<<48)))
		if ok2.isTrue() || !ok.isTrue() {
			ok = ok2
		}
	}
	ok = c.Canon(ok)
	if ok.isTrue() || !ex.feasible(m.st.pc, c.BNot(ok)) {
		return c.T
	}
	if ex.recov > 0 {
		unsup("fault under recover")
	}
	ex.events = append(ex.events, Event{"oob", fmt.Sprintf("%d-byte %s outside %s", n, what, a.obj.name), r.where(i), c.BAnd(m.st.pc, c.BNot(ok))})
	return ok
}

func (r *asmRun) readMem(m *mach, a aval, n int, i inst) []*Term {
	ex, c := r.ex, r.ex.c
	out := make([]*Term, n)
	if a.obj == nil {
		if a.t.isConst() {
			if b, ok := ex.P.asm.data(a.t.c, n); ok {
				for k := range out {
					out[k] = c.Const(8, uint64(b[k]))
				}
				return out
			}
		}
		// a nil or wild pointer
		ex.events = append(ex.events, Event{"oob", "read through an invalid pointer", r.where(i), m.st.pc})
		return nil
	}
	ok := r.check(m, a, n, i, "read")
	s := ex.ostate(m.st, a.obj)
	if len(s.cells) > 0 && a.t.isConst() {
		for k := range s.cells {
			if k < int64(a.t.c)+int64(n) && k+8 > int64(a.t.c) {
				unsup("read of a pointer as bytes in %s", r.name)
			}
		}
	}
	for k := range out {
		o := c.AddC(a.t, int64(k))
		b := ex.readByte(a.obj, s, o, nil)
		if !ok.isTrue() {
			in := c.Canon(c.Ult(o, a.obj.size))
			b = c.Ite(in, b, ex.fresh("oob", 8))
		}
		out[k] = b
	}
	return out
}

func (r *asmRun) writeMem(m *mach, a aval, bs []*Term, i inst) bool {
	ex, c := r.ex, r.ex.c
	if a.obj == nil {
		ex.events = append(ex.events, Event{"oob", "write through an invalid pointer", r.where(i), m.st.pc})
		return false
	}
	ok := r.check(m, a, len(bs), i, "write")
	if a.obj.ro || a.obj.glob != nil && a.obj.opq != "" {
		unsup("write to %s", a.obj.name)
	}
	if ok.isTrue() {
		ex.writeBytes(m.st, a.obj, a.t, bs, c.T)
		return true
	}
	for k := range bs {
		o := c.AddC(a.t, int64(k))
		ex.writeBytes(m.st, a.obj, o, bs[k:k+1], c.Canon(c.Ult(o, a.obj.size)))
	}
	return true
}

func joinBytes(c *Ctx, bs []*Term) *Term {
	p := make([]*Term, len(bs))
	for i := range bs {
		p[len(bs)-1-i] = bs[i]
	}
	return c.Concat(p...)
}

// scalar source operand of the given size
func (r *asmRun) src(m *mach, o operand, size int, i inst) (aval, bool) {
	c := r.ex.c
	switch o.kind {
	case 'r':
		return r.gpv(m, o), true
	case 'i':
		return aval{nil, c.Const(8*size, uint64(o.imm))}, true
	case 'm':
		n := o.size
		if n == 0 {
			n = size
		}
		a := r.addr(m, o)
		if n == 8 && a.obj != nil && a.t.isConst() {
			s := r.ex.ostate(m.st, a.obj)
			if v, ok := s.cells[int64(a.t.c)]; ok {
				p, ok := v.(*PtrV)
				if !ok {
					unsup("load of %T in %s", v, r.name)
				}
				return aval{p.obj, p.off}, true
			}
		}
		bs := r.readMem(m, a, n, i)
		if bs == nil {
			return aval{}, false
		}
		return aval{nil, c.Canon(joinBytes(c, bs))}, true
	}
	unsup("operand in %s", r.where(i))
	return aval{}, false
}

func (r *asmRun) setDst(m *mach, o operand, v aval, i inst) bool {
	if o.kind == 'r' {
		r.setgp(m, o, v)
		return true
	}
	a := r.addr(m, o)
	if v.obj != nil {
		if a.obj == nil {
			return false
		}
		r.ex.storeCell(m.st, a.obj, a.t, types.Typ[types.UnsafePointer], &PtrV{v.obj, v.t})
		return true
	}
	// a scalar store over a spilled pointer replaces it
	if a.obj != nil && a.t.isConst() && o.size == 8 {
		s := r.ex.own(m.st, a.obj)
		delete(s.cells, int64(a.t.c))
	}
	return r.writeMem(m, a, r.ex.intBytes(v.t), i)
}

func (m *mach) setZS(c *Ctx, v *Term) {
	m.zf = c.Eq(v, c.Const(v.w, 0))
	m.sf = c.Eq(c.Extract(v, v.w-1, v.w-1), c.Const(1, 1))
	m.pf = nil
}

func (r *asmRun) cond(m *mach, cc string, i inst) *Term {
	c := r.ex.c
	need := func(ts ...*Term) {
		for _, t := range ts {
			if t == nil {
				unsup("undefined flag in %s", r.where(i))
			}
		}
	}
	neg := func(t *Term) *Term { return c.BNot(t) }
	switch cc {
	case "e", "z":
		need(m.zf)
		return m.zf
	case "ne", "nz":
		need(m.zf)
		return neg(m.zf)
	case "b", "c", "nae":
		need(m.cf)
		return m.cf
	case "ae", "nb", "nc":
		need(m.cf)
		return neg(m.cf)
	case "be", "na":
		need(m.cf, m.zf)
		return c.BOr(m.cf, m.zf)
	case "a", "nbe":
		need(m.cf, m.zf)
		return neg(c.BOr(m.cf, m.zf))
	case "s":
		need(m.sf)
		return m.sf
	case "ns":
		need(m.sf)
		return neg(m.sf)
	case "o":
		need(m.of)
		return m.of
	case "no":
		need(m.of)
		return neg(m.of)
	case "l", "nge":
		if m.lt(c) != nil {
			return m.lt(c)
		}
		need(m.sf, m.of)
		return neg(c.Eq(m.sf, m.of))
	case "ge", "nl":
		need(m.sf, m.of)
		return c.Eq(m.sf, m.of)
	case "le", "ng":
		need(m.sf, m.of, m.zf)
		return c.BOr(m.zf, neg(c.Eq(m.sf, m.of)))
	case "g", "nle":
		need(m.sf, m.of, m.zf)
		return neg(c.BOr(m.zf, neg(c.Eq(m.sf, m.of))))
	}
	unsup("condition %s", cc)
	return nil
}

func (m *mach) lt(c *Ctx) *Term { return nil }

func (r *asmRun) step(m *mach, i inst) (*mach, *mach) {
	ex, c := r.ex, r.ex.c
	r.isa(m, i)
	next := m
	m.pc++
	ops := i.ops
	size := 0
	for _, o := range ops {
		if o.kind == 'r' || o.kind == 'm' && o.size > 0 {
			size = o.size
			break
		}
	}
	w := 8 * size
	bin := func(f func(a, b *Term) *Term) (a, b, v *Term, ok bool) {
		x, ok1 := r.src(m, ops[0], size, i)
		y, ok2 := r.src(m, ops[1], size, i)
		if !ok1 || !ok2 {
			return nil, nil, nil, false
		}
		if x.obj != nil || y.obj != nil {
			unsup("pointer operand of %s", r.where(i))
		}
		return x.t, y.t, f(x.t, y.t), true
	}
	logic := func(f func(a, b *Term) *Term, store bool) *mach {
		_, _, v, ok := bin(f)
		if !ok {
			return nil
		}
		m.setZS(c, v)
		m.cf, m.of = c.F, c.F
		if store && !r.setDst(m, ops[0], aval{nil, v}, i) {
			return nil
		}
		return next
	}
	switch i.op {
	case "nop", "nopw", "nopl", "endbr64", "vzeroupper", "xchg,ax", "pause", "lfence", "sfence", "mfence", "prefetcht0", "prefetcht1", "prefetcht2", "prefetchnta":
		if i.op == "vzeroupper" {
			z := c.Const(8, 0)
			for k := range m.v {
				for j := 16; j < 32; j++ {
					m.v[k][j] = z
				}
			}
		}
		return next, nil
	case "int3", "ud2", "hlt":
		ex.events = append(ex.events, Event{"panic", i.op, r.where(i), m.st.pc})
		return nil, nil
	case "mov", "movabs":
		v, ok := r.src(m, ops[1], size, i)
		if !ok {
			return nil, nil
		}
		if !r.setDst(m, ops[0], v, i) {
			return nil, nil
		}
		return next, nil
	case "movzx", "movsx", "movsxd":
		v, ok := r.src(m, ops[1], size, i)
		if !ok {
			return nil, nil
		}
		if v.obj != nil {
			unsup("pointer in %s", r.where(i))
		}
		if i.op == "movzx" {
			v.t = c.Zext(v.t, 8*ops[0].size)
		} else {
			v.t = c.Sext(v.t, 8*ops[0].size)
		}
		r.setgp(m, ops[0], v)
		return next, nil
	case "lea":
		a := r.addr(m, ops[1])
		if ops[0].size != 8 {
			if a.obj != nil {
				unsup("lea of pointer")
			}
			a.t = c.Extract(a.t, 8*ops[0].size-1, 0)
		}
		r.setgp(m, ops[0], a)
		return next, nil
	case "add", "sub", "cmp":
		x, ok1 := r.src(m, ops[0], size, i)
		y, ok2 := r.src(m, ops[1], size, i)
		if !ok1 || !ok2 {
			return nil, nil
		}
		if y.obj != nil && i.op == "add" && x.obj == nil {
			x, y = y, x
		}
		if x.obj != nil || y.obj != nil {
			m.zf, m.sf, m.cf, m.of = nil, nil, nil, nil
			switch {
			case i.op == "add" && y.obj == nil:
				x.t = c.Add(x.t, y.t)
			case i.op == "sub" && y.obj == nil:
				x.t = c.Sub(x.t, y.t)
			case x.obj == y.obj:
				d := c.Sub(x.t, y.t)
				m.zf = c.Eq(x.t, y.t)
				m.cf = c.Ult(x.t, y.t)
				m.sf = c.Slt(x.t, y.t)
				m.of = c.F
				if i.op == "cmp" {
					return next, nil
				}
				x = aval{nil, d}
			default:
				unsup("pointer arithmetic in %s", r.where(i))
			}
			if i.op != "cmp" && !r.setDst(m, ops[0], x, i) {
				return nil, nil
			}
			return next, nil
		}
		var v *Term
		a, b := x.t, y.t
		if i.op == "add" {
			v = c.Add(a, b)
			m.cf = c.Ult(v, a)
			ov := c.Add(c.Sext(a, min(64, w+1)), c.Sext(b, min(64, w+1)))
			if w < 64 {
				m.of = c.BNot(c.Eq(ov, c.Sext(v, w+1)))
			} else {
				sa, sb, sv := sign(c, a), sign(c, b), sign(c, v)
				m.of = c.BAnd(c.Eq(sa, sb), c.BNot(c.Eq(sa, sv)))
			}
			m.setZS(c, v)
		} else {
			v = c.Sub(a, b)
			m.setZS(c, v)
			m.zf = c.Eq(a, b)
			m.cf = c.Ult(a, b)
			// sf != of exactly when a < b signed
			m.of = c.BNot(c.Eq(m.sf, c.Slt(a, b)))
		}
		if i.op != "cmp" && !r.setDst(m, ops[0], aval{nil, v}, i) {
			return nil, nil
		}
		return next, nil
	case "inc", "dec":
		x, ok := r.src(m, ops[0], size, i)
		if !ok {
			return nil, nil
		}
		d := int64(1)
		if i.op == "dec" {
			d = -1
		}
		x.t = c.AddC(x.t, d)
		if x.obj == nil {
			m.setZS(c, x.t)
		} else {
			m.zf, m.sf = nil, nil
		}
		m.of = nil
		if !r.setDst(m, ops[0], x, i) {
			return nil, nil
		}
		return next, nil
	case "and":
		// masking a pointer is not modelled
		return logic(c.And, true), nil
	case "or":
		return logic(c.Or, true), nil
	case "xor":
		if ops[0].kind == 'r' && ops[1].kind == 'r' && ops[0].reg == ops[1].reg && !ops[0].high && !ops[1].high {
			m.setZS(c, c.Const(w, 0))
			m.cf, m.of = c.F, c.F
			if size >= 4 {
				m.gp[ops[0].reg] = aval{nil, c.Const(64, 0)}
			} else {
				r.setgp(m, ops[0], aval{nil, c.Const(w, 0)})
			}
			return next, nil
		}
		return logic(c.Xor, true), nil
	case "test":
		return logic(c.And, false), nil
	case "not", "neg":
		x, ok := r.src(m, ops[0], size, i)
		if !ok {
			return nil, nil
		}
		if x.obj != nil {
			unsup("pointer in %s", r.where(i))
		}
		if i.op == "not" {
			x.t = c.Not(x.t)
		} else {
			m.cf = c.BNot(c.Eq(x.t, c.Const(w, 0)))
			x.t = c.Neg(x.t)
			m.setZS(c, x.t)
			m.of = nil
		}
		if !r.setDst(m, ops[0], x, i) {
			return nil, nil
		}
		return next, nil
	case "shl", "sal", "shr", "sar", "rol", "ror", "shlx", "shrx", "sarx":
		var x, k aval
		ok1, ok2 := true, true
		if strings.HasSuffix(i.op, "x") {
			x, ok1 = r.src(m, ops[1], size, i)
			k, ok2 = r.src(m, ops[2], size, i)
		} else {
			x, ok1 = r.src(m, ops[0], size, i)
			if len(ops) == 1 {
				k = aval{nil, c.Const(w, 1)}
			} else {
				k, ok2 = r.src(m, ops[1], size, i)
			}
		}
		if !ok1 || !ok2 {
			return nil, nil
		}
		if x.obj != nil || k.obj != nil {
			unsup("pointer in %s", r.where(i))
		}
		kb := 5
		if size == 8 {
			kb = 6
		}
		kt := c.Zext(c.Extract(k.t, kb-1, 0), max(w, 8))
		kt = c.Zext(kt, w)
		var v *Term
		switch strings.TrimSuffix(i.op, "x") {
		case "shl", "sal":
			v = c.Shift(OpShl, x.t, kt)
		case "shr":
			v = c.Shift(OpLshr, x.t, kt)
		case "sar":
			v = c.Shift(OpAshr, x.t, kt)
		case "rol", "ror":
			if !kt.isConst() {
				unsup("variable rotate")
			}
			n := kt.c % uint64(w)
			if i.op == "ror" {
				n = (uint64(w) - n) % uint64(w)
			}
			v = x.t
			if n > 0 {
				v = c.Concat(c.Extract(x.t, w-1-int(n), 0), c.Extract(x.t, w-1, w-int(n)))
			}
			m.cf, m.of = nil, nil
			if !r.setDst(m, ops[0], aval{nil, v}, i) {
				return nil, nil
			}
			return next, nil
		}
		if !strings.HasSuffix(i.op, "x") {
			if kt.isConst() && kt.c != 0 {
				m.setZS(c, v)
			} else if !kt.isConst() {
				m.zf, m.sf = nil, nil
			}
			m.cf, m.of = nil, nil
		}
		if !r.setDst(m, ops[0], aval{nil, v}, i) {
			return nil, nil
		}
		return next, nil
	case "imul":
		if len(ops) == 1 {
			unsup("one-operand imul")
		}
		a, b := ops[0], ops[1]
		if len(ops) == 3 {
			a, b = ops[1], ops[2]
		}
		x, ok1 := r.src(m, a, size, i)
		y, ok2 := r.src(m, b, size, i)
		if !ok1 || !ok2 {
			return nil, nil
		}
		m.zf, m.sf, m.cf, m.of = nil, nil, nil, nil
		r.setgp(m, ops[0], aval{nil, c.Mul(x.t, y.t)})
		return next, nil
	case "bsr", "lzcnt", "bsf", "tzcnt", "popcnt":
		x, ok := r.src(m, ops[1], size, i)
		if !ok {
			return nil, nil
		}
		var v *Term
		switch i.op {
		case "bsr":
			v = c.AddC(bitLen(c, x.t, w), -1)
			if ex.feasible(m.st.pc, c.Eq(x.t, c.Const(w, 0))) {
				v = c.Ite(c.Eq(x.t, c.Const(w, 0)), ex.fresh("bsr", w), v)
			}
		case "lzcnt":
			v = c.Sub(c.Const(w, uint64(w)), bitLen(c, x.t, w))
		case "bsf":
			v = trailZ(c, x.t, w)
			if ex.feasible(m.st.pc, c.Eq(x.t, c.Const(w, 0))) {
				v = c.Ite(c.Eq(x.t, c.Const(w, 0)), ex.fresh("bsf", w), v)
			}
		case "tzcnt":
			v = trailZ(c, x.t, w)
		case "popcnt":
			v = popcount(c, x.t, w)
		}
		m.sf, m.of, m.cf = nil, nil, nil
		m.zf = c.Eq(x.t, c.Const(w, 0))
		if i.op == "lzcnt" || i.op == "tzcnt" {
			m.cf = m.zf
			m.zf = c.Eq(v, c.Const(w, 0))
		}
		r.setgp(m, ops[0], aval{nil, v})
		return next, nil
	case "bswap":
		x := r.gpv(m, ops[0])
		var ps []*Term
		for k := 0; k < size; k++ {
			ps = append(ps, c.Extract(x.t, 8*k+7, 8*k))
		}
		r.setgp(m, ops[0], aval{nil, c.Concat(ps...)})
		return next, nil
	case "andn":
		x, ok1 := r.src(m, ops[1], size, i)
		y, ok2 := r.src(m, ops[2], size, i)
		if !ok1 || !ok2 {
			return nil, nil
		}
		v := c.And(c.Not(x.t), y.t)
		m.setZS(c, v)
		m.cf, m.of = c.F, c.F
		r.setgp(m, ops[0], aval{nil, v})
		return next, nil
	case "push":
		v, ok := r.src(m, ops[0], 8, i)
		if !ok {
			return nil, nil
		}
		if ops[0].kind == 'i' {
			v.t = c.Const(64, uint64(ops[0].imm))
		}
		m.gp[4].t = c.AddC(m.gp[4].t, -8)
		if !r.setDst(m, operand{kind: 'm', base: 4, index: -1, size: 8}, v, i) {
			return nil, nil
		}
		return next, nil
	case "pop":
		v, ok := r.src(m, operand{kind: 'm', base: 4, index: -1, size: 8}, 8, i)
		if !ok {
			return nil, nil
		}
		m.gp[4].t = c.AddC(m.gp[4].t, 8)
		r.setgp(m, ops[0], v)
		return next, nil
	case "xchg":
		if ops[0].kind == 'r' && ops[1].kind == 'r' {
			x, y := r.gpv(m, ops[0]), r.gpv(m, ops[1])
			r.setgp(m, ops[0], y)
			r.setgp(m, ops[1], x)
			return next, nil
		}
	case "cdqe":
		m.gp[0] = aval{nil, c.Sext(c.Extract(m.gp[0].t, 31, 0), 64)}
		return next, nil
	case "jmp":
		k, ok := r.at[uint64(ops[0].imm)]
		if ops[0].kind != 't' || !ok {
			unsup("jump in %s", r.where(i))
		}
		m.pc = k
		return next, nil
	}
	if strings.HasPrefix(i.op, "j") && len(ops) == 1 && ops[0].kind == 't' {
		k, ok := r.at[uint64(ops[0].imm)]
		if !ok {
			unsup("jump in %s", r.where(i))
		}
		cd := c.Canon(r.cond(m, i.op[1:], i))
		if cd.isConst() {
			if cd.isTrue() {
				m.pc = k
			}
			return next, nil
		}
		tf, ff := ex.feasible(m.st.pc, cd), ex.feasible(m.st.pc, c.BNot(cd))
		switch {
		case tf && ff:
			o := *m
			o.st = ex.fork(m.st)
			o.st.pc = c.BAnd(m.st.pc, cd)
			o.pc = k
			m.st.pc = c.BAnd(m.st.pc, c.BNot(cd))
			return m, &o
		case tf:
			m.pc = k
			return m, nil
		case ff:
			return m, nil
		}
		return nil, nil
	}
	if strings.HasPrefix(i.op, "set") && len(ops) == 1 {
		v := c.B2BV(c.Canon(r.cond(m, i.op[3:], i)), 8)
		if !r.setDst(m, ops[0], aval{nil, v}, i) {
			return nil, nil
		}
		return next, nil
	}
	if strings.HasPrefix(i.op, "cmov") {
		cd := c.Canon(r.cond(m, i.op[4:], i))
		x := r.gpv(m, ops[0])
		y, ok := r.src(m, ops[1], size, i)
		if !ok {
			return nil, nil
		}
		if cd.isTrue() {
			x = y
		} else if !cd.isFalse() {
			if x.obj != y.obj {
				unsup("pointer select in %s", r.where(i))
			}
			x.t = c.Canon(c.Ite(cd, y.t, x.t))
		}
		r.setgp(m, ops[0], x)
		return next, nil
	}
	if r.vector(m, i) {
		return next, nil
	}
	return nil, nil
}

func sign(c *Ctx, t *Term) *Term { return c.Extract(t, t.w-1, t.w-1) }

func bitLen(c *Ctx, x *Term, w int) *Term { return bitLenW(c, x, w) }

// bitLenW: number of significant bits of x, as a w-bit term.
func bitLenW(c *Ctx, x *Term, w int) *Term {
	r := c.Const(w, 0)
	for i := 0; i < x.w; i++ {
		r = c.Ite(c.Eq(c.Extract(x, i, i), c.Const(1, 1)), c.Const(w, uint64(i+1)), r)
	}
	return r
}

func leadZ(c *Ctx, x *Term, w int) *Term {
	r := c.Const(w, uint64(x.w))
	for i := 0; i < x.w; i++ {
		r = c.Ite(c.Eq(c.Extract(x, i, i), c.Const(1, 1)), c.Const(w, uint64(x.w-1-i)), r)
	}
	return r
}

func trailZ(c *Ctx, x *Term, w int) *Term {
	r := c.Const(w, uint64(x.w))
	for i := x.w - 1; i >= 0; i-- {
		r = c.Ite(c.Eq(c.Extract(x, i, i), c.Const(1, 1)), c.Const(w, uint64(i)), r)
	}
	return r
}

func popcount(c *Ctx, x *Term, w int) *Term {
	r := c.Const(w, 0)
	for i := 0; i < x.w; i++ {
		r = c.Add(r, c.Zext(c.Extract(x, i, i), w))
	}
	return r
}

var _ = bytes.NewReader
