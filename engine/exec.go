package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Event struct {
	kind  string // panic, oob, limit, exit
	what  string
	where string
	g     *Term
}

type Outcome struct {
	st  *State
	ret Val
}

type Intrinsic func(ex *Exec, st *State, args []Val, call ssa.Instruction) (*State, Val)

type Exec struct {
	c        *Ctx
	st       *Stats
	P        *Program
	sizes    types.Sizes
	intW     int
	ptrSize  int64
	initMem  map[*Obj]*ObjState
	globals  map[*ssa.Global]*Obj
	initDone map[*ssa.Package]int
	initFail map[*ssa.Package]string
	pools    map[*Obj]map[uint64]*Obj
	events   []Event
	nilPtr   *PtrV
	nilSlice *SliceV
	emptyStr *StrV
	strObjs  map[string]*Obj
	intr     map[string]Intrinsic
	feat     map[string]*Term // CPU feature -> value (default: fresh variable)
	nobj     int
	gens     int
	nvar     int
	depth    int
	steps    int64
	maxSteps int64
	noReturn bool
	inInit   int
	recov    int
	needs    map[string]*Term // ISA extension -> guard under which it is executed
	isaLog   func(ext, where string, g *Term)
	solverMS int
	feasSat  time.Duration
	forks    int // branches both ways of which were possible
	feasMiss int // feasibility questions the solver could not answer
	trace    bool
	born     int
	extents  bool // accesses of Go code outside their object are events
	allocCap int  // extra capacity policy for append (0: exact)
}

func NewExec(P *Program, c *Ctx) *Exec {
	ex := &Exec{c: c, st: c.st, P: P, initMem: map[*Obj]*ObjState{}, globals: map[*ssa.Global]*Obj{},
		initDone: map[*ssa.Package]int{}, initFail: map[*ssa.Package]string{}, strObjs: map[string]*Obj{}, intr: map[string]Intrinsic{},
		feat: map[string]*Term{}, needs: map[string]*Term{}, maxSteps: 20_000_000, solverMS: 10000}
	ex.sizes = types.SizesFor("gc", P.arch)
	ex.ptrSize = ex.sizes.Sizeof(types.Typ[types.Uintptr])
	ex.intW = int(ex.ptrSize) * 8
	z := c.Const(64, 0)
	ex.nilPtr = &PtrV{nil, z}
	ex.nilSlice = &SliceV{nil, z, z, z}
	ex.emptyStr = &StrV{nil, z, z}
	stdIntrinsics(ex)
	syncIntrinsics(ex)
	floatIntrinsics(ex)
	return ex
}

func (ex *Exec) NewState() *State {
	return &State{pc: ex.c.T, mem: map[*Obj]*ObjState{}, gen: ex.newGen()}
}

func (ex *Exec) fresh(prefix string, w int) *Term {
	ex.nvar++
	return ex.c.Var(fmt.Sprintf("%s#%d", prefix, ex.nvar), w)
}

// ---- feasibility ----

func conjs(t *Term) []*Term {
	if t.op == OpBAnd {
		return t.args
	}
	if t.isTrue() {
		return nil
	}
	return []*Term{t}
}

// feasible: can pc and cond hold together? Errs on the side of true.
func (ex *Exec) feasible(pc, cond *Term) bool {
	c := ex.c
	all := c.BAnd(pc, cond)
	if all.isFalse() {
		return false
	}
	if all.isTrue() {
		return true
	}
	if r, ok := ex.c.feas[all]; ok {
		return r
	}
	s := c.sigOf(all)
	r := true
	hit := false
	var as []uint64
	if len(c.assume) > 0 {
		as = c.sigOf(c.naryList(OpBAnd, c.assume))
	}
	for j := range s {
		if s[j] != 0 && (as == nil || as[j] != 0) {
			hit = true
			break
		}
	}
	if !hit {
		q := append([]*Term{}, conjs(cond)...)
		q = append(q, relevant(append(append([]*Term{}, conjs(pc)...), c.assume...), cond)...)
		ms := ex.solverMS
		if ex.feasMiss >= 2 {
			ms = min(ms, 2000)
		}
		t0 := time.Now()
		res, _ := c.sv.Check(c, q, ms, true)
		switch res {
		case Unsat:
			r = false
		case Sat:
			// a loop whose end the abstraction hides
			if ex.feasSat += time.Since(t0); ex.feasSat > 20*time.Second && c.dec == nil {
				unsup("too many undecided branch conditions")
			}
		case Unknown:
			if ex.feasMiss++; ex.feasMiss >= 8 && c.dec == nil {
				unsup("undecided branch conditions")
			}
		}
	}
	ex.c.feas[all] = r
	return r
}

func (ex *Exec) event(kind, what string, g *Term, in ssa.Instruction) {
	if g.isFalse() {
		return
	}
	if ex.recov > 0 {
		unsup("panic under recover")
	}
	where := ""
	if in != nil {
		p := in.Pos()
		f := in.Parent()
		if f != nil {
			where = f.String()
			if p.IsValid() {
				q := f.Prog.Fset.Position(p)
				where += fmt.Sprintf(" (%s:%d)", shortPath(q.Filename), q.Line)
			}
		}
	}
	ex.events = append(ex.events, Event{kind, what, where, g})
}

func shortPath(p string) string {
	if i := strings.Index(p, "/repo/"); i >= 0 {
		return p[i+6:]
	}
	if i := strings.LastIndex(p, "/"); i >= 0 {
		return p[i+1:]
	}
	return p
}

// require adds cond to the path condition; when it can fail, an event is recorded. Returns
// false when the path cannot continue.
func (ex *Exec) require(st *State, cond *Term, kind, what string, in ssa.Instruction) bool {
	c := ex.c
	ex.st.GoChecks++
	if cond.isTrue() {
		return true
	}
	cond = c.Canon(cond)
	if cond.isTrue() {
		return true
	}
	for _, x := range conjs(st.pc) {
		if x == cond {
			return true
		}
	}
	n := c.BNot(cond)
	if !ex.feasible(st.pc, n) {
		return true
	}
	ex.event(kind, what, c.BAnd(st.pc, n), in)
	if cond.isFalse() {
		return false
	}
	st.pc = c.BAnd(st.pc, cond)
	if st.pc.isFalse() {
		return false
	}
	return ex.feasible(st.pc, c.T)
}

// inBounds: bytes off..off+n lie in the object. Go's own checks do not cover accesses through
// unsafe pointers, and a slice may be extended into its spare capacity.
func (ex *Exec) inBounds(st *State, o *Obj, off, n *Term, what string, in ssa.Instruction) bool {
	if !ex.extents || n.isConst() && n.c == 0 {
		return true
	}
	if o.csize >= 0 && off.isConst() && n.isConst() && off.c+n.c <= uint64(o.csize) {
		return true
	}
	c := ex.c
	ok := c.BAnd(c.Ule(c.Add(off, n), o.size), c.Ule(off, c.Const(64, 1<<48)))
	if !n.isConst() {
		ok = c.BOr(ok, c.Eq(n, c.Const(64, 0)))
	}
	return ex.require(st, ok, "oob", what+" outside "+o.name, in)
}

// ---- function information ----

type finfo struct {
	fn    *ssa.Function
	num   map[ssa.Value]int
	n     int
	order [][]int // block index -> position in a weak topological order
	live  []map[int]bool
}

// wto gives every block its position in a weak topological order: blocks of a loop come before
// what follows the loop, and the head of a loop after its body, so that one round of a loop is
// finished before the next begins.
func wto(fn *ssa.Function) [][]int {
	nb := len(fn.Blocks)
	pos := make([][]int, nb)
	var rec func(in []bool, entry int, prefix []int)
	rec = func(in []bool, entry int, prefix []int) {
		idx, low := make([]int, nb), make([]int, nb)
		on := make([]bool, nb)
		var stk []int
		var comps [][]int // in reverse topological order
		n := 0
		var dfs func(v int)
		dfs = func(v int) {
			n++
			idx[v], low[v] = n, n
			stk = append(stk, v)
			on[v] = true
			for _, s := range fn.Blocks[v].Succs {
				w := s.Index
				if !in[w] {
					continue
				}
				if idx[w] == 0 {
					dfs(w)
					low[v] = min(low[v], low[w])
				} else if on[w] {
					low[v] = min(low[v], idx[w])
				}
			}
			if low[v] == idx[v] {
				var cp []int
				for {
					w := stk[len(stk)-1]
					stk = stk[:len(stk)-1]
					on[w] = false
					cp = append(cp, w)
					if w == v {
						break
					}
				}
				comps = append(comps, cp)
			}
		}
		dfs(entry)
		for v := range in {
			if in[v] && idx[v] == 0 {
				dfs(v)
			}
		}
		for i, cp := range comps {
			at := append(append([]int{}, prefix...), len(comps)-i)
			head := cp[len(cp)-1] // visited first
			if len(cp) == 1 {
				pos[head] = at
				continue
			}
			pos[head] = append(append([]int{}, at...), 1<<30)
			sub := make([]bool, nb)
			first := -1
			for _, w := range cp {
				sub[w] = w != head
			}
			for _, s := range fn.Blocks[head].Succs {
				if sub[s.Index] {
					first = s.Index
					break
				}
			}
			rec(sub, first, at)
		}
	}
	if nb > 0 {
		in := make([]bool, nb)
		for i := range in {
			in[i] = true
		}
		rec(in, 0, nil)
	}
	return pos
}

func before(a, b []int) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

func (P *Program) info(fn *ssa.Function) *finfo {
	if v, ok := P.finfos.Load(fn); ok {
		return v.(*finfo)
	}
	fi := &finfo{fn: fn, num: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		fi.num[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	nb := len(fn.Blocks)
	fi.order = wto(fn)
	// liveness
	fi.live = make([]map[int]bool, nb)
	for i := range fi.live {
		fi.live[i] = map[int]bool{}
	}
	for changed := true; changed; {
		changed = false
		for bi := nb - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			l := map[int]bool{}
			for _, s := range b.Succs {
				for v := range fi.live[s.Index] {
					l[v] = true
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(l, fi.num[ph])
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for pi, p := range s.Preds {
						if p == b {
							if k, ok := fi.num[ph.Edges[pi]]; ok {
								l[k] = true
							}
						}
					}
				}
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if v, ok := in.(ssa.Value); ok {
					if _, isPhi := in.(*ssa.Phi); !isPhi {
						delete(l, fi.num[v])
					}
				}
				if _, isPhi := in.(*ssa.Phi); isPhi {
					l[fi.num[in.(ssa.Value)]] = true
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						if k, ok := fi.num[*op]; ok {
							l[k] = true
						}
					}
				}
			}
			if len(l) != len(fi.live[bi]) {
				fi.live[bi] = l
				changed = true
			}
		}
	}
	P.finfos.Store(fn, fi)
	return fi
}

// ---- execution ----

type deferred struct {
	pc   *Term
	call *ssa.CallCommon
	fn   Val
	args []Val
	in   ssa.Instruction
}

type frame struct {
	fi     *finfo
	fn     *ssa.Function
	defers []deferred
	visits []int
}

type pend struct {
	st  *State
	env []Val
}

func (ex *Exec) constVal(k *ssa.Const) Val {
	return ex.constOf(k.Value, k.Type())
}

func (ex *Exec) constOf(v constant.Value, t types.Type) Val {
	if v == nil {
		return ex.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ex.c.Bool(constant.BoolVal(v))
		case u.Info()&types.IsInteger != 0 || u.Kind() == types.UnsafePointer:
			v = constant.ToInt(v)
			w := ex.width(t)
			if x, ok := constant.Uint64Val(v); ok {
				return ex.c.Const(w, x)
			}
			x, _ := constant.Int64Val(v)
			return ex.c.Const(w, uint64(x))
		case u.Info()&types.IsString != 0:
			return ex.strConst(constant.StringVal(v))
		}
		if u.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(v)
			return ex.floatConst(f, floatWidth(t))
		}
		return &OpaqueV{"constant of type " + t.String()}
	case *types.TypeParam:
		unsup("type parameter constant")
	}
	return &OpaqueV{"constant of type " + t.String()}
}

func (ex *Exec) strConst(s string) *StrV {
	if s == "" {
		return ex.emptyStr
	}
	o, ok := ex.strObjs[s]
	if !ok {
		bs := make([]*Term, len(s))
		for i := range bs {
			bs[i] = ex.c.Const(8, uint64(s[i]))
		}
		o = ex.newObj(fmt.Sprintf("string %.20q", s), ex.c.Const(64, uint64(len(s))), &prefixBase{pre: bs})
		o.ro = true
		ex.strObjs[s] = o
	}
	return &StrV{o, ex.c.Const(64, 0), ex.c.Const(64, uint64(len(s)))}
}

func (ex *Exec) width(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		unsup("width of %s", t)
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Int64, types.Uint64:
		return 64
	case types.Int, types.Uint, types.Uintptr, types.UntypedInt:
		return ex.intW
	}
	unsup("width of %s", t)
	return 0
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func (ex *Exec) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return ex.nilPtr
		case u.Kind() == types.UntypedNil:
			return ex.nilPtr
		case u.Info()&types.IsString != 0:
			return ex.emptyStr
		case u.Info()&types.IsBoolean != 0:
			return ex.c.F
		case u.Info()&types.IsInteger != 0:
			return ex.c.Const(ex.width(t), 0)
		case u.Info()&types.IsFloat != 0:
			return ex.floatConst(0, floatWidth(t))
		}
		return &OpaqueV{"zero of " + t.String()}
	case *types.Pointer:
		return ex.nilPtr
	case *types.Slice:
		return ex.nilSlice
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = ex.zero(u.Field(i).Type())
		}
		return &StructV{f}
	case *types.Array:
		if u.Len() > 1<<16 {
			unsup("large array value")
		}
		e := make([]Val, u.Len())
		z := ex.zero(u.Elem())
		for i := range e {
			e[i] = z
		}
		return &ArrV{e}
	case *types.Signature:
		return &FuncV{}
	case *types.Interface:
		return &IfaceV{}
	case *types.Map, *types.Chan:
		return &MapV{}
	case *types.Tuple:
		e := make([]Val, u.Len())
		for i := range e {
			e[i] = ex.zero(u.At(i).Type())
		}
		return &TupleV{e}
	}
	unsup("zero of %s", t)
	return nil
}

func (ex *Exec) globalObj(g *ssa.Global) *Obj {
	o, ok := ex.globals[g]
	if !ok {
		et := g.Type().Underlying().(*types.Pointer).Elem()
		o = ex.newObj(g.String(), ex.c.Const(64, uint64(ex.sizes.Sizeof(et))), zeroBase{})
		o.glob = g
		o.typ = et
		ex.globals[g] = o
		if g.Pkg != nil && g.Pkg.Pkg.Path() == "golang.org/x/sys/cpu" && g.Name() == "X86" {
			ex.cpuGlobal(o, et)
		}
	}
	return o
}

// cpuGlobal makes every feature flag of cpu.X86 a symbolic boolean.
func (ex *Exec) cpuGlobal(o *Obj, et types.Type) {
	s := et.Underlying().(*types.Struct)
	var fs []*types.Var
	for i := 0; i < s.NumFields(); i++ {
		fs = append(fs, s.Field(i))
	}
	offs := ex.sizes.Offsetsof(fs)
	bs := make([]*Term, ex.sizes.Sizeof(et))
	for i := range bs {
		bs[i] = ex.c.Const(8, 0)
	}
	for i, f := range fs {
		if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			bs[offs[i]] = ex.c.B2BV(ex.Feature(strings.TrimPrefix(f.Name(), "Has")), 8)
		}
	}
	o.base = &prefixBase{pre: bs}
	ex.initMem[o] = emptyState
}

// Feature is the symbolic availability of a CPU feature.
func (ex *Exec) Feature(name string) *Term {
	if t, ok := ex.feat[name]; ok {
		return t
	}
	t := ex.c.Var("cpu."+name, 0)
	ex.feat[name] = t
	return t
}

// ensureInit runs the initialiser of the global's package (lazily).
func (ex *Exec) ensureInit(g *ssa.Global) {
	if g.Pkg != nil {
		ex.initPkg(g.Pkg)
	}
}

func (ex *Exec) initPkg(p *ssa.Package) {
	if ex.initDone[p] != 0 {
		return
	}
	ex.initDone[p] = 1
	path := p.Pkg.Path()
	if path == "golang.org/x/sys/cpu" || path == "runtime" || path == "os" || path == "unsafe" || strings.HasPrefix(path, "internal/") || path == "syscall" {
		ex.initDone[p] = 2
		ex.initFail[p] = "its initialiser is not executed"
		return
	}
	p.Build()
	f := p.Func("init")
	if f == nil {
		return
	}
	st := ex.NewState()
	sv, se := ex.noReturn, ex.events
	ex.inInit++
	ex.events = nil
	func() {
		defer func() {
			ex.inInit--
			if r := recover(); r != nil {
				if u, ok := r.(Unsupported); ok {
					// keep what was initialised; the rest is unknown
					ex.P.initNote(path + ": " + u.why)
					ex.initFail[p] = u.why
					if ex.P.isRepo(p) {
						panic(r)
					}
					return
				}
				panic(r)
			}
		}()
		ns, _ := ex.call(st, f, nil, nil)
		if ns != nil {
			st = ns
		}
	}()
	if len(ex.events) > 0 && ex.P.isRepo(p) {
		se = append(se, ex.events...)
	}
	ex.noReturn, ex.events = sv, se
	for o, s := range st.mem {
		if o.glob != nil && o.glob.Pkg != p {
			continue
		}
		ex.initMem[o] = s
	}
	ex.initDone[p] = 2
}

// callStates merges several outcomes.
func (ex *Exec) mergeOutcomes(os []Outcome) (*State, Val) {
	if len(os) == 0 {
		return nil, nil
	}
	st, v := os[0].st, os[0].ret
	for _, o := range os[1:] {
		n, g := ex.merge(st, o.st)
		if v != nil {
			v = ex.mergeVal(g, v, o.ret)
		}
		st = n
	}
	return st, v
}

// call executes fn; returns a nil state when it never returns normally.
func (ex *Exec) call(st *State, fn *ssa.Function, args []Val, in ssa.Instruction) (*State, Val) {
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if f, ok := ex.intr[name]; ok {
		return f(ex, st, args, in)
	}
	if fn.Name() == "init" && fn.Synthetic == "package initializer" && fn.Pkg != nil && ex.inInit > 0 && ex.initDone[fn.Pkg] != 1 {
		// imported package's initialiser: run lazily, except for the repository's own
		if ex.P.isRepo(fn.Pkg) {
			ex.initPkg(fn.Pkg)
		}
		return st, nil
	}
	if fn.Pkg != nil {
		fn.Pkg.Build()
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		fn.Origin().Pkg.Build()
	}
	if fn.Blocks == nil {
		return ex.callAsm(st, fn, args, in)
	}
	ex.depth++
	defer func() { ex.depth-- }()
	if ex.depth > 200 {
		unsup("call depth")
	}
	ex.st.Calls++
	if ex.inInit == 0 {
		ex.st.Funcs[name] = true
	}
	fi := ex.P.info(fn)
	fr := &frame{fi: fi, fn: fn, visits: make([]int, len(fn.Blocks))}
	env := make([]Val, fi.n)
	i := 0
	for range fn.Params {
		env[i] = args[i]
		i++
	}
	for ; i < len(args) && i < len(fn.Params)+len(fn.FreeVars); i++ {
		env[i] = args[i]
	}
	pending := map[int][]pend{}
	pending[0] = []pend{{st, env}}
	var outs []Outcome
	for len(pending) > 0 {
		best := -1
		for b := range pending {
			if best < 0 || before(fi.order[b], fi.order[best]) {
				best = b
			}
		}
		ps := pending[best]
		delete(pending, best)
		cur := ps[0]
		for _, p := range ps[1:] {
			n, g := ex.merge(cur.st, p.st)
			live := fi.live[best]
			e := make([]Val, fi.n)
			for k := 0; k < fi.n; k++ {
				if !live[k] {
					continue
				}
				x, y := cur.env[k], p.env[k]
				if x == nil || y == nil {
					continue
				}
				e[k] = ex.mergeVal(g, x, y)
			}
			cur = pend{n, e}
		}
		fr.visits[best]++
		if fr.visits[best] > 2_000_000 {
			unsup("loop limit")
		}
		ex.runBlock(fr, fn.Blocks[best], cur, pending, &outs)
	}
	return ex.mergeOutcomes(outs)
}

// edge moves a state along a control-flow edge, evaluating phis.
func (ex *Exec) edge(fr *frame, from, to *ssa.BasicBlock, p pend, pending map[int][]pend) {
	pi := -1
	for i, q := range to.Preds {
		if q == from {
			pi = i
			break
		}
	}
	var idx []int
	var vals []Val
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		idx = append(idx, fr.fi.num[ph])
		vals = append(vals, ex.get(fr, p.env, ph.Edges[pi]))
	}
	for i, k := range idx {
		p.env[k] = vals[i]
	}
	pending[to.Index] = append(pending[to.Index], p)
}

func (ex *Exec) get(fr *frame, env []Val, v ssa.Value) Val {
	if k, ok := fr.fi.num[v]; ok {
		if env[k] == nil {
			unsup("undefined value %s in %s", v.Name(), fr.fn)
		}
		return env[k]
	}
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Global:
		return &PtrV{ex.globalObj(x), ex.c.Const(64, 0)}
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return &FuncV{name: "builtin " + x.Name()}
	}
	unsup("operand %T", v)
	return nil
}

func (ex *Exec) runBlock(fr *frame, b *ssa.BasicBlock, p pend, pending map[int][]pend, outs *[]Outcome) {
	env, st := p.env, p.st
	c := ex.c
	for _, in := range b.Instrs {
		ex.steps++
		ex.st.Instr++
		if ex.steps > ex.maxSteps {
			unsup("step limit")
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			ex.edge(fr, b, b.Succs[0], pend{st, env}, pending)
			return
		case *ssa.If:
			cond := ex.get(fr, env, x.Cond).(*Term)
			cond = c.Canon(cond)
			if cond.isConst() {
				k := 1
				if cond.isTrue() {
					k = 0
				}
				ex.edge(fr, b, b.Succs[k], pend{st, env}, pending)
				return
			}
			tf := ex.feasible(st.pc, cond)
			ff := ex.feasible(st.pc, c.BNot(cond))
			if tf && ff && ex.inInit == 0 {
				ex.forks++
			}
			if tf && ff && c.dec != nil && ex.inInit == 0 {
				tf = c.decide(cond)
				ff = !tf
			}
			if tf && ff {
				s2 := ex.fork(st)
				e2 := append([]Val(nil), env...)
				st.pc = c.BAnd(st.pc, cond)
				s2.pc = c.BAnd(s2.pc, c.BNot(cond))
				ex.edge(fr, b, b.Succs[0], pend{st, env}, pending)
				ex.edge(fr, b, b.Succs[1], pend{s2, e2}, pending)
			} else if tf {
				ex.edge(fr, b, b.Succs[0], pend{st, env}, pending)
			} else if ff {
				ex.edge(fr, b, b.Succs[1], pend{st, env}, pending)
			}
			return
		case *ssa.Return:
			var v Val
			switch len(x.Results) {
			case 0:
			case 1:
				v = ex.get(fr, env, x.Results[0])
			default:
				e := make([]Val, len(x.Results))
				for i, r := range x.Results {
					e[i] = ex.get(fr, env, r)
				}
				v = &TupleV{e}
			}
			*outs = append(*outs, Outcome{st, v})
			return
		case *ssa.Panic:
			ex.event("panic", "explicit panic", st.pc, in)
			return
		case *ssa.Store:
			st = ex.withPtr(st, ex.get(fr, env, x.Addr), in, func(st *State, q *PtrV) *State {
				if !ex.inBounds(st, q.obj, q.off, c.Const(64, uint64(ex.sizes.Sizeof(x.Val.Type()))), "write", in) {
					return nil
				}
				ex.store(st, q.obj, q.off, x.Val.Type(), ex.get(fr, env, x.Val))
				return st
			})
		case *ssa.Defer:
			d := deferred{pc: st.pc, call: &x.Call, in: in}
			d.fn = ex.callee(fr, env, &x.Call)
			d.args = ex.callArgs(fr, env, &x.Call)
			if !x.Call.IsInvoke() {
				if f, ok := d.fn.(*FuncV); ok && f.fn != nil && usesRecover(f.fn) {
					ex.recov++
				}
			}
			fr.defers = append(fr.defers, d)
		case *ssa.RunDefers:
			ds := fr.defers
			for i := len(ds) - 1; i >= 0 && st != nil; i-- {
				d := ds[i]
				_, r, _ := ex.splitPC(d.pc, st.pc)
				if !r.isTrue() {
					unsup("conditional defer")
				}
				st, _ = ex.dispatch(st, d.call, d.fn, d.args, d.in)
			}
		case *ssa.MapUpdate:
			if st = ex.mapUpdate(st, ex.get(fr, env, x.Map), ex.get(fr, env, x.Key), ex.get(fr, env, x.Value), false, in); st == nil {
				return
			}
		case *ssa.Go, *ssa.Send, *ssa.Select:
			unsup("%T in %s", in, fr.fn)
		case *ssa.Call:
			fv := ex.callee(fr, env, &x.Call)
			args := ex.callArgs(fr, env, &x.Call)
			var v Val
			st, v = ex.dispatch(st, &x.Call, fv, args, in)
			if st == nil {
				return
			}
			if v == nil {
				v = &TupleV{}
			}
			env[fr.fi.num[x]] = ex.canonVal(v)
		default:
			v, ok := in.(ssa.Value)
			if !ok {
				unsup("%T", in)
			}
			var r Val
			st, r = ex.eval(fr, env, st, v, in)
			if st == nil {
				return
			}
			env[fr.fi.num[v]] = r
		}
		if st == nil {
			return
		}
	}
}

func usesRecover(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

func (ex *Exec) canonVal(v Val) Val {
	switch x := v.(type) {
	case *Term:
		return ex.c.Canon(x)
	case *TupleV:
		e := make([]Val, len(x.e))
		for i, y := range x.e {
			e[i] = ex.canonVal(y)
		}
		return &TupleV{e}
	}
	return v
}

func (ex *Exec) callee(fr *frame, env []Val, cc *ssa.CallCommon) Val {
	return ex.get(fr, env, cc.Value)
}

func (ex *Exec) callArgs(fr *frame, env []Val, cc *ssa.CallCommon) []Val {
	args := make([]Val, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = ex.get(fr, env, a)
	}
	return args
}

// fanout runs f for every alternative of a union value and merges the results.
func (ex *Exec) fanout(st *State, v Val, f func(st *State, v Val) (*State, Val)) (*State, Val) {
	u, ok := v.(*UnionV)
	if !ok {
		return f(st, v)
	}
	var outs []Outcome
	for i := range u.vs {
		if !ex.feasible(st.pc, u.gs[i]) {
			continue
		}
		s := ex.fork(st)
		s.pc = ex.c.BAnd(s.pc, u.gs[i])
		if s.pc.isFalse() {
			continue
		}
		ns, r := f(s, u.vs[i])
		if ns != nil {
			outs = append(outs, Outcome{ns, r})
		}
	}
	return ex.mergeOutcomes(outs)
}

func (ex *Exec) withPtr(st *State, v Val, in ssa.Instruction, f func(st *State, p *PtrV) *State) *State {
	st, _ = ex.fanout(st, v, func(st *State, v Val) (*State, Val) {
		p, ok := v.(*PtrV)
		if !ok {
			unsup("pointer operand %T at %v", v, in)
		}
		if p.obj == nil {
			ex.event("panic", "nil pointer dereference", st.pc, in)
			return nil, nil
		}
		return f(st, p), nil
	})
	return st
}

func (ex *Exec) dispatch(st *State, cc *ssa.CallCommon, fv Val, args []Val, in ssa.Instruction) (*State, Val) {
	if cc.IsInvoke() {
		return ex.fanout(st, fv, func(st *State, v Val) (*State, Val) {
			i, ok := v.(*IfaceV)
			if !ok {
				unsup("invoke on %T", v)
			}
			if i.t == nil {
				ex.event("panic", "nil interface method call", st.pc, in)
				return nil, nil
			}
			if s, ok := i.v.(*OpaqueV); ok {
				_ = s
				if f, ok := ex.intr["invoke "+cc.Method.Name()]; ok {
					return f(ex, st, append([]Val{i.v}, args...), in)
				}
				unsup("invoke %s on opaque value", cc.Method.Name())
			}
			fn := ex.P.prog.LookupMethod(i.t, cc.Method.Pkg(), cc.Method.Name())
			if fn == nil {
				unsup("method %s of %s", cc.Method.Name(), i.t)
			}
			return ex.call(st, fn, append([]Val{i.v}, args...), in)
		})
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return ex.builtin(st, b, cc, args, in)
	}
	return ex.fanout(st, fv, func(st *State, v Val) (*State, Val) {
		return ex.callVal(st, v, args, in)
	})
}

func (ex *Exec) callVal(st *State, v Val, args []Val, in ssa.Instruction) (*State, Val) {
	f, ok := v.(*FuncV)
	if !ok {
		unsup("call of %T", v)
	}
	if f.stub != nil {
		return ex.mergeOutcomes(f.stub(ex, st, args))
	}
	if f.fn == nil {
		ex.event("panic", "nil function call", st.pc, in)
		return nil, nil
	}
	if len(f.bind) > 0 {
		args = append(append([]Val{}, args...), f.bind...)
	}
	return ex.call(st, f.fn, args, in)
}

var _ = token.ADD
