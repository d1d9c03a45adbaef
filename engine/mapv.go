package main

// Maps, ranges over strings, floating point as far as it is needed, and package sync.

import (
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// MapV is a map; its entries are a list in the cell of its object, newest first.
type MapV struct{ obj *Obj } // nil obj: nil map

type mapEnt struct {
	g    *Term // the entry exists under this condition
	k, v Val
	del  bool
	next *mapEnt
	n    int
}

func (e *mapEnt) len() int {
	if e == nil {
		return 0
	}
	return e.n
}

func pushEnt(g *Term, k, v Val, del bool, next *mapEnt) *mapEnt {
	if g.isFalse() {
		return next
	}
	return &mapEnt{g, k, v, del, next, next.len() + 1}
}

func (ex *Exec) mergeEnt(g *Term, a, b *mapEnt) *mapEnt {
	x, y := a, b
	var as, bs []*mapEnt
	for x != y {
		if x.len() >= y.len() {
			as = append(as, x)
			x = x.next
		} else {
			bs = append(bs, y)
			y = y.next
		}
	}
	r := x
	for i := len(as) - 1; i >= 0; i-- {
		r = pushEnt(ex.c.BAnd(g, as[i].g), as[i].k, as[i].v, as[i].del, r)
	}
	for i := len(bs) - 1; i >= 0; i-- {
		r = pushEnt(ex.c.BAnd(ex.c.BNot(g), bs[i].g), bs[i].k, bs[i].v, bs[i].del, r)
	}
	return r
}

// entEq: no entry was added to either since they were the same.
func (ex *Exec) entEq(a, b *mapEnt) *Term {
	r := ex.c.T
	for a != b {
		if a.len() >= b.len() {
			r = ex.c.BAnd(r, ex.c.BNot(a.g))
			a = a.next
		} else {
			r = ex.c.BAnd(r, ex.c.BNot(b.g))
			b = b.next
		}
	}
	return r
}

func (ex *Exec) makeMap(st *State) *MapV {
	o := ex.newObj("map", ex.c.Const(64, 8), zeroBase{})
	o.born = &ex.born
	st.mem[o] = &ObjState{gen: st.gen}
	return &MapV{o}
}

func (ex *Exec) entries(st *State, m *MapV) *mapEnt {
	if m.obj == nil {
		return nil
	}
	e, _ := ex.ostate(st, m.obj).cells[0].(*mapEnt)
	return e
}

func (ex *Exec) setEntries(st *State, m *MapV, e *mapEnt) {
	s := ex.own(st, m.obj)
	if s.cells == nil {
		s.cells = map[int64]Val{}
	}
	s.cells[0] = e
}

func (ex *Exec) mapLookup(st *State, m *MapV, k Val, x *ssa.Lookup, in ssa.Instruction) (*State, Val) {
	c := ex.c
	z := ex.zero(x.X.Type().Underlying().(*types.Map).Elem())
	var es []*mapEnt
	for e := ex.entries(st, m); e != nil; e = e.next {
		es = append(es, e)
	}
	r, found := z, c.F
	for i := len(es) - 1; i >= 0; i-- {
		e := es[i]
		g := c.BAnd(e.g, ex.valEq(st, k, e.k))
		if e.del {
			r, found = ex.mergeVal(g, z, r), c.BAnd(c.BNot(g), found)
		} else {
			r, found = ex.mergeVal(g, e.v, r), c.BOr(g, found)
		}
	}
	if x.CommaOk {
		return st, &TupleV{[]Val{r, c.Canon(found)}}
	}
	return st, r
}

func (ex *Exec) mapUpdate(st *State, mv, k, v Val, del bool, in ssa.Instruction) *State {
	st, _ = ex.fanout(st, mv, func(st *State, mv Val) (*State, Val) {
		m, ok := mv.(*MapV)
		if !ok {
			unsup("update of %T", mv)
		}
		if m.obj == nil {
			if del {
				return st, nil
			}
			ex.event("panic", "assignment to entry in nil map", st.pc, in)
			return nil, nil
		}
		ex.setEntries(st, m, pushEnt(ex.c.T, k, v, del, ex.entries(st, m)))
		return st, nil
	})
	return st
}

// mapLen is decided only when it is clear which keys are present.
func (ex *Exec) mapLen(st *State, m *MapV) *Term {
	var seen []*mapEnt
	n := uint64(0)
next:
	for e := ex.entries(st, m); e != nil; e = e.next {
		if !e.g.isTrue() {
			unsup("size of a map by cases")
		}
		for _, f := range seen {
			eq := ex.c.Canon(ex.valEq(st, e.k, f.k))
			if eq.isTrue() {
				continue next
			}
			if !eq.isFalse() {
				unsup("size of a map with symbolic keys")
			}
		}
		seen = append(seen, e)
		if !e.del {
			n++
		}
	}
	return ex.c.Const(ex.intW, n)
}

// ---- range over a string ----

type rangeIter struct {
	v   Val
	pos *Obj
}

func (ex *Exec) rangeOver(st *State, v Val) Val {
	o := ex.newObj("position", ex.c.Const(64, 8), zeroBase{})
	o.born = &ex.born
	st.mem[o] = &ObjState{gen: st.gen}
	return &rangeIter{v, o}
}

func (ex *Exec) rangeNext(st *State, x *ssa.Next, it *rangeIter, in ssa.Instruction) (*State, Val) {
	c := ex.c
	s, ok := it.v.(*StrV)
	if !x.IsString || !ok {
		unsup("range over %T", it.v)
	}
	z := c.Const(64, 0)
	p := c.Canon(ex.loadInt(it.pos, ex.ostate(st, it.pos), z, false, 64, nil))
	more := c.Canon(c.Ult(p, s.len))
	done := &TupleV{[]Val{c.F, c.Const(ex.intW, 0), c.Const(32, 0)}}
	if more.isFalse() {
		return st, done
	}
	if !more.isTrue() {
		if c.dec == nil {
			unsup("range over a string of unknown length")
		}
		if !c.decide(more) {
			return st, done
		}
	}
	u := ex.P.prog.ImportedPackage("unicode/utf8")
	if u == nil {
		unsup("no unicode/utf8")
	}
	st, r := ex.call(st, u.Func("DecodeRuneInString"), []Val{&StrV{s.obj, c.Add(s.off, p), c.Sub(s.len, p)}}, in)
	if st == nil {
		return nil, nil
	}
	t, ok := r.(*TupleV)
	if !ok {
		unsup("rune by cases")
	}
	ex.writeBytes(st, it.pos, z, ex.intBytes(c.Canon(c.Add(p, c.Sext(t.e[1].(*Term), 64)))), c.T)
	return st, &TupleV{[]Val{c.T, ex.fromI64(p), t.e[0]}}
}

// ---- floating point: constants, and the exact bits of converted integers ----

type FloatV struct {
	bits *Term
	w    int
}

func (ex *Exec) floatConst(f float64, w int) *FloatV {
	if w == 32 {
		return &FloatV{ex.c.Const(32, uint64(math.Float32bits(float32(f)))), 32}
	}
	return &FloatV{ex.c.Const(64, math.Float64bits(f)), 64}
}

func (f *FloatV) val() (float64, bool) {
	if !f.bits.isConst() {
		return 0, false
	}
	if f.w == 32 {
		return float64(math.Float32frombits(uint32(f.bits.c))), true
	}
	return math.Float64frombits(f.bits.c), true
}

func floatWidth(t types.Type) int {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		return 32
	}
	return 64
}

// intToFloat rounds to nearest, ties to even.
func (ex *Exec) intToFloat(x *Term, signed bool, w int) Val {
	c := ex.c
	if x.isConst() {
		switch {
		case signed && w == 32:
			return ex.floatConst(float64(float32(sext64(x.c, x.w))), w)
		case signed:
			return ex.floatConst(float64(sext64(x.c, x.w)), w)
		case w == 32:
			return ex.floatConst(float64(float32(x.c)), w)
		}
		return ex.floatConst(float64(x.c), w)
	}
	mant, bias := 23, uint64(127)
	if w == 64 {
		mant, bias = 52, 1023
	}
	v := c.Zext(x, 64)
	sign := c.F
	if signed {
		v = c.Sext(x, 64)
		sign = c.Slt(v, c.Const(64, 0))
		v = c.Ite(sign, c.Neg(v), v)
	}
	lz := leadZ(c, v, 64)
	n := c.Shift(OpShl, v, lz) // leading one at bit 63
	drop := uint64(63 - mant)
	keep := c.LshrC(n, drop) // mant+1 bits
	rest := c.And(n, c.Const(64, 1<<drop-1))
	half := c.Const(64, 1<<(drop-1))
	up := c.BOr(c.Ult(half, rest), c.BAnd(c.Eq(rest, half), c.Eq(c.Extract(keep, 0, 0), c.Const(1, 1))))
	// keep carries the implicit one, so adding it to the exponent field less one is right, also
	// when rounding carries into the exponent
	e := c.Sub(c.Const(64, bias+62), lz)
	bits := c.Add(c.Add(c.ShlC(e, uint64(mant)), keep), c.Zext(c.B2BV(up, 8), 64))
	bits = c.Ite(c.Eq(v, c.Const(64, 0)), c.Const(64, 0), bits)
	bits = c.Ite(sign, c.Or(bits, c.Const(64, 1<<uint(w-1))), bits)
	return &FloatV{c.Canon(c.Extract(bits, w-1, 0)), w}
}

func (ex *Exec) floatToInt(f *FloatV, w int, signed bool) Val {
	v, ok := f.val()
	if !ok || v != v || v >= 1<<62 || v <= -1<<62 {
		return &OpaqueV{"integer from float"}
	}
	if !signed && v < 0 {
		return &OpaqueV{"integer from float"}
	}
	return ex.c.Const(w, uint64(int64(v))&mask(w))
}

func (ex *Exec) floatOp(op token.Token, a, b *FloatV) Val {
	x, ok := a.val()
	y, ok2 := b.val()
	if !ok || !ok2 {
		return &OpaqueV{"float"}
	}
	switch op {
	case token.ADD:
		return ex.floatConst(x+y, a.w)
	case token.SUB:
		return ex.floatConst(x-y, a.w)
	case token.MUL:
		return ex.floatConst(x*y, a.w)
	case token.QUO:
		return ex.floatConst(x/y, a.w)
	case token.EQL:
		return ex.c.Bool(x == y)
	case token.NEQ:
		return ex.c.Bool(x != y)
	case token.LSS:
		return ex.c.Bool(x < y)
	case token.LEQ:
		return ex.c.Bool(x <= y)
	case token.GTR:
		return ex.c.Bool(x > y)
	case token.GEQ:
		return ex.c.Bool(x >= y)
	}
	return &OpaqueV{"float"}
}

func floatIntrinsics(ex *Exec) {
	for name, w := range map[string]int{"math.Float32bits": 32, "math.Float64bits": 64} {
		ex.intr[name] = func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
			f, ok := args[0].(*FloatV)
			if !ok || f.w != w {
				unsup("bits of a float")
			}
			return st, f.bits
		}
	}
	for name, w := range map[string]int{"math.Float32frombits": 32, "math.Float64frombits": 64} {
		ex.intr[name] = func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
			b, ok := args[0].(*Term)
			if !ok {
				unsup("float from %T", args[0])
			}
			return st, &FloatV{b, w}
		}
	}
	for name, f := range map[string]func(float64) float64{"math.Ceil": math.Ceil, "math.Floor": math.Floor, "math.Round": math.Round,
		"math.Trunc": math.Trunc, "math.Log2": math.Log2, "math.Log": math.Log, "math.Sqrt": math.Sqrt, "math.Abs": math.Abs} {
		ex.intr[name] = func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
			if x, ok := args[0].(*FloatV); ok {
				if v, ok := x.val(); ok {
					return st, ex.floatConst(f(v), 64)
				}
			}
			return st, &OpaqueV{"float"}
		}
	}
}

// ---- package sync, in a single thread ----

func syncIntrinsics(ex *Exec) {
	c := ex.c
	nop := func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) { return st, &TupleV{} }
	yes := func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) { return st, c.T }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait"} {
		ex.intr[n] = nop
	}
	for _, n := range []string{"(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock"} {
		ex.intr[n] = yes
	}
	ptr := func(v Val) *PtrV {
		p, ok := v.(*PtrV)
		if !ok || p.obj == nil {
			unsup("sync object %T", v)
		}
		return p
	}
	ex.intr["(*sync.Once).Do"] = func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
		p := ptr(args[0])
		done := c.Canon(c.BNot(c.Eq(ex.readByte(p.obj, ex.ostate(st, p.obj), p.off, nil), c.Const(8, 0))))
		run := func(st *State) (*State, Val) {
			ex.writeBytes(st, p.obj, p.off, []*Term{c.Const(8, 1)}, c.T)
			st, _ = ex.callVal(st, args[1], nil, in)
			return st, &TupleV{}
		}
		switch {
		case done.isTrue():
			return st, &TupleV{}
		case done.isFalse():
			return run(st)
		}
		a := ex.fork(st)
		a.pc = c.BAnd(st.pc, done)
		st.pc = c.BAnd(st.pc, c.BNot(done))
		b, _ := run(st)
		if b == nil {
			return a, &TupleV{}
		}
		r, _ := ex.merge(a, b)
		return r, &TupleV{}
	}
	// a pool hands out what was put into it last
	anyT := types.NewInterfaceType(nil, nil)
	stash := func(p *PtrV) *Obj {
		if !p.off.isConst() {
			unsup("pool by cases")
		}
		if ex.pools == nil {
			ex.pools = map[*Obj]map[uint64]*Obj{}
		}
		if ex.pools[p.obj] == nil {
			ex.pools[p.obj] = map[uint64]*Obj{}
		}
		o := ex.pools[p.obj][p.off.c]
		if o == nil {
			o = ex.newObj("pool of "+p.obj.name, c.Const(64, 16), zeroBase{})
			ex.pools[p.obj][p.off.c] = o
		}
		return o
	}
	ex.intr["(*sync.Pool).Put"] = func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
		ex.store(st, stash(ptr(args[0])), c.Const(64, 0), anyT, args[1])
		return st, &TupleV{}
	}
	ex.intr["(*sync.Pool).Get"] = func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
		p := ptr(args[0])
		o := stash(p)
		return ex.fanout(st, ex.load(st, o, c.Const(64, 0), anyT), func(st *State, v Val) (*State, Val) {
			i, ok := v.(*IfaceV)
			if !ok {
				unsup("pool contents %T", v)
			}
			if i.t != nil {
				ex.store(st, o, c.Const(64, 0), anyT, &IfaceV{})
				return st, v
			}
			fn := in.(ssa.CallInstruction).Common().StaticCallee()
			s := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			fs := structFields(s)
			off := ex.sizes.Offsetsof(fs)
			for k, f := range fs {
				if f.Name() == "New" {
					nf := ex.load(st, p.obj, c.AddC(p.off, off[k]), f.Type())
					if g, ok := nf.(*FuncV); ok && g.fn == nil && g.stub == nil {
						return st, &IfaceV{}
					}
					return ex.fanout(st, nf, func(st *State, nf Val) (*State, Val) { return ex.callVal(st, nf, nil, in) })
				}
			}
			unsup("sync.Pool without New")
			return nil, nil
		})
	}
	for name, t := range map[string]types.BasicKind{"Int32": types.Int32, "Uint32": types.Uint32, "Int64": types.Int64, "Uint64": types.Uint64, "Uintptr": types.Uintptr} {
		t := types.Typ[t]
		at := func(f func(st *State, p *PtrV, old *Term, args []Val) (*Term, Val)) Intrinsic {
			return func(ex *Exec, st *State, args []Val, in ssa.Instruction) (*State, Val) {
				p := ptr(args[0])
				old, ok := ex.load(st, p.obj, p.off, t).(*Term)
				if !ok {
					unsup("atomic access")
				}
				nv, r := f(st, p, old, args)
				if nv != nil {
					ex.store(st, p.obj, p.off, t, c.Canon(nv))
				}
				return st, ex.canonVal(r)
			}
		}
		pre := "sync/atomic."
		ex.intr[pre+"Load"+name] = at(func(st *State, p *PtrV, old *Term, args []Val) (*Term, Val) { return nil, old })
		ex.intr[pre+"Store"+name] = at(func(st *State, p *PtrV, old *Term, args []Val) (*Term, Val) { return args[1].(*Term), &TupleV{} })
		ex.intr[pre+"Swap"+name] = at(func(st *State, p *PtrV, old *Term, args []Val) (*Term, Val) { return args[1].(*Term), old })
		ex.intr[pre+"Add"+name] = at(func(st *State, p *PtrV, old *Term, args []Val) (*Term, Val) {
			n := c.Add(old, args[1].(*Term))
			return n, n
		})
		ex.intr[pre+"CompareAndSwap"+name] = at(func(st *State, p *PtrV, old *Term, args []Val) (*Term, Val) {
			e := c.Eq(old, args[1].(*Term))
			return c.Ite(e, args[2].(*Term), old), e
		})
	}
}

// reachable collects the objects that package state refers to after a call: the repository's
// variables, what they point to, and what is kept in pools.
func (ex *Exec) reachable(st *State) map[*Obj]bool {
	seen := map[*Obj]bool{}
	var val func(v Val)
	var obj func(o *Obj)
	obj = func(o *Obj) {
		if o == nil || seen[o] {
			return
		}
		seen[o] = true
		for _, v := range ex.ostate(st, o).cells {
			val(v)
		}
		for _, p := range ex.pools[o] {
			obj(p)
		}
	}
	val = func(v Val) {
		switch x := v.(type) {
		case *PtrV:
			obj(x.obj)
		case *SliceV:
			obj(x.obj)
		case *StrV:
			obj(x.obj)
		case *IfaceV:
			if x.t != nil {
				val(x.v)
			}
		case *StructV:
			for _, f := range x.f {
				val(f)
			}
		case *ArrV:
			for _, f := range x.e {
				val(f)
			}
		case *UnionV:
			for _, f := range x.vs {
				val(f)
			}
		case *FuncV:
			for _, f := range x.bind {
				val(f)
			}
		case *MapV:
			obj(x.obj)
		case *mapEnt:
			for e := x; e != nil; e = e.next {
				val(e.k)
				val(e.v)
			}
		}
	}
	for g, o := range ex.globals {
		if g.Pkg != nil && ex.P.isRepo(g.Pkg) && !strings.HasPrefix(g.Name(), "init$") {
			obj(o)
		}
	}
	return seen
}
