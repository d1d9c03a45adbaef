package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---- typed loads and stores ----

func isCellType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Pointer, *types.Slice, *types.Signature, *types.Interface, *types.Map, *types.Chan:
		return true
	}
	return false
}

func structFields(s *types.Struct) []*types.Var {
	fs := make([]*types.Var, s.NumFields())
	for i := range fs {
		fs[i] = s.Field(i)
	}
	return fs
}

func (ex *Exec) load(st *State, o *Obj, off *Term, t types.Type) Val {
	c := ex.c
	switch u := t.Underlying().(type) {
	case *types.Struct:
		offs := ex.sizes.Offsetsof(structFields(u))
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = ex.load(st, o, c.AddC(off, offs[i]), u.Field(i).Type())
		}
		return &StructV{f}
	case *types.Array:
		if u.Len() > 1<<14 {
			unsup("load of large array")
		}
		sz := ex.sizes.Sizeof(u.Elem())
		e := make([]Val, u.Len())
		for i := range e {
			e[i] = ex.load(st, o, c.AddC(off, int64(i)*sz), u.Elem())
		}
		return &ArrV{e}
	}
	if isCellType(t) {
		return ex.loadCell(st, o, off, t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		unsup("load of %s", t)
	}
	if b.Info()&types.IsFloat != 0 {
		w := floatWidth(t)
		return &FloatV{ex.loadInt(o, ex.ostate(st, o), off, false, w, nil), w}
	}
	if b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
		return &OpaqueV{"load of " + t.String()}
	}
	s := ex.ostate(st, o)
	if off.isConst() && len(s.cells) > 0 {
		if v, ok := s.cells[int64(off.c)]; ok {
			if p, ok := v.(*PtrV); ok && b.Kind() == types.Uintptr {
				return p
			}
			if q, ok := v.(*OpaqueV); ok {
				return q
			}
		}
	}
	return ex.loadInt(o, s, off, b.Info()&types.IsBoolean != 0, ex.width(t), nil)
}

func (ex *Exec) loadInt(o *Obj, s *ObjState, off *Term, isBool bool, w int, ov map[*Term][2]uint64) *Term {
	c := ex.c
	if isBool {
		return c.Eq(c.Extract(ex.readByte(o, s, off, ov), 0, 0), c.Const(1, 1))
	}
	n := w / 8
	parts := make([]*Term, n)
	for i := 0; i < n; i++ {
		parts[n-1-i] = ex.readByte(o, s, c.AddC(off, int64(i)), ov)
	}
	if n == 1 {
		return c.Canon(parts[0])
	}
	return c.Canon(c.Concat(parts...))
}

func (ex *Exec) loadCell(st *State, o *Obj, off *Term, t types.Type) Val {
	s := ex.ostate(st, o)
	if off.isConst() {
		if v, ok := s.cells[int64(off.c)]; ok {
			return v
		}
		return ex.zero(t)
	}
	sz := uint64(ex.sizes.Sizeof(t))
	var ks []int64
	for k := range s.cells {
		if uint64(k) >= off.ulo && uint64(k) <= off.uhi {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	// every possible offset must be a cell (or zero)
	var r Val
	for _, k := range ks {
		e := ex.c.Eq(off, ex.c.Const(64, uint64(k)))
		if e.isFalse() {
			continue
		}
		if r == nil {
			if o.csize >= 0 && uint64(len(s.cells))*sz >= uint64(o.csize) {
				r = s.cells[k]
				continue
			}
			r = ex.zero(t)
		}
		r = ex.mergeVal(e, s.cells[k], r)
	}
	if r == nil {
		return ex.zero(t)
	}
	return r
}

func (ex *Exec) intBytes(v *Term) []*Term {
	c := ex.c
	if v.w == 0 {
		return []*Term{c.B2BV(v, 8)}
	}
	n := v.w / 8
	bs := make([]*Term, n)
	for i := range bs {
		bs[i] = c.Extract(v, 8*i+7, 8*i)
	}
	return bs
}

func (ex *Exec) store(st *State, o *Obj, off *Term, t types.Type, v Val) {
	c := ex.c
	switch u := t.Underlying().(type) {
	case *types.Struct:
		offs := ex.sizes.Offsetsof(structFields(u))
		if uv, ok := v.(*UnionV); ok {
			_ = uv
			unsup("store of union struct")
		}
		for i := 0; i < u.NumFields(); i++ {
			ex.store(st, o, c.AddC(off, offs[i]), u.Field(i).Type(), v.(*StructV).f[i])
		}
		return
	case *types.Array:
		sz := ex.sizes.Sizeof(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			ex.store(st, o, c.AddC(off, i*sz), u.Elem(), v.(*ArrV).e[i])
		}
		return
	}
	if f, ok := v.(*FloatV); ok {
		ex.writeBytes(st, o, off, ex.intBytes(f.bits), c.T)
		return
	}
	if t, ok := v.(*Term); ok && !isCellTypeVal(v) {
		ex.writeBytes(st, o, off, ex.intBytes(t), c.T)
		return
	}
	ex.storeCell(st, o, off, t, v)
}

func isCellTypeVal(v Val) bool { _, ok := v.(*Term); return !ok }

func (ex *Exec) storeCell(st *State, o *Obj, off *Term, t types.Type, v Val) {
	if o.ro {
		unsup("pointer store to read-only object")
	}
	s := ex.own(st, o)
	if s.cells == nil {
		s.cells = map[int64]Val{}
	}
	if off.isConst() {
		s.cells[int64(off.c)] = v
		return
	}
	sz := ex.sizes.Sizeof(t)
	if o.csize < 0 || o.csize/sz > 256 {
		unsup("symbolic pointer store")
	}
	if _, ok := v.(*OpaqueV); ok {
		unsup("symbolic opaque store")
	}
	for k := int64(0); k+sz <= o.csize; k += sz {
		e := ex.c.Eq(off, ex.c.Const(64, uint64(k)))
		if e.isFalse() {
			continue
		}
		old, ok := s.cells[k]
		if !ok {
			old = ex.zero(t)
		}
		s.cells[k] = ex.mergeVal(e, v, old)
	}
}

// ---- helpers on lengths ----

func (ex *Exec) toI64(v Val, t types.Type) *Term {
	x, ok := v.(*Term)
	if !ok {
		unsup("integer operand %T", v)
	}
	if x.w == 64 {
		return x
	}
	if isSigned(t) {
		return ex.c.Sext(x, 64)
	}
	return ex.c.Zext(x, 64)
}

func (ex *Exec) fromI64(x *Term) *Term {
	return ex.c.Zext(x, ex.intW)
}

// ---- eval ----

func (ex *Exec) eval(fr *frame, env []Val, st *State, v ssa.Value, in ssa.Instruction) (*State, Val) {
	c := ex.c
	get := func(x ssa.Value) Val { return ex.get(fr, env, x) }
	switch x := v.(type) {
	case *ssa.Alloc:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		o := ex.newObj(x.Comment, c.Const(64, uint64(ex.sizes.Sizeof(et))), zeroBase{})
		o.born = &ex.born
		o.typ = et
		st.mem[o] = &ObjState{gen: st.gen}
		return st, &PtrV{o, c.Const(64, 0)}
	case *ssa.BinOp:
		return ex.binop(st, x.Op, get(x.X), get(x.Y), x.X.Type(), x.Y.Type(), in)
	case *ssa.UnOp:
		return ex.unop(st, x, get(x.X), in)
	case *ssa.ChangeType:
		return st, get(x.X)
	case *ssa.Convert:
		return ex.convert(st, get(x.X), x.X.Type(), x.Type(), in)
	case *ssa.MultiConvert:
		return ex.convert(st, get(x.X), x.X.Type(), x.Type(), in)
	case *ssa.ChangeInterface:
		return st, get(x.X)
	case *ssa.MakeInterface:
		val := get(x.X)
		return st, &IfaceV{x.X.Type(), val}
	case *ssa.MakeClosure:
		b := make([]Val, len(x.Bindings))
		for i, y := range x.Bindings {
			b[i] = get(y)
		}
		return st, &FuncV{fn: x.Fn.(*ssa.Function), bind: b}
	case *ssa.MakeSlice:
		n := ex.toI64(get(x.Len), x.Len.Type())
		k := ex.toI64(get(x.Cap), x.Cap.Type())
		if !ex.require(st, c.BAnd(c.Sle(c.Const(64, 0), n), c.Ult(n, c.Const(64, 1<<47))), "panic", "makeslice: len out of range", in) {
			return nil, nil
		}
		if n != k && !ex.require(st, c.BAnd(c.Sle(n, k), c.Ult(k, c.Const(64, 1<<47))), "panic", "makeslice: cap out of range", in) {
			return nil, nil
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		o := ex.allocArr(st, "make", k, et)
		return st, &SliceV{o, c.Const(64, 0), n, k}
	case *ssa.Extract:
		t, ok := get(x.Tuple).(*TupleV)
		if !ok {
			unsup("extract from %T", get(x.Tuple))
		}
		return st, t.e[x.Index]
	case *ssa.Field:
		return ex.fanout(st, get(x.X), func(st *State, v Val) (*State, Val) {
			s, ok := v.(*StructV)
			if !ok {
				unsup("field of %T", v)
			}
			return st, s.f[x.Field]
		})
	case *ssa.FieldAddr:
		stt := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		off := ex.sizes.Offsetsof(structFields(stt))[x.Field]
		return ex.fanout(st, get(x.X), func(st *State, v Val) (*State, Val) {
			p, ok := v.(*PtrV)
			if !ok {
				unsup("field address of %T", v)
			}
			if p.obj == nil {
				ex.event("panic", "nil pointer dereference", st.pc, in)
				return nil, nil
			}
			return st, &PtrV{p.obj, c.AddC(p.off, off)}
		})
	case *ssa.IndexAddr:
		idx := ex.toI64(get(x.Index), x.Index.Type())
		return ex.fanout(st, get(x.X), func(st *State, v Val) (*State, Val) {
			switch b := v.(type) {
			case *SliceV:
				et := x.X.Type().Underlying().(*types.Slice).Elem()
				if !ex.require(st, c.Ult(idx, b.len), "panic", "index out of range", in) {
					return nil, nil
				}
				return st, &PtrV{b.obj, c.Add(b.off, c.MulC(idx, uint64(ex.sizes.Sizeof(et))))}
			case *PtrV:
				at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
				if b.obj == nil {
					ex.event("panic", "nil pointer dereference", st.pc, in)
					return nil, nil
				}
				if !ex.require(st, c.Ult(idx, c.Const(64, uint64(at.Len()))), "panic", "index out of range", in) {
					return nil, nil
				}
				return st, &PtrV{b.obj, c.Add(b.off, c.MulC(idx, uint64(ex.sizes.Sizeof(at.Elem()))))}
			}
			unsup("index address of %T", v)
			return nil, nil
		})
	case *ssa.Index:
		idx := ex.toI64(get(x.Index), x.Index.Type())
		return ex.fanout(st, get(x.X), func(st *State, v Val) (*State, Val) {
			switch b := v.(type) {
			case *ArrV:
				n := uint64(len(b.e))
				if !ex.require(st, c.Ult(idx, c.Const(64, n)), "panic", "index out of range", in) {
					return nil, nil
				}
				if idx.isConst() {
					return st, b.e[idx.c]
				}
				if _, ok := b.e[0].(*Term); ok {
					return st, c.Canon(muxBytes(c, idx, idx.ulo, min(idx.uhi, n-1), func(i uint64) *Term { return b.e[i].(*Term) }))
				}
				r := b.e[n-1]
				for i := int(n) - 2; i >= 0; i-- {
					r = ex.mergeVal(c.Eq(idx, c.Const(64, uint64(i))), b.e[i], r)
				}
				return st, r
			case *StrV:
				return ex.strIndex(st, b, idx, in)
			}
			unsup("index of %T", v)
			return nil, nil
		})
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return ex.fanout(st, get(x.X), func(st *State, v Val) (*State, Val) {
				m, ok := v.(*MapV)
				if !ok {
					unsup("lookup in %T", v)
				}
				return ex.mapLookup(st, m, get(x.Index), x, in)
			})
		}
		idx := ex.toI64(get(x.Index), x.Index.Type())
		return ex.fanout(st, get(x.X), func(st *State, v Val) (*State, Val) {
			s, ok := v.(*StrV)
			if !ok {
				unsup("lookup in %T", v)
			}
			return ex.strIndex(st, s, idx, in)
		})
	case *ssa.Slice:
		return ex.slice(fr, env, st, x, in)
	case *ssa.SliceToArrayPointer:
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return ex.fanout(st, get(x.X), func(st *State, v Val) (*State, Val) {
			s := v.(*SliceV)
			if !ex.require(st, c.Ule(c.Const(64, uint64(n)), s.len), "panic", "slice to array pointer length", in) {
				return nil, nil
			}
			return st, &PtrV{s.obj, s.off}
		})
	case *ssa.TypeAssert:
		return ex.fanout(st, get(x.X), func(st *State, v Val) (*State, Val) {
			i, ok := v.(*IfaceV)
			if !ok {
				unsup("type assert on %T", v)
			}
			match := false
			if i.t != nil {
				if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
					match = types.Implements(i.t, it)
				} else {
					match = types.Identical(i.t, x.AssertedType)
				}
			}
			var r Val
			if match {
				r = i.v
				if types.IsInterface(x.AssertedType) {
					r = i
				}
			} else {
				r = ex.zero(x.AssertedType)
			}
			if x.CommaOk {
				return st, &TupleV{[]Val{r, c.Bool(match)}}
			}
			if !match {
				ex.event("panic", "type assertion", st.pc, in)
				return nil, nil
			}
			return st, r
		})
	case *ssa.Range:
		return st, ex.rangeOver(st, get(x.X))
	case *ssa.Next:
		return ex.rangeNext(st, x, get(x.Iter).(*rangeIter), in)
	case *ssa.MakeMap:
		return st, ex.makeMap(st)
	}
	unsup("%T", v)
	return nil, nil
}

func (ex *Exec) strIndex(st *State, s *StrV, idx *Term, in ssa.Instruction) (*State, Val) {
	if !ex.require(st, ex.c.Ult(idx, s.len), "panic", "string index out of range", in) {
		return nil, nil
	}
	return st, ex.c.Canon(ex.readByte(s.obj, ex.ostate(st, s.obj), ex.c.Add(s.off, idx), nil))
}

func (ex *Exec) allocArr(st *State, name string, n *Term, et types.Type) *Obj {
	o := ex.newObj(name, ex.c.MulC(n, uint64(ex.sizes.Sizeof(et))), zeroBase{})
	o.born = &ex.born
	st.mem[o] = &ObjState{gen: st.gen}
	return o
}

func (ex *Exec) slice(fr *frame, env []Val, st *State, x *ssa.Slice, in ssa.Instruction) (*State, Val) {
	c := ex.c
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return ex.toI64(ex.get(fr, env, v), v.Type())
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	return ex.fanout(st, ex.get(fr, env, x.X), func(st *State, v Val) (*State, Val) {
		z := c.Const(64, 0)
		l := lo
		if l == nil {
			l = z
		}
		switch b := v.(type) {
		case *StrV:
			h := hi
			if h == nil {
				h = b.len
			}
			if h != b.len && !ex.require(st, c.Ule(h, b.len), "panic", "slice bounds out of range", in) {
				return nil, nil
			}
			if !ex.require(st, c.Ule(l, h), "panic", "slice bounds out of range", in) {
				return nil, nil
			}
			return st, &StrV{b.obj, c.Add(b.off, l), c.Sub(h, l)}
		case *SliceV:
			et := x.X.Type().Underlying().(*types.Slice).Elem()
			return ex.sliceOf(st, b.obj, b.off, b.len, b.cap, l, hi, mx, uint64(ex.sizes.Sizeof(et)), in)
		case *PtrV:
			at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if b.obj == nil {
				ex.event("panic", "nil pointer dereference", st.pc, in)
				return nil, nil
			}
			n := c.Const(64, uint64(at.Len()))
			return ex.sliceOf(st, b.obj, b.off, n, n, l, hi, mx, uint64(ex.sizes.Sizeof(at.Elem())), in)
		}
		unsup("slice of %T", v)
		return nil, nil
	})
}

func (ex *Exec) sliceOf(st *State, obj *Obj, off, ln, cp, l, h, m *Term, es uint64, in ssa.Instruction) (*State, Val) {
	c := ex.c
	hGiven := h != nil
	if h == nil {
		h = ln
	}
	if m != nil {
		if m != cp && !ex.require(st, c.Ule(m, cp), "panic", "slice bounds out of range [::max]", in) {
			return nil, nil
		}
		if !ex.require(st, c.Ule(h, m), "panic", "slice bounds out of range [:high:max]", in) {
			return nil, nil
		}
	} else {
		m = cp
		if hGiven && h != cp && !ex.require(st, c.Ule(h, cp), "panic", "slice bounds out of range [:high]", in) {
			return nil, nil
		}
	}
	if !ex.require(st, c.Ule(l, h), "panic", "slice bounds out of range [low:]", in) {
		return nil, nil
	}
	return st, &SliceV{obj, c.Add(off, c.MulC(l, es)), c.Sub(h, l), c.Sub(m, l)}
}

func (ex *Exec) unop(st *State, x *ssa.UnOp, v Val, in ssa.Instruction) (*State, Val) {
	c := ex.c
	switch x.Op {
	case token.MUL:
		return ex.fanout(st, v, func(st *State, v Val) (*State, Val) {
			p, ok := v.(*PtrV)
			if !ok {
				unsup("load through %T", v)
			}
			if p.obj == nil {
				ex.event("panic", "nil pointer dereference", st.pc, in)
				return nil, nil
			}
			if !ex.inBounds(st, p.obj, p.off, c.Const(64, uint64(ex.sizes.Sizeof(x.Type()))), "read", in) {
				return nil, nil
			}
			return st, ex.load(st, p.obj, p.off, x.Type())
		})
	case token.NOT:
		return st, c.BNot(v.(*Term))
	case token.SUB:
		if t, ok := v.(*Term); ok {
			return st, c.Canon(c.Neg(t))
		}
		if f, ok := v.(*FloatV); ok {
			return st, &FloatV{c.Canon(c.Xor(f.bits, c.Const(f.w, 1<<uint(f.w-1)))), f.w}
		}
	case token.XOR:
		if t, ok := v.(*Term); ok {
			return st, c.Canon(c.Not(t))
		}
	}
	if o, ok := v.(*OpaqueV); ok {
		return st, o
	}
	unsup("unary %s on %T", x.Op, v)
	return nil, nil
}

func (ex *Exec) shiftCount(st *State, k *Term, t types.Type, w int, in ssa.Instruction) (*Term, bool) {
	c := ex.c
	if isSigned(t) {
		if !ex.require(st, c.Sle(c.Const(k.w, 0), k), "panic", "negative shift amount", in) {
			return nil, false
		}
	}
	if k.w <= w {
		return c.Zext(k, w), true
	}
	if k.uhi < uint64(w) {
		return c.Extract(k, w-1, 0), true
	}
	return c.Ite(c.Ult(k, c.Const(k.w, uint64(w))), c.Extract(k, w-1, 0), c.Const(w, uint64(w))), true
}

func (ex *Exec) binop(st *State, op token.Token, a, b Val, ta, tb types.Type, in ssa.Instruction) (*State, Val) {
	c := ex.c
	if ua, ok := a.(*UnionV); ok {
		return ex.fanout(st, ua, func(st *State, v Val) (*State, Val) { return ex.binop(st, op, v, b, ta, tb, in) })
	}
	if ub, ok := b.(*UnionV); ok {
		return ex.fanout(st, ub, func(st *State, v Val) (*State, Val) { return ex.binop(st, op, a, v, ta, tb, in) })
	}
	x, okx := a.(*Term)
	y, oky := b.(*Term)
	if okx && oky {
		signed := isSigned(ta)
		var r *Term
		switch op {
		case token.ADD:
			r = c.Add(x, y)
		case token.SUB:
			r = c.Sub(x, y)
		case token.MUL:
			r = c.Mul(x, y)
		case token.QUO, token.REM:
			if !ex.require(st, c.BNot(c.Eq(y, c.Const(y.w, 0))), "panic", "integer divide by zero", in) {
				return nil, nil
			}
			o := OpUdiv
			switch {
			case signed && op == token.QUO:
				o = OpSdiv
			case signed:
				o = OpSrem
			case op == token.REM:
				o = OpUrem
			}
			r = c.Div(o, x, y)
		case token.AND:
			r = c.And(x, y)
		case token.OR:
			r = c.Or(x, y)
		case token.XOR:
			r = c.Xor(x, y)
		case token.AND_NOT:
			r = c.And(x, c.Not(y))
		case token.SHL, token.SHR:
			k, ok := ex.shiftCount(st, y, tb, x.w, in)
			if !ok {
				return nil, nil
			}
			o := OpShl
			if op == token.SHR {
				o = OpLshr
				if signed {
					o = OpAshr
				}
			}
			r = c.Shift(o, x, k)
		case token.EQL:
			r = c.Eq(x, y)
		case token.NEQ:
			r = c.BNot(c.Eq(x, y))
		case token.LSS:
			if signed {
				r = c.Slt(x, y)
			} else {
				r = c.Ult(x, y)
			}
		case token.LEQ:
			if signed {
				r = c.Sle(x, y)
			} else {
				r = c.Ule(x, y)
			}
		case token.GTR:
			if signed {
				r = c.Slt(y, x)
			} else {
				r = c.Ult(y, x)
			}
		case token.GEQ:
			if signed {
				r = c.Sle(y, x)
			} else {
				r = c.Ule(y, x)
			}
		default:
			unsup("binop %s", op)
		}
		if r.op == OpAdd && len(r.args) > 12 {
			return st, r
		}
		return st, c.Canon(r)
	}
	switch op {
	case token.EQL, token.NEQ:
		r := ex.valEq(st, a, b)
		if op == token.NEQ {
			r = c.BNot(r)
		}
		return st, r
	case token.ADD, token.SUB:
		// pointer arithmetic through uintptr
		if p, ok := a.(*PtrV); ok && oky {
			y = c.Zext(y, 64)
			if op == token.ADD {
				return st, &PtrV{p.obj, c.Add(p.off, y)}
			}
			return st, &PtrV{p.obj, c.Sub(p.off, y)}
		}
		if p, ok := b.(*PtrV); ok && okx && op == token.ADD {
			return st, &PtrV{p.obj, c.Add(p.off, c.Zext(x, 64))}
		}
		if p, ok := a.(*PtrV); ok && op == token.SUB {
			if q, ok := b.(*PtrV); ok && p.obj == q.obj {
				return st, ex.fromI64(c.Sub(p.off, q.off))
			}
		}
		if s, ok := a.(*StrV); ok {
			if t, ok := b.(*StrV); ok {
				return st, ex.strConcat(st, s, t)
			}
		}
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if s, ok := a.(*StrV); ok {
			if t, ok := b.(*StrV); ok {
				_, _ = s, t
				unsup("string ordering")
			}
		}
	}
	if f, ok := a.(*FloatV); ok {
		if g, ok := b.(*FloatV); ok {
			return st, ex.floatOp(op, f, g)
		}
	}
	if _, ok := a.(*OpaqueV); ok {
		return st, &OpaqueV{"opaque arithmetic"}
	}
	if _, ok := b.(*OpaqueV); ok {
		return st, &OpaqueV{"opaque arithmetic"}
	}
	unsup("binop %s on %T, %T", op, a, b)
	return nil, nil
}

func (ex *Exec) strConcat(st *State, s, t *StrV) Val {
	c := ex.c
	if s.len.isConst() && s.len.c == 0 {
		return t
	}
	if t.len.isConst() && t.len.c == 0 {
		return s
	}
	n := c.Add(s.len, t.len)
	o := ex.newObj("concat", n, zeroBase{})
	o.born = &ex.born
	st.mem[o] = &ObjState{gen: st.gen}
	if s.obj != nil {
		ex.copyRange(st, o, c.Const(64, 0), s.obj, s.off, s.len)
	}
	if t.obj != nil {
		ex.copyRange(st, o, s.len, t.obj, t.off, t.len)
	}
	return &StrV{o, c.Const(64, 0), n}
}

// bytesEq compares n symbolic-length byte ranges of equal length la.
func (ex *Exec) strEq(st *State, a, b *StrV) *Term {
	c := ex.c
	e := c.Eq(a.len, b.len)
	if e.isFalse() {
		return e
	}
	n := min(a.len.uhi, b.len.uhi)
	if n > 4096 {
		unsup("comparison of long strings")
	}
	for i := uint64(0); i < n; i++ {
		k := c.Const(64, i)
		in := c.Ult(k, a.len)
		x := ex.readByte(a.obj, ex.ostate(st, a.obj), c.AddC(a.off, int64(i)), nil)
		y := ex.readByte(b.obj, ex.ostate(st, b.obj), c.AddC(b.off, int64(i)), nil)
		e = c.BAnd(e, c.BOr(c.BNot(in), c.Eq(x, y)))
		if e.isFalse() {
			return e
		}
	}
	return e
}

func (ex *Exec) valEq(st *State, a, b Val) *Term {
	c := ex.c
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return c.Eq(x, y)
		}
	case *PtrV:
		if y, ok := b.(*PtrV); ok {
			if x.obj != y.obj {
				return c.F
			}
			return c.Eq(x.off, y.off)
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok { // comparison with nil
			if x.obj == nil || y.obj == nil {
				return c.Bool(x.obj == y.obj)
			}
		}
		if p, ok := b.(*PtrV); ok && p.obj == nil {
			return c.Bool(x.obj == nil)
		}
	case *StrV:
		if y, ok := b.(*StrV); ok {
			return ex.strEq(st, x, y)
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok {
			nx, ny := x.fn == nil && x.stub == nil, y.fn == nil && y.stub == nil
			if nx || ny {
				return c.Bool(nx == ny)
			}
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			if x.t == nil || y.t == nil {
				return c.Bool(x.t == nil && y.t == nil)
			}
			if !types.Identical(x.t, y.t) {
				return c.F
			}
			return ex.valEq(st, x.v, y.v)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok {
			r := c.T
			for i := range x.f {
				r = c.BAnd(r, ex.valEq(st, x.f[i], y.f[i]))
			}
			return r
		}
	case *ArrV:
		if y, ok := b.(*ArrV); ok {
			r := c.T
			for i := range x.e {
				r = c.BAnd(r, ex.valEq(st, x.e[i], y.e[i]))
			}
			return r
		}
	case *MapV:
		if y, ok := b.(*MapV); ok {
			return c.Bool(x.obj == y.obj)
		}
	case *mapEnt:
		if y, ok := b.(*mapEnt); ok {
			return ex.entEq(x, y)
		}
	case *OpaqueV:
		if y, ok := b.(*OpaqueV); ok && x == y {
			return c.T
		}
	}
	unsup("comparison of %T and %T", a, b)
	return nil
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (ex *Exec) convert(st *State, v Val, from, to types.Type, in ssa.Instruction) (*State, Val) {
	c := ex.c
	if u, ok := v.(*UnionV); ok {
		return ex.fanout(st, u, func(st *State, v Val) (*State, Val) { return ex.convert(st, v, from, to, in) })
	}
	switch {
	case isString(to) && isByteSlice(from):
		s := v.(*SliceV)
		if s.obj == nil {
			return st, ex.emptyStr
		}
		o := ex.newObj("string", s.len, zeroBase{})
		o.born = &ex.born
		st.mem[o] = &ObjState{gen: st.gen}
		ex.copyRange(st, o, c.Const(64, 0), s.obj, s.off, s.len)
		return st, &StrV{o, c.Const(64, 0), s.len}
	case isByteSlice(to) && isString(from):
		s := v.(*StrV)
		o := ex.allocArr(st, "bytes", s.len, types.Typ[types.Uint8])
		if s.obj != nil {
			ex.copyRange(st, o, c.Const(64, 0), s.obj, s.off, s.len)
		}
		return st, &SliceV{o, c.Const(64, 0), s.len, s.len}
	}
	switch x := v.(type) {
	case *PtrV, *SliceV, *FuncV, *IfaceV, *StrV, *StructV, *ArrV, *OpaqueV, *MapV:
		return st, x
	case *FloatV:
		if b, ok := to.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsInteger != 0 {
				return st, ex.floatToInt(x, ex.width(to), isSigned(to))
			}
			if v, ok := x.val(); ok && b.Info()&types.IsFloat != 0 {
				return st, ex.floatConst(v, floatWidth(to))
			}
			if floatWidth(to) == x.w {
				return st, x
			}
			return st, &OpaqueV{"float"}
		}
	case *Term:
		if b, ok := to.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsInteger != 0 {
				fb, ok := from.Underlying().(*types.Basic)
				if !ok || fb.Info()&types.IsInteger == 0 {
					break
				}
				w := ex.width(to)
				if isSigned(from) {
					return st, c.Canon(c.Sext(x, w))
				}
				return st, c.Canon(c.Zext(x, w))
			}
			if b.Info()&types.IsBoolean != 0 {
				return st, x
			}
			if b.Kind() == types.UnsafePointer {
				if x.isConst() && x.c == 0 {
					return st, ex.nilPtr
				}
				unsup("integer to pointer")
			}
			if b.Info()&types.IsFloat != 0 {
				return st, ex.intToFloat(x, isSigned(from), floatWidth(to))
			}
		}
	}
	unsup("conversion %s to %s", from, to)
	return nil, nil
}

// ---- builtins ----

func (ex *Exec) builtin(st *State, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, in ssa.Instruction) (*State, Val) {
	c := ex.c
	switch b.Name() {
	case "len", "cap":
		return ex.fanout(st, args[0], func(st *State, v Val) (*State, Val) {
			switch x := v.(type) {
			case *SliceV:
				if b.Name() == "cap" {
					return st, ex.fromI64(x.cap)
				}
				return st, ex.fromI64(x.len)
			case *StrV:
				return st, ex.fromI64(x.len)
			case *ArrV:
				return st, c.Const(ex.intW, uint64(len(x.e)))
			case *MapV:
				return st, ex.mapLen(st, x)
			case *PtrV:
				at := cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
				return st, c.Const(ex.intW, uint64(at.Len()))
			}
			unsup("len of %T", v)
			return nil, nil
		})
	case "copy":
		return ex.fanout(st, args[0], func(st *State, v Val) (*State, Val) {
			d := v.(*SliceV)
			return ex.fanout(st, args[1], func(st *State, v Val) (*State, Val) {
				var so *Obj
				var soff, sl *Term
				switch s := v.(type) {
				case *SliceV:
					so, soff, sl = s.obj, s.off, s.len
				case *StrV:
					so, soff, sl = s.obj, s.off, s.len
				}
				n := c.Canon(c.Ite(c.Ult(d.len, sl), d.len, sl))
				es := uint64(1)
				if t, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
					es = uint64(ex.sizes.Sizeof(t.Elem()))
					if isCellType(t.Elem()) {
						unsup("copy of pointers")
					}
				}
				if d.obj != nil && so != nil {
					if !ex.inBounds(st, d.obj, d.off, c.MulC(n, es), "write", in) || !ex.inBounds(st, so, soff, c.MulC(n, es), "read", in) {
						return nil, nil
					}
					ex.copyRange(st, d.obj, d.off, so, soff, c.MulC(n, es))
				}
				return st, ex.fromI64(n)
			})
		})
	case "append":
		return ex.fanout(st, args[0], func(st *State, v Val) (*State, Val) {
			return ex.fanout(st, args[1], func(st *State, w Val) (*State, Val) {
				return ex.appendTo(st, v.(*SliceV), w, cc.Args[0].Type().Underlying().(*types.Slice).Elem(), in)
			})
		})
	case "min", "max":
		r := args[0].(*Term)
		sg := isSigned(cc.Args[0].Type())
		for _, a := range args[1:] {
			y := a.(*Term)
			var lt *Term
			if sg {
				lt = c.Slt(r, y)
			} else {
				lt = c.Ult(r, y)
			}
			if b.Name() == "min" {
				r = c.Ite(lt, r, y)
			} else {
				r = c.Ite(lt, y, r)
			}
		}
		return st, c.Canon(r)
	case "delete":
		if st = ex.mapUpdate(st, args[0], args[1], nil, true, in); st == nil {
			return nil, nil
		}
		return st, &TupleV{}
	case "recover":
		return st, &IfaceV{}
	case "print", "println":
		return st, &TupleV{}
	case "ssa:wrapnilchk":
		return st, args[0]
	case "clear":
		return ex.fanout(st, args[0], func(st *State, v Val) (*State, Val) {
			s, ok := v.(*SliceV)
			if !ok {
				unsup("clear of %T", v)
			}
			if s.obj == nil {
				return st, &TupleV{}
			}
			es := uint64(ex.sizes.Sizeof(cc.Args[0].Type().Underlying().(*types.Slice).Elem()))
			z := ex.newObj("zero", c.MulC(s.len, es), zeroBase{})
			ex.copyRange(st, s.obj, s.off, z, c.Const(64, 0), c.MulC(s.len, es))
			return st, &TupleV{}
		})
	case "Add": // unsafe.Add
		p := args[0].(*PtrV)
		return st, &PtrV{p.obj, c.Add(p.off, c.Sext(args[1].(*Term), 64))}
	case "Slice": // unsafe.Slice
		p := args[0].(*PtrV)
		n := c.Sext(args[1].(*Term), 64)
		return st, &SliceV{p.obj, p.off, n, n}
	case "SliceData":
		s := args[0].(*SliceV)
		return st, &PtrV{s.obj, s.off}
	case "String":
		n := c.Sext(args[1].(*Term), 64)
		if p, ok := args[0].(*PtrV); ok {
			return st, &StrV{p.obj, p.off, n}
		}
	case "StringData":
		s := args[0].(*StrV)
		return st, &PtrV{s.obj, s.off}
	}
	unsup("builtin %s", b.Name())
	return nil, nil
}

func (ex *Exec) appendTo(st *State, s *SliceV, w Val, et types.Type, in ssa.Instruction) (*State, Val) {
	c := ex.c
	var so *Obj
	var soff, n *Term
	switch x := w.(type) {
	case *SliceV:
		so, soff, n = x.obj, x.off, x.len
	case *StrV:
		so, soff, n = x.obj, x.off, x.len
	default:
		unsup("append of %T", w)
	}
	es := uint64(ex.sizes.Sizeof(et))
	if n.isConst() && n.c == 0 {
		return st, s
	}
	nl := c.Add(s.len, n)
	put := func(st *State, o *Obj, off *Term) {
		if isCellType(et) || hasCells(et) {
			if !n.isConst() || !soff.isConst() {
				unsup("append of pointers")
			}
			for i := uint64(0); i < n.c; i++ {
				ex.store(st, o, c.AddC(off, int64(i*es)), et, ex.load(st, so, c.AddC(soff, int64(i*es)), et))
			}
			return
		}
		ex.copyRange(st, o, off, so, soff, c.MulC(n, es))
	}
	fits := c.Canon(c.Ule(nl, s.cap))
	var outs []Outcome
	if s.obj != nil && !fits.isFalse() && ex.feasible(st.pc, fits) {
		f := st
		if !fits.isTrue() {
			f = ex.fork(st)
			f.pc = c.BAnd(f.pc, fits)
		}
		if to := c.Add(s.off, c.MulC(s.len, es)); ex.inBounds(f, s.obj, to, c.MulC(n, es), "write", in) {
			put(f, s.obj, to)
			outs = append(outs, Outcome{f, &SliceV{s.obj, s.off, nl, s.cap}})
		}
		if fits.isTrue() {
			return ex.mergeOutcomes(outs)
		}
	}
	ng := c.BNot(fits)
	if s.obj == nil {
		ng = c.T
	}
	if ex.feasible(st.pc, ng) {
		f := st
		if len(outs) > 0 {
			f = ex.fork(st)
			f.pc = c.BAnd(f.pc, ng)
		}
		// growth: at least the needed length; doubling keeps repeated appends linear
		cp := nl
		if nl.isConst() {
			cp = c.Const(64, max(nl.c, 2*min(s.cap.uhi, nl.c)))
		}
		o := ex.allocArr(f, "append", cp, et)
		if s.obj != nil && !(s.len.isConst() && s.len.c == 0) {
			if isCellType(et) || hasCells(et) {
				if !s.len.isConst() || !s.off.isConst() {
					unsup("append of pointers")
				}
				for i := uint64(0); i < s.len.c; i++ {
					ex.store(f, o, c.Const(64, i*es), et, ex.load(f, s.obj, c.AddC(s.off, int64(i*es)), et))
				}
			} else {
				ex.copyRange(f, o, c.Const(64, 0), s.obj, s.off, c.MulC(s.len, es))
			}
		}
		put(f, o, c.MulC(s.len, es))
		outs = append(outs, Outcome{f, &SliceV{o, c.Const(64, 0), nl, cp}})
	}
	return ex.mergeOutcomes(outs)
}

func hasCells(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if isCellType(u.Field(i).Type()) || hasCells(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return isCellType(u.Elem()) || hasCells(u.Elem())
	}
	return false
}
