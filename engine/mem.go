package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---- values ----

type Val interface{}

type PtrV struct {
	obj *Obj
	off *Term // 64 bit
}

type SliceV struct {
	obj      *Obj // nil for a nil slice
	off      *Term
	len, cap *Term // 64 bit
}

type StrV struct {
	obj *Obj
	off *Term
	len *Term
}

type StructV struct{ f []Val }
type ArrV struct{ e []Val }
type TupleV struct{ e []Val }
type FuncV struct {
	fn   *ssa.Function // nil: nil func
	bind []Val
	stub func(ex *Exec, st *State, args []Val) []Outcome
	name string
}
type IfaceV struct {
	t types.Type // nil: nil interface
	v Val
}
type OpaqueV struct{ why string }

// UnionV: guards are exclusive and cover the path condition.
type UnionV struct {
	gs []*Term
	vs []Val
}

type Unsupported struct{ why string }

func (u Unsupported) Error() string { return u.why }

func unsup(f string, a ...interface{}) {
	if os.Getenv("VERIF_UNSUP") != "" {
		fmt.Fprintf(os.Stderr, f+"\n%s\n", append(a, debug.Stack())...)
	}
	panic(Unsupported{fmt.Sprintf(f, a...)})
}

// ---- objects ----

type Base interface {
	at(c *Ctx, o *Term) *Term // byte at offset o
}

type zeroBase struct{}

func (zeroBase) at(c *Ctx, o *Term) *Term { return c.Const(8, 0) }

// prefixBase: known bytes followed by an uninterpreted function of the offset.
type prefixBase struct {
	pre []*Term
	uf  string // "" : zero
}

func (b *prefixBase) at(c *Ctx, o *Term) *Term {
	n := uint64(len(b.pre))
	var r *Term
	if b.uf != "" {
		r = c.UF(b.uf, 8, o)
	} else {
		r = c.Const(8, 0)
	}
	if o.ulo >= n {
		return r
	}
	if o.isConst() {
		return b.pre[o.c]
	}
	hi := min(o.uhi, n-1)
	if b.uf == "" || o.uhi < n {
		return muxBytes(c, o, o.ulo, hi, func(i uint64) *Term { return b.pre[i] })
	}
	for i := int64(hi); i >= int64(o.ulo); i-- {
		r = c.Ite(c.Eq(o, c.Const(64, uint64(i))), b.pre[i], r)
	}
	return r
}

// muxBytes selects f(o) for lo <= o <= hi.
func muxBytes(c *Ctx, o *Term, lo, hi uint64, f func(uint64) *Term) *Term {
	if hi-lo > 1<<16 {
		unsup("selection over %d bytes", hi-lo)
	}
	vals := make([]*Term, hi-lo+1)
	allc, same := true, true
	w := 0
	for i := range vals {
		vals[i] = f(lo + uint64(i))
		w = vals[i].w
		if !vals[i].isConst() {
			allc = false
		}
		if vals[i] != vals[0] {
			same = false
		}
	}
	if same {
		return vals[0]
	}
	if allc && (len(vals) > 8 || o.op != OpIte) {
		iw := 1
		for uint64(1)<<uint(iw) <= hi {
			iw++
		}
		// use the linear form's single atom when it is smaller
		if o.op == OpAdd && len(o.args) == 1 && o.exact {
			a := o.args[0]
			cf, k := o.coefs[0], o.c
			aw := 1
			for aw < 64 && uint64(1)<<uint(aw) <= a.uhi {
				aw++
			}
			if aw <= 16 && aw <= iw {
				tab := make([]uint64, 1<<uint(aw))
				for i := range tab {
					p := k + cf*uint64(i)
					if p >= lo && p <= hi {
						tab[i] = vals[p-lo].c
					}
				}
				return c.Lut(w, aw, tab, c.Extract(a, aw-1, 0))
			}
		}
		tab := make([]uint64, 1<<uint(iw))
		for i := range vals {
			tab[lo+uint64(i)] = vals[i].c
		}
		if iw == 64 {
			return c.Lut(w, iw, tab, o)
		}
		return c.Lut(w, iw, tab, c.Extract(o, iw-1, 0))
	}
	if hi-lo > 2048 {
		unsup("selection over %d symbolic bytes", hi-lo)
	}
	r := vals[len(vals)-1]
	for i := len(vals) - 2; i >= 0; i-- {
		r = c.Ite(c.Eq(o, c.Const(64, lo+uint64(i))), vals[i], r)
	}
	return r
}

type Obj struct {
	id    int
	name  string
	size  *Term
	csize int64 // -1: symbolic
	base  Base
	ro    bool
	glob  *ssa.Global
	typ   types.Type
	opq   string // non-empty: contents unknown to the engine (reason)
	born  *int   // non-nil: allocated during execution
}

type wr struct {
	prev   *wr
	depth  int
	g      *Term
	off    *Term
	bytes  []*Term
	cp     *cpEnt
	lo, hi uint64 // possible byte range [lo, hi)
	minlo  uint64 // over this entry and all before it
	maxhi  uint64
	// the entries from this one up to but excluding jump lie at or above segMin and end at or
	// below segMax (nil: unknown)
	jump           *wr
	segMin, segMax *Term
}

type cpEnt struct {
	src *Obj
	st  *ObjState
	off *Term
	n   *Term
}

const pgBits = 6
const pgSize = 1 << pgBits

type page struct {
	gen int
	b   [pgSize]*Term
}

type ObjState struct {
	gen   int
	pages []*page
	log   *wr
	cells map[int64]Val
}

type State struct {
	pc  *Term
	mem map[*Obj]*ObjState
	gen int
}

var genCounter int64

func (ex *Exec) newGen() int { ex.gens++; return ex.gens }

func (ex *Exec) fork(st *State) *State {
	ex.st.Forks++
	m := make(map[*Obj]*ObjState, len(st.mem))
	for k, v := range st.mem {
		m[k] = v
	}
	st.gen = ex.newGen()
	return &State{pc: st.pc, mem: m, gen: ex.newGen()}
}

func (ex *Exec) newObj(name string, size *Term, base Base) *Obj {
	ex.nobj++
	o := &Obj{id: ex.nobj, name: name, size: size, csize: -1, base: base}
	if size.isConst() {
		o.csize = int64(size.c)
	}
	return o
}

var emptyState = &ObjState{}

func (ex *Exec) ostate(st *State, o *Obj) *ObjState {
	if s, ok := st.mem[o]; ok {
		return s
	}
	if s, ok := ex.initMem[o]; ok {
		return s
	}
	if o.glob != nil {
		ex.ensureInit(o.glob)
		if s, ok := ex.initMem[o]; ok {
			return s
		}
		if why := ex.initFail[o.glob.Pkg]; why != "" {
			unsup("initial value of %s: %s", o.name, why)
		}
	}
	if o.opq != "" {
		unsup("access to %s: %s", o.name, o.opq)
	}
	return emptyState
}

// own returns an ObjState of o that st may modify.
func (ex *Exec) own(st *State, o *Obj) *ObjState {
	s := ex.ostate(st, o)
	if s.gen == st.gen && st.mem[o] == s {
		return s
	}
	n := &ObjState{gen: st.gen, log: s.log}
	n.pages = append([]*page(nil), s.pages...)
	if len(s.cells) > 0 {
		n.cells = make(map[int64]Val, len(s.cells))
		for k, v := range s.cells {
			n.cells[k] = v
		}
	}
	st.mem[o] = n
	return n
}

func (o *Obj) flatAt(c *Ctx, s *ObjState, i uint64) *Term {
	p := int(i >> pgBits)
	if p < len(s.pages) && s.pages[p] != nil {
		if b := s.pages[p].b[i&(pgSize-1)]; b != nil {
			return b
		}
	}
	return o.base.at(c, c.Const(64, i))
}

func (ex *Exec) setFlat(st *State, o *Obj, s *ObjState, i uint64, b *Term) {
	p := int(i >> pgBits)
	for p >= len(s.pages) {
		s.pages = append(s.pages, nil)
	}
	pg := s.pages[p]
	if pg == nil {
		pg = &page{gen: st.gen}
		s.pages[p] = pg
	} else if pg.gen != st.gen {
		n := *pg
		n.gen = st.gen
		pg = &n
		s.pages[p] = pg
	}
	pg.b[i&(pgSize-1)] = b
}

func (s *ObjState) hasFlat(lo, hi uint64) bool {
	for p := lo >> pgBits; p <= hi>>pgBits && p < uint64(len(s.pages)); p++ {
		if s.pages[p] != nil {
			return true
		}
	}
	return false
}

// baseByte reads below the log.
func (ex *Exec) baseByte(o *Obj, s *ObjState, off *Term) *Term {
	c := ex.c
	if off.isConst() {
		if o.csize >= 0 && off.c >= uint64(o.csize) {
			return c.Const(8, 0)
		}
		return o.flatAt(c, s, off.c)
	}
	lo, hi := off.ulo, off.uhi
	if o.csize >= 0 {
		if o.csize == 0 || lo >= uint64(o.csize) {
			return c.Const(8, 0)
		}
		hi = min(hi, uint64(o.csize)-1)
	}
	if o.csize < 0 || hi-lo > 1<<16 {
		if s.hasFlat(lo, hi) {
			unsup("symbolic read over flat writes of large object %s", o.name)
		}
		return o.base.at(c, off)
	}
	if pb, ok := o.base.(*prefixBase); ok && pb.uf != "" && !s.hasFlat(lo, hi) {
		return o.base.at(c, off)
	}
	if _, ok := o.base.(zeroBase); ok && !s.hasFlat(lo, hi) {
		return c.Const(8, 0)
	}
	step := uint64(1)
	l0 := lo
	if off.op == OpAdd {
		// all values are congruent to the constant modulo the gcd of the coefficients
		g := uint64(0)
		for _, k := range off.coefs {
			g = gcd(g, uint64(abs64(sext64(k, 64))))
		}
		if g > 1 && off.exact {
			step = g
			l0 = off.c % g
			for l0 < lo {
				l0 += g
			}
			if uint64(sext64(off.c, 64)) != off.c {
				step, l0 = 1, lo
			}
		}
	}
	if step > 1 {
		last := (*Term)(nil)
		return muxBytes(c, off, lo, hi, func(i uint64) *Term {
			if i >= l0 && (i-l0)%step == 0 || last == nil {
				last = o.flatAt(c, s, i)
			}
			return last
		})
	}
	return muxBytes(c, off, lo, hi, func(i uint64) *Term { return o.flatAt(c, s, i) })
}

func gcd(a, b uint64) uint64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

// readByte reads one byte at a possibly symbolic offset; ov gives tighter ranges for atoms.
func (ex *Exec) readByte(o *Obj, s *ObjState, off *Term, ov map[*Term][2]uint64) *Term {
	c := ex.c
	type gv struct{ g, v *Term }
	var acc []gv
	var last *Term
	lo, hi := off.ulo, off.uhi
	var next *wr
loop:
	for w := s.log; ; w = next {
		if w == nil || hi < w.minlo || lo >= w.maxhi {
			last = ex.baseByte(o, s, off)
			break
		}
		next = w.jump
		if w.jump != w.prev {
			if w.segMin != nil {
				if _, dhi, ok := c.diffRange(w.segMin, off, ov); ok && dhi < 0 {
					continue
				}
			}
			if w.segMax != nil {
				if dlo, _, ok := c.diffRange(w.segMax, off, ov); ok && dlo >= 0 {
					continue
				}
			}
		}
		next = w.prev
		if hi < w.lo || lo >= w.hi {
			continue
		}
		if w.cp != nil {
			dlo, _, ok := c.diffRange(w.off, off, ov)
			_, nhi, ok2 := c.diffRange(w.off, off, ov)
			if ok && ok2 && (nhi < 0 || dlo >= int64(min(w.cp.n.uhi, 1<<61))) {
				continue
			}
			d := c.Sub(off, w.off)
			g := c.BAnd(w.g, c.Ule(w.off, off), c.Ult(d, w.cp.n))
			if g.isFalse() {
				continue
			}
			v := ex.readByte(w.cp.src, w.cp.st, c.Add(w.cp.off, d), nil)
			acc = append(acc, gv{g, v})
			if g.isTrue() {
				last = v
				acc = acc[:len(acc)-1]
				break loop
			}
			continue
		}
		m := int64(len(w.bytes))
		var dlo, dhi int64
		known := true
		if off.isConst() && w.off.isConst() {
			dlo = int64(off.c) - int64(w.off.c)
			dhi = dlo
		} else {
			dlo, dhi, known = c.diffRange(w.off, off, ov)
			if !known {
				dlo, dhi = 0, m-1
				if off == w.off {
					known, dhi = true, 0
				}
			}
		}
		if dhi < 0 || dlo >= m {
			continue
		}
		if known && dlo == dhi {
			if w.g.isTrue() {
				last = w.bytes[dlo]
				break
			}
			acc = append(acc, gv{w.g, w.bytes[dlo]})
			continue
		}
		inside := known && dlo >= 0 && dhi < m
		dlo, dhi = max(dlo, 0), min(dhi, m-1)
		if inside && w.g.isTrue() {
			d := c.Sub(off, w.off)
			last = muxBytes(c, d, uint64(dlo), uint64(dhi), func(i uint64) *Term { return w.bytes[i] })
			break
		}
		for j := dlo; j <= dhi; j++ {
			e := c.Eq(off, c.AddC(w.off, j))
			if e.isFalse() {
				continue
			}
			acc = append(acc, gv{c.BAnd(w.g, e), w.bytes[j]})
		}
	}
	r := last
	for i := len(acc) - 1; i >= 0; i-- {
		r = c.Ite(acc[i].g, acc[i].v, r)
	}
	return r
}

// writeBytes stores a chunk under guard g (relative to the state).
func (ex *Exec) writeBytes(st *State, o *Obj, off *Term, bytes []*Term, g *Term) {
	c := ex.c
	if g.isFalse() || len(bytes) == 0 {
		return
	}
	if o.ro {
		unsup("write to read-only object %s", o.name)
	}
	s := ex.own(st, o)
	m := uint64(len(bytes))
	if off.isConst() && o.csize >= 0 && (s.log == nil || off.c+m <= s.log.minlo || off.c >= s.log.maxhi) {
		for i, b := range bytes {
			x := off.c + uint64(i)
			if x >= uint64(o.csize) {
				break
			}
			if !g.isTrue() {
				b = c.Ite(g, b, o.flatAt(c, s, x))
			}
			ex.setFlat(st, o, s, x, b)
		}
		for k := range s.cells {
			if k+8 > int64(off.c) && k < int64(off.c+m) {
				unsup("scalar store over pointer in %s", o.name)
			}
		}
		return
	}
	if len(s.cells) > 0 && !off.isConst() {
		unsup("symbolic store into object with pointers %s", o.name)
	}
	w := &wr{prev: s.log, g: g, off: off, bytes: bytes, lo: off.ulo, hi: off.uhi + m}
	if w.hi < off.uhi {
		w.hi = ^uint64(0)
	}
	pushLog(ex.c, s, w)
}

// jumpDepth is the depth of what j jumps to, -1 past the first entry.
func (w *wr) jumpDepth() int {
	if w.jump == nil {
		return -1
	}
	return w.jump.depth
}

// lesser is the one of two offsets that is certainly not above the other, nil if unknown.
func lesser(c *Ctx, a, b *Term) *Term {
	if a == nil || b == nil {
		return nil
	}
	if lo, hi, ok := c.diffRange(a, b, nil); ok {
		if lo >= 0 {
			return a
		}
		if hi <= 0 {
			return b
		}
	}
	return nil
}

func greater(c *Ctx, a, b *Term) *Term {
	if a == nil || b == nil {
		return nil
	}
	if lo, hi, ok := c.diffRange(a, b, nil); ok {
		if lo >= 0 {
			return b
		}
		if hi <= 0 {
			return a
		}
	}
	return nil
}

func pushLog(c *Ctx, s *ObjState, w *wr) {
	w.prev = s.log
	w.minlo, w.maxhi = w.lo, w.hi
	w.jump, w.segMin, w.segMax = nil, w.off, nil
	if w.cp == nil {
		w.segMax = c.AddC(w.off, int64(len(w.bytes)))
	}
	if p := s.log; p != nil {
		w.jump = p
		if j := p.jump; j != nil && p.depth-j.depth == j.depth-j.jumpDepth() {
			w.jump = j.jump
			for _, x := range []*wr{p, j} {
				w.segMin = lesser(c, w.segMin, x.segMin)
				w.segMax = greater(c, w.segMax, x.segMax)
			}
		}
	}
	if s.log != nil {
		w.depth = s.log.depth + 1
		w.minlo, w.maxhi = min(w.minlo, s.log.minlo), max(w.maxhi, s.log.maxhi)
	}
	s.log = w
}

// copyRange copies n bytes (n may be symbolic).
func (ex *Exec) copyRange(st *State, dst *Obj, doff *Term, src *Obj, soff, n *Term) {
	if n.isConst() && n.c == 0 {
		return
	}
	ss := ex.ostate(st, src)
	if n.isConst() && n.c <= 4096 {
		bs := make([]*Term, n.c)
		for i := range bs {
			bs[i] = ex.readByte(src, ss, ex.c.AddC(soff, int64(i)), nil)
		}
		ex.writeBytes(st, dst, doff, bs, ex.c.T)
		return
	}
	s := ex.own(st, dst)
	snap := *ss // snapshot: pages and cells are copy-on-write by generation
	if dst == src || ss.gen == st.gen {
		snap.pages = append([]*page(nil), ss.pages...)
		for i, p := range snap.pages {
			if p != nil && p.gen == st.gen {
				q := *p
				snap.pages[i] = &q
			}
		}
	}
	w := &wr{g: ex.c.T, off: doff, cp: &cpEnt{src, &snap, soff, n}, lo: doff.ulo, hi: doff.uhi + n.uhi}
	if w.hi < doff.uhi {
		w.hi = ^uint64(0)
	}
	pushLog(ex.c, s, w)
}

// ---- merging ----

func (ex *Exec) mergeObj(o *Obj, g *Term, a, b *ObjState, gen int) *ObjState {
	c := ex.c
	n := &ObjState{gen: gen}
	// flat pages
	np := max(len(a.pages), len(b.pages))
	n.pages = make([]*page, np)
	for i := 0; i < np; i++ {
		var pa, pb *page
		if i < len(a.pages) {
			pa = a.pages[i]
		}
		if i < len(b.pages) {
			pb = b.pages[i]
		}
		if pa == pb {
			n.pages[i] = pa
			continue
		}
		q := &page{gen: gen}
		for j := 0; j < pgSize; j++ {
			var x, y *Term
			if pa != nil {
				x = pa.b[j]
			}
			if pb != nil {
				y = pb.b[j]
			}
			if x == y {
				q.b[j] = x
				continue
			}
			k := uint64(i)<<pgBits + uint64(j)
			if x == nil {
				x = o.flatAt(c, a, k)
			}
			if y == nil {
				y = o.flatAt(c, b, k)
			}
			q.b[j] = ex.canonIte(g, x, y)
		}
		n.pages[i] = q
	}
	// logs
	x, y := a.log, b.log
	var sa, sb []*wr
	for x != y {
		if y == nil || x != nil && x.depth >= y.depth {
			sa = append(sa, x)
			x = x.prev
		} else {
			sb = append(sb, y)
			y = y.prev
		}
	}
	n.log = x
	add := func(l []*wr, gg *Term) {
		for i := len(l) - 1; i >= 0; i-- {
			w := *l[i]
			w.g = c.Canon(c.BAnd(w.g, gg))
			if w.g.isFalse() {
				continue
			}
			w.depth = 0
			pushLog(c, n, &w)
		}
	}
	add(sa, g)
	add(sb, c.BNot(g))
	if len(a.cells) > 0 || len(b.cells) > 0 {
		n.cells = map[int64]Val{}
		for _, k := range cellKeys(a.cells) {
			v := a.cells[k]
			if w, ok := b.cells[k]; ok {
				n.cells[k] = ex.mergeVal(g, v, w)
			} else {
				n.cells[k] = ex.mergeVal(g, v, ex.zeroLike(v))
			}
		}
		for _, k := range cellKeys(b.cells) {
			v := b.cells[k]
			if _, ok := a.cells[k]; !ok {
				n.cells[k] = ex.mergeVal(g, ex.zeroLike(v), v)
			}
		}
	}
	return n
}

func cellKeys(m map[int64]Val) []int64 {
	ks := make([]int64, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

func (ex *Exec) zeroLike(v Val) Val {
	switch x := v.(type) {
	case *PtrV:
		return ex.nilPtr
	case *SliceV:
		return ex.nilSlice
	case *StrV:
		return ex.emptyStr
	case *FuncV:
		return &FuncV{}
	case *IfaceV:
		return &IfaceV{}
	case *UnionV:
		return ex.zeroLike(x.vs[0])
	case *MapV:
		return &MapV{}
	case *mapEnt:
		return (*mapEnt)(nil)
	case *OpaqueV:
		return x
	}
	unsup("zeroLike %T", v)
	return nil
}

func (ex *Exec) canonIte(g, a, b *Term) *Term {
	if a == b {
		return a
	}
	return ex.c.Canon(ex.c.Ite(g, a, b))
}

func (ex *Exec) mergeVal(g *Term, a, b Val) Val {
	if a == b || g.isTrue() {
		return a
	}
	if g.isFalse() {
		return b
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return ex.canonIte(g, x, y)
		}
	case *PtrV:
		if y, ok := b.(*PtrV); ok && x.obj == y.obj {
			if x.off == y.off {
				return a
			}
			return &PtrV{x.obj, ex.canonIte(g, x.off, y.off)}
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok && x.obj == y.obj {
			if x.off == y.off && x.len == y.len && x.cap == y.cap {
				return a
			}
			return &SliceV{x.obj, ex.canonIte(g, x.off, y.off), ex.canonIte(g, x.len, y.len), ex.canonIte(g, x.cap, y.cap)}
		}
	case *StrV:
		if y, ok := b.(*StrV); ok && x.obj == y.obj {
			if x.off == y.off && x.len == y.len {
				return a
			}
			return &StrV{x.obj, ex.canonIte(g, x.off, y.off), ex.canonIte(g, x.len, y.len)}
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			r := make([]Val, len(x.f))
			for i := range r {
				r[i] = ex.mergeVal(g, x.f[i], y.f[i])
			}
			return &StructV{r}
		}
	case *ArrV:
		if y, ok := b.(*ArrV); ok && len(x.e) == len(y.e) {
			r := make([]Val, len(x.e))
			for i := range r {
				r[i] = ex.mergeVal(g, x.e[i], y.e[i])
			}
			return &ArrV{r}
		}
	case *TupleV:
		if y, ok := b.(*TupleV); ok && len(x.e) == len(y.e) {
			r := make([]Val, len(x.e))
			for i := range r {
				r[i] = ex.mergeVal(g, x.e[i], y.e[i])
			}
			return &TupleV{r}
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok && x.fn == y.fn && x.fn != nil && len(x.bind) == 0 {
			return a
		}
		if y, ok := b.(*FuncV); ok && x.fn == y.fn && x.fn != nil && len(x.bind) == len(y.bind) {
			r := make([]Val, len(x.bind))
			for i := range r {
				r[i] = ex.mergeVal(g, x.bind[i], y.bind[i])
			}
			return &FuncV{fn: x.fn, bind: r}
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			if x.t == nil && y.t == nil {
				return a
			}
			if x.t != nil && y.t != nil && types.Identical(x.t, y.t) {
				return &IfaceV{x.t, ex.mergeVal(g, x.v, y.v)}
			}
		}
	case *mapEnt:
		if y, ok := b.(*mapEnt); ok {
			return ex.mergeEnt(g, x, y)
		}
	case *MapV:
		if y, ok := b.(*MapV); ok && x.obj == y.obj {
			return a
		}
	case *FloatV:
		if y, ok := b.(*FloatV); ok && x.w == y.w {
			return &FloatV{ex.canonIte(g, x.bits, y.bits), x.w}
		}
	case *OpaqueV:
		return a
	}
	if _, ok := b.(*OpaqueV); ok {
		return b
	}
	// union
	u := &UnionV{}
	add := func(gg *Term, v Val) {
		gg = ex.c.Canon(gg)
		if gg.isFalse() {
			return
		}
		for i, w := range u.vs {
			if sameVal(w, v) {
				u.gs[i] = ex.c.BOr(u.gs[i], gg)
				return
			}
		}
		// same object: combine offsets
		for i, w := range u.vs {
			switch y := w.(type) {
			case *SliceV:
				if z, ok := v.(*SliceV); ok && z.obj == y.obj {
					u.vs[i] = ex.mergeVal(gg, z, y)
					u.gs[i] = ex.c.BOr(u.gs[i], gg)
					return
				}
			case *PtrV:
				if z, ok := v.(*PtrV); ok && z.obj == y.obj {
					u.vs[i] = ex.mergeVal(gg, z, y)
					u.gs[i] = ex.c.BOr(u.gs[i], gg)
					return
				}
			case *StrV:
				if z, ok := v.(*StrV); ok && z.obj == y.obj {
					u.vs[i] = ex.mergeVal(gg, z, y)
					u.gs[i] = ex.c.BOr(u.gs[i], gg)
					return
				}
			}
		}
		u.gs = append(u.gs, gg)
		u.vs = append(u.vs, v)
	}
	put := func(gg *Term, v Val) {
		if y, ok := v.(*UnionV); ok {
			for i := range y.vs {
				add(ex.c.BAnd(gg, y.gs[i]), y.vs[i])
			}
		} else {
			add(gg, v)
		}
	}
	put(g, a)
	put(ex.c.BNot(g), b)
	if len(u.vs) == 1 {
		return u.vs[0]
	}
	if len(u.vs) > 64 {
		unsup("union of %d values", len(u.vs))
	}
	return u
}

func sameVal(a, b Val) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *PtrV:
		y, ok := b.(*PtrV)
		return ok && x.obj == y.obj && x.off == y.off
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && x.obj == y.obj && x.off == y.off && x.len == y.len && x.cap == y.cap
	case *StrV:
		y, ok := b.(*StrV)
		return ok && x.obj == y.obj && x.off == y.off && x.len == y.len
	case *MapV:
		y, ok := b.(*MapV)
		return ok && x.obj == y.obj
	case *FuncV:
		y, ok := b.(*FuncV)
		return ok && x.fn == y.fn && len(x.bind) == 0 && len(y.bind) == 0 && x.stub == nil && y.stub == nil
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return types.Identical(x.t, y.t) && sameVal(x.v, y.v)
	}
	return false
}

// splitPC factors two path conditions into common conjuncts and the rest.
func (ex *Exec) splitPC(a, b *Term) (common, ra, rb *Term) {
	c := ex.c
	conj := func(t *Term) []*Term {
		if t.op == OpBAnd {
			return t.args
		}
		if t.isTrue() {
			return nil
		}
		return []*Term{t}
	}
	A, B := conj(a), conj(b)
	in := map[*Term]bool{}
	for _, x := range B {
		in[x] = true
	}
	var com, xa, xb []*Term
	cm := map[*Term]bool{}
	for _, x := range A {
		if in[x] {
			com = append(com, x)
			cm[x] = true
		} else {
			xa = append(xa, x)
		}
	}
	for _, x := range B {
		if !cm[x] {
			xb = append(xb, x)
		}
	}
	return c.naryList(OpBAnd, com), c.naryList(OpBAnd, xa), c.naryList(OpBAnd, xb)
}

// merge joins two states; guard selects a.
func (ex *Exec) merge(a, b *State) (*State, *Term) {
	ex.st.Merges++
	c := ex.c
	com, ra, rb := ex.splitPC(a.pc, b.pc)
	ra, rb = c.Canon(ra), c.Canon(rb)
	g := ra
	// prefer the simpler selector
	if nb := c.BNot(rb); nb != ra && (nb.isReg || rb.isReg) && !ra.isReg {
		g = nb
	}
	dis := c.Canon(c.BOr(ra, rb))
	n := &State{pc: c.BAnd(com, dis), mem: make(map[*Obj]*ObjState, len(a.mem)), gen: ex.newGen()}
	a.gen, b.gen = ex.newGen(), ex.newGen()
	type todo struct {
		o      *Obj
		sa, sb *ObjState
	}
	var td []todo
	pick := func(o *Obj, sa, sb *ObjState, oka, okb bool) {
		if !oka || !okb {
			var d *ObjState
			if s, ok := ex.initMem[o]; ok {
				d = s
			} else if o.born != nil {
				// object created on one path only
				if oka {
					n.mem[o] = sa
				} else {
					n.mem[o] = sb
				}
				return
			} else {
				d = emptyState
			}
			if !oka {
				sa = d
			} else {
				sb = d
			}
		}
		if sa == sb {
			n.mem[o] = sa
			return
		}
		td = append(td, todo{o, sa, sb})
	}
	for o, sa := range a.mem {
		sb, ok := b.mem[o]
		pick(o, sa, sb, true, ok)
	}
	for o, sb := range b.mem {
		if _, ok := a.mem[o]; !ok {
			pick(o, nil, sb, false, true)
		}
	}
	sort.Slice(td, func(i, j int) bool { return td[i].o.id < td[j].o.id })
	for _, t := range td {
		n.mem[t.o] = ex.mergeObj(t.o, g, t.sa, t.sb, n.gen)
	}
	return n, g
}
