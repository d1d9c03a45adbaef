package main

// Term language: hash-consed bit-vector (width 1..64) and boolean (width 0) terms with
// simplification, interval and known-bit information.

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"sort"
	"strings"
	"time"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpAdd // c + sum coefs[i]*args[i]  (mod 2^w)
	OpMul
	OpAnd
	OpOr
	OpXor
	OpNot
	OpShl
	OpLshr
	OpAshr
	OpConcat  // args high to low
	OpExtract // args[0], low bit c, width w
	OpIte
	OpEq
	OpUlt
	OpSlt
	OpUdiv
	OpUrem
	OpSdiv
	OpSrem
	OpLut // args[0] index, table lut
	OpUF  // name(args[0]) -> w
	OpBAnd
	OpBOr
	OpBNot
)

type Lut struct {
	smt  string
	id   int
	w    int // result width
	iw   int // index width
	vals []uint64
}

type Term struct {
	id       int
	op       Op
	w        int
	args     []*Term
	c        uint64
	coefs    []uint64
	name     string
	lut      *Lut
	ulo, uhi uint64
	slo, shi int64
	kz       uint64 // bits known zero
	exact    bool   // Add: integer value of the linear form equals the unsigned value
	sig      []uint64
	canon    *Term
	isReg    bool
	nodes    int // rough tree size (saturating)
}

type constKey struct {
	w int
	v uint64
}

type Ctx struct {
	tab    map[string]*Term
	consts map[constKey]*Term
	n      int
	luts   map[string]*Lut
	lutSeq []*Lut
	T, F   *Term
	vars   []*Term
	// sweeping
	reg          map[uint64][]*Term
	seed         uint64
	K            int
	simFix       map[string]func(j int) uint64
	sv           *Solver
	st           *Stats
	assume       []*Term // global domain constraints of the harness
	noSweep      bool
	sweepTimeout int
	ufMisses     int // equalities with uninterpreted applications that were not proved
	feas         map[*Term]bool
	limit        time.Time // the work stops here
	maxTerms     int
	dec          *decider
}

// decider steers a run along one path: every ambiguous branch takes the next recorded decision,
// whose condition becomes an assumption.
type decider struct {
	path []bool
	next int
}

type needDecision struct{}

func (c *Ctx) decide(cond *Term) bool {
	d := c.dec
	if d.next == len(d.path) {
		panic(needDecision{})
	}
	v := d.path[d.next]
	d.next++
	if !v {
		cond = c.BNot(cond)
	}
	c.assume = append(c.assume, cond)
	c.feas = map[*Term]bool{}
	return v
}

func NewCtx(sv *Solver, st *Stats, seed uint64) *Ctx {
	c := &Ctx{tab: map[string]*Term{}, luts: map[string]*Lut{}, reg: map[uint64][]*Term{}, seed: seed, K: 48,
		consts: map[constKey]*Term{},
		simFix: map[string]func(int) uint64{}, sweepTimeout: 3000, feas: map[*Term]bool{}, sv: sv, st: st}
	c.T = c.mk(&Term{op: OpConst, w: 0, c: 1, ulo: 1, uhi: 1})
	c.F = c.mk(&Term{op: OpConst, w: 0, c: 0, ulo: 0, uhi: 0})
	return c
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func sext64(v uint64, w int) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	if v>>(uint(w)-1)&1 == 1 {
		return int64(v | ^mask(w))
	}
	return int64(v)
}

func (c *Ctx) mk(t *Term) *Term {
	var arr [128]byte
	b := append(arr[:0], byte(t.op), byte(t.w))
	b = binary.AppendUvarint(b, t.c)
	for i, a := range t.args {
		b = binary.AppendUvarint(b, uint64(a.id))
		if t.coefs != nil {
			b = binary.AppendUvarint(b, t.coefs[i])
		}
	}
	if t.lut != nil {
		b = binary.AppendUvarint(b, uint64(t.lut.id))
	}
	b = append(b, t.name...)
	if x, ok := c.tab[string(b)]; ok {
		return x
	}
	t.id = c.n
	c.n++
	if c.n&255 == 0 && !c.limit.IsZero() {
		c.checkLimit()
	}
	t.nodes = 1
	for _, a := range t.args {
		t.nodes += a.nodes
	}
	if t.nodes > 1<<30 {
		t.nodes = 1 << 30
	}
	c.bounds(t)
	c.tab[string(b)] = t
	return t
}

// checkLimit gives up when the time or the size limit is exceeded; what handles that gets some
// more of both.
func (c *Ctx) checkLimit() {
	switch now := time.Now(); {
	case now.After(c.limit):
		c.limit = now.Add(20 * time.Second)
		unsup("time limit")
	case c.n > c.maxTerms:
		c.maxTerms += 100000
		unsup("formula too large")
	}
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isBool() bool  { return t.w == 0 }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.c == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.c == 0 }

// bounds computes interval and known-zero information.
func (c *Ctx) bounds(t *Term) {
	m := mask(t.w)
	if t.w == 0 {
		if t.op == OpConst {
			t.ulo, t.uhi = t.c, t.c
		} else {
			t.ulo, t.uhi = 0, 1
		}
		return
	}
	t.ulo, t.uhi = 0, m
	t.kz = 0
	full := true
	switch t.op {
	case OpConst:
		t.ulo, t.uhi = t.c, t.c
		t.kz = ^t.c & m
		full = false
	case OpAdd:
		lo, hi, ok := linRange(t, nil)
		if ok {
			if lo >= 0 && (t.w == 64 || hi <= int64(m)) {
				t.ulo, t.uhi = uint64(lo), uint64(hi)
				t.exact = true
			} else if (t.w == 64) || (lo >= -(1<<uint(t.w-1)) && hi < 1<<uint(t.w-1)) {
				t.slo, t.shi = lo, hi
				if hi < 0 {
					t.ulo, t.uhi = uint64(lo)&m, uint64(hi)&m
				}
				return
			}
		}
	case OpConcat:
		sh := t.w
		var lo, hi, kz uint64
		for _, a := range t.args {
			sh -= a.w
			lo |= a.ulo << uint(sh)
			hi |= a.uhi << uint(sh)
			kz |= a.kz << uint(sh)
		}
		t.ulo, t.uhi, t.kz = lo, hi, kz
	case OpExtract:
		a := t.args[0]
		t.kz = a.kz >> t.c & m
		if a.uhi>>t.c <= m {
			t.ulo, t.uhi = a.ulo>>t.c, a.uhi>>t.c
		}
	case OpIte:
		a, b := t.args[1], t.args[2]
		t.ulo, t.uhi = min(a.ulo, b.ulo), max(a.uhi, b.uhi)
		t.kz = a.kz & b.kz
		t.slo, t.shi = min(a.slo, b.slo), max(a.shi, b.shi)
		if t.uhi > m>>1 {
			if t.kz != 0 {
				t.uhi = min(t.uhi, m&^t.kz)
			}
			return
		}
	case OpLut:
		lo, hi, kz := ^uint64(0), uint64(0), m
		for i, v := range t.lut.vals {
			if uint64(i) < t.args[0].ulo || uint64(i) > t.args[0].uhi {
				continue
			}
			lo, hi, kz = min(lo, v), max(hi, v), kz&^v
		}
		t.ulo, t.uhi, t.kz = lo, hi, kz
	case OpAnd:
		for _, a := range t.args {
			t.uhi = min(t.uhi, a.uhi)
			t.kz |= a.kz
		}
	case OpOr:
		t.kz = m
		for _, a := range t.args {
			t.ulo = max(t.ulo, a.ulo)
			t.kz &= a.kz
		}
		t.uhi = m &^ t.kz
	case OpXor:
		t.kz = m
		for _, a := range t.args {
			t.kz &= a.kz
		}
		t.uhi = m &^ t.kz
	case OpLshr:
		t.uhi = t.args[0].uhi
	case OpUdiv:
		if t.args[1].ulo > 0 {
			t.ulo, t.uhi = t.args[0].ulo/t.args[1].uhi, t.args[0].uhi/t.args[1].ulo
		}
	case OpUrem:
		if t.args[1].ulo > 0 {
			t.uhi = min(t.args[0].uhi, t.args[1].uhi-1)
		}
	case OpMul:
		h, l := bits.Mul64(t.args[0].uhi, t.args[1].uhi)
		if h == 0 && l <= m {
			t.ulo, t.uhi = t.args[0].ulo*t.args[1].ulo, l
		}
	}
	_ = full
	if t.uhi < m {
		t.kz |= m &^ mask(bits.Len64(t.uhi))
	}
	if t.kz != 0 {
		t.uhi = min(t.uhi, m&^t.kz)
	}
	if t.uhi <= m>>1 {
		t.slo, t.shi = int64(t.ulo), int64(t.uhi)
	} else if t.ulo > m>>1 {
		t.slo, t.shi = sext64(t.ulo, t.w), sext64(t.uhi, t.w)
	} else {
		t.slo, t.shi = -1<<uint(t.w-1), int64(m>>1)
	}
}

// linRange gives the integer range of a linear form (coefs read as signed).
func linRange(t *Term, ov map[*Term][2]uint64) (lo, hi int64, ok bool) {
	if t.op != OpAdd {
		l, h := t.ulo, t.uhi
		if ov != nil {
			if o, y := ov[t]; y {
				l, h = o[0], o[1]
			}
		}
		if h >= 1<<62 {
			return 0, 0, false
		}
		return int64(l), int64(h), true
	}
	k := sext64(t.c, t.w)
	return sumRange(k, t.args, t.coefs, t.w, ov)
}

func sumRange(k int64, args []*Term, coefs []uint64, w int, ov map[*Term][2]uint64) (lo, hi int64, ok bool) {
	flo, fhi := float64(k), float64(k)
	lo, hi = k, k
	for i, a := range args {
		cf := sext64(coefs[i], w)
		l, h := a.ulo, a.uhi
		if ov != nil {
			if o, y := ov[a]; y {
				l, h = o[0], o[1]
			}
		}
		if h > 1<<40 || cf > 1<<40 || cf < -(1<<40) {
			return 0, 0, false
		}
		if cf >= 0 {
			flo += float64(cf) * float64(l)
			fhi += float64(cf) * float64(h)
			lo += cf * int64(l)
			hi += cf * int64(h)
		} else {
			flo += float64(cf) * float64(h)
			fhi += float64(cf) * float64(l)
			lo += cf * int64(h)
			hi += cf * int64(l)
		}
		if flo < -(1<<61) || fhi > 1<<61 {
			return 0, 0, false
		}
	}
	return lo, hi, true
}

// ---- constructors ----

func (c *Ctx) Const(w int, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return c.T
		}
		return c.F
	}
	v &= mask(w)
	k := constKey{w, v}
	if t, ok := c.consts[k]; ok {
		return t
	}
	t := c.mk(&Term{op: OpConst, w: w, c: v})
	c.consts[k] = t
	return t
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

func (c *Ctx) Var(name string, w int) *Term {
	n := c.n
	t := c.mk(&Term{op: OpVar, w: w, name: name})
	if c.n != n {
		c.vars = append(c.vars, t)
	}
	return t
}

func (c *Ctx) UF(name string, w int, arg *Term) *Term {
	return c.mk(&Term{op: OpUF, w: w, name: name, args: []*Term{arg}})
}

func (c *Ctx) Lut(w, iw int, vals []uint64, idx *Term) *Term {
	if idx.w != iw || len(vals) != 1<<uint(iw) {
		panic("lut width")
	}
	if idx.isConst() {
		return c.Const(w, vals[idx.c])
	}
	all := true
	for _, v := range vals {
		if v != vals[0] {
			all = false
			break
		}
	}
	if all {
		return c.Const(w, vals[0])
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%d/%d:", w, iw)
	for _, v := range vals {
		fmt.Fprintf(&b, "%x,", v)
	}
	k := b.String()
	l, ok := c.luts[k]
	if !ok {
		l = &Lut{id: len(c.luts), w: w, iw: iw, vals: append([]uint64(nil), vals...)}
		c.luts[k] = l
	}
	return c.mk(&Term{op: OpLut, w: w, lut: l, args: []*Term{idx}})
}

// linear form accumulation
// lin is a linear form; the terms are sorted by id and no coefficient is 0.
type lin struct {
	w  int
	k  uint64
	ts []*Term
	cs []uint64
}

// addTo adds coef*t to the form.
func (c *Ctx) addTo(l *lin, t *Term, cf uint64) {
	m := mask(l.w)
	switch t.op {
	case OpConst:
		l.k = (l.k + cf*t.c) & m
		return
	case OpAdd:
		l.k = (l.k + cf*t.c) & m
		l.putAll(t.args, t.coefs, cf)
		return
	case OpExtract:
		if t.c == 0 && t.args[0].op == OpAdd {
			c.addTo(l, c.truncAdd(t.args[0], t.w), cf)
			return
		}
	case OpConcat:
		// x ++ 0_k  = 2^k * zext(x)
		last := t.args[len(t.args)-1]
		if last.isConst() && last.c == 0 && len(t.args) > 1 {
			k := last.w
			hi := c.Extract(t, t.w-1, k)
			c.addTo(l, c.Zext(hi, t.w), cf<<uint(k))
			return
		}
		if len(t.args) == 2 && t.args[0].isConst() && t.args[0].c == 0 && t.args[1].op == OpAdd {
			// zext of a linear form: distribute if it cannot wrap
			if d := c.zextAdd(t.args[1], t.w); d != nil {
				c.addTo(l, d, cf)
				return
			}
		}
	}
	l.put(t, cf)
}

func (l *lin) put(t *Term, cf uint64) {
	cf &= mask(l.w)
	if cf == 0 {
		return
	}
	i := len(l.ts)
	for i > 0 && l.ts[i-1].id >= t.id {
		i--
	}
	if i < len(l.ts) && l.ts[i] == t {
		if v := (l.cs[i] + cf) & mask(l.w); v != 0 {
			l.cs[i] = v
		} else {
			l.ts = append(l.ts[:i], l.ts[i+1:]...)
			l.cs = append(l.cs[:i], l.cs[i+1:]...)
		}
		return
	}
	l.ts = append(l.ts, nil)
	l.cs = append(l.cs, 0)
	copy(l.ts[i+1:], l.ts[i:])
	copy(l.cs[i+1:], l.cs[i:])
	l.ts[i], l.cs[i] = t, cf
}

// putAll adds cf times a sorted linear form.
func (l *lin) putAll(ts []*Term, cs []uint64, cf uint64) {
	m := mask(l.w)
	if len(ts) <= 2 && len(l.ts) > 0 {
		for i, t := range ts {
			l.put(t, cf*cs[i])
		}
		return
	}
	nt := make([]*Term, 0, len(l.ts)+len(ts)+2)
	nc := make([]uint64, 0, len(l.ts)+len(ts)+2)
	add := func(t *Term, v uint64) {
		if v &= m; v != 0 {
			nt, nc = append(nt, t), append(nc, v)
		}
	}
	i, j := 0, 0
	for i < len(l.ts) || j < len(ts) {
		switch {
		case j == len(ts) || i < len(l.ts) && l.ts[i].id < ts[j].id:
			add(l.ts[i], l.cs[i])
			i++
		case i == len(l.ts) || ts[j].id < l.ts[i].id:
			add(ts[j], cf*cs[j])
			j++
		default:
			add(ts[j], l.cs[i]+cf*cs[j])
			i++
			j++
		}
	}
	l.ts, l.cs = nt, nc
}

func (c *Ctx) fromLin(l *lin) *Term {
	if len(l.ts) == 0 {
		return c.Const(l.w, l.k)
	}
	if len(l.ts) == 1 && l.k == 0 && l.cs[0] == 1 {
		return l.ts[0]
	}
	return c.mk(&Term{op: OpAdd, w: l.w, c: l.k & mask(l.w), args: l.ts, coefs: l.cs})
}

func (c *Ctx) zextAdd(t *Term, w int) *Term {
	// t is OpAdd of width t.w; returns the widened linear form when it cannot wrap
	lo, hi, ok := linRange(t, nil)
	if !ok || lo < 0 || uint64(hi) > mask(t.w) {
		return nil
	}
	l := &lin{w: w, k: uint64(sext64(t.c, t.w)) & mask(w)}
	for i, a := range t.args {
		c.addTo(l, c.rawZext(a, w), uint64(sext64(t.coefs[i], t.w)))
	}
	return c.fromLin(l)
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("add width %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.Const(a.w, a.c+b.c)
	}
	if a.isConst() && a.c == 0 {
		return b
	}
	if b.isConst() && b.c == 0 {
		return a
	}
	l := &lin{w: a.w}
	c.addTo(l, a, 1)
	c.addTo(l, b, 1)
	return c.fromLin(l)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if a.w != b.w {
		panic("sub width")
	}
	if a == b {
		return c.Const(a.w, 0)
	}
	l := &lin{w: a.w}
	c.addTo(l, a, 1)
	c.addTo(l, b, ^uint64(0))
	return c.fromLin(l)
}

func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.Const(a.w, 0), a) }

func (c *Ctx) MulC(a *Term, k uint64) *Term {
	l := &lin{w: a.w}
	c.addTo(l, a, k&mask(a.w))
	return c.fromLin(l)
}

func (c *Ctx) AddC(a *Term, k int64) *Term { return c.Add(a, c.Const(a.w, uint64(k))) }

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() {
		return c.MulC(b, a.c)
	}
	if b.isConst() {
		return c.MulC(a, b.c)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OpMul, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) rawZext(t *Term, w int) *Term {
	if t.w == w {
		return t
	}
	return c.Concat(c.Const(w-t.w, 0), t)
}

// Zext zero-extends (or truncates).
func (c *Ctx) Zext(t *Term, w int) *Term {
	if t.w == w {
		return t
	}
	if t.w > w {
		return c.Extract(t, w-1, 0)
	}
	if t.op == OpAdd {
		if d := c.zextAdd(t, w); d != nil {
			return d
		}
	}
	return c.rawZext(t, w)
}

func (c *Ctx) Sext(t *Term, w int) *Term {
	if t.w == w {
		return t
	}
	if t.w > w {
		return c.Extract(t, w-1, 0)
	}
	if t.isConst() {
		return c.Const(w, uint64(sext64(t.c, t.w)))
	}
	if t.slo >= 0 {
		return c.Zext(t, w)
	}
	if t.op == OpAdd {
		lo, hi, ok := linRange(t, nil)
		if ok && lo >= -(1<<uint(t.w-1)) && hi < 1<<uint(t.w-1) {
			l := &lin{w: w, k: uint64(sext64(t.c, t.w)) & mask(w)}
			for i, a := range t.args {
				c.addTo(l, c.rawZext(a, w), uint64(sext64(t.coefs[i], t.w)))
			}
			return c.fromLin(l)
		}
	}
	s := c.Extract(t, t.w-1, t.w-1)
	parts := make([]*Term, 0, w-t.w+1)
	for i := 0; i < w-t.w; i++ {
		parts = append(parts, s)
	}
	parts = append(parts, t)
	return c.Concat(parts...)
}

// Concat joins parts, high to low.
func (c *Ctx) Concat(parts ...*Term) *Term {
	var fl []*Term
	var push func(p *Term)
	push = func(p *Term) {
		if p.op == OpConcat {
			for _, a := range p.args {
				push(a)
			}
			return
		}
		if n := len(fl); n > 0 {
			q := fl[n-1]
			if q.isConst() && p.isConst() {
				fl[n-1] = c.Const(q.w+p.w, q.c<<uint(p.w)|p.c)
				return
			}
			if q.op == OpExtract {
				if p.op == OpExtract && q.args[0] == p.args[0] && q.c == p.c+uint64(p.w) {
					fl[n-1] = nil
					fl = fl[:n-1]
					push(c.Extract(p.args[0], int(q.c)+q.w-1, int(p.c)))
					return
				}
				if q.args[0] == p && q.c == uint64(p.w) {
					panic("unreachable concat")
				}
			}
			if q.op == OpIte && p.op == OpIte && q.args[0] == p.args[0] && q.w+p.w <= 64 {
				fl = fl[:n-1]
				push(c.Ite(q.args[0], c.Concat(q.args[1], p.args[1]), c.Concat(q.args[2], p.args[2])))
				return
			}
		}
		fl = append(fl, p)
	}
	w := 0
	for _, p := range parts {
		w += p.w
	}
	if w > 64 {
		panic("concat too wide")
	}
	for _, p := range parts {
		if p.w == 0 {
			panic("concat of bool")
		}
		push(p)
	}
	if len(fl) == 1 {
		return fl[0]
	}
	if len(fl) == 2 && fl[0].isConst() && fl[0].c == 0 && fl[1].op == OpAdd {
		if d := c.zextAdd(fl[1], w); d != nil {
			return d
		}
	}
	return c.mk(&Term{op: OpConcat, w: w, args: fl})
}

func (c *Ctx) Extract(t *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if hi >= t.w || lo < 0 || w < 1 {
		panic(fmt.Sprintf("extract %d:%d of %d", hi, lo, t.w))
	}
	if w == t.w {
		return t
	}
	// known zero
	if t.kz>>uint(lo)&mask(w) == mask(w) {
		return c.Const(w, 0)
	}
	switch t.op {
	case OpConst:
		return c.Const(w, t.c>>uint(lo))
	case OpExtract:
		return c.Extract(t.args[0], hi+int(t.c), lo+int(t.c))
	case OpConcat:
		var out []*Term
		pos := t.w
		for _, a := range t.args {
			pos -= a.w // a occupies [pos, pos+a.w)
			h, l := min(hi, pos+a.w-1), max(lo, pos)
			if h >= l {
				out = append(out, c.Extract(a, h-pos, l-pos))
			}
		}
		return c.Concat(out...)
	case OpAdd:
		if lo == 0 && (t.exact && t.uhi <= mask(w) || w%8 != 0) {
			return c.truncAdd(t, w)
		}
	case OpAnd, OpOr, OpXor:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = c.Extract(a, hi, lo)
		}
		switch t.op {
		case OpAnd:
			return c.And(as[0], as[1])
		case OpOr:
			return c.Or(as[0], as[1])
		}
		return c.Xor(as[0], as[1])
	case OpNot:
		return c.Not(c.Extract(t.args[0], hi, lo))
	case OpIte:
		if t.args[1].isConst() || t.args[2].isConst() {
			return c.Ite(t.args[0], c.Extract(t.args[1], hi, lo), c.Extract(t.args[2], hi, lo))
		}
	case OpLut:
		vals := make([]uint64, len(t.lut.vals))
		for i, v := range t.lut.vals {
			vals[i] = v >> uint(lo) & mask(w)
		}
		return c.Lut(w, t.lut.iw, vals, t.args[0])
	}
	return c.mk(&Term{op: OpExtract, w: w, c: uint64(lo), args: []*Term{t}})
}

// truncAdd is the low w bits of a linear form as a linear form.
func (c *Ctx) truncAdd(t *Term, w int) *Term {
	l := &lin{w: w, k: t.c & mask(w)}
	for i, a := range t.args {
		c.addTo(l, c.Extract(a, w-1, 0), t.coefs[i])
	}
	return c.fromLin(l)
}

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g.w != 0 || a.w != b.w {
		panic(fmt.Sprintf("ite widths %d %d %d", g.w, a.w, b.w))
	}
	if g.isTrue() || a == b {
		return a
	}
	if g.isFalse() {
		return b
	}
	if g.op == OpBNot {
		return c.Ite(g.args[0], b, a)
	}
	if a.w == 0 {
		return c.BOr(c.BAnd(g, a), c.BAnd(c.BNot(g), b))
	}
	if a.op == OpIte && a.args[0] == g {
		a = a.args[1]
	}
	if b.op == OpIte && b.args[0] == g {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if a.w >= 32 && (a.op == OpAdd || b.op == OpAdd || a.op == OpConcat && b.op == OpConcat) {
		if r := c.iteShared(g, a, b); r != nil {
			return r
		}
	}
	// narrow: common leading zeros
	lz := bits.LeadingZeros64(^(a.kz & b.kz) << uint(64-a.w))
	if lz > 0 && lz < a.w {
		n := a.w - lz
		return c.rawZext(c.Ite(g, c.Extract(a, n-1, 0), c.Extract(b, n-1, 0)), a.w)
	}
	// ite(g, ite(h,x,y), y) = ite(g&h, x, y)
	if a.op == OpIte && a.args[2] == b {
		return c.Ite(c.BAnd(g, a.args[0]), a.args[1], b)
	}
	if b.op == OpIte && b.args[1] == a {
		return c.Ite(c.BOr(g, b.args[0]), a, b.args[2])
	}
	return c.mk(&Term{op: OpIte, w: a.w, args: []*Term{g, a, b}})
}

// iteShared: ite(g, x+i, x+j) = x + ite(g, i, j), when nothing but the constants differs
// or all addends of one side occur in the other.
func (c *Ctx) iteShared(g, a, b *Term) *Term {
	if a.isConst() || b.isConst() {
		return nil
	}
	la, lb := &lin{w: a.w}, &lin{w: a.w}
	c.addTo(la, a, 1)
	c.addTo(lb, b, 1)
	sh, ra, rb := &lin{w: a.w}, &lin{w: a.w, k: la.k}, &lin{w: a.w, k: lb.k}
	i, j := 0, 0
	for i < len(la.ts) || j < len(lb.ts) {
		switch {
		case j == len(lb.ts) || i < len(la.ts) && la.ts[i].id < lb.ts[j].id:
			ra.ts, ra.cs = append(ra.ts, la.ts[i]), append(ra.cs, la.cs[i])
			i++
		case i == len(la.ts) || lb.ts[j].id < la.ts[i].id:
			rb.ts, rb.cs = append(rb.ts, lb.ts[j]), append(rb.cs, lb.cs[j])
			j++
		default:
			if la.cs[i] == lb.cs[j] {
				sh.ts, sh.cs = append(sh.ts, la.ts[i]), append(sh.cs, la.cs[i])
			} else {
				ra.ts, ra.cs = append(ra.ts, la.ts[i]), append(ra.cs, la.cs[i])
				rb.ts, rb.cs = append(rb.ts, lb.ts[j]), append(rb.cs, lb.cs[j])
			}
			i++
			j++
		}
	}
	if len(sh.ts) == 0 || len(ra.ts) > 0 && len(rb.ts) > 0 {
		return nil
	}
	la, lb = ra, rb
	k := la.k
	if int64(sext64(lb.k, a.w)) < int64(sext64(la.k, a.w)) {
		k = lb.k
	}
	sh.k = k & mask(a.w)
	la.k = (la.k - k) & mask(a.w)
	lb.k = (lb.k - k) & mask(a.w)
	return c.Add(c.fromLin(sh), c.Canon(c.Ite(g, c.fromLin(la), c.fromLin(lb))))
}

func (c *Ctx) B2BV(b *Term, w int) *Term {
	return c.Ite(b, c.Const(w, 1), c.Const(w, 0))
}

// pieces splits a term into constant / non-constant bit runs (low to high) when it is a
// concat or has known zero bits.
type piece struct {
	lo, w int
	cst   bool
	v     uint64
}

func pieces(t *Term) []piece {
	var ps []piece
	add := func(p piece) { ps = append(ps, p) }
	kz := t.kz
	var known func(t *Term, base int)
	known = func(t *Term, base int) {
		if t.op == OpConst {
			add(piece{base, t.w, true, t.c})
			return
		}
		if t.op == OpConcat {
			pos := 0
			for i := len(t.args) - 1; i >= 0; i-- {
				known(t.args[i], base+pos)
				pos += t.args[i].w
			}
			return
		}
		// split by known zeros
		i := 0
		for i < t.w {
			z := kz>>uint(base+i)&1 == 1
			j := i
			for j < t.w && (kz>>uint(base+j)&1 == 1) == z {
				j++
			}
			add(piece{base + i, j - i, z, 0})
			i = j
		}
	}
	known(t, 0)
	return ps
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.w == 0 {
		return c.BAnd(a, b)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return c.Const(a.w, a.c&b.c)
		}
		if b.c == 0 {
			return b
		}
		if b.c|a.kz == mask(a.w) {
			return a
		}
		if b.c == mask(a.w) {
			return a
		}
		// piecewise
		var parts []*Term
		i := a.w - 1
		for i >= 0 {
			bit := b.c >> uint(i) & 1
			j := i
			for j >= 0 && b.c>>uint(j)&1 == bit {
				j--
			}
			if bit == 0 {
				parts = append(parts, c.Const(i-j, 0))
			} else {
				parts = append(parts, c.Extract(a, i, j+1))
			}
			i = j
		}
		return c.Concat(parts...)
	}
	if a == b {
		return a
	}
	if r := c.bitSplit(a, b, OpAnd); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OpAnd, w: a.w, args: []*Term{a, b}})
}

// bitSplit rewrites a bitwise op piecewise if some piece of a or b is constant.
func (c *Ctx) bitSplit(a, b *Term, op Op) *Term {
	pa, pb := pieces(a), pieces(b)
	if len(pa) == 1 && !pa[0].cst && len(pb) == 1 && !pb[0].cst {
		return nil
	}
	any := false
	for _, p := range pa {
		any = any || p.cst
	}
	for _, p := range pb {
		any = any || p.cst
	}
	if !any {
		return nil
	}
	cuts := map[int]bool{}
	for _, p := range pa {
		cuts[p.lo] = true
	}
	for _, p := range pb {
		cuts[p.lo] = true
	}
	var ks []int
	for k := range cuts {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	find := func(ps []piece, lo int) piece {
		for _, p := range ps {
			if lo >= p.lo && lo < p.lo+p.w {
				return p
			}
		}
		panic("piece")
	}
	var parts []*Term
	for i := len(ks) - 1; i >= 0; i-- {
		lo := ks[i]
		hi := a.w - 1
		if i+1 < len(ks) {
			hi = ks[i+1] - 1
		}
		w := hi - lo + 1
		qa, qb := find(pa, lo), find(pb, lo)
		ga := func(q piece, t *Term) *Term {
			if q.cst {
				return c.Const(w, q.v>>uint(lo-q.lo))
			}
			return c.Extract(t, hi, lo)
		}
		xa, xb := ga(qa, a), ga(qb, b)
		if w == a.w {
			return nil
		}
		switch op {
		case OpAnd:
			parts = append(parts, c.And(xa, xb))
		case OpOr:
			parts = append(parts, c.Or(xa, xb))
		case OpXor:
			parts = append(parts, c.Xor(xa, xb))
		}
	}
	return c.Concat(parts...)
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a.w == 0 {
		return c.BOr(a, b)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return c.Const(a.w, a.c|b.c)
		}
		if b.c == 0 {
			return a
		}
		if b.c == mask(b.w) {
			return b
		}
		var parts []*Term
		for i := a.w - 1; i >= 0; {
			bit := b.c >> uint(i) & 1
			j := i
			for j >= 0 && b.c>>uint(j)&1 == bit {
				j--
			}
			if bit == 1 {
				parts = append(parts, c.Const(i-j, mask(i-j)))
			} else {
				parts = append(parts, c.Extract(a, i, j+1))
			}
			i = j
		}
		return c.Concat(parts...)
	}
	if a == b {
		return a
	}
	if r := c.bitSplit(a, b, OpOr); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OpOr, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) Xor(a, b *Term) *Term {
	if a.w == 0 {
		return c.BNot(c.Eq(a, b))
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return c.Const(a.w, a.c^b.c)
		}
		if b.c == 0 {
			return a
		}
		if b.c == mask(b.w) {
			return c.Not(a)
		}
	}
	if a == b {
		return c.Const(a.w, 0)
	}
	if r := c.bitSplit(a, b, OpXor); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OpXor, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) Not(a *Term) *Term {
	if a.w == 0 {
		return c.BNot(a)
	}
	switch a.op {
	case OpConst:
		return c.Const(a.w, ^a.c)
	case OpNot:
		return a.args[0]
	case OpConcat:
		parts := make([]*Term, len(a.args))
		for i, x := range a.args {
			parts[i] = c.Not(x)
		}
		return c.Concat(parts...)
	}
	return c.mk(&Term{op: OpNot, w: a.w, args: []*Term{a}})
}

// ShlC, LshrC, AshrC: shift by constant, saturating.
func (c *Ctx) ShlC(a *Term, k uint64) *Term {
	if k >= uint64(a.w) {
		return c.Const(a.w, 0)
	}
	if k == 0 {
		return a
	}
	if a.op == OpAdd {
		return c.MulC(a, 1<<k)
	}
	return c.Concat(c.Extract(a, a.w-1-int(k), 0), c.Const(int(k), 0))
}

func (c *Ctx) LshrC(a *Term, k uint64) *Term {
	if k >= uint64(a.w) {
		return c.Const(a.w, 0)
	}
	if k == 0 {
		return a
	}
	return c.Zext(c.Extract(a, a.w-1, int(k)), a.w)
}

func (c *Ctx) AshrC(a *Term, k uint64) *Term {
	if k >= uint64(a.w) {
		k = uint64(a.w) - 1
	}
	if k == 0 {
		return a
	}
	return c.Sext(c.Extract(a, a.w-1, int(k)), a.w)
}

// Shift with symbolic amount; amount same width as a and read as unsigned; >= width saturates
// (SMT-LIB semantics, which are also Go's).
func (c *Ctx) Shift(op Op, a, k *Term) *Term {
	if k.isConst() {
		switch op {
		case OpShl:
			return c.ShlC(a, k.c)
		case OpLshr:
			return c.LshrC(a, k.c)
		}
		return c.AshrC(a, k.c)
	}
	if a.isConst() && a.c == 0 {
		return a
	}
	// small amount range: case split
	if k.uhi-k.ulo < 9 {
		r := c.Shift(op, a, c.Const(k.w, k.uhi))
		for v := k.uhi; v > k.ulo; v-- {
			r = c.Ite(c.Eq(k, c.Const(k.w, v-1)), c.Shift(op, a, c.Const(k.w, v-1)), r)
		}
		return r
	}
	return c.mk(&Term{op: op, w: a.w, args: []*Term{a, k}})
}

func (c *Ctx) Div(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.c != 0 {
		x, y := a.c, b.c
		sx, sy := sext64(x, a.w), sext64(y, a.w)
		switch op {
		case OpUdiv:
			return c.Const(a.w, x/y)
		case OpUrem:
			return c.Const(a.w, x%y)
		case OpSdiv:
			if sy == -1 {
				return c.Neg(a)
			}
			return c.Const(a.w, uint64(sx/sy))
		case OpSrem:
			if sy == -1 {
				return c.Const(a.w, 0)
			}
			return c.Const(a.w, uint64(sx%sy))
		}
	}
	if (op == OpSdiv || op == OpSrem) && a.slo >= 0 && b.slo >= 0 {
		if op == OpSdiv {
			op = OpUdiv
		} else {
			op = OpUrem
		}
	}
	if b.isConst() && b.c != 0 && bits.OnesCount64(b.c) == 1 {
		k := bits.TrailingZeros64(b.c)
		if op == OpUdiv {
			return c.LshrC(a, uint64(k))
		}
		if op == OpUrem {
			if k == 0 {
				return c.Const(a.w, 0)
			}
			return c.Zext(c.Extract(a, k-1, 0), a.w)
		}
	}
	if op == OpUrem && b.ulo > 0 && a.uhi < b.ulo {
		return a
	}
	return c.mk(&Term{op: op, w: a.w, args: []*Term{a, b}})
}

// asLin returns constant and atoms of t.
func asLin(t *Term) (k uint64, as []*Term, cs []uint64) {
	switch t.op {
	case OpConst:
		return t.c, nil, nil
	case OpAdd:
		return t.c, t.args, t.coefs
	}
	return 0, []*Term{t}, []uint64{1}
}

func (t *Term) isExact() bool { return t.op != OpAdd || t.exact }

// diffSides: for exact a,b returns positive and negative parts of b-a and the integer range.
func (c *Ctx) diffSides(a, b *Term) (pos, neg *Term, lo, hi int64, ok bool) {
	if !a.isExact() || !b.isExact() {
		return
	}
	w := a.w
	ka, aa, ca := asLin(a)
	kb, ab, cb := asLin(b)
	if ka > 1<<61 && a.op == OpConst || kb > 1<<61 && b.op == OpConst {
		return
	}
	d := map[*Term]int64{}
	for i, x := range ab {
		d[x] += sext64(cb[i], w)
	}
	for i, x := range aa {
		d[x] -= sext64(ca[i], w)
		if d[x] == 0 {
			delete(d, x)
		}
	}
	var k int64
	if a.op == OpConst {
		k = -int64(ka)
	} else {
		k = -sext64(ka, w)
	}
	if b.op == OpConst {
		k += int64(kb)
	} else {
		k += sext64(kb, w)
	}
	var as []*Term
	for x := range d {
		as = append(as, x)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	cs := make([]uint64, len(as))
	for i, x := range as {
		cs[i] = uint64(d[x])
	}
	lo, hi, ok = sumRange(k, as, cs, 64, nil)
	if !ok {
		return
	}
	p := &lin{w: w}
	n := &lin{w: w}
	var ph, nh float64
	for i, x := range as {
		cf := int64(cs[i])
		if cf > 0 {
			p.put(x, uint64(cf))
			ph += float64(cf) * float64(x.uhi)
		} else {
			n.put(x, uint64(-cf))
			nh += float64(-cf) * float64(x.uhi)
		}
	}
	if k >= 0 {
		p.k = uint64(k) & mask(w)
		ph += float64(k)
	} else {
		n.k = uint64(-k) & mask(w)
		nh += float64(-k)
	}
	lim := float64(uint64(1) << uint(min(w, 62)))
	if ph < lim && nh < lim {
		pos, neg = c.fromLin(p), c.fromLin(n)
	}
	return
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("eq width %d %d", a.w, b.w))
	}
	if a == b {
		return c.T
	}
	if a.isConst() && b.isConst() {
		return c.F // distinct constants
	}
	if a.w == 0 {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.BNot(b)
		}
		if b.isFalse() {
			return c.BNot(a)
		}
		if a.op == OpBNot && a.args[0] == b || b.op == OpBNot && b.args[0] == a {
			return c.F
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(&Term{op: OpEq, w: 0, args: []*Term{a, b}})
	}
	if a.uhi < b.ulo || b.uhi < a.ulo {
		return c.F
	}
	if a.shi < b.slo || b.shi < a.slo {
		return c.F
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.c&a.kz != 0 {
			return c.F
		}
		switch a.op {
		case OpConcat:
			r := c.T
			pos := a.w
			for _, x := range a.args {
				pos -= x.w
				r = c.BAnd(r, c.Eq(x, c.Const(x.w, b.c>>uint(pos))))
			}
			return r
		case OpIte:
			if a.args[1].isConst() || a.args[2].isConst() {
				return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
			}
		case OpNot:
			return c.Eq(a.args[0], c.Const(a.w, ^b.c))
		case OpAdd:
			if len(a.args) == 1 && (a.coefs[0] == 1 || a.coefs[0] == mask(a.w)) {
				v := b.c - a.c
				if a.coefs[0] != 1 {
					v = -v
				}
				return c.Eq(a.args[0], c.Const(a.w, v))
			}
		case OpLut:
			// index set
			var only = -1
			cnt := 0
			for i, v := range a.lut.vals {
				if v == b.c {
					cnt++
					only = i
				}
			}
			if cnt == 0 {
				return c.F
			}
			if cnt == 1 {
				return c.Eq(a.args[0], c.Const(a.args[0].w, uint64(only)))
			}
		}
	}
	if a.op == OpAdd || b.op == OpAdd {
		pos, neg, lo, hi, ok := c.diffSides(a, b)
		if ok {
			if lo > 0 || hi < 0 {
				return c.F
			}
			if lo == 0 && hi == 0 {
				return c.T
			}
		}
		if pos != nil && pos != b && neg != b {
			return c.Eq(pos, neg)
		}
		if !ok {
			d := c.Sub(a, b)
			if d.isConst() {
				return c.Bool(d.c == 0)
			}
		}
	}
	if a.op == OpConcat && b.op == OpConcat && a.args[0].isConst() && b.args[0].isConst() {
		z := min(a.args[0].w, b.args[0].w)
		if a.args[0].c>>uint(a.args[0].w-z) == b.args[0].c>>uint(b.args[0].w-z) {
			return c.Eq(c.Extract(a, a.w-z-1, 0), c.Extract(b, b.w-z-1, 0))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OpEq, w: 0, args: []*Term{a, b}})
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a.w != b.w {
		panic("ult width")
	}
	if a == b || a.ulo >= b.uhi {
		return c.F
	}
	if a.uhi < b.ulo {
		return c.T
	}
	if a.op == OpAdd || b.op == OpAdd {
		pos, neg, lo, hi, ok := c.diffSides(a, b) // b-a
		if ok {
			if lo > 0 {
				return c.T
			}
			if hi <= 0 {
				return c.F
			}
		}
		if pos != nil && !(pos == b && neg == a) {
			return c.Ult(neg, pos)
		}
	}
	// a is r-k and wraps exactly when r < k: then it is above all of b, otherwise below (or b likewise)
	if r, k := c.wraps(a); r != nil && r.uhi-min(k, r.uhi) < b.ulo && mask(a.w)-k+1+r.ulo >= b.uhi {
		return c.Ule(c.Const(a.w, k), r)
	}
	if r, k := c.wraps(b); r != nil && r.uhi-min(k, r.uhi) <= a.ulo && mask(a.w)-k+1+r.ulo > a.uhi {
		return c.Ult(r, c.Const(a.w, k))
	}
	// narrow common leading zeros
	lz := min(bits.LeadingZeros64(a.uhi), bits.LeadingZeros64(b.uhi)) - (64 - a.w)
	if lz > 0 && lz < a.w {
		n := a.w - lz
		if n < a.w {
			x, y := c.Extract(a, n-1, 0), c.Extract(b, n-1, 0)
			if a.op != OpAdd && b.op != OpAdd {
				return c.Ult(x, y)
			}
		}
	}
	if a.isConst() && b.op == OpIte && (b.args[1].isConst() || b.args[2].isConst()) {
		return c.Ite(b.args[0], c.Ult(a, b.args[1]), c.Ult(a, b.args[2]))
	}
	if b.isConst() && a.op == OpIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return c.Ite(a.args[0], c.Ult(a.args[1], b), c.Ult(a.args[2], b))
	}
	return c.mk(&Term{op: OpUlt, w: 0, args: []*Term{a, b}})
}

// wraps: t is r-k with a small constant k > 0, and r, an exact linear form, can be below k.
func (c *Ctx) wraps(t *Term) (r *Term, k uint64) {
	if t.op != OpAdd || t.exact || t.c <= mask(t.w)>>1 {
		return nil, 0
	}
	k = -t.c & mask(t.w)
	r = c.AddC(t, int64(k))
	if r.op == OpAdd && !r.exact || k <= r.ulo {
		return nil, 0
	}
	return r, k
}

func (c *Ctx) Ule(a, b *Term) *Term { return c.BNot(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b || a.slo >= b.shi {
		return c.F
	}
	if a.shi < b.slo {
		return c.T
	}
	if a.slo >= 0 && b.slo >= 0 {
		return c.Ult(a, b)
	}
	// integer difference for linear forms that do not leave the signed range
	if r := c.sdiff(a, b); r != nil {
		return r
	}
	return c.mk(&Term{op: OpSlt, w: 0, args: []*Term{a, b}})
}

func (c *Ctx) sexact(t *Term) bool {
	if t.op != OpAdd {
		return t.isConst() || t.slo >= 0
	}
	lo, hi, ok := linRange(t, nil)
	return ok && lo >= -(1<<uint(t.w-1)) && (t.w == 64 || hi < 1<<uint(t.w-1))
}

func (c *Ctx) sdiff(a, b *Term) *Term {
	if !c.sexact(a) || !c.sexact(b) {
		return nil
	}
	w := a.w
	ka, aa, ca := asLin(a)
	kb, ab, cb := asLin(b)
	d := &lin{w: 64}
	k := sext64(kb, w) - sext64(ka, w)
	for i, x := range ab {
		d.put(x, uint64(sext64(cb[i], w)))
	}
	for i, x := range aa {
		d.put(x, uint64(-sext64(ca[i], w)))
	}
	as, cs := d.ts, d.cs
	lo, hi, ok := sumRange(k, as, cs, 64, nil)
	if !ok {
		return nil
	}
	if lo > 0 {
		return c.T
	}
	if hi <= 0 {
		return c.F
	}
	// neg < pos with both sides non-negative
	p := &lin{w: w}
	n := &lin{w: w}
	var ph, nh float64
	for i, x := range as {
		cf := int64(cs[i])
		if cf > 0 {
			p.put(x, uint64(cf))
			ph += float64(cf) * float64(x.uhi)
		} else {
			n.put(x, uint64(-cf))
			nh += float64(-cf) * float64(x.uhi)
		}
	}
	if k >= 0 {
		p.k = uint64(k)
		ph += float64(k)
	} else {
		n.k = uint64(-k)
		nh += float64(-k)
	}
	lim := float64(uint64(1) << uint(min(w-1, 62)))
	if ph < lim && nh < lim {
		return c.Ult(c.fromLin(n), c.fromLin(p))
	}
	return nil
}

func (c *Ctx) Sle(a, b *Term) *Term { return c.BNot(c.Slt(b, a)) }

func (c *Ctx) BNot(a *Term) *Term {
	if a.w != 0 {
		panic("bnot of bv")
	}
	if a.isConst() {
		return c.Bool(a.c == 0)
	}
	if a.op == OpBNot {
		return a.args[0]
	}
	return c.mk(&Term{op: OpBNot, w: 0, args: []*Term{a}})
}

func (c *Ctx) nary(op Op, a, b *Term) *Term {
	unit, zero := c.T, c.F
	if op == OpBOr {
		unit, zero = c.F, c.T
	}
	if a == unit {
		return b
	}
	if b == unit {
		return a
	}
	if a == zero || b == zero {
		return zero
	}
	if a == b {
		return a
	}
	set := map[*Term]bool{}
	var xs []*Term
	add := func(t *Term) bool {
		var l []*Term
		if t.op == op {
			l = t.args
		} else {
			l = []*Term{t}
		}
		for _, x := range l {
			if set[x] {
				continue
			}
			n := c.BNot(x)
			if set[n] {
				return false
			}
			set[x] = true
			xs = append(xs, x)
		}
		return true
	}
	if !add(a) || !add(b) {
		return zero
	}
	// absorption: x & (!x | y) = x & y ; x | (!x & y) = x | y
	dual := OpBOr
	if op == OpBOr {
		dual = OpBAnd
	}
	for i := 0; i < len(xs); i++ {
		x := xs[i]
		if x.op != dual {
			continue
		}
		var keep []*Term
		absorbed, changed := false, false
		for _, y := range x.args {
			if set[y] {
				absorbed = true
				break
			}
			if set[c.BNot(y)] {
				changed = true
				continue
			}
			keep = append(keep, y)
		}
		if absorbed {
			xs = append(xs[:i], xs[i+1:]...)
			return c.naryList(op, xs)
		}
		if changed {
			n := c.naryList(dual, keep)
			rest := append(append([]*Term{}, xs[:i]...), xs[i+1:]...)
			r := c.naryList(op, rest)
			return c.nary(op, r, n)
		}
	}
	return c.naryList(op, xs)
}

func (c *Ctx) naryList(op Op, xs []*Term) *Term {
	unit := c.T
	if op == OpBOr {
		unit = c.F
	}
	if len(xs) == 0 {
		return unit
	}
	if len(xs) == 1 {
		return xs[0]
	}
	ys := append([]*Term{}, xs...)
	sort.Slice(ys, func(i, j int) bool { return ys[i].id < ys[j].id })
	return c.mk(&Term{op: op, w: 0, args: ys})
}

func (c *Ctx) BAnd(xs ...*Term) *Term {
	r := c.T
	for _, x := range xs {
		r = c.nary(OpBAnd, r, x)
	}
	return r
}

func (c *Ctx) BOr(xs ...*Term) *Term {
	r := c.F
	for _, x := range xs {
		r = c.nary(OpBOr, r, x)
	}
	return r
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.BOr(c.BNot(a), b) }

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	switch t.op {
	case OpConst:
		if t.w == 0 {
			return fmt.Sprint(t.c == 1)
		}
		return fmt.Sprintf("%d:%d", t.c, t.w)
	case OpVar:
		return t.name
	}
	if d == 0 {
		return "…"
	}
	names := map[Op]string{OpAdd: "+", OpMul: "*", OpAnd: "&", OpOr: "|", OpXor: "^", OpNot: "~", OpShl: "<<", OpLshr: ">>", OpAshr: ">>s", OpConcat: "++", OpExtract: "ex", OpIte: "ite", OpEq: "=", OpUlt: "<u", OpSlt: "<s", OpUdiv: "/u", OpUrem: "%u", OpSdiv: "/s", OpSrem: "%s", OpLut: "lut", OpUF: "uf", OpBAnd: "and", OpBOr: "or", OpBNot: "not"}
	var b strings.Builder
	b.WriteString("(" + names[t.op])
	if t.op == OpExtract {
		fmt.Fprintf(&b, "[%d:%d]", int(t.c)+t.w-1, t.c)
	}
	if t.op == OpAdd && t.c != 0 {
		fmt.Fprintf(&b, " %d", sext64(t.c, t.w))
	}
	if t.op == OpUF {
		b.WriteString(" " + t.name)
	}
	if t.op == OpLut {
		fmt.Fprintf(&b, "#%d", t.lut.id)
	}
	for i, a := range t.args {
		b.WriteByte(' ')
		if t.coefs != nil && t.coefs[i] != 1 {
			fmt.Fprintf(&b, "%d*", sext64(t.coefs[i], t.w))
		}
		b.WriteString(a.str(d - 1))
	}
	b.WriteByte(')')
	return b.String()
}
