package main

// Random simulation of terms (signatures) and evaluation under a model.

import "hash/fnv"

func mix(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

func hashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// simVar is the default distribution of a variable's value in simulation vector j.
func simVar(h uint64, w, j int) uint64 {
	r := mix(h + uint64(j)*0x9e3779b97f4a7c15 + 1)
	if w <= 2 {
		return mix(r) & mask(w)
	}
	switch w {
	case 32:
		// uniform on the byte length, with some extreme values
		l := r & 3
		v := mix(r) & (1<<(8*(l+1)) - 1)
		switch r >> 2 & 7 {
		case 0:
			v = 1<<(8*(l+1)) - 1
		case 1:
			v = 1 << (8 * l)
			if l == 0 {
				v = 0
			}
		}
		return v
	case 8:
		switch r & 15 {
		case 0:
			return 0
		case 1:
			return 255
		}
		return mix(r) & 255
	}
	switch r & 3 {
	case 0:
		return mix(r) & 15 & mask(w)
	case 1:
		return mix(r) & mask(w)
	case 2:
		return mix(r) & 0xff & mask(w)
	}
	return mix(r) >> (mix(r+1) % 64) & mask(w)
}

func (c *Ctx) simOf(name string, w, j int) uint64 {
	if f, ok := c.simFix[name]; ok {
		return f(j) & mask(max(w, 1))
	}
	if w == 0 {
		return mix(hashStr(name)^c.seed+uint64(j)*77) & 1
	}
	return simVar(hashStr(name)^c.seed, w, j)
}

// sigOf returns the simulation signature of t.
func (c *Ctx) sigOf(t *Term) []uint64 {
	if t.sig != nil {
		return t.sig
	}
	K := c.K
	as := make([][]uint64, len(t.args))
	for i, a := range t.args {
		as[i] = c.sigOf(a)
	}
	s := make([]uint64, K)
	switch t.op {
	case OpConst:
		for j := range s {
			s[j] = t.c
		}
	case OpVar:
		for j := range s {
			s[j] = c.simOf(t.name, t.w, j)
		}
	case OpUF:
		h := hashStr(t.name) ^ c.seed
		for j := range s {
			s[j] = simVar(h^mix(as[0][j]+12345), t.w, j)
		}
	default:
		buf := make([]uint64, len(as))
		for j := 0; j < K; j++ {
			for i := range as {
				buf[i] = as[i][j]
			}
			s[j] = evalOp(t, buf)
		}
	}
	t.sig = s
	return s
}

// evalOp evaluates one operation on concrete arguments.
func evalOp(t *Term, a []uint64) uint64 {
	m := mask(t.w)
	switch t.op {
	case OpConst:
		return t.c
	case OpAdd:
		v := t.c
		for i, x := range a {
			v += x * t.coefs[i]
		}
		return v & m
	case OpMul:
		return a[0] * a[1] & m
	case OpAnd:
		return a[0] & a[1]
	case OpOr:
		return a[0] | a[1]
	case OpXor:
		return a[0] ^ a[1]
	case OpNot:
		return ^a[0] & m
	case OpShl:
		if a[1] >= uint64(t.w) {
			return 0
		}
		return a[0] << a[1] & m
	case OpLshr:
		if a[1] >= uint64(t.w) {
			return 0
		}
		return a[0] >> a[1]
	case OpAshr:
		k := a[1]
		if k >= uint64(t.w) {
			k = uint64(t.w) - 1
		}
		return uint64(sext64(a[0], t.w)>>k) & m
	case OpConcat:
		var v uint64
		for i, x := range a {
			v = v<<uint(t.args[i].w) | x
		}
		return v
	case OpExtract:
		return a[0] >> t.c & m
	case OpIte:
		if a[0] != 0 {
			return a[1]
		}
		return a[2]
	case OpEq:
		return b2u(a[0] == a[1])
	case OpUlt:
		return b2u(a[0] < a[1])
	case OpSlt:
		w := t.args[0].w
		return b2u(sext64(a[0], w) < sext64(a[1], w))
	case OpUdiv:
		if a[1] == 0 {
			return m
		}
		return a[0] / a[1]
	case OpUrem:
		if a[1] == 0 {
			return a[0]
		}
		return a[0] % a[1]
	case OpSdiv, OpSrem:
		x, y := sext64(a[0], t.w), sext64(a[1], t.w)
		if y == 0 {
			if t.op == OpSrem {
				return a[0]
			}
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			if t.op == OpSrem {
				return 0
			}
			return uint64(-x) & m
		}
		if t.op == OpSdiv {
			return uint64(x/y) & m
		}
		return uint64(x%y) & m
	case OpLut:
		return t.lut.vals[a[0]]
	case OpBAnd:
		for _, x := range a {
			if x == 0 {
				return 0
			}
		}
		return 1
	case OpBOr:
		for _, x := range a {
			if x != 0 {
				return 1
			}
		}
		return 0
	case OpBNot:
		return 1 - a[0]
	}
	panic("evalOp")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Model assigns values to variables and to applications of uninterpreted functions.
type Model struct {
	vars map[string]uint64
	ufs  map[string]map[uint64]uint64
	def  func(name string, w int) uint64      // default for unassigned variables
	ufd  func(name string, arg uint64) uint64 // default for unassigned applications
	memo map[*Term]uint64
}

func NewModel() *Model {
	return &Model{vars: map[string]uint64{}, ufs: map[string]map[uint64]uint64{}, memo: map[*Term]uint64{}}
}

func (m *Model) Eval(t *Term) uint64 {
	if t.op == OpConst {
		return t.c
	}
	if v, ok := m.memo[t]; ok {
		return v
	}
	var v uint64
	switch t.op {
	case OpVar:
		x, ok := m.vars[t.name]
		if !ok && m.def != nil {
			x = m.def(t.name, t.w)
		}
		v = x
	case OpUF:
		v = m.UF(t.name, m.Eval(t.args[0]))
	case OpIte:
		if m.Eval(t.args[0]) != 0 {
			v = m.Eval(t.args[1])
		} else {
			v = m.Eval(t.args[2])
		}
	default:
		a := make([]uint64, len(t.args))
		for i, x := range t.args {
			a[i] = m.Eval(x)
		}
		v = evalOp(t, a)
	}
	m.memo[t] = v
	return v
}

func (m *Model) UF(name string, arg uint64) uint64 {
	if x, ok := m.ufs[name][arg]; ok {
		return x
	}
	if m.ufd != nil {
		return m.ufd(name, arg)
	}
	return 0
}

// simModel is the model of simulation vector j.
func (c *Ctx) simModel(j int) *Model {
	m := NewModel()
	m.def = func(name string, w int) uint64 { return c.simOf(name, w, j) }
	m.ufd = func(name string, arg uint64) uint64 {
		return simVar(hashStr(name)^c.seed^mix(arg+12345), 8, j)
	}
	return m
}

func sigHash(s []uint64, w int) uint64 {
	h := uint64(w)*0x9e3779b97f4a7c15 + 7
	for _, v := range s {
		h = mix(h ^ v)
	}
	return h
}

// Register makes t a canonical representative for sweeping.
func (c *Ctx) Register(t *Term) {
	if t.isConst() || t.isReg {
		return
	}
	t.isReg = true
	t.canon = t
	h := sigHash(c.sigOf(t), t.w)
	for _, x := range c.reg[h] {
		if x == t {
			return
		}
	}
	c.reg[h] = append(c.reg[h], t)
}

// Canon replaces t by an equal registered term or constant, if one is found and the solver
// proves the equality under the harness's domain constraints.
func (c *Ctx) Canon(t *Term) *Term {
	if c.noSweep || t.op == OpConst || t.op == OpVar {
		return t
	}
	if t.canon != nil {
		return t.canon
	}
	t.canon = t
	s := c.sigOf(t)
	same := true
	for _, v := range s {
		if v != s[0] {
			same = false
			break
		}
	}
	if same {
		k := c.Const(t.w, s[0])
		if c.proveEq(t, k) {
			t.canon = k
			return k
		}
	}
	h := sigHash(s, t.w)
	n := 0
	for _, x := range c.reg[h] {
		if x == t {
			return t
		}
		if x.w != t.w {
			continue
		}
		if n++; n > 4 {
			break
		}
		if c.proveEq(t, x) {
			t.canon = x
			return x
		}
	}
	if t.w == 0 {
		// negation of a registered guard
		nt := c.BNot(t)
		ns := c.sigOf(nt)
		hh := sigHash(ns, 0)
		n := 0
		for _, x := range c.reg[hh] {
			if n++; n > 4 {
				break
			}
			if c.proveEq(nt, x) {
				t.canon = c.BNot(x)
				return t.canon
			}
		}
	}
	return t
}

func (c *Ctx) proveEq(a, b *Term) bool {
	e := c.Eq(a, b)
	if e.isTrue() {
		return true
	}
	if e.isFalse() {
		return false
	}
	if !dagAtMost(e, 2500) {
		return false
	}
	c.st.Sweeps++
	q := append([]*Term{c.BNot(e)}, c.relevantAssume(e)...)
	r, _ := c.sv.Check(c, q, c.sweepTimeout, true)
	if r == Sat && c.ufMisses < 40 && fewUFs(e, 24) {
		// equal only because equal offsets hold equal bytes
		if r, _ = c.sv.query(c, q, c.sweepTimeout); r != Unsat {
			c.ufMisses++
		}
	}
	if r == Unsat {
		c.st.SweepProved++
		return true
	}
	return false
}

// fewUFs: t has uninterpreted applications, but at most lim.
func fewUFs(t *Term, lim int) bool {
	seen := map[*Term]bool{}
	n := 0
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || n > lim {
			return
		}
		seen[t] = true
		if t.op == OpUF {
			n++
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return n > 1 && n <= lim
}

func dagAtMost(t *Term, lim int) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		if len(seen) > lim {
			return false
		}
		if t.op == OpUF { // abstracted in the query
			return true
		}
		for _, a := range t.args {
			if !walk(a) {
				return false
			}
		}
		return true
	}
	return walk(t)
}

// leaves returns the variables (and uninterpreted function names) t depends on.
func leaves(ts ...*Term) map[string]bool {
	seen := map[*Term]bool{}
	out := map[string]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OpVar || t.op == OpUF {
			out[t.name] = true
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return out
}

func (c *Ctx) relevantAssume(t *Term) []*Term {
	if len(c.assume) == 0 {
		return nil
	}
	return relevant(c.assume, t)
}

// relevant selects the conjuncts that share variables (transitively) with t.
func relevant(conj []*Term, ts ...*Term) []*Term {
	l := leaves(ts...)
	ls := make([]map[string]bool, len(conj))
	for i, x := range conj {
		ls[i] = leaves(x)
	}
	used := make([]bool, len(conj))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, x := range conj {
			if used[i] {
				continue
			}
			hit := false
			for v := range ls[i] {
				if l[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, x)
				for v := range ls[i] {
					l[v] = true
				}
			}
		}
	}
	return out
}

// varOr is the model's value of a variable, or the default when the variable does not occur.
func (m *Model) varOr(name string, w int) uint64 {
	if v, ok := m.vars[name]; ok {
		return v
	}
	if m.def != nil {
		return m.def(name, w)
	}
	return 0
}
