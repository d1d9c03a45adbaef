package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var debugSMT = os.Getenv("VERIF_SMTDUMP") // a file for the last query the solver failed on

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Stats of one worker (merged at the end).
type Stats struct {
	Queries, Unsat, Sat, Unknown          int
	CacheHits, Sweeps, SweepProved        int
	Syntactic                             int // obligations closed by normalisation
	SolverTime                            time.Duration
	MaxQuery                              time.Duration
	Instr, AsmInstr, Merges, Forks, Calls int64
	Funcs                                 map[string]bool
	Obligations                           int
	Replays, Validated                    int
	MemChecks, GoChecks                   int64 // accesses of machine code, run-time checks of Go code
}

func NewStats() *Stats { return &Stats{Funcs: map[string]bool{}} }

func (a *Stats) Merge(b *Stats) {
	a.Queries += b.Queries
	a.Unsat += b.Unsat
	a.Sat += b.Sat
	a.Unknown += b.Unknown
	a.CacheHits += b.CacheHits
	a.Sweeps += b.Sweeps
	a.SweepProved += b.SweepProved
	a.Syntactic += b.Syntactic
	a.SolverTime += b.SolverTime
	a.MaxQuery = max(a.MaxQuery, b.MaxQuery)
	a.Instr += b.Instr
	a.AsmInstr += b.AsmInstr
	a.Merges += b.Merges
	a.Forks += b.Forks
	a.Calls += b.Calls
	a.Obligations += b.Obligations
	a.MemChecks += b.MemChecks
	a.GoChecks += b.GoChecks
	a.Replays += b.Replays
	a.Validated += b.Validated
	for f := range b.Funcs {
		a.Funcs[f] = true
	}
}

type cacheEnt struct {
	once sync.Once
	res  Result
	vals []uint64 // values of the declared symbols / requested terms, in order
}

var qcache sync.Map // query text -> *cacheEnt

// Solver is one z3 process.
type Solver struct {
	bin string
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	log io.Writer
}

func NewSolver() *Solver { return &Solver{bin: "z3-new"} }

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in", "-memory:4000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) readSexp() (string, error) {
	var b strings.Builder
	depth := 0
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		b.WriteString(line)
		for i := 0; i < len(line); i++ {
			switch line[i] {
			case '(':
				depth++
			case ')':
				depth--
			}
		}
		if depth <= 0 && strings.TrimSpace(b.String()) != "" {
			return b.String(), nil
		}
	}
}

// run sends a full script; returns the result and the values of the get-value terms.
func (s *Solver) run(text string, want []string, timeoutMS int) (Result, []uint64) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown, nil
		}
	}
	done := make(chan struct{})
	killed := false
	go func() {
		select {
		case <-done:
		case <-time.After(time.Duration(timeoutMS)*time.Millisecond*2 + 3*time.Second):
			killed = true
			s.cmd.Process.Kill()
		}
	}()
	fail := func() (Result, []uint64) {
		close(done)
		_ = killed
		s.Close()
		return Unknown, nil
	}
	if s.log != nil {
		fmt.Fprintf(s.log, "%s(check-sat)\n", text)
	}
	_, err := fmt.Fprintf(s.in, "(reset)\n(set-option :timeout %d)\n(set-option :pp.bv_literals true)\n%s(check-sat)\n", timeoutMS, text)
	if err != nil {
		return fail()
	}
	ans, err := s.readSexp()
	if err != nil || strings.Contains(ans, "error") {
		if debugSMT != "" {
			os.WriteFile(debugSMT, []byte(text+"(check-sat)\n(get-value ("+strings.Join(want, " ")+"))\n"), 0o644)
			fmt.Fprintln(os.Stderr, "solver:", ans, err)
		}
		return fail()
	}
	ans = strings.TrimSpace(ans)
	res := Unknown
	var vals []uint64
	switch ans {
	case "unsat":
		res = Unsat
	case "sat":
		res = Sat
		if len(want) > 0 {
			fmt.Fprintf(s.in, "(get-value (%s))\n", strings.Join(want, " "))
			v, err := s.readSexp()
			if debugSMT != "" && (err != nil || strings.Contains(v, "error")) {
				os.WriteFile(debugSMT, []byte(text+"(check-sat)\n(get-value ("+strings.Join(want, " ")+"))\n"), 0o644)
				fmt.Fprintln(os.Stderr, "solver:", v, err)
			}
			if err != nil || strings.Contains(v, "error") {
				return fail()
			}
			vals = parseValues(v, len(want))
			if vals == nil {
				res = Unknown
			}
		}
	}
	close(done)
	if res == Unknown && debugSMT != "" {
		fmt.Fprintln(s.in, "(get-info :reason-unknown)")
		v, _ := s.readSexp()
		os.WriteFile(debugSMT, []byte(text+"(check-sat)\n(get-value ("+strings.Join(want, " ")+"))\n"), 0o644)
		fmt.Fprintln(os.Stderr, "solver:", ans, v)
	}
	return res, vals
}

// parseValues reads ((name val) ...).
func parseValues(v string, n int) []uint64 {
	var toks []string
	i := 0
	for i < len(v) {
		ch := v[i]
		switch {
		case ch == '(' || ch == ')':
			toks = append(toks, string(ch))
			i++
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		default:
			j := i
			for j < len(v) && !strings.ContainsRune("() \n\t\r", rune(v[j])) {
				j++
			}
			toks = append(toks, v[i:j])
			i = j
		}
	}
	var out []uint64
	depth := 0
	for i, t := range toks {
		switch t {
		case "(":
			depth++
			continue
		case ")":
			depth--
			continue
		}
		// the value is the last element of a pair
		if depth != 2 || i+1 >= len(toks) || toks[i+1] != ")" {
			continue
		}
		switch {
		case t == "true":
			out = append(out, 1)
		case t == "false":
			out = append(out, 0)
		case strings.HasPrefix(t, "#x"):
			x, err := strconv.ParseUint(t[2:], 16, 64)
			if err != nil {
				return nil
			}
			out = append(out, x)
		case strings.HasPrefix(t, "#b"):
			x, err := strconv.ParseUint(t[2:], 2, 64)
			if err != nil {
				return nil
			}
			out = append(out, x)
		default:
			return nil
		}
	}
	if len(out) != n {
		return nil
	}
	return out
}

// script renders the conjunction with local names; syms are the terms whose values describe
// a model (variables, then UF argument/result pairs).
func script(conj []*Term) (text string, want []string, syms []*Term) {
	var b strings.Builder
	names := map[*Term]string{}
	refs := map[*Term]int{}
	var count func(t *Term)
	count = func(t *Term) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		for _, a := range t.args {
			count(a)
		}
	}
	for _, t := range conj {
		count(t)
	}
	luts := map[*Lut]string{}
	ufs := map[string]string{}
	var wantUF []string
	var symUF []*Term
	sort1 := func(w int) string {
		if w == 0 {
			return "Bool"
		}
		return "(_ BitVec " + strconv.Itoa(w) + ")"
	}
	nv, nt := 0, 0
	var expr func(t *Term) string
	body := func(t *Term) string {
		as := make([]string, len(t.args))
		for i, a := range t.args {
			as[i] = expr(a)
		}
		bin := func(op string) string { return "(" + op + " " + strings.Join(as, " ") + ")" }
		switch t.op {
		case OpAdd:
			var ps []string
			if t.c != 0 {
				ps = append(ps, bvlit(t.w, t.c))
			}
			for i, a := range as {
				switch t.coefs[i] {
				case 1:
					ps = append(ps, a)
				case mask(t.w):
					ps = append(ps, "(bvneg "+a+")")
				default:
					ps = append(ps, "(bvmul "+bvlit(t.w, t.coefs[i])+" "+a+")")
				}
			}
			if len(ps) == 1 {
				return ps[0]
			}
			return "(bvadd " + strings.Join(ps, " ") + ")"
		case OpMul:
			return bin("bvmul")
		case OpAnd:
			return bin("bvand")
		case OpOr:
			return bin("bvor")
		case OpXor:
			return bin("bvxor")
		case OpNot:
			return bin("bvnot")
		case OpShl:
			return bin("bvshl")
		case OpLshr:
			return bin("bvlshr")
		case OpAshr:
			return bin("bvashr")
		case OpConcat:
			return bin("concat")
		case OpExtract:
			return fmt.Sprintf("((_ extract %d %d) %s)", int(t.c)+t.w-1, t.c, as[0])
		case OpIte:
			return bin("ite")
		case OpEq:
			return bin("=")
		case OpUlt:
			return bin("bvult")
		case OpSlt:
			return bin("bvslt")
		case OpUdiv:
			return bin("bvudiv")
		case OpUrem:
			return bin("bvurem")
		case OpSdiv:
			return bin("bvsdiv")
		case OpSrem:
			return bin("bvsrem")
		case OpBAnd:
			return bin("and")
		case OpBOr:
			return bin("or")
		case OpBNot:
			return bin("not")
		case OpLut:
			ln, ok := luts[t.lut]
			if !ok {
				ln = "L" + strconv.Itoa(len(luts))
				luts[t.lut] = ln
				fmt.Fprintf(&b, "(define-fun %s ((x %s)) %s %s)\n", ln, sort1(t.lut.iw), sort1(t.w), lutBody(t.lut))
			}
			return "(" + ln + " " + as[0] + ")"
		case OpUF:
			un, ok := ufs[t.name]
			if !ok {
				un = "S" + strconv.Itoa(len(ufs))
				ufs[t.name] = un
				fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", un, sort1(t.args[0].w), sort1(t.w))
			}
			e := "(" + un + " " + as[0] + ")"
			wantUF = append(wantUF, as[0], e)
			symUF = append(symUF, t)
			return e
		}
		panic("script op")
	}
	expr = func(t *Term) string {
		if n, ok := names[t]; ok {
			return n
		}
		switch t.op {
		case OpConst:
			if t.w == 0 {
				if t.c == 1 {
					return "true"
				}
				return "false"
			}
			return bvlit(t.w, t.c)
		case OpVar:
			n := "v" + strconv.Itoa(nv)
			nv++
			fmt.Fprintf(&b, "(declare-const %s %s)\n", n, sort1(t.w))
			names[t] = n
			want = append(want, n)
			syms = append(syms, t)
			return n
		}
		e := body(t)
		if refs[t] > 1 || t.op == OpUF || len(e) > 400 {
			n := "t" + strconv.Itoa(nt)
			nt++
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, sort1(t.w), e)
			names[t] = n
			return n
		}
		return e
	}
	for _, t := range conj {
		e := expr(t)
		fmt.Fprintf(&b, "(assert %s)\n", e)
	}
	want = append(want, wantUF...)
	syms = append(syms, symUF...)
	return b.String(), want, syms
}

func bvlit(w int, v uint64) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v&mask(w))
	}
	return fmt.Sprintf("#b%0*b", w, v&mask(w))
}

func lutBody(l *Lut) string {
	if l.smt != "" { // a Lut belongs to one Ctx, and so to one goroutine
		return l.smt
	}
	var rec func(lo, n, bit int) string
	rec = func(lo, n, bit int) string {
		if n == 1 {
			return bvlit(l.w, l.vals[lo])
		}
		a := rec(lo, n/2, bit-1)
		c := rec(lo+n/2, n/2, bit-1)
		if a == c {
			return a
		}
		return fmt.Sprintf("(ite (= ((_ extract %d %d) x) #b1) %s %s)", bit, bit, c, a)
	}
	l.smt = rec(0, len(l.vals), l.iw-1)
	return l.smt
}

// abstractUF replaces applications of uninterpreted functions whose arguments differ by small
// amounts by multiplexers over fresh bytes. Each cluster of related arguments gets its own
// bytes, so the result is weaker than the original (sound for unsat).
func (c *Ctx) abstractUF(conj []*Term) ([]*Term, bool) {
	var apps []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		if t.op == OpUF {
			apps = append(apps, t)
		}
	}
	for _, t := range conj {
		walk(t)
	}
	if len(apps) == 0 {
		return conj, false
	}
	type cluster struct {
		base   *Term
		name   string
		lo, hi int64
		mem    []*Term
		ds     []*Term
		dlo    []int64
		dhi    []int64
	}
	var cls []*cluster
	for _, t := range apps {
		var hit *cluster
		for _, k := range cls {
			if k.name != t.name || k.mem[0].w != t.w {
				continue
			}
			lo, hi, ok := c.diffRange(k.base, t.args[0], nil)
			if ok && lo > -200 && hi < 200 && max(hi, k.hi)-min(lo, k.lo) < 200 {
				k.lo, k.hi = min(k.lo, lo), max(k.hi, hi)
				k.mem = append(k.mem, t)
				k.dlo, k.dhi = append(k.dlo, lo), append(k.dhi, hi)
				hit = k
				break
			}
		}
		if hit == nil {
			cls = append(cls, &cluster{base: t.args[0], name: t.name, mem: []*Term{t}, dlo: []int64{0}, dhi: []int64{0}})
		}
	}
	sub := map[*Term]*Term{}
	for ci, k := range cls {
		byt := func(j int64) *Term {
			return c.Var(fmt.Sprintf("!%s!%d!%d", k.name, ci, j-k.lo), k.mem[0].w)
		}
		for i, t := range k.mem {
			lo, hi := k.dlo[i], k.dhi[i]
			d := c.Sub(t.args[0], k.base)
			r := byt(hi)
			for j := hi - 1; j >= lo; j-- {
				r = c.Ite(c.Eq(d, c.Const(d.w, uint64(j))), byt(j), r)
			}
			sub[t] = r
		}
	}
	out := make([]*Term, len(conj))
	memo := map[*Term]*Term{}
	for i, t := range conj {
		out[i] = c.Subst(t, sub, memo)
	}
	return out, true
}

// Subst rebuilds t with the given replacements.
func (c *Ctx) Subst(t *Term, sub, memo map[*Term]*Term) *Term {
	if r, ok := sub[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = c.Subst(a, sub, memo)
		ch = ch || as[i] != a
	}
	r := t
	if ch {
		r = c.rebuild(t, as)
	}
	memo[t] = r
	return r
}

func (c *Ctx) rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case OpAdd:
		l := &lin{w: t.w, k: t.c}
		for i, a := range as {
			c.addTo(l, a, t.coefs[i])
		}
		return c.fromLin(l)
	case OpMul:
		return c.Mul(as[0], as[1])
	case OpAnd:
		return c.And(as[0], as[1])
	case OpOr:
		return c.Or(as[0], as[1])
	case OpXor:
		return c.Xor(as[0], as[1])
	case OpNot:
		return c.Not(as[0])
	case OpShl, OpLshr, OpAshr:
		return c.Shift(t.op, as[0], as[1])
	case OpConcat:
		return c.Concat(as...)
	case OpExtract:
		return c.Extract(as[0], int(t.c)+t.w-1, int(t.c))
	case OpIte:
		return c.Ite(as[0], as[1], as[2])
	case OpEq:
		return c.Eq(as[0], as[1])
	case OpUlt:
		return c.Ult(as[0], as[1])
	case OpSlt:
		return c.Slt(as[0], as[1])
	case OpUdiv, OpUrem, OpSdiv, OpSrem:
		return c.Div(t.op, as[0], as[1])
	case OpLut:
		return c.Lut(t.w, t.lut.iw, t.lut.vals, as[0])
	case OpUF:
		return c.UF(t.name, t.w, as[0])
	case OpBAnd:
		return c.BAnd(as...)
	case OpBOr:
		return c.BOr(as...)
	case OpBNot:
		return c.BNot(as[0])
	}
	panic("rebuild")
}

func (s *Solver) query(c *Ctx, conj []*Term, timeoutMS int) (Result, *Model) {
	var flat []*Term
	have := map[*Term]bool{}
	var push func(t *Term) bool
	push = func(t *Term) bool {
		if t.isTrue() || have[t] {
			return true
		}
		if t.isFalse() {
			return false
		}
		if t.op == OpBAnd {
			for _, a := range t.args {
				if !push(a) {
					return false
				}
			}
			return true
		}
		have[t] = true
		flat = append(flat, t)
		return true
	}
	for _, t := range conj {
		if !push(t) {
			c.st.Syntactic++
			return Unsat, nil
		}
	}
	if len(flat) == 0 {
		return Sat, NewModel()
	}
	text, want, syms := script(flat)
	e0, loaded := qcache.LoadOrStore(text, &cacheEnt{})
	e := e0.(*cacheEnt)
	e.once.Do(func() {
		t0 := time.Now()
		if !c.limit.IsZero() {
			timeoutMS = max(100, min(timeoutMS, int(c.limit.Sub(t0).Milliseconds())))
		}
		e.res, e.vals = s.run(text, want, timeoutMS)
		d := time.Since(t0)
		c.st.SolverTime += d
		c.st.MaxQuery = max(c.st.MaxQuery, d)
		if debugSMT != "" && d > 300*time.Millisecond {
			os.WriteFile(fmt.Sprintf("%s.slow%d", debugSMT, c.st.Queries), []byte(text+"(check-sat)\n"), 0o644)
			fmt.Fprintf(os.Stderr, "slow query %.1fs %s %d bytes\n", d.Seconds(), e.res, len(text))
		}
		c.st.Queries++
		switch e.res {
		case Unsat:
			c.st.Unsat++
		case Sat:
			c.st.Sat++
		default:
			c.st.Unknown++
		}
	})
	if loaded {
		c.st.CacheHits++
	}
	if e.res != Sat {
		return e.res, nil
	}
	m := NewModel()
	i := 0
	for _, t := range syms {
		if t.op == OpVar {
			m.vars[t.name] = e.vals[i]
			i++
			continue
		}
		if m.ufs[t.name] == nil {
			m.ufs[t.name] = map[uint64]uint64{}
		}
		m.ufs[t.name][e.vals[i]] = e.vals[i+1]
		i += 2
	}
	return Sat, m
}

// Check decides satisfiability of the conjunction. With weakOK, a Sat answer may be spurious
// (no model is returned).
func (s *Solver) Check(c *Ctx, conj []*Term, timeoutMS int, weakOK bool) (Result, *Model) {
	for _, t := range conj {
		if t.isFalse() {
			c.st.Syntactic++
			return Unsat, nil
		}
	}
	ab, did := c.abstractUF(conj)
	if did {
		r, _ := s.query(c, ab, timeoutMS)
		if r == Unsat || weakOK {
			return r, nil
		}
	}
	return s.query(c, conj, timeoutMS)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// diffRange is the range of the integer difference b-a when both are exact linear forms, with
// optional tighter ranges for some atoms.
func (c *Ctx) diffRange(a, b *Term, ov map[*Term][2]uint64) (lo, hi int64, ok bool) {
	if a == b {
		return 0, 0, true
	}
	if !a.isExact() || !b.isExact() {
		return 0, 0, false
	}
	w := a.w
	ka, aa, ca := asLin(a)
	kb, ab, cb := asLin(b)
	var k int64
	if a.op == OpConst {
		if ka > 1<<61 {
			return 0, 0, false
		}
		k = -int64(ka)
	} else {
		k = -sext64(ka, w)
	}
	if b.op == OpConst {
		if kb > 1<<61 {
			return 0, 0, false
		}
		k += int64(kb)
	} else {
		k += sext64(kb, w)
	}
	lo, hi = k, k
	const lim = 1 << 60
	i, j := 0, 0
	for i < len(aa) || j < len(ab) {
		var x *Term
		var cf int64
		switch {
		case j >= len(ab) || i < len(aa) && aa[i].id < ab[j].id:
			x, cf = aa[i], -sext64(ca[i], w)
			i++
		case i >= len(aa) || ab[j].id < aa[i].id:
			x, cf = ab[j], sext64(cb[j], w)
			j++
		default:
			x, cf = aa[i], sext64(cb[j], w)-sext64(ca[i], w)
			i++
			j++
		}
		if cf == 0 {
			continue
		}
		l, h := x.ulo, x.uhi
		if ov != nil {
			if o, y := ov[x]; y {
				l, h = o[0], o[1]
			}
		}
		if h > 1<<40 || cf > 1<<20 || cf < -(1<<20) {
			return 0, 0, false
		}
		if cf > 0 {
			lo += cf * int64(l)
			hi += cf * int64(h)
		} else {
			lo += cf * int64(h)
			hi += cf * int64(l)
		}
		if lo < -lim || hi > lim {
			return 0, 0, false
		}
	}
	return lo, hi, true
}
