package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Item is one unit of work of a check: one harness around one function with fixed sizes.
type Item struct {
	name string
	run  func(h *H)
}

// Run is one invocation of a check.
type Run struct {
	prop     string
	tier     string
	seed     uint64
	start    time.Time
	deadline time.Time
	tmp      string
	workers  int
	P        *Program // amd64
	progs    map[string]*Program

	mu       sync.Mutex
	stop     atomic.Bool
	viols    []Violation
	known    []Known
	knownHit map[string]string
	incon    []string
	samples  []interface{}
	st       *Stats
	items    int
	itemsOK  int
	bounds   map[string]interface{}
	assume   map[string]bool
	needs    map[string]bool
	repMu    sync.Mutex
	reps     map[string][]*Replayer // idle replay processes by binary and environment
	verbose  bool
	only     string
	pathMS   atomic.Int64 // time spent path by path
	cleanup  []func()
}

type Violation struct {
	Property string      `json:"property"`
	Item     string      `json:"item"`
	What     string      `json:"what"`
	Where    string      `json:"where,omitempty"`
	Observed string      `json:"observed_on_real_code"`
	Replay   interface{} `json:"replay"`
	Key      string      `json:"key"`
	path     string
}

type Known struct{ prop, key, text string }

// H is the context of one item.
type H struct {
	r     *Run
	name  string
	fn    string
	P     *Program
	c     *Ctx
	sv    *Solver
	ex    *Exec
	st    *Stats
	check func(m *Model) (bad string, replay interface{}, err error) // runs the real code
	memo  map[string]bool
	obMS  int
	fails int
	isa   []isaUse // executed instructions that need an extension (when tracked)
	isaOn bool
	limit time.Time
	dec   *decider
	fresh bool // replays use a process of their own
	grd   bool // replays use the program with guarded allocations
}

func (h *H) logf(f string, a ...interface{}) {
	if h.r.verbose {
		fmt.Fprintf(os.Stderr, "[%6.1fs %s] %s\n", time.Since(h.r.start).Seconds(), h.name, fmt.Sprintf(f, a...))
	}
}

func (r *Run) inconclusive(name, why string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	s := name + ": " + why
	for _, x := range r.incon {
		if x == s {
			return
		}
	}
	r.incon = append(r.incon, s)
}

func (r *Run) sample(v interface{}) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

// do runs a request on the real code: the given binary started with the given environment.
func (r *Run) do(bin, env string, q RReq) (*RResp, error) {
	k := bin + "|" + env
	r.repMu.Lock()
	var x *Replayer
	if l := r.reps[k]; len(l) > 0 {
		x = l[len(l)-1]
		r.reps[k] = l[:len(l)-1]
	}
	r.repMu.Unlock()
	if x == nil {
		x = &Replayer{bin: bin}
		if env != "" {
			x.env = []string{env}
		}
	}
	resp, err := x.Do(q)
	if len(q.Poke) > 0 {
		x.Close()
		return resp, err
	}
	r.repMu.Lock()
	r.reps[k] = append(r.reps[k], x)
	r.repMu.Unlock()
	return resp, err
}

func (r *Run) closeReplayers() {
	r.repMu.Lock()
	defer r.repMu.Unlock()
	for _, l := range r.reps {
		for _, x := range l {
			x.Close()
		}
	}
	r.reps = map[string][]*Replayer{}
}

// do runs a request on the binary of the program under analysis, with the CPU features of the
// model: absent ones are switched off for the library's feature detection.
func (h *H) do(m *Model, q RReq) (*RResp, error) {
	env, err := h.env(m)
	if err != nil {
		return nil, err
	}
	if h.P.bin == "" {
		return nil, fmt.Errorf("no binary for %s", h.P.arch)
	}
	if h.isaOn {
		q.Poke = h.pokes(m)
	}
	bin := h.P.bin
	if h.grd {
		if bin, err = h.P.Guarded(); err != nil {
			return nil, err
		}
	}
	if h.fresh {
		x := &Replayer{bin: bin}
		if env != "" {
			x.env = []string{env}
		}
		defer x.Close()
		return x.Do(q)
	}
	return h.r.do(bin, env, q)
}

var hostFeatures = sync.OnceValue(func() map[string]bool {
	out := map[string]bool{}
	b, _ := os.ReadFile("/proc/cpuinfo")
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "flags") {
			for _, f := range strings.Fields(l[strings.IndexByte(l, ':')+1:]) {
				out[strings.ReplaceAll(f, "_", "")] = true
			}
			break
		}
	}
	return out
})

func (h *H) env(m *Model) (string, error) {
	if m == nil || len(h.ex.feat) == 0 {
		return "", nil
	}
	var off []string
	for _, n := range sortedKeys(h.ex.feat) {
		l := strings.ToLower(n)
		if m.Eval(h.ex.feat[n]) == 0 {
			off = append(off, "cpu."+l+"=off")
		} else if (l == "avx" || l == "avx2") && !hostFeatures()[l] {
			return "", fmt.Errorf("this machine lacks %s", n)
		}
	}
	if len(off) == 0 {
		return "", nil
	}
	return "GODEBUG=" + strings.Join(off, ","), nil
}

func (r *Run) violation(v Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	v.Property = r.prop
	for _, k := range r.known {
		if k.prop == r.prop && k.key == v.Key {
			r.knownHit[k.key] = k.text
			return
		}
	}
	r.viols = append(r.viols, v)
	r.stop.Store(true)
}

// report replays a counterexample and records the violation when the real code shows it.
func (h *H) report(desc, where string, m *Model) bool {
	key := desc
	if h.check == nil {
		h.r.inconclusive(h.name, desc+": no replay")
		return false
	}
	bad, rep, err := h.check(m)
	h.st.Replays++
	if bad == "" && err == nil && h.ex.extents {
		// an overrun of the library's own allocation shows only when something inaccessible follows it
		h.grd = true
		bad, rep, err = h.check(m)
		h.grd = false
		if bad != "" {
			bad += " (the library's own allocations end at an inaccessible page)"
		}
	}
	if bad == "" && err == nil {
		// earlier calls may have left something behind: once more in a new process
		h.fresh = true
		bad, rep, err = h.check(m)
		h.fresh = false
	}
	if err != nil {
		h.r.inconclusive(h.name, desc+": replay failed: "+err.Error())
		return false
	}
	if bad == "" {
		return false
	}
	h.r.violation(Violation{Item: h.name, What: desc, Where: where, Observed: bad, Replay: rep, Key: h.fn + ": " + key})
	return true
}

func satBits(ts []*Term, c *Ctx) []bool {
	out := make([]bool, c.K)
	for j := range out {
		out[j] = true
	}
	for _, t := range ts {
		s := c.sigOf(t)
		for j := range out {
			if s[j] == 0 {
				out[j] = false
			}
		}
	}
	return out
}

// ob discharges "pc implies cond"; a counterexample is replayed. Returns true when proved.
func (h *H) ob(desc, where string, pc, cond *Term) bool {
	c := h.c
	h.st.Obligations++
	if h.r.stop.Load() {
		return false
	}
	n := c.BNot(cond)
	bad := c.BAnd(pc, n)
	if bad.isFalse() {
		h.st.Syntactic++
		return true
	}
	// candidate from simulation: saves the solver from searching
	sim := -1
	sb := satBits(append([]*Term{bad}, c.assume...), c)
	for j, b := range sb {
		if b {
			sim = j
			break
		}
	}
	if sim < 0 {
		q := append([]*Term{}, conjs(n)...)
		q = append(q, relevant(append(append([]*Term{}, conjs(pc)...), c.assume...), n)...)
		res, _ := c.sv.Check(c, q, h.obMS, true)
		if res == Unsat {
			return true
		}
	}
	h.fails++
	h.logf("obligation not proved: %s (sim %d)", desc, sim)
	q := append([]*Term{bad}, c.assume...)
	res, m := c.sv.Check(c, q, h.obMS, false)
	switch res {
	case Unsat:
		h.fails--
		return true
	case Sat:
		h.fill(m)
		if h.report(desc, where, m) {
			return false
		}
	}
	if sim >= 0 {
		// the solver gave no usable model: pin the inputs of a simulation vector
		for j, b := range sb {
			if b && h.report(desc, where, c.simModel(j)) {
				return false
			}
		}
	}
	if h.dec == nil && h.ex.forks > 0 && res == Unknown {
		// decided path by path
		unsup("%s: solver answered %s", desc, res)
	}
	if res == Sat {
		h.r.inconclusive(h.name, desc+": solver counterexample not reproduced by the real code")
	} else {
		h.r.inconclusive(h.name, desc+": solver answered "+res.String())
	}
	return false
}

// fill gives the variables and function values the solver left open varied values.
func (h *H) fill(m *Model) {
	c := h.c
	m.def = func(name string, w int) uint64 {
		if strings.HasPrefix(name, "cpu.") {
			return 1
		}
		return c.simOf(name, w, 5)
	}
	m.ufd = func(name string, arg uint64) uint64 { return simVar(hashStr(name)^c.seed^mix(arg+12345), 8, 5) }
	// the defaults must not break the domain constraints
	for _, a := range c.assume {
		m.memo = map[*Term]uint64{}
		if m.Eval(a) == 0 {
			m.def = nil
			break
		}
	}
	m.memo = map[*Term]uint64{}
}

// events discharges the recorded panics and faults of the given kinds.
func (h *H) events(kinds ...string) bool {
	ok := true
	for _, e := range h.ex.events {
		for _, k := range kinds {
			if e.kind == k && !h.ob("no "+e.kind+": "+e.what, e.where, e.g, h.c.F) {
				ok = false
			}
		}
		if h.r.stop.Load() {
			return false
		}
	}
	return ok
}

// validate compares the real code with the expected behaviour on a few concrete inputs.
func (h *H) validate(n int, pc *Term) {
	if h.check == nil || h.r.stop.Load() {
		return
	}
	sb := satBits(append([]*Term{pc}, h.c.assume...), h.c)
	k := 0
	for i := range sb {
		j := (i*7 + 3) % len(sb)
		if !sb[j] || k >= n {
			continue
		}
		k++
		bad, rep, err := h.check(h.c.simModel(j))
		if err != nil {
			h.r.inconclusive(h.name, "validation run failed: "+err.Error())
			return
		}
		h.st.Validated++
		if k == 1 {
			h.r.mu.Lock()
			full := len(h.r.samples) >= 6
			h.r.mu.Unlock()
			if !full {
				h.r.sample(map[string]interface{}{"item": h.name, "replayed_on_real_code": rep})
			}
		}
		if bad != "" {
			h.r.violation(Violation{Item: h.name, What: "real code differs from the expected result on a validation input", Observed: bad, Replay: rep, Key: h.fn + ": validation"})
			return
		}
	}
}

func (r *Run) runItems(items []Item) {
	var wg sync.WaitGroup
	// some workers take from the front (the large items), the others from the back, so that
	// small items are not kept waiting
	if r.only != "" {
		var sel []Item
		for _, it := range items {
			if strings.Contains(it.name, r.only) {
				sel = append(sel, it)
			}
		}
		items = sel
	}
	r.items += len(items)
	var qmu sync.Mutex
	next := func(front bool) (it Item, ok bool) {
		qmu.Lock()
		defer qmu.Unlock()
		if len(items) == 0 {
			return it, false
		}
		if front {
			it, items = items[0], items[1:]
		} else {
			it, items = items[len(items)-1], items[:len(items)-1]
		}
		return it, true
	}
	for w := 0; w < r.workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			sv := NewSolver()
			st := NewStats()
			defer sv.Close()
			for {
				it, ok := next(w == 0 || w%3 == 0)
				if !ok {
					break
				}
				if r.stop.Load() {
					continue
				}
				if time.Now().After(r.deadline) {
					r.inconclusive(it.name, "time budget used up")
					continue
				}
				t0 := time.Now()
				r.runItem(it, sv, st)
				if r.verbose {
					fmt.Fprintf(os.Stderr, "[%6.1fs] %s took %.1fs\n", time.Since(r.start).Seconds(), it.name, time.Since(t0).Seconds())
				}
			}
			r.mu.Lock()
			r.st.Merge(st)
			r.mu.Unlock()
		}(w)
	}
	wg.Wait()
}

func (r *Run) newH(name string, sv *Solver, st *Stats) *H {
	h := &H{r: r, name: name, fn: name, st: st, sv: sv, P: r.P, obMS: 60000, memo: map[string]bool{}}
	h.limit = time.Now().Add(r.itemTime())
	if h.limit.After(r.deadline) {
		h.limit = r.deadline
	}
	h.reset(r.P)
	return h
}

// itemTime is the longest time one item may take.
func (r *Run) itemTime() time.Duration {
	return time.Duration(pick(r, 120, 1200)) * time.Second
}

// reset gives the harness a fresh term context over program P.
func (h *H) reset(P *Program) {
	h.P = P
	h.c = NewCtx(h.sv, h.st, h.r.seed)
	h.c.limit, h.c.maxTerms = h.limit, 8000000
	h.c.dec = h.dec
	h.ex = NewExec(P, h.c)
}

// byPaths runs an item once per path, without merging, when it cannot be encoded with merging.
// The paths' conditions are assumptions and cover the domain.
func (h *H) byPaths(it Item) (why string) {
	P := h.P
	const maxPaths = 400
	todo := [][]bool{nil}
	if l := time.Now().Add(h.r.itemTime() / 2); l.After(h.limit) {
		h.limit = l
		if l.After(h.r.deadline) {
			h.limit = h.r.deadline
		}
	}
	defer func() { h.dec = nil }()
	for n := 0; len(todo) > 0; n++ {
		if n > 2*maxPaths || len(todo) > maxPaths {
			return "too many paths"
		}
		if time.Now().After(h.limit) || h.r.pathMS.Load() > int64(pick(h.r, 400_000, 4_000_000)) {
			return "time limit"
		}
		if h.r.stop.Load() {
			return ""
		}
		path := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		h.dec = &decider{path: path}
		h.reset(P)
		t0 := time.Now()
		func() {
			defer func() {
				h.r.pathMS.Add(time.Since(t0).Milliseconds())
				switch e := recover().(type) {
				case nil:
				case needDecision:
					todo = append(todo, append(append([]bool{}, path...), false), append(append([]bool{}, path...), true))
				case Unsupported:
					why = e.why
				default:
					panic(e)
				}
			}()
			it.run(h)
		}()
		if why != "" {
			return why
		}
	}
	return ""
}

func (r *Run) runItem(it Item, sv *Solver, st *Stats) {
	h := r.newH(it.name, sv, st)
	r.mu.Lock()
	ni := len(r.incon)
	r.mu.Unlock()
	func() {
		defer func() {
			if e := recover(); e != nil {
				if u, ok := e.(Unsupported); ok {
					why := h.byPaths(it)
					if why == "" {
						return
					}
					r.inconclusive(it.name, "not encodable: "+u.why+"; path by path: "+why)
					h.tryReal()
					return
				}
				if r.verbose {
					fmt.Fprintf(os.Stderr, "%s\n%s\n", e, debug.Stack())
				}
				r.inconclusive(it.name, fmt.Sprintf("engine failure: %v", e))
			}
		}()
		it.run(h)
	}()
	r.mu.Lock()
	if len(r.incon) == ni {
		r.itemsOK++
	}
	r.mu.Unlock()
}

// tryReal runs a few concrete inputs when the code could not be encoded: no verdict, but what they
// show on the real code is still reported.
func (h *H) tryReal() {
	defer func() { recover() }()
	h.validate(8, h.c.T)
}

// call runs a repository function symbolically.
func (h *H) call(st *State, name string, args ...Val) (*State, Val) {
	f := h.P.fn(name)
	if f == nil {
		unsup("function %s does not exist", name)
	}
	return h.ex.call(st, f, args, nil)
}

func (h *H) mustFn(name string) *ssa.Function {
	f := h.P.fn(name)
	if f == nil {
		unsup("function %s does not exist", name)
	}
	return f
}

// ---- finishing ----

func (r *Run) finish(level string, outDir string) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	wall := time.Since(r.start).Seconds()
	funcs := []string{}
	for f := range r.st.Funcs {
		funcs = append(funcs, strings.ReplaceAll(f, "github.com/theMPatel/streamvbyte-simdgo/", ""))
	}
	sort.Strings(funcs)
	if len(funcs) > 80 {
		funcs = append(funcs[:80], fmt.Sprintf("... %d more", len(funcs)-80))
	}
	inc := r.incon
	sort.Strings(inc)
	if len(inc) > 40 {
		inc = append(inc[:40:40], fmt.Sprintf("... %d more", len(inc)-40))
	}
	assume := []string{}
	for a := range r.assume {
		assume = append(assume, a)
	}
	sort.Strings(assume)
	if r.samples == nil {
		r.samples = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": r.prop, "tier": r.tier, "seed": r.seed, "level": level, "wall_s": wall,
		"violations": len(r.viols), "assumptions": assume,
		"coverage": map[string]interface{}{
			"states":                          r.st.Forks + r.st.Merges + r.st.Calls,
			"transitions":                     r.st.Instr + r.st.AsmInstr,
			"traces_validated_against_impl":   r.st.Validated,
			"samples":                         r.samples,
			"items":                           r.items,
			"items_conclusive":                r.itemsOK,
			"obligations":                     r.st.Obligations,
			"machine_memory_accesses_checked": r.st.MemChecks,
			"go_runtime_checks_checked":       r.st.GoChecks,
			"obligations_closed_by_rewriting": r.st.Syntactic,
			"solver_queries":                  r.st.Queries,
			"solver_unsat":                    r.st.Unsat,
			"solver_sat":                      r.st.Sat,
			"solver_unknown":                  r.st.Unknown,
			"solver_cache_hits":               r.st.CacheHits,
			"solver_seconds":                  r.st.SolverTime.Seconds(),
			"solver_longest_query_seconds":    r.st.MaxQuery.Seconds(),
			"equivalences_tried":              r.st.Sweeps,
			"equivalences_proved":             r.st.SweepProved,
			"counterexamples_replayed":        r.st.Replays,
			"ssa_instructions_executed":       r.st.Instr,
			"machine_instructions_executed":   r.st.AsmInstr,
			"functions_encoded":               funcs,
			"bounds":                          r.bounds,
			"inconclusive":                    inc,
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		os.MkdirAll(filepath.Join(outDir, "evidence"), 0o755)
		err = os.WriteFile(filepath.Join(outDir, "evidence", r.prop+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return 2
	}
	fmt.Printf("%s %s: %d items (%d conclusive), %d obligations, %d solver queries, %.1f s solver, %d validation runs, %.1f s\n",
		r.prop, r.tier, r.items, r.itemsOK, r.st.Obligations, r.st.Queries, r.st.SolverTime.Seconds(), r.st.Validated, wall)
	for _, s := range inc {
		fmt.Println("INCONCLUSIVE:", s)
	}
	ks := []string{}
	for k := range r.knownHit {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, r.knownHit[k])
	}
	code := 0
	if len(r.viols) > 0 {
		v := r.viols[0]
		vb, _ := json.MarshalIndent(v, "", " ")
		dir := filepath.Join(outDir, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		p := filepath.Join(dir, fmt.Sprintf("%s-%x.json", r.prop, sha256.Sum256(vb))[:len(r.prop)+13]+".json")
		p = filepath.Join(dir, fmt.Sprintf("%s-%.12x.json", r.prop, sha256.Sum256(vb)))
		os.WriteFile(p, append(vb, '\n'), 0o644)
		fmt.Printf("%s: %s\n  at %s\n  real code: %s\n", v.Item, v.What, v.Where, v.Observed)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, p)
		code = 1
	}
	return code
}

func newRun(prop, tier string, seed uint64, tmp string) *Run {
	r := &Run{prop: prop, tier: tier, seed: seed, start: time.Now(), tmp: tmp, workers: runtime.NumCPU(),
		progs: map[string]*Program{}, knownHit: map[string]string{}, st: NewStats(), bounds: map[string]interface{}{},
		assume: map[string]bool{}, reps: map[string][]*Replayer{}}
	if r.workers > 8 {
		r.workers = 8
	}
	return r
}
