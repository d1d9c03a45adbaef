package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
)

var checks = map[string]func(r *Run) error{}

func (r *Run) quick() bool { return r.tier != "thorough" }

// pick chooses by tier.
func pick[T any](r *Run, q, t T) T {
	if r.quick() {
		return q
	}
	return t
}

// sizes: 0..max and some larger ones.
func (r *Run) sizes(max int, extra ...int) []int {
	var ns []int
	if v := os.Getenv("VERIF_SIZES"); v != "" { // for experiments
		for _, f := range strings.Split(v, ",") {
			n, _ := strconv.Atoi(f)
			ns = append(ns, n)
		}
		return ns
	}
	for n := 0; n <= max; n++ {
		ns = append(ns, n)
	}
	return append(ns, extra...)
}

// longLists are lengths of lists with few free values: up to max, some larger ones, and lengths
// around the integer constants in the code of a package.
func longLists(r *Run, pkg string, max int) []int {
	have := map[int]bool{}
	var ns []int
	add := func(n int) {
		if n > 6 && !have[n] {
			have[n] = true
			ns = append(ns, n)
		}
	}
	for n := 7; n <= max; n++ {
		add(n)
	}
	for _, n := range []int{63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 512, 1000, 1025} {
		add(n)
	}
	for _, n := range r.P.intHints(pkg, 40) {
		if len(ns) < max+60 && n <= 5000 {
			add(n)
		}
	}
	sort.Ints(ns)
	return ns
}

// streamSizes are the sequence lengths of the whole-stream checks: a full run, lengths around powers
// of two and further ones, some long ones (fixed values but for the last few), and lengths around the
// integer constants in the code of the stream packages.
func (r *Run) streamSizes(max int, extra ...int) []int {
	ns := r.sizes(max, extra...)
	if os.Getenv("VERIF_SIZES") != "" {
		return ns
	}
	have := map[int]bool{}
	for _, n := range ns {
		have[n] = true
	}
	var add []int
	for _, n := range r.P.lengthHints() {
		if !have[n] && len(add) < 60 {
			have[n] = true
			add = append(add, n)
		}
	}
	for _, n := range pick(r, []int{65541}, []int{6001, 16389, 32773, 65541, 131079}) {
		if !have[n] {
			add = append(add, n)
		}
	}
	sort.Ints(add)
	return append(ns, add...)
}

var (
	longQuick    = []int{191, 192, 193, 255, 256, 257, 258, 260, 384, 511, 512, 513, 767, 768, 1000, 1023, 1024, 1025, 2048}
	longThorough = []int{383, 384, 385, 500, 510, 511, 512, 513, 514, 515, 516, 517, 518, 519, 520, 600, 640, 700, 767, 768, 769, 1000, 1001, 1022, 1023, 1024, 1025, 1026, 1027, 1028, 1029, 1030, 1031, 1032, 1280, 1536, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000}
	someLong     = []int{127, 128, 129, 255, 256, 257, 260, 512, 1024}
)

// sizesBound says which lengths are covered.
func (r *Run) sizesBound(ns []int) string {
	s := sizesText(ns)
	if len(ns) > 0 && ns[len(ns)-1] > bigN {
		s += fmt.Sprintf(" (above %d: all but the last %d values or the control bytes and data they need are fixed)", bigN, bigFree)
	}
	return s
}

func sizesText(ns []int) string {
	if len(ns) == 0 {
		return "none"
	}
	// the leading run, then the rest
	k := 0
	for k+1 < len(ns) && ns[k+1] == ns[k]+1 {
		k++
	}
	s := fmt.Sprintf("%d..%d", ns[0], ns[k])
	for _, n := range ns[k+1:] {
		s += fmt.Sprintf(", %d", n)
	}
	return s
}

func d(delta bool) string {
	if delta {
		return "Delta"
	}
	return ""
}

func writers(delta bool) []string {
	w := "pkg/stream/writer.WriteAll" + d(delta)
	return []string{w, w + "Scalar", w + "Fast"}
}

func readers(delta bool) []string {
	w := "pkg/stream/reader.ReadAll" + d(delta)
	return []string{w, w + "Scalar", w + "Fast"}
}

// biggest first, so the long items do not end up last
func largestFirst(items []Item) []Item {
	out := make([]Item, len(items))
	for i, x := range items {
		out[len(items)-1-i] = x
	}
	return out
}

func streamItems(ns []int, delta bool, what string) (out []Item) {
	for _, n := range ns {
		for _, fn := range writers(delta) {
			out = append(out, Item{fmt.Sprintf("%s n=%d", fn, n), encStream(fn, n, delta, what)})
		}
	}
	return
}

func readItems(ns []int, delta bool, what string) (out []Item) {
	for _, n := range ns {
		for _, fn := range readers(delta) {
			out = append(out, Item{fmt.Sprintf("%s n=%d", fn, n), decStream(fn, n, delta, what)})
		}
	}
	return
}

func blockItems(enc, dec bool, what string) (out []Item) {
	if enc {
		for _, b := range encBlocks {
			out = append(out, Item{b.fn, encBlock(b, what)})
		}
	}
	if dec {
		for _, b := range decBlocks {
			out = append(out, Item{b.fn, decBlock(b, what)})
		}
	}
	return
}

func partItems(enc, dec bool, what string) (out []Item) {
	for k := 0; k <= 5; k++ {
		for _, delta := range []bool{false, true} {
			if enc {
				fn := "pkg/encode.PutUint32" + d(delta) + "Scalar"
				out = append(out, Item{fn + " " + countName(k), encPart(fn, delta, k, what)})
			}
			if dec {
				fn := "pkg/decode.GetUint32" + d(delta) + "Scalar"
				out = append(out, Item{fn + " " + countName(k), decPart(fn, delta, k, what)})
			}
		}
	}
	return
}

const (
	asmFeatures = "CPU feature flags of golang.org/x/sys/cpu are arbitrary (every combination is considered)"
	asmISA      = "machine instructions behave as the Intel manual says (semantics in engine/asm.go and engine/vec.go)"
	asmCompiler = "the Go compiler translates the Go functions faithfully (they are executed from go/ssa)"
)

func (r *Run) assumeAll(as ...string) {
	for _, a := range append(as, asmISA, asmCompiler) {
		r.assume[a] = true
	}
}

func init() {
	for id, delta := range map[string]bool{"C01": false, "C02": true} {
		checks[id] = func(r *Run) error {
			if err := r.base(); err != nil {
				return err
			}
			ns := r.streamSizes(pick(r, 131, 300), pick(r, longQuick, longThorough)...)
			r.bounds["sequence length n"] = r.sizesBound(ns)
			r.bounds["values"] = "all of uint32 for every element" + map[bool]string{true: ", and every prev"}[delta]
			r.assumeAll(asmFeatures)
			r.runItems(largestFirst(streamItems(ns, delta, "")))
			return nil
		}
	}
	for id, delta := range map[string]bool{"C03": false, "C04": true} {
		checks[id] = func(r *Run) error {
			if err := r.base(); err != nil {
				return err
			}
			ns := r.streamSizes(pick(r, 131, 300), pick(r, longQuick, longThorough)...)
			r.bounds["count n"] = r.sizesBound(ns)
			r.bounds["stream"] = "every control byte, every data byte, 0..255 trailing bytes, 0..15 further elements in out" + map[bool]string{true: ", every prev"}[delta]
			r.assumeAll(asmFeatures)
			r.runItems(largestFirst(readItems(ns, delta, "")))
			return nil
		}
	}
	checks["C07"] = func(r *Run) error {
		if err := r.base(); err != nil {
			return err
		}
		r.bounds["values"] = "all of uint32 for each of the 8 (4) values and prev; no loops, so complete for the block"
		r.bounds["buffers"] = "input of 8..15 (4..11) elements; output of 4 bytes per value plus 0..63, arbitrary initial contents"
		r.assumeAll(asmFeatures)
		r.runItems(blockItems(true, false, ""))
		return nil
	}
	checks["C08"] = func(r *Run) error {
		if err := r.base(); err != nil {
			return err
		}
		r.bounds["values"] = "every control value, every data byte, every prev; no loops, so complete for the block"
		r.bounds["buffers"] = "portable: exactly the announced data plus 0..63 bytes; accelerated: 32..95 bytes; out of 8..15 (4..11) elements"
		r.assumeAll(asmFeatures)
		r.runItems(blockItems(false, true, ""))
		return nil
	}
	checks["C09"] = func(r *Run) error {
		if err := r.base(); err != nil {
			return err
		}
		r.bounds["count"] = "0, 1, 2, 3, 4 and every count from 5 to 2^30+4"
		r.bounds["buffers"] = "exactly the needed size plus 0..7 elements / 0..31 bytes"
		r.assumeAll()
		r.runItems(partItems(true, true, ""))
		return nil
	}
	checks["C10"] = func(r *Run) error {
		if err := r.base(); err != nil {
			return err
		}
		ns := r.streamSizes(pick(r, 131, 300), pick(r, longQuick, longThorough)...)
		r.bounds["count n"] = r.sizesBound(ns)
		r.bounds["stream"] = "every well-formed stream in a buffer that ends with its last byte (0..255 trailing bytes), out of exactly n elements"
		r.assumeAll(asmFeatures)
		items := largestFirst(append(readItems(ns, false, "mem"), readItems(ns, true, "mem")...))
		r.bounds["portable block and partial-group decoders"] = "every length 0..255 of both slices, capacity up to 255 more, count 0..4 and every count from 5 to 2^30+4"
		r.runItems(append(append(shortItems(false, true, "mem"), blockItems(false, true, "mem")...), items...))
		return nil
	}
	checks["C11"] = func(r *Run) error {
		if err := r.base(); err != nil {
			return err
		}
		ns := r.streamSizes(pick(r, 131, 300), pick(r, longQuick, longThorough)...)
		r.bounds["sequence length n"] = r.sizesBound(ns)
		r.bounds["block buffers"] = "exactly 8 (4) values and 4 bytes per value"
		r.assumeAll(asmFeatures)
		items := largestFirst(append(streamItems(ns, false, "mem"), streamItems(ns, true, "mem")...))
		r.bounds["portable block and partial-group encoders"] = "every length 0..255 of both slices, capacity up to 255 more, count 0..4 and every count from 5 to 2^30+4"
		r.runItems(append(append(shortItems(true, false, "mem"), blockItems(true, false, "mem")...), items...))
		return nil
	}
	checks["C12"] = func(r *Run) error {
		if err := r.base(); err != nil {
			return err
		}
		ns := r.streamSizes(pick(r, 70, 200), someLong...)
		r.bounds["sequence length / count n"] = r.sizesBound(ns)
		r.bounds["package state"] = "every package-level variable of the library and what it points to"
		r.assumeAll(asmFeatures)
		var items []Item
		for _, delta := range []bool{false, true} {
			items = append(items, streamItems(ns, delta, "frame")...)
			items = append(items, readItems(ns, delta, "frame")...)
		}
		items = append(append(blockItems(true, true, "frame"), partItems(true, true, "frame")...), largestFirst(items)...)
		r.runItems(items)
		return nil
	}
}
