package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"
)

var levels = "model_checking"

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	verif := flag.String("verif", "/verif", "where evidence and the known-findings file live")
	verbose := flag.Bool("v", false, "verbose")
	only := flag.String("only", "", "run only items whose name contains this")
	workers := flag.Int("workers", 0, "workers")
	budget := flag.Int("budget", 0, "time budget in seconds")
	flag.StringVar(&repoDir, "repo", "/repo", "repository")
	flag.Parse()
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if f := os.Getenv("VERIF_PROF"); f != "" { // for experiments
		if o, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(o)
			defer pprof.StopCPUProfile()
		}
	}
	if f := os.Getenv("VERIF_HEAP"); f != "" { // for experiments
		go func() {
			for i := 0; ; i++ {
				time.Sleep(3 * time.Second)
				if o, err := os.Create(fmt.Sprintf("%s.%d", f, i)); err == nil {
					runtime.GC()
					pprof.WriteHeapProfile(o)
					o.Close()
				}
			}
		}()
	}
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(12 << 30)
	debug.SetMaxStack(16 << 30)
	tmp, err := os.MkdirTemp("", "verif-"+*prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	code := func() int {
		defer os.RemoveAll(tmp)
		if *tier == "thorough" {
			bigN = 5100
		}
		r := newRun(*prop, *tier, seed, tmp)
		r.verbose = *verbose
		r.only = *only
		if *workers > 0 {
			r.workers = *workers
		}
		b := 660
		if *tier == "thorough" {
			b = 3600
		}
		if *budget > 0 {
			b = *budget
		}
		r.deadline = r.start.Add(time.Duration(b) * time.Second)
		r.known = loadKnown(filepath.Join(*verif, "known-findings.txt"))
		ck, ok := checks[*prop]
		if !ok {
			fmt.Fprintln(os.Stderr, "unknown property", *prop)
			return 2
		}
		defer func() {
			for _, f := range r.cleanup {
				f()
			}
		}()
		if err := ck(r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		r.closeReplayers()
		return r.finish(levels, *verif)
	}()
	pprof.StopCPUProfile()
	os.Exit(code)
}

// loadKnown reads lines "known: property=<id> key=<key> | text".
func loadKnown(p string) []Known {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	var out []Known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		f := strings.SplitN(l, " key=", 2)
		if len(f) != 2 {
			continue
		}
		kt := strings.SplitN(f[1], " | ", 2)
		k := Known{prop: f[0], key: kt[0]}
		if len(kt) == 2 {
			k.text = kt[1]
		}
		out = append(out, k)
	}
	return out
}

// base loads the repository for amd64 and links the replay binary.
func (r *Run) base() error {
	P, err := LoadProgram("amd64", nil)
	if err != nil {
		return err
	}
	if len(P.errs) > 0 {
		return fmt.Errorf("the repository does not type-check: %s", P.errs[0])
	}
	if err := P.BuildBinary(r.tmp, nil); err != nil {
		return err
	}
	r.P = P
	return nil
}
