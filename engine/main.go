package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 3 {
		fatal("usage: gosym check ID [flags] | gosym replay FILE")
	}
	cmd, arg := os.Args[1], os.Args[2]
	fs := flag.NewFlagSet("gosym", flag.ExitOnError)
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	verbose := fs.Bool("v", false, "verbose")
	runRe := fs.String("run", "", "only harnesses matching this regexp")
	workers := fs.Int("j", runtime.NumCPU(), "workers")
	budget := fs.Int("budget", 0, "seconds")
	prof := fs.String("prof", "", "cpu profile")
	all := fs.Bool("all", false, "do not stop at the first violations")
	fs.Parse(os.Args[3:])
	if *tier != "thorough" {
		*tier = "quick"
	}
	root, err := filepath.Abs(filepath.Join(filepath.Dir(os.Args[0]), ".."))
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		root, err = r, nil
	}
	if err != nil {
		fatal("%v", err)
	}
	harness := filepath.Join(root, "harness")
	scratch, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fatal("%v", err)
	}
	code := 2
	defer func() { os.RemoveAll(scratch); os.Exit(code) }()
	ov, err := paramsOverlay(repoDir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	switch cmd {
	case "replay":
		b, err := os.ReadFile(arg)
		var rf replayFile
		if err == nil {
			err = json.Unmarshal(b, &rf)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return
		}
		nat, err := newNative(scratch, harness, scratch, rf.Property, ov)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return
		}
		if rf.Repeat < 50 && len(rf.Env) > 0 {
			rf.Repeat = 50
		}
		r := nat.runFile(arg, &rf)
		fmt.Printf("%s: %s %s %s\n", rf.Harness, r.status, r.label, r.out)
		code = 0
		if r.status == "assert" || r.status == "panic" {
			code = 1
		}
		return
	case "check":
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		return
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(100)
	t0 := time.Now()
	nat, err := newNative(scratch, harness, filepath.Join(root, "evidence", "replay"), arg, ov)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	nbuild := make(chan error, 1)
	go func() { _, err := nat.build(false); nbuild <- err }()
	eng, err := loadEngine(harness, ov)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	if err := <-nbuild; err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	tLoad := time.Since(t0)
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	ck := &Check{eng: eng, id: arg, tier: *tier, seed: seed, native: nat, funcs: map[string]bool{}, maxViol: 3, verbose: *verbose}
	if *all {
		ck.maxViol = 1000
	}
	sec := 480
	if *tier == "thorough" {
		sec = 2400
	}
	if *budget > 0 {
		sec = *budget
	}
	ck.deadline = time.Now().Add(time.Duration(sec) * time.Second)
	for _, f := range eng.harnesses(arg) {
		if *runRe != "" && !regexp.MustCompile(*runRe).MatchString(f.Name()) {
			continue
		}
		h := &HarnessRun{ck: ck, name: f.Name(), fn: f, undecided: map[string]int{}, unsup: map[string]int{}, spurious: map[string]int{},
			tried: map[string]int{}, crossed: map[string]int{}, unknowns: map[string]int{}, canHold: map[string]*canRec{}, notes: map[string]int{}}
		ck.hs = append(ck.hs, h)
	}
	if len(ck.hs) == 0 {
		fmt.Fprintf(os.Stderr, "no harness for %s\n", arg)
		return
	}
	report := func(complete bool) {
		if complete {
			ck.finishCan()
		}
		wall := time.Since(t0)
		known := loadKnown(filepath.Join(root, "known-findings.txt"), arg)
		nv := 0
		seen := map[string]bool{}
		for _, v := range ck.viol {
			if k := known[v.harness+" "+v.label]; k != "" {
				if !seen[k] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", arg, k)
					seen[k] = true
				}
				continue
			}
			nv++
			fmt.Printf("VIOLATION property=%s replay=%s\n", arg, v.replay)
			fmt.Printf("  harness %s, assertion %q: %.600s\n", v.harness, v.label, v.detail)
		}
		if *runRe == "" {
			if err := ck.writeEvidence(filepath.Join(root, "evidence", arg+".json"), wall, tLoad, nv); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return
			}
		}
		ck.summary(wall, tLoad)
		code = 0
		if nv > 0 {
			code = 1
		}
	}
	// a path that does not come back (one huge query or value) must not keep the
	// verdict of all the others from being given
	giveUp := func() {
		ck.mu.Lock()
		for _, h := range ck.hs {
			h.mu.Lock()
			h.dropped = len(h.queue)
			if h.running > 0 {
				h.unsup["path time limit"] += h.running
			}
		}
		report(false)
		os.RemoveAll(scratch)
		os.Exit(code)
	}
	watchdog := time.AfterFunc(time.Until(ck.deadline)+75*time.Second, giveUp)
	done := make(chan struct{})
	go ck.memoryGuard(done, giveUp)
	ck.run(*workers)
	watchdog.Stop()
	close(done)
	report(true)
	return
}

// finishCan examines reachability obligations no path could meet.
func (ck *Check) finishCan() {
	for _, h := range ck.hs {
		if h.dropped > 0 || len(h.unsup) > 0 {
			for l, r := range h.canHold {
				if !r.held {
					h.undecided[l]++
				}
			}
			continue
		}
		var ls []string
		for l := range h.canHold {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		confirmed := 0
		for _, l := range ls {
			r := h.canHold[l]
			if r.held {
				continue
			}
			if r.unknown {
				h.undecided[l]++
				continue
			}
			if confirmed >= 2 {
				continue // two replayed counterexamples per harness are enough
			}
			ok, out, file := ck.native.confirmCan(h, l)
			if ok {
				confirmed++
			}
			if ok {
				ck.viol = append(ck.viol, Violation{h.name, l, "no execution reaches this: " + out, file})
			} else {
				h.undecided[l]++
			}
		}
	}
}

func loadKnown(path, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	// known: property=C05 harness=C05_x label=foo text...
	re := regexp.MustCompile(`^known: property=(\S+) harness=(\S+) label=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil && m[1] == id {
			out[m[2]+" "+m[3]] = m[4]
		}
	}
	return out
}

func (ck *Check) summary(wall, load time.Duration) {
	for _, h := range ck.hs {
		fmt.Printf("%-34s paths %-6d infeas %-4d asserts %-7d norm %-7d smt %-5d steps %-10d merges %-5d forks %-5d witness %d/%d cpu %.1fs", h.name, h.paths, h.infeas, h.asserts, h.byNorm, h.bySMT, h.steps, h.merges, h.forks, h.validated, h.witness, h.used.Seconds())
		if h.dropped > 0 {
			fmt.Printf(" UNEXPLORED %d", h.dropped)
		}
		if h.diverged > 0 {
			fmt.Printf(" DIVERGED %d (%s)", h.diverged, h.divNote)
		}
		if len(h.undecided) > 0 {
			fmt.Printf(" UNDECIDED %v", h.undecided)
		}
		if len(h.unsup) > 0 {
			fmt.Printf(" UNSUPPORTED %v", h.unsup)
		}
		if len(h.spurious) > 0 {
			fmt.Printf(" SPURIOUS %v", h.spurious)
		}
		fmt.Println()
	}
	s := &ck.stat
	fmt.Printf("%s: %d functions encoded, load %.1fs, wall %.1fs, solver queries %d (unsat %d sat %d unknown %d) %.1fs\n", ck.id, len(ck.funcs), load.Seconds(), wall.Seconds(),
		s.queries, s.unsat, s.sat, s.unknown, time.Duration(s.nanos).Seconds())
}

func (ck *Check) writeEvidence(path string, wall, load time.Duration, nv int) error {
	var states, trans, traces, asserts, norm, smt, infeas int64
	var samples []any
	var hs []any
	exhaustive := true
	var fns []string
	for f := range ck.funcs {
		if strings.Contains(f, "go-tfhe") {
			fns = append(fns, strings.ReplaceAll(f, "github.com/thedonutfactory/go-tfhe/", ""))
		}
	}
	sort.Strings(fns)
	for _, h := range ck.hs {
		states += h.paths
		trans += h.steps
		traces += int64(h.validated)
		asserts += h.asserts
		norm += h.byNorm
		smt += h.bySMT
		infeas += h.infeas
		samples = append(samples, h.samples...)
		if h.dropped > 0 || len(h.undecided) > 0 || len(h.unsup) > 0 {
			exhaustive = false
		}
		m := map[string]any{"name": h.name, "doc": ck.eng.doc(h.fn), "paths": h.paths, "obligations": h.asserts, "by_normalisation": h.byNorm, "by_smt": h.bySMT, "instructions": h.steps, "cpu_s": round2(h.used.Seconds()), "native_witnesses_agreeing": h.validated}
		if h.dropped > 0 {
			m["unexplored_paths"] = h.dropped
		}
		if len(h.undecided) > 0 {
			m["undecided"] = h.undecided
		}
		if len(h.unsup) > 0 {
			m["unsupported"] = h.unsup
		}
		if h.diverged > 0 {
			m["native_disagreements"] = h.divNote
		}
		if len(h.spurious) > 0 {
			m["counterexamples_not_reproduced"] = h.spurious
		}
		hs = append(hs, m)
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	s := &ck.stat
	ev := map[string]any{
		"property": ck.id, "tier": ck.tier, "seed": ck.seed, "level": "model_checking", "wall_s": round2(wall.Seconds()), "violations": nv,
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": traces, "samples": samples, "exhaustive": exhaustive,
			"obligations": asserts, "obligations_by_normalisation": norm, "obligations_by_smt": smt, "infeasible_paths": infeas,
			"functions_encoded": fns, "harnesses": hs,
			"solver": map[string]any{"queries": s.queries, "unsat": s.unsat, "sat": s.sat, "unknown": s.unknown, "seconds": round2(time.Duration(s.nanos).Seconds()), "feasible_by_evaluation": s.guessed},
			"load_s": round2(load.Seconds()),
			"rule":   "states = symbolic paths completed, transitions = SSA instructions executed symbolically, traces = solver models of complete paths whose native execution gave the same observations",
		},
		"assumptions": assumptions,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	return os.WriteFile(path, b, 0o644)
}

var assumptions = []string{
	"each harness states its bounds (dimensions, levels, lengths, ranges) in its comment, repeated in coverage.harnesses[].doc",
	"go/ssa is a faithful translation of the Go source; the engine's term rewriting, the floating-point error accounting and the SMT solvers are trusted",
	"floating point: values are affine forms over symbolic words with a rigorous accumulated rounding-error bound; FMA contraction is not assumed",
	"random draws of math/rand and crypto/rand are arbitrary values of their range (Gaussian draws within the stated bound)",
	"goroutine interleavings are explored only in the harnesses that say so; elsewhere one schedule is run",
}

func round2(f float64) float64 { return float64(int64(f*100+0.5)) / 100 }
