// gosym decides properties of Go code by symbolic execution of its SSA form with an SMT solver.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

type knownFinding struct {
	Status   string `json:"status"` // known or fixed
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Match    string `json:"match"` // regular expression on the counterexample's message
	What     string `json:"what"`
}

func loadKnown(verif, prop string) ([]knownFinding, error) {
	f, err := os.Open(filepath.Join(verif, "known_findings.jsonl"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	defer f.Close()
	var out []knownFinding
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "{") {
			continue // "fixed: ..." lines are records, they suppress nothing
		}
		var k knownFinding
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			return nil, err
		}
		if k.Status == "known" && k.Property == prop {
			out = append(out, k)
		}
	}
	return out, sc.Err()
}

func renderInputs(in []inputVar) string {
	var sb strings.Builder
	last := ""
	for _, v := range in {
		if v.Name != last {
			if last != "" {
				sb.WriteString("; ")
			}
			sb.WriteString(v.Name + ":")
			last = v.Name
		}
		sb.WriteString(" " + strconv.Itoa(v.Val))
		if v.Val >= 32 && v.Val < 127 {
			sb.WriteString("'" + string(rune(v.Val)) + "'")
		}
	}
	return sb.String()
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|replay ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("gosym", flag.ExitOnError)
	prop := fs.String("property", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "verification directory")
	only := fs.String("only", "", "run only harnesses matching this regexp")
	budget := fs.Duration("budget", 0, "time for exploration")
	workers := fs.Int("workers", 0, "workers")
	file := fs.String("file", "", "replay file")
	prof := fs.String("cpuprofile", "", "profile")
	verbose := fs.Bool("v", false, "verbose")
	noev := fs.Bool("noevidence", false, "do not write evidence")
	fs.Parse(os.Args[2:])
	if *workers == 0 {
		*workers = runtime.NumCPU()
	}
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(12 << 30)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	dir, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	code := 2
	defer func() {
		os.RemoveAll(dir)
		pprof.StopCPUProfile()
		os.Exit(code)
	}()
	switch os.Args[1] {
	case "check":
		if *budget == 0 {
			*budget = 150 * time.Second
			if *tier == "thorough" {
				*budget = 2 * time.Hour
			}
		}
		code = check(*repo, *verif, *prop, *tier, dir, *only, *budget, *workers, *verbose, *noev)
	case "replay":
		b, err := os.ReadFile(*file)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return
		}
		var rf replayFile
		if err := json.Unmarshal(b, &rf); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return
		}
		e, err := newEnv(*repo, *verif, rf.Property)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return
		}
		e.dir = dir
		if _, err := e.modfile(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return
		}
		n := e.buildNative()
		if n.err != nil {
			fmt.Fprintln(os.Stderr, n.err)
			return
		}
		n.tier = rf.Tier
		ok, r := n.confirm(&rf.Finding)
		js, _ := json.MarshalIndent(r, "", " ")
		fmt.Printf("reproduced=%v\n%s\n", ok, js)
		code = 0
		if ok {
			code = 1
		}
	}
}

type replayFile struct {
	Property string
	Tier     int
	Finding  finding
	Native   nrep
	Inputs   string
}

func check(repo, verif, prop, tier, dir, only string, budget time.Duration, nw int, verbose, noev bool) int {
	t0 := time.Now()
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed(), "level": "model_checking"}
	cov := map[string]any{}
	ev["coverage"] = cov
	evPath := filepath.Join(verif, "evidence", prop+".json")
	finish := func(code int) int {
		ev["wall_s"] = time.Since(t0).Seconds()
		if !noev {
			os.MkdirAll(filepath.Dir(evPath), 0o755)
			b, _ := json.MarshalIndent(ev, "", " ")
			if err := os.WriteFile(evPath, append(b, '\n'), 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
			}
		}
		return code
	}
	inconclusive := func(why string) int {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", prop, why)
		cov["states"], cov["transitions"], cov["traces_validated_against_impl"] = 0, 0, 0
		cov["samples"] = []any{}
		cov["inconclusive"] = []string{why}
		ev["violations"] = 0
		return finish(0)
	}
	known, err := loadKnown(verif, prop)
	if err != nil {
		return inconclusive("known findings: " + err.Error())
	}
	e, err := newEnv(repo, verif, prop)
	if err != nil {
		return inconclusive(err.Error())
	}
	e.dir = dir
	tn := 0
	if tier == "thorough" {
		tn = 1
	}
	pr, err := e.load()
	if err != nil {
		return inconclusive(err.Error())
	}
	tLoad := time.Since(t0)
	natc := make(chan *native, 1)
	go func() { natc <- e.buildNative() }()
	steps := e.cfg.Steps
	if steps == 0 {
		steps = 1000000
	}
	x, err := newExplorer(pr, tn, nw, steps)
	if err != nil {
		return inconclusive(err.Error())
	}
	tInit := time.Since(t0) - tLoad
	nat := <-natc
	if nat.err != nil {
		return inconclusive(nat.err.Error())
	}
	nat.tier = tn
	if verbose {
		fmt.Printf("load %.1fs init %.1fs native %.1fs\n", tLoad.Seconds(), tInit.Seconds(), time.Since(t0).Seconds())
	}
	var onlyRe *regexp.Regexp
	if only != "" {
		onlyRe = regexp.MustCompile(only)
	}
	var total Stats
	covered := map[string]bool{}
	incon := map[string]int{}
	var perH []map[string]any
	var samples []any
	violations, knownHits, validated, mismatches := 0, map[string]bool{}, 0, 0
	var mism []string
	allComplete := true
	var hs []string
	for _, h := range e.harnesses {
		if onlyRe == nil || onlyRe.MatchString(h) {
			hs = append(hs, h)
		}
	}
	exploreStart := time.Now()
	for hi, h := range hs {
		left := budget - time.Since(exploreStart)
		share := left
		if rest := len(hs) - hi; rest > 1 {
			share = left / time.Duration(rest) * 2
			if share > left {
				share = left
			}
		}
		if share < 2*time.Second {
			share = 2 * time.Second
		}
		r := x.run(h, share)
		total.add(&r.stats)
		for f := range r.covered {
			covered[f] = true
		}
		for k, n := range r.incon {
			incon[h+": "+k] += n
		}
		if !r.complete {
			allComplete = false
		}
		hv := 0
		var uncon []string
		reported := map[string]bool{}
		for i := range r.finds {
			f := &r.finds[i]
			ok, rep := nat.confirm(f)
			if !ok {
				s := fmt.Sprintf("%s: counterexample did not reproduce natively (%s: %s; native %s %s; inputs %s)", h, f.Kind, f.Msg, rep.Status, rep.Msg, renderInputs(f.Inputs))
				uncon = append(uncon, s)
				incon[s]++
				if verbose {
					fmt.Println("  unconfirmed:", s)
				}
				continue
			}
			var kf *knownFinding
			for j := range known {
				k := &known[j]
				if k.Harness == h {
					if re, err := regexp.Compile(k.Match); err == nil && re.MatchString(f.Msg) {
						kf = k
						break
					}
				}
			}
			if kf != nil {
				if !knownHits[kf.What] {
					knownHits[kf.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, kf.What)
				}
				continue
			}
			key := f.Kind + f.Msg
			violations++
			hv++
			if reported[key] && !verbose {
				continue
			}
			reported[key] = true
			rd := filepath.Join(verif, "evidence", "replay")
			os.MkdirAll(rd, 0o755)
			rp := filepath.Join(rd, fmt.Sprintf("%s-%s-%d.json", prop, h, i))
			b, _ := json.MarshalIndent(replayFile{prop, tn, *f, rep, renderInputs(f.Inputs)}, "", " ")
			os.WriteFile(rp, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
			fmt.Printf("  harness=%s kind=%s: %s\n  inputs: %s\n", h, f.Kind, f.Msg, renderInputs(f.Inputs))
			if rep.Msg != f.Msg {
				fmt.Printf("  native: %s %s\n", rep.Status, rep.Msg)
			}
		}
		// translation validation: the real code must agree on sampled paths
		var reqs []nreq
		for _, s := range r.samples {
			reqs = append(reqs, nreq{H: h, In: s.Inputs, Loops: 1})
		}
		for i, rep := range nat.runBatch(reqs, 60*time.Second) {
			s := r.samples[i]
			same := rep.Status == "ok" && len(rep.Obs) == len(s.Obs)
			if same {
				for j := range s.Obs {
					if s.Obs[j] != rep.Obs[j] {
						same = false
						break
					}
				}
			}
			if same {
				validated++
			} else {
				mismatches++
				if len(mism) < 5 {
					mism = append(mism, fmt.Sprintf("%s: inputs %s: model %q, real %s %s %q", h, renderInputs(s.Inputs), s.Obs, rep.Status, rep.Msg, rep.Obs))
				}
			}
			if i < 2 && same && len(samples) < 12 {
				samples = append(samples, map[string]any{"harness": h, "inputs": renderInputs(s.Inputs), "observed": s.Obs})
			}
		}
		reach := sortedKeys(r.reach)
		perH = append(perH, map[string]any{"harness": h, "paths": r.stats.paths, "infeasible": r.stats.infeasible, "block_steps": r.stats.steps, "max_path_steps": r.maxSteps, "input_variables": r.vars, "exhausted": r.complete, "violations": hv, "unconfirmed": uncon, "reached": reach, "wall_s": r.wall.Seconds(), "obligations": r.stats.assertTotal, "solver_queries": r.stats.smtQueries, "solver_s": float64(r.stats.smtNanos) / 1e9})
		if verbose {
			fmt.Printf("%-28s paths=%d infeasible=%d steps=%d max=%d vars=%d asserts=%d/%d smt=%d (%.1fs) merges=%d complete=%v viol=%d wall=%.1fs reach=%v\n", h, r.stats.paths, r.stats.infeasible, r.stats.steps, r.maxSteps, r.vars, r.stats.assertSMT, r.stats.assertTotal, r.stats.smtQueries, float64(r.stats.smtNanos)/1e9, r.stats.regionMerges, r.complete, hv, r.wall.Seconds(), reach)
			for k, n := range r.incon {
				fmt.Printf("  inconclusive x%d: %s\n", n, k)
			}
		}
	}
	for _, m := range x.workers {
		m.sol.close()
	}
	if total.crossBad > 0 {
		incon["truth-table procedure and solver disagree"]++
	}
	for _, s := range mism {
		incon["model and real code disagree: "+s]++
	}
	var il []string
	for k, n := range incon {
		if len(k) > 600 {
			k = k[:600]
		}
		il = append(il, fmt.Sprintf("%s (x%d)", k, n))
	}
	sort.Strings(il)
	for i, s := range il {
		if i < 6 {
			fmt.Printf("INCONCLUSIVE property=%s %s\n", prop, s)
		}
	}
	if len(il) > 20 {
		il = il[:20]
	}
	cov["states"] = total.paths
	cov["transitions"] = total.steps
	cov["traces_validated_against_impl"] = validated
	cov["samples"] = samples
	cov["exhaustive"] = allComplete && len(il) == 0
	cov["explanation"] = "states = symbolic paths, each standing for every input that follows it; transitions = basic blocks executed symbolically; obligations are decided by z3 over all inputs of a path (or are constant on it)"
	cov["functions_encoded"] = sortedKeys(covered)
	cov["bounds"] = e.cfg.Bounds[tier]
	cov["harnesses"] = perH
	cov["obligations"] = total.assertTotal
	cov["obligations_solver"] = total.assertSMT
	cov["solver"] = map[string]any{"binary": z3Binary(), "queries": total.smtQueries, "sat": total.smtSat, "unsat": total.smtUnsat, "unknown": total.smtUnknown, "seconds": float64(total.smtNanos) / 1e9, "branches_by_byte_domain": total.branchTable, "branches_by_found_model": total.branchModel, "domain_cross_checks": total.crossChecks, "domain_cross_check_failures": total.crossBad, "merged_regions": total.regionMerges}
	cov["inconclusive"] = il
	cov["known_findings"] = sortedKeys(knownHits)
	ev["assumptions"] = e.cfg.Assumptions
	ev["violations"] = violations
	fmt.Printf("property=%s tier=%s paths=%d obligations=%d solver_queries=%d solver_s=%.1f validated=%d mismatches=%d exhausted=%v violations=%d wall=%.1fs\n", prop, tier, total.paths, total.assertTotal, total.smtQueries, float64(total.smtNanos)/1e9, validated, mismatches, allComplete, violations, time.Since(t0).Seconds())
	if violations > 0 {
		return finish(1)
	}
	return finish(0)
}

func seed() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 1
	}
	return n
}
