package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The check of one property: the obligations of the functions it depends
// on, generated from the current source and discharged, and a run of the
// battery, which looks for a failing input.

type battReport struct {
	Evals    int                    `json:"evaluations"`
	Distinct int                    `json:"distinct_nontrivial"`
	Per      map[string]int         `json:"per_generator"`
	Samples  []string               `json:"samples"`
	Failure  map[string]interface{} `json:"failure"`
}

type battResult struct {
	battReport
	Cmd string
	Err string // the battery did not run
}

var verifDir = "/verif"

// everywhere has the properties that every function must respect.
var everywhere = map[string]bool{"P18": true, "P19": true, "P22": true, "P24": true}

func appliesTo(o *OResult, fnProps []string, p string) bool {
	if has(o.Props, p) {
		return true
	}
	if p == "P24" {
		// ownership: what several calls share is never written
		for _, x := range []string{"own:", "frame:", "race:", "cache:", "pool ", "safe:the wait", "safe:negative WaitGroup", "safe:call of a nil"} {
			if strings.HasPrefix(o.Label, x) {
				return true
			}
		}
		return false
	}
	switch {
	case strings.HasPrefix(o.Label, "race:"):
		return false
	case strings.HasPrefix(o.Label, "safe:"):
		return p == "P22" || len(o.Props) == 0 && has(fnProps, p)
	case strings.HasPrefix(o.Label, "own:"), strings.HasPrefix(o.Label, "frame:"):
		return p == "P18" || p == "P19" || has(fnProps, p)
	}
	return len(o.Props) == 0 && (has(fnProps, p) || p == "P22")
}

func checkMain(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	noBatt := fs.Bool("nobattery", false, "only the proofs")
	fs.Parse(args)
	if *tier == "" {
		*tier = "quick"
	}
	seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		seed = 1
	}
	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "jv")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	code := 2
	func() {
		defer os.RemoveAll(tmp)
		code = check(*prop, *tier, seed, tmp, t0, *noBatt)
	}()
	os.Exit(code)
}

func check(prop, tier string, seed int, tmp string, t0 time.Time, noBatt bool) int {
	thorough := tier == "thorough"
	e := loadEngine()
	var names []string
	// without the contract of a function, the obligations of its callers
	// stand for its own
	wide := false
	for _, c := range e.absent {
		wide = wide || has(e.propsOf(c), prop)
	}
	for _, n := range e.targets() {
		c := e.spec.Contracts[n]
		if c == nil || wide || everywhere[prop] || has(e.propsOf(c), prop) {
			names = append(names, n)
		}
	}
	// the longest first
	sort.SliceStable(names, func(i, j int) bool { return weight[names[i]] > weight[names[j]] })

	var batt battResult
	if !noBatt {
		secs := 18.0
		if thorough {
			secs = 240
		}
		batt = runBattery(prop, seed, secs, thorough, tmp)
		if batt.Err != "" {
			fmt.Println(batt.Err)
			return 2
		}
	}
	budget := 420.0
	if batt.Failure != nil {
		budget = 150
	}
	if thorough {
		budget *= 4
	}
	deadline := time.Now().Add(time.Duration(budget * float64(time.Second)))
	only := prop
	if wide {
		only = ""
	}
	rs := runTargets(names, 8, deadline, 1, only)
	// what failed is tried again with more time: a slow machine is not a violation
	again := map[string]int{}
	for i, r := range rs {
		slow := r.Error != "" && strings.Contains(r.Error, "the verifier failed")
		for _, o := range r.Obligs {
			if o.Status != "unsat" {
				slow = true
			}
		}
		if slow {
			again[r.Fn] = i
		}
	}
	if len(again) > 0 && batt.Failure == nil {
		var l []string
		for n := range again {
			l = append(l, n)
		}
		sort.Strings(l)
		d2 := time.Now().Add(240 * time.Second)
		for _, r := range runTargets(l, 3, d2, 4, only) {
			if r.Error == "" || !strings.Contains(r.Error, "the verifier failed") {
				rs[again[r.Fn]] = r
			}
		}
	}

	// the outcome
	type failure struct {
		Fn    string   `json:"function"`
		Oblig *OResult `json:"obligation,omitempty"`
		Error string   `json:"error,omitempty"`
	}
	var fails []failure
	total, done := 0, 0
	by := map[string]int{}
	var stime float64
	var fns, lemmas, bounded []map[string]interface{}
	contracts, trusted, inlined := map[string]bool{}, map[string]bool{}, map[string]bool{}
	verified := map[string]bool{}
	for i := range rs {
		r := &rs[i]
		nt, nd := 0, 0
		relevant := r.Error != ""
		if r.Error != "" {
			fails = append(fails, failure{Fn: r.Fn, Error: r.Error})
			nt++
		}
		for j := range r.Obligs {
			o := &r.Obligs[j]
			if strings.HasPrefix(r.Fn, "lemma_") || wide || appliesTo(o, r.Props, prop) {
				relevant = true
				nt++
				stime += o.Time
				if o.Status == "unsat" {
					nd++
					by[o.By]++
				} else {
					fails = append(fails, failure{Fn: r.Fn, Oblig: o})
				}
			}
		}
		if !relevant {
			continue
		}
		x := map[string]interface{}{"name": r.Fn, "obligations": nt, "discharged": nd, "wall_s": round(r.Wall)}
		switch {
		case strings.HasPrefix(r.Fn, "lemma_"):
			lemmas = append(lemmas, x)
		case r.Bounded != "":
			x["bound"] = r.Bounded
			bounded = append(bounded, x)
			verified[r.Fn] = true
			continue
		default:
			fns = append(fns, x)
			verified[r.Fn] = true
		}
		total += nt
		done += nd
		for _, c := range r.Contracts {
			contracts[c] = true
		}
		for _, c := range r.Trusted {
			trusted[c] = true
		}
		for _, c := range r.Inlined {
			inlined[c] = true
		}
	}
	var elsewhere []string
	for c := range contracts {
		k := e.spec.Contracts[c]
		if k == nil || verified[c] {
			continue
		}
		if k.Todo {
			elsewhere = append(elsewhere, "ASSUMED, not verified: the contract of "+c)
		} else if k.Trusted {
			trusted[c] = true
		} else {
			elsewhere = append(elsewhere, fmt.Sprintf("the contract of %s, which the checks of %s verify", c, strings.Join(e.propsOf(k), ", ")))
		}
	}
	sort.Strings(elsewhere)
	var assume []string
	for c := range trusted {
		assume = append(assume, "trusted model: "+c)
	}
	for n := range verified {
		if c := e.spec.Contracts[n]; c != nil {
			for _, m := range c.Memory {
				assume = append(assume, "memory typing assumed of "+n+": "+m.Text)
			}
			for _, m := range c.Requires {
				assume = append(assume, "precondition of "+n+", proved at its calls from code under contract: "+m.Text)
			}
		}
	}
	sort.Strings(assume)
	assume = append(assume, baseAssumptions...)
	assume = append(assume, elsewhere...)
	for _, c := range e.absent {
		assume = append(assume, "the function "+c.Fn+" does not exist: its contract is left out, its callers are verified with the code that they call")
	}
	assume = append(assume, e.renamed...)
	for _, n := range uncovered[prop] {
		assume = append(assume, "not under contract, explored by the bounded battery only: "+n)
	}

	nviol := 0
	if len(fails) > 0 || batt.Failure != nil {
		nviol = 1
	}
	cov := map[string]interface{}{
		"obligations": total, "discharged": done,
		"checker_cmd":                 "bin/jv check -prop " + prop + " (obligations from the SSA form of /repo's current source; z3 4.8.12, z3 5.3.2, cvc5 1.1.2)",
		"trusted_base":                append([]string{}, trustedBase...),
		"functions_under_contract":    fns,
		"lemmas":                      lemmas,
		"discharged_by":               by,
		"solver_time_s":               round(stime),
		"inlined_functions":           keys(inlined),
		"bounded_functions":           bounded,
		"bounded_battery_evaluations": batt.Evals,
	}
	if !noBatt {
		cov["evaluations"] = batt.Evals
		cov["distinct_nontrivial"] = batt.Distinct
		cov["rule"] = "bounded cross-check, not part of the proof: random and enumerated types, values and options given to the public functions, compared with a reference written over reflect; a case is non-trivial when its output has more than two bytes, and distinct when no other case has the same type and output"
		cov["samples"] = batt.Samples
		cov["per_generator"] = batt.Per
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": assume, "wall_s": round(time.Since(t0).Seconds()), "violations": nviol,
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	writeJSON(filepath.Join(verifDir, "evidence", prop+".json"), ev)

	if nviol == 0 {
		fmt.Printf("%s: %d obligations of %d functions and %d lemmas discharged; battery %d cases; %.0fs\n", prop, done, len(fns)+len(bounded), len(lemmas), batt.Evals, time.Since(t0).Seconds())
		return 0
	}
	rd := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(rd, 0o755)
	rp := filepath.Join(rd, prop+".json")
	replay := map[string]interface{}{"property": prop, "failed_obligations": fails}
	suffix := " no-failing-input-found"
	if batt.Failure != nil {
		replay["failing_input"] = batt.Failure
		replay["run_again"] = batt.Cmd
		suffix = ""
	}
	writeJSON(rp, replay)
	for i, f := range fails {
		if i == 10 {
			fmt.Printf("... and %d more\n", len(fails)-i)
			break
		}
		if f.Oblig != nil {
			fmt.Printf("failed obligation: %s %s %s (%s)\n", f.Fn, f.Oblig.Label, f.Oblig.Pos, f.Oblig.Desc)
		} else {
			fmt.Printf("not verified: %s: %s\n", f.Fn, clip(f.Error, 300))
		}
	}
	if batt.Failure != nil {
		b, _ := json.Marshal(batt.Failure)
		fmt.Println("failing input:", clip(string(b), 1500))
	}
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, rp, suffix)
	return 1
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }

func writeJSON(name string, x interface{}) {
	b, err := json.MarshalIndent(x, "", " ")
	if err == nil {
		err = os.WriteFile(name, append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// runTargets verifies the targets in separate processes, until the deadline.
func runTargets(names []string, workers int, deadline time.Time, scale int, only string) []FnResult {
	self, _ := os.Executable()
	out := make([]FnResult, len(names))
	sem := make(chan bool, workers)
	var wg sync.WaitGroup
	for i, n := range names {
		sem <- true
		wg.Add(1)
		go func(i int, n string) {
			defer wg.Done()
			defer func() { <-sem }()
			left := time.Until(deadline)
			if left < time.Second {
				out[i] = FnResult{Fn: n, Error: "the verifier failed: no time left"}
				return
			}
			cmd := exec.Command(self, "worker", n)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=4", "JV_SCALE="+strconv.Itoa(scale), "JV_PROP="+only)
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
			var eb strings.Builder
			cmd.Stderr = &eb
			timer := time.AfterFunc(left, func() {
				if cmd.Process != nil {
					syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				}
			})
			b, err := cmd.Output()
			timer.Stop()
			var r FnResult
			if err != nil || json.Unmarshal(b, &r) != nil {
				r = FnResult{Fn: n, Error: "the verifier failed: " + fmt.Sprint(err) + " " + clip(eb.String(), 2000)}
			}
			out[i] = r
		}(i, n)
	}
	wg.Wait()
	return out
}

// runBattery builds the battery against the current source, and runs it.
func runBattery(prop string, seed int, secs float64, thorough bool, tmp string) (res battResult) {
	src, _ := filepath.Glob(filepath.Join(verifDir, "battery", "*.go"))
	if thorough {
		g := filepath.Join(tmp, "structs_gen.go")
		b, err := exec.Command("python3", filepath.Join(verifDir, "battery", "gen_structs.py"), strconv.Itoa(seed+1000), "800", g).CombinedOutput()
		if err != nil {
			res.Err = "gen_structs.py: " + string(b)
			return
		}
		for i := range src {
			if filepath.Base(src[i]) == "structs_gen.go" {
				src[i] = g
			}
		}
	}
	rep := map[string]string{}
	for _, f := range src {
		rep[filepath.Join(repoDir, "zz_battery", filepath.Base(f))] = f
	}
	ov := filepath.Join(tmp, "overlay.json")
	writeJSON(ov, map[string]interface{}{"Replace": rep})
	bin := filepath.Join(tmp, "battery")
	a := []string{"build", "-overlay", ov, "-o", bin}
	if prop == "P24" {
		a = append(a, "-race", "-gcflags=github.com/wI2L/jettison/...=-d=checkptr=0")
	}
	cmd := exec.Command(filepath.Join(goroot(), "bin", "go"), append(a, "./zz_battery")...)
	cmd.Dir = repoDir
	cmd.Env = append(os.Environ(), "GOROOT="+goroot(), "GOFLAGS=-buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	if b, err := cmd.CombinedOutput(); err != nil {
		res.Err = "the battery does not build: " + clip(string(b), 3000)
		return
	}
	const parts = 8
	rs := make([]battResult, parts)
	var wg sync.WaitGroup
	for i := 0; i < parts; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			st := filepath.Join(tmp, fmt.Sprint("state", i))
			a := []string{"-prop", prop, "-seed", strconv.Itoa(seed), "-part", strconv.Itoa(i), "-parts", strconv.Itoa(parts), "-secs", fmt.Sprint(secs), "-state", st}
			if thorough {
				a = append(a, "-thorough")
			}
			cmd := exec.Command(bin, a...)
			cmd.Dir = tmp
			cmd.Env = append(os.Environ(), "TZ=UTC", "GOMAXPROCS=2", "GOMEMLIMIT=2500MiB", "GORACE=halt_on_error=1 exitcode=66")
			var eb, ob strings.Builder
			cmd.Stderr, cmd.Stdout = &eb, &ob
			hung := false
			if err := cmd.Start(); err != nil {
				rs[i].Err = err.Error()
				return
			}
			timer := time.AfterFunc(time.Duration((secs*2+150)*float64(time.Second)), func() { hung = true; cmd.Process.Kill() })
			err := cmd.Wait()
			timer.Stop()
			l := strings.Split(strings.TrimSpace(ob.String()), "\n")
			r := &rs[i]
			if json.Unmarshal([]byte(l[len(l)-1]), &r.battReport) != nil {
				c, _ := os.ReadFile(st)
				f := strings.Fields(string(c) + " ? 0")
				what := "the program crashes: " + fmt.Sprint(err)
				if strings.Contains(eb.String(), "WARNING: DATA RACE") {
					what = "data race"
				}
				if hung {
					what = "the call does not return"
				}
				r.Failure = map[string]interface{}{"property": prop, "generator": f[0], "iteration": f[1], "seed": seed, "part": i, "what": what, "stderr": clip(eb.String(), 6000)}
			}
			if r.Failure != nil {
				r.Cmd = fmt.Sprintf("battery -prop %s -gen %v -seed %d -part %d -parts %d -iter %v (build: tools/battery.sh)", prop, r.Failure["generator"], seed, i, parts, r.Failure["iteration"])
			}
		}(i)
	}
	wg.Wait()
	res.Per = map[string]int{}
	for _, r := range rs {
		if r.Err != "" {
			res.Err = r.Err
		}
		res.Evals += r.Evals
		res.Distinct += r.Distinct
		for k, n := range r.Per {
			res.Per[k] += n
		}
		if len(res.Samples) < 6 && len(r.Samples) > 0 {
			res.Samples = append(res.Samples, r.Samples[0])
		}
		if r.Failure != nil && res.Failure == nil {
			res.Failure, res.Cmd = r.Failure, r.Cmd
		}
	}
	return
}
