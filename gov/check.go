package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// The check command: discharges the obligations of a property from the
// current source, runs the bounded harness of the property on the real code,
// writes the evidence file and prints the verdict.

type checkInfo struct {
	Level     string `json:"level"`
	Technique string `json:"technique"`
	Note      string `json:"note"`
}

type harnessViolation struct {
	Case   string `json:"case"`
	Detail string `json:"detail"`
	Seed   int    `json:"seed"`
}

type harnessResult struct {
	Ran         bool               `json:"ran"`
	Rounds      int                `json:"rounds"`
	Evaluations int                `json:"evaluations"`
	Distinct    int                `json:"distinct_nontrivial"`
	Rule        string             `json:"rule"`
	Samples     []string           `json:"samples"`
	Violations  []harnessViolation `json:"violations"`
	Known       []string           `json:"known"`
	Cmd         string             `json:"cmd"`
	Err         string             `json:"error,omitempty"`
	Output      string             `json:"output,omitempty"`
	Wall        float64            `json:"wall_s"`
}

func verifDir() string {
	exe, err := os.Executable()
	if err != nil {
		return "/verif"
	}
	d := filepath.Dir(filepath.Dir(exe))
	if _, err := os.Stat(filepath.Join(d, "contracts")); err == nil {
		return d
	}
	return "/verif"
}

func envSeed() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 1
	}
	return n
}

// runHarness injects the harness files of a property with a build overlay and
// runs its test.
func runHarness(dir, prop, tier string, seed int, hunt bool) *harnessResult {
	r := &harnessResult{}
	own := filepath.Join(dir, "harness", strings.ToLower(prop)+"_verif_test.go")
	if _, err := os.Stat(own); err != nil {
		return r
	}
	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "gov-harness-")
	if err != nil {
		r.Err = err.Error()
		return r
	}
	defer os.RemoveAll(tmp)
	repl := map[string]string{}
	files, _ := filepath.Glob(filepath.Join(dir, "harness", "*_verif_test.go"))
	for _, f := range files {
		b := filepath.Base(f)
		if len(b) > 3 && b[0] == 'c' && b[1] >= '0' && b[1] <= '9' && f != own {
			continue
		}
		repl[filepath.Join(repoDir, "zz_"+b)] = f
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ovf := filepath.Join(tmp, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		r.Err = err.Error()
		return r
	}
	bin := filepath.Join(tmp, "harness.test")
	build := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", bin, ".")
	build.Dir = repoDir
	build.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off")
	if out, err := build.CombinedOutput(); err != nil {
		r.Err = "the harness does not build against the tree: " + err.Error()
		r.Output = tail(string(out), 6000)
		r.Wall = time.Since(t0).Seconds()
		return r
	}
	limit := 240
	if tier == "thorough" {
		limit = 420
	}
	h := "0"
	if hunt {
		h = "1"
	}
	// Rounds with different random choices; the first one has the given seed.
	// Distinct cases are counted within a round, as rounds may repeat cases.
	r.Cmd = "go test -overlay <harness> -run ^TestVerif" + prop + "$ ."
	res := make([]*harnessResult, harnessRounds)
	sem := make(chan bool, 4)
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := false
	for k := range res {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			mu.Lock()
			stop := bad
			mu.Unlock()
			if stop {
				return
			}
			res[k] = harnessRound(bin, filepath.Join(tmp, fmt.Sprintf("out%d.json", k)), prop, tier, seed+k*1000003, limit, h)
			if len(res[k].Violations) > 0 {
				mu.Lock()
				bad = true
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	sum := &harnessResult{Ran: true, Cmd: r.Cmd, Wall: time.Since(t0).Seconds()}
	for k, q := range res {
		if q == nil {
			continue
		}
		sum.Rounds++
		sum.Evaluations += q.Evaluations
		if q.Distinct > sum.Distinct {
			sum.Distinct = q.Distinct
		}
		if sum.Rule == "" {
			sum.Rule, sum.Samples = q.Rule, q.Samples
		}
		for _, v := range q.Violations {
			v.Seed = seed + k*1000003
			sum.Violations = append(sum.Violations, v)
		}
		for _, n := range q.Known {
			if !contains(sum.Known, n) {
				sum.Known = append(sum.Known, n)
			}
		}
		if sum.Output == "" || len(q.Violations) > 0 {
			sum.Output = q.Output
		}
	}
	return sum
}

const harnessRounds = 12

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// harnessRound runs the test of a property once.
func harnessRound(bin, outf, prop, tier string, seed, limit int, hunt string) *harnessResult {
	cmd := exec.Command("sh", "-c", "ulimit -v 16000000; exec \"$@\"", "sh", bin, "-test.run", "^TestVerif"+prop+"$", "-test.timeout", fmt.Sprintf("%ds", limit), "-test.count", "1")
	cmd.Dir = repoDir
	cmd.Env = append(os.Environ(), "VERIF_OUT="+outf, "VERIF_HUNT="+hunt, "VERIF_TIER="+tier, fmt.Sprintf("VERIF_SEED=%d", seed), "GOMEMLIMIT=4GiB")
	out, err := cmd.CombinedOutput()
	var q harnessResult
	if data, rerr := os.ReadFile(outf); rerr == nil && json.Unmarshal(data, &q) == nil {
		q.Output = tail(string(out), 8000)
		return &q
	}
	// no result was written: the process died or hung in the code under test
	msg := "the run on the real code did not finish"
	if err != nil {
		msg += ": " + err.Error()
	}
	q = harnessResult{Output: tail(string(out), 8000)}
	q.Violations = []harnessViolation{{Case: "crash or hang", Detail: msg + "\n" + q.Output}}
	return &q
}

func tail(s string, n int) string {
	if len(s) > n {
		return "…" + s[len(s)-n:]
	}
	return s
}

func runCheck(prop string, jobs int) int {
	t0 := time.Now()
	dir := verifDir()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := envSeed()
	infos := map[string]checkInfo{}
	data, err := os.ReadFile(filepath.Join(dir, "checks.json"))
	if err == nil {
		err = json.Unmarshal(data, &infos)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "checks.json:", err)
		return 2
	}
	info, ok := infos[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no check for", prop)
		return 2
	}
	evDir := filepath.Join(dir, "evidence")
	repDir := filepath.Join(evDir, "replay")
	if err := os.MkdirAll(repDir, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	old, _ := filepath.Glob(filepath.Join(repDir, prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}

	rep := runProp(prop, jobs)
	if failedUnits(rep) != nil && rep.Error == "" {
		// a second attempt with more solver time for what was not discharged
		os.Setenv("GOV_SLOW", "5")
		retry(rep, failedUnits(rep), jobs)
		os.Unsetenv("GOV_SLOW")
	}
	var failed []*Obligation
	obligations, discharged, instances := 0, 0, 0
	by := map[string]int{}
	solverMs := map[string]int64{}
	queries := 0
	var fns, lem []string
	uses, inl := map[string]bool{}, map[string]bool{}
	for _, u := range rep.Units {
		if strings.HasPrefix(u.Unit, "lemma:") {
			lem = append(lem, u.Unit)
		} else {
			fns = append(fns, u.Unit)
		}
		for _, o := range u.Obs {
			if !relevant(o, prop) {
				continue
			}
			obligations++
			instances += o.Count
			if o.Failed {
				failed = append(failed, o)
			} else {
				discharged++
			}
			for k, v := range o.By {
				by[k] += v
			}
		}
		for _, n := range u.Uses {
			uses[n] = true
		}
		for _, n := range u.Inlined {
			inl[n] = true
		}
		for k, v := range u.SolverMs {
			solverMs[k] += v
		}
		queries += u.Queries
	}
	if rep.Error != "" {
		failed = append(failed, &Obligation{Name: "package/load", Kind: "supported", Failed: true, Reason: rep.Error})
		obligations++
	}
	hr := runHarness(dir, prop, tier, seed, len(failed) > 0)

	violations := 0
	replayPath := ""
	noInput := false
	var lines []string
	writeReplay := func(name string, v interface{}) string {
		p := filepath.Join(repDir, prop+"-"+name+".json")
		b, _ := json.MarshalIndent(v, "", " ")
		if err := os.WriteFile(p, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		return p
	}
	obInfo := func() []map[string]interface{} {
		var l []map[string]interface{}
		for i, o := range failed {
			if i == 40 {
				break
			}
			l = append(l, map[string]interface{}{"obligation": o.Name, "kind": o.Kind, "at": o.Pos, "clause": o.Msg, "result": o.Reason, "goal": cutStr(o.Goal, 4000), "path": o.Trail, "model": cutStr(o.Model, 4000)})
		}
		return l
	}
	if len(hr.Violations) > 0 {
		violations++
		replayPath = writeReplay("input", map[string]interface{}{
			"property": prop, "kind": "failing input on the real code", "seed": seed, "tier": tier,
			"cases": hr.Violations, "failed_obligations": obInfo(),
			"rerun": fmt.Sprintf("cd /verif && VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s", seed, tier, prop),
		})
		for _, v := range hr.Violations {
			lines = append(lines, fmt.Sprintf("  failing input [%s]: %s", v.Case, cutStr(v.Detail, 600)))
		}
	} else if len(failed) > 0 || hr.Err != "" {
		violations++
		noInput = true
		obs := obInfo()
		if hr.Err != "" {
			obs = append(obs, map[string]interface{}{"obligation": "harness/build", "result": hr.Err, "output": hr.Output})
		}
		replayPath = writeReplay("obligation", map[string]interface{}{
			"property": prop, "kind": "undischarged obligation, no failing input found", "seed": seed, "tier": tier,
			"failed_obligations": obs,
			"rerun":              fmt.Sprintf("cd /verif && VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s", seed, tier, prop),
		})
	}
	for i, o := range failed {
		if i == 20 {
			lines = append(lines, fmt.Sprintf("  … and %d more", len(failed)-i))
			break
		}
		lines = append(lines, fmt.Sprintf("  not discharged: %s [%s] %s: %s", o.Name, o.Pos, cutStr(o.Msg, 200), cutStr(o.Reason, 300)))
	}
	if hr.Err != "" {
		lines = append(lines, "  "+hr.Err+"\n"+hr.Output)
	}

	trusted := []string{
		"SSA construction of golang.org/x/tools (v0.52.0) and the symbolic executor in gov/",
		"z3 5.3.2, z3 4.8.12, cvc5 1.1.2",
	}
	var asm []string
	var tn []string
	for n := range uses {
		if t, ok := rep.Trusted[n]; ok {
			tn = append(tn, fmt.Sprintf("trusted contract of %s: %s", n, t))
		}
	}
	sort.Strings(tn)
	asm = append(asm, tn...)
	var ext []string
	for n := range uses {
		if _, ok := models[n]; ok {
			ext = append(ext, n)
		}
	}
	sort.Strings(ext)
	if len(ext) > 0 {
		asm = append(asm, "library functions modelled, not verified: "+strings.Join(ext, ", "))
	}
	var part []string
	for n := range rep.Partial {
		if uses[n] || slices.Contains(fns, n) {
			part = append(part, n+": panics and the preconditions of the functions it calls are not considered in the proof")
		}
	}
	sort.Strings(part)
	asm = append(asm, part...)
	if obligations > 0 {
		asm = append(asm, "no byte string or list is longer than 2^40 elements", "no data race: the library has no goroutines and callers do not share a group between goroutines")
	}
	cov := map[string]interface{}{
		"obligations":              obligations,
		"discharged":               discharged,
		"obligation_instances":     instances,
		"discharged_by":            by,
		"solver_queries":           queries,
		"solver_ms":                solverMs,
		"functions_under_contract": fns,
		"lemmas":                   lem,
		"executed_in_place":        keys(inl),
		"checker_cmd":              "bin/gov prop " + prop,
		"trusted_base":             trusted,
	}
	if hr.Ran {
		c := cov
		if info.Level == "proof" {
			c = map[string]interface{}{}
			cov["bounded"] = c
		}
		c["evaluations"] = hr.Evaluations
		c["distinct_nontrivial"] = hr.Distinct
		c["rule"] = fmt.Sprintf("%s; largest number within one of %d rounds with different seeds", hr.Rule, hr.Rounds)
		c["samples"] = hr.Samples
		c["bounded_label"] = "bounded check on the real code; not counted as proved"
		c["bounded_wall_s"] = hr.Wall
	}
	if info.Level == "other" {
		cov["explanation"] = info.Note
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": info.Level, "coverage": cov,
		"assumptions": asm, "wall_s": time.Since(t0).Seconds(), "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, k := range hr.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	fmt.Printf("%s: %d functions, %d lemmas, %d obligations, %d discharged; bounded: %d evaluations; %.1f s\n", prop, len(fns), len(lem), obligations, discharged, hr.Evaluations, time.Since(t0).Seconds())
	for _, l := range lines {
		fmt.Println(l)
	}
	if violations > 0 {
		s := ""
		if noInput {
			s = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, replayPath, s)
		return 1
	}
	return 0
}

func cutStr(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// relevant: obligations from clauses tagged for other properties only do not
// count.
func relevant(o *Obligation, prop string) bool {
	return len(o.Tags) == 0 || hasTag(o.Tags, prop)
}

func failedUnits(rep *Report) []string {
	var out []string
	for _, u := range rep.Units {
		for _, o := range u.Obs {
			if o.Failed && relevant(o, rep.Property) {
				out = append(out, u.Unit)
				break
			}
		}
	}
	return out
}
