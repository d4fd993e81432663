package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	e, _ := os.Executable()
	return filepath.Dir(filepath.Dir(e))
}

func main() {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repoDir = d
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verif check <property> <quick|thorough> | run <harness> <tier> <out.json> | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		for _, t := range []string{"quick", "thorough"} {
			hs, err := findHarnesses(verifDir(), t)
			if err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			for _, h := range hs {
				fmt.Println(t, h.Prop, h.fname(), h.Dir, h.Tier)
			}
		}
	case "run":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		thorough = tier == "thorough"
		hs, err := findHarnesses(verifDir(), tier)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, h := range hs {
			if h.id() == os.Args[2] || h.fname() == os.Args[2] {
				r := runHarness(h, repoDir, verifDir())
				if len(os.Args) > 4 {
					writeJSON(os.Args[4], r)
				} else {
					b, _ := json.MarshalIndent(r, "", " ")
					fmt.Println(string(b))
				}
				return
			}
		}
		fmt.Fprintln(os.Stderr, "no such harness")
		os.Exit(2)
	case "check":
		thorough = len(os.Args) > 3 && os.Args[3] == "thorough"
		os.Exit(check(os.Args[2], os.Args[3]))
	}
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Msg      string `json:"msg"`
	Pos      string `json:"pos,omitempty"`
	What     string `json:"what"`
	Status   string `json:"status"` // open | fixed
}

func check(prop, tier string) int {
	t0 := time.Now()
	verif := verifDir()
	hs, err := findHarnesses(verif, tier)
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	var mine []*harnessOpts
	for _, h := range hs {
		if h.Prop == prop {
			mine = append(mine, h)
		}
	}
	if len(mine) == 0 {
		fmt.Println("no harness for", prop)
		return 2
	}
	work := filepath.Join(verif, "work", prop)
	_ = os.MkdirAll(work, 0o755)
	results := make([]*HarnessResult, len(mine))
	exe, _ := os.Executable()
	sem := make(chan bool, 8)
	limit := 840 * time.Second
	if tier == "thorough" {
		limit = 3600 * time.Second
	}
	var wg sync.WaitGroup
	for i, h := range mine {
		wg.Add(1)
		go func(i int, h *harnessOpts) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			out := filepath.Join(work, h.fname()+".json")
			_ = os.Remove(out)
			cmd := exec.Command(exe, "run", h.id(), tier, out)
			cmd.Env = append(os.Environ(), "GOMEMLIMIT=6GiB", "VERIF_DIR="+verif, "VERIF_TIER="+tier)
			var sb strings.Builder
			cmd.Stderr = &sb
			if err := cmd.Start(); err == nil {
				done := make(chan bool)
				go func() { _ = cmd.Wait(); close(done) }()
				left := limit - time.Since(t0)
				select {
				case <-done:
				case <-time.After(left):
					_ = cmd.Process.Kill()
					<-done
				}
			}
			r := &HarnessResult{Harness: h.id(), Status: "undecided", Why: "engine ended without a result " + tail(sb.String(), 400)}
			if b, err := os.ReadFile(out); err == nil {
				_ = json.Unmarshal(b, r)
			}
			results[i] = r
		}(i, h)
	}
	wg.Wait()
	known := loadKnown(filepath.Join(verif, "known_findings.json"))
	viol, decided := 0, 0
	var undec []string
	validated := 0
	reached := map[string]bool{}
	for i, r := range results {
		for l, s := range r.Reach {
			if s == "sat" {
				reached[mine[i].Name+" "+l] = true
			}
		}
	}
	for i, r := range results {
		h := mine[i]
		if r.Status != "undecided" {
			decided++
		} else {
			undec = append(undec, r.Harness+": "+tail(r.Why, 300))
			fmt.Printf("UNDECIDED %s: %s\n", r.Harness, tail(r.Why, 600))
		}
		fmt.Printf("%-40s %-9s obligations=%d queries=%d solver=%.1fs exec=%.1fs wall=%.1fs threads=%d steps=%d\n", r.Harness, r.Status, r.Obl, r.Queries+r.Feas, r.SolverS, r.ExecS, r.WallS, r.Threads, r.Steps)
		for l, s := range r.Reach {
			if s != "sat" && !reached[h.Name+" "+l] {
				fmt.Printf("  NOTE %s: label %q reachable: %s\n", r.Harness, l, s)
			}
		}
		for _, u := range r.Unwinds {
			fmt.Printf("  NOTE %s: %s\n", r.Harness, u)
		}
		for k := range r.Findings {
			f := &r.Findings[k]
			if kf := matchKnown(known, prop, h, f); kf != nil {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, kf.What)
				continue
			}
			path := filepath.Join(work, fmt.Sprintf("%s.%d.replay.json", h.fname(), k))
			f.Replay = path
			if h.Native {
				ok, msg := replayNative(h, f, verif, path)
				if ok {
					validated++
				} else {
					fmt.Printf("  NOTE %s: counterexample not confirmed natively: %s: %s\n", r.Harness, f.Msg, tail(msg, 300))
					undec = append(undec, r.Harness+": unconfirmed counterexample: "+f.Msg)
					continue
				}
			} else {
				writeJSON(path, f)
			}
			viol++
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			fmt.Printf("  %s: %s at %s\n", r.Harness, f.Msg, f.Pos)
			for _, n := range sortedKeys(f.Inputs) {
				fmt.Printf("    input %s = %s\n", n, f.Inputs[n])
			}
			for _, s := range f.Schedule {
				fmt.Printf("    %s\n", s)
			}
		}
	}
	writeEvidence(verif, prop, tier, results, mine, viol, validated, undec, time.Since(t0))
	switch {
	case viol > 0:
		return 1
	case decided == 0:
		return 2
	}
	return 0
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func loadKnown(p string) []knownFinding {
	var out []knownFinding
	if b, err := os.ReadFile(p); err == nil {
		_ = json.Unmarshal(b, &out)
	}
	return out
}

func matchKnown(ks []knownFinding, prop string, h *harnessOpts, f *Finding) *knownFinding {
	for i := range ks {
		k := &ks[i]
		if k.Status == "open" && k.Property == prop && k.Harness == h.Name && k.Msg == f.Msg && (k.Pos == "" || strings.Contains(f.Pos, k.Pos)) {
			return k
		}
	}
	return nil
}

func writeEvidence(verif, prop, tier string, rs []*HarnessResult, hs []*harnessOpts, viol, validated int, undec []string, wall time.Duration) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	steps, conf, obl, q, feas, vars, asserts := 0, 0, 0, 0, 0, 0, 0
	solver := 0.0
	fns := map[string]bool{}
	mods := map[string]bool{}
	back := map[string]int{}
	var samples []any
	disch := 0
	for _, r := range rs {
		steps += r.Steps
		conf += r.Configs
		obl += r.Obl
		q += r.Queries
		feas += r.Feas
		vars += r.Vars
		asserts += r.Asserts
		solver += r.SolverS
		if r.Status != "undecided" {
			disch += r.Obl
		}
		for _, f := range r.Functions {
			fns[f] = true
		}
		for _, f := range r.Modelled {
			mods[f] = true
		}
		for b, n := range r.Backends {
			back[b] += n
		}
		samples = append(samples, map[string]any{"harness": r.Harness, "what": r.Doc, "verdict": r.Status, "why": r.Why, "bounds": r.Bounds, "threads": r.Threads, "turns": r.Slots,
			"inputs": r.Inputs, "schedule_variables": r.SchedVars, "instructions": r.Steps, "terms": r.Terms, "obligations": r.Obl, "queries": r.Queries, "feasibility_queries": r.Feas,
			"solver_s": r.SolverS, "reachability": r.Reach, "unwinding_limits_reached": r.Unwinds})
	}
	list := func(m map[string]bool) []string {
		out := []string{}
		for k := range m {
			out = append(out, k)
		}
		sort.Strings(out)
		return out
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": wall.Seconds(), "violations": viol,
		"coverage": map[string]any{
			"states": conf, "transitions": steps, "traces_validated_against_impl": validated,
			"explanation":       "bounded symbolic execution of the Go SSA of /repo's current source; states = symbolic configurations (each a set of concrete states), transitions = SSA instructions executed symbolically; every assertion, panic and deadlock obligation is decided by SMT over all inputs and schedules within the bounds",
			"functions_encoded": list(fns), "environment_models": list(mods), "obligations": obl, "discharged": disch, "assertion_sites_executed": asserts,
			"solver_queries": q, "feasibility_queries": feas, "solver_s": solver, "solver_backends": back, "symbolic_variables": vars, "undecided": undec, "samples": samples,
		},
		"assumptions": []string{
			"environment models in /verif/vm (time, sync, context, protobuf, bus stubs) represent the real packages",
			"turn bound: each thread runs at most turn_rounds turns; loops at most loop_unwind iterations (reported when reached)",
			"go/ssa, the symbolic interpreter and the SMT solvers are trusted",
		},
	}
	writeJSON(filepath.Join(verif, "evidence", prop+".json"), ev)
	_ = runtime.NumCPU
}

// replayNative runs the harness with the counterexample's inputs as an ordinary Go test.
func replayNative(h *harnessOpts, f *Finding, verif, path string) (bool, string) {
	writeJSON(path, f)
	dir := filepath.Dir(path)
	vals := filepath.Join(dir, h.fname()+".vals.json")
	writeJSON(vals, f.Raw)
	pkg := filepath.Base(h.Dir)
	test := filepath.Join(dir, h.fname()+"_replay_test.go")
	name := pkgName(filepath.Join(verif, "harness", h.Dir), pkg)
	_ = os.WriteFile(test, []byte(fmt.Sprintf("package %s\n\nimport (\n\t\"testing\"\n\n\tvm %q\n)\n\nfunc TestVerifReplay(t *testing.T) {\n\tfor _, m := range vm.RunNative(%s) {\n\t\tt.Errorf(\"REPLAY-FAILED: %%s\", m)\n\t}\n}\n", name, vmPath, h.Name)), 0o644)
	ov := map[string]map[string]string{"Replace": {}}
	for k, v := range overlayFiles(repoDir, verif) {
		if !strings.Contains(k, "/zzh_") || filepath.Dir(k) == filepath.Join(repoDir, h.Dir) {
			ov["Replace"][k] = v
		}
	}
	ov["Replace"][filepath.Join(repoDir, h.Dir, "zz_verif_replay_test.go")] = test
	ovf := filepath.Join(dir, h.fname()+".overlay.json")
	writeJSON(ovf, ov)
	bin := filepath.Join(dir, h.fname()+".test")
	env := append(os.Environ(), "VERIF_REPLAY="+vals, "GOFLAGS=", "GOTOOLCHAIN=local", "GOPROXY=off", "VERIF_TIER="+tierName(), "VERIF_CASE="+strconv.Itoa(h.Case))
	cmd := exec.Command("go", "test", "-vet=off", "-c", "-o", bin, "-overlay", ovf, "./"+h.Dir)
	cmd.Dir = repoDir
	cmd.Env = env
	b, err := cmd.CombinedOutput()
	if err == nil {
		cmd = exec.Command(bin, "-test.count=1", "-test.timeout=60s", "-test.run=TestVerifReplay")
		cmd.Dir = dir
		cmd.Env = env
		b, err = cmd.CombinedOutput()
		_ = os.Remove(bin)
	} else {
		b = append(b, " [build failed]"...)
	}
	s := string(b)
	f.Replayed = "replayed natively with go test against the real code"
	defer func() { writeJSON(path, f) }()
	if err == nil {
		return false, "native run passed"
	}
	if strings.Contains(s, "REPLAY-FAILED") || strings.Contains(s, "panic: ") || strings.Contains(s, "test timed out") || strings.Contains(s, "all goroutines are asleep") {
		return true, s
	}
	if strings.Contains(s, "[build failed]") || strings.Contains(s, "[setup failed]") {
		f.Replayed = "not replayed natively: the replay did not build"
		return true, s
	}
	return false, s
}

func pkgName(dir, def string) string {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "package ") {
				return strings.Fields(l)[1]
			}
		}
	}
	return def
}

func tierName() string {
	if thorough {
		return "thorough"
	}
	return "quick"
}
