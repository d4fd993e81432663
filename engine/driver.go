package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func sortStrings(s []string) { sort.Strings(s) }

// ---- harness discovery -------------------------------------------------------------

type harnessOpts struct {
	Prop    string
	Name    string // function name
	Dir     string // directory relative to the repository
	Tier    string // quick | thorough | both
	Rounds  int
	Unwind  int
	Slot    int // loop iterations per turn before a forced turn end
	Prune   bool
	Order   string
	Timeout int // seconds per query
	Budget  int // seconds of symbolic execution
	Native  bool
	Keep    []string // redirects not applied
	Timers  int      // timers fire only from this round on (cooperative harnesses; default never)
	Clock   int      // bits of the nanoseconds that may pass at each reading of the clock
	Event   bool     // timers fire in order, each when nobody can move (implies coop)
	Coop    bool     // threads run until they block: one big-step schedule
	Fine    string   // package in which memory accesses are scheduling points
	MapRev  bool     // maps are iterated last inserted first
	Doc     string
	Max     int
	Cases   int // the harness is decided once per case; vm.Case() is the number of the case
	Case    int
}

func (h *harnessOpts) id() string { return h.Prop + "." + h.fname() }

// fname is the name of this case of the harness.
func (h *harnessOpts) fname() string {
	if h.Cases > 0 {
		return h.Name + "@" + strconv.Itoa(h.Case)
	}
	return h.Name
}

func findHarnesses(verif string, tier string) ([]*harnessOpts, error) {
	var out []*harnessOpts
	root := filepath.Join(verif, "harness")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, filepath.Dir(p))
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			doc := ""
			var hs []*harnessOpts
			for _, l := range fd.Doc.List {
				t := strings.TrimPrefix(l.Text, "//")
				if !strings.HasPrefix(t, "verif:harness ") {
					doc += strings.TrimSpace(t) + " "
					continue
				}
				h := &harnessOpts{Name: fd.Name.Name, Dir: rel, Tier: "both", Rounds: 2, Unwind: 40, Slot: 3, Timeout: 120, Budget: 300}
				for i, w := range strings.Fields(strings.TrimPrefix(t, "verif:harness ")) {
					if i == 0 {
						h.Prop = w
						continue
					}
					k, v, _ := strings.Cut(w, "=")
					// tier-specific override: key.quick / key.thorough
					if kk, tt, ok := strings.Cut(k, "."); ok {
						if tt != tier {
							continue
						}
						k = kk
					}
					n, _ := strconv.Atoi(v)
					switch k {
					case "tier":
						h.Tier = v
					case "rounds":
						h.Rounds = n
					case "unwind":
						h.Unwind = n
					case "slot":
						h.Slot = n
					case "prune":
						h.Prune = v != "0"
					case "timeout":
						h.Timeout = n
					case "budget":
						h.Budget = n
					case "native":
						h.Native = v != "0"
					case "keep":
						h.Keep = strings.Split(v, ",")
					case "clock":
						h.Clock = n
					case "timers":
						h.Timers = n
					case "coop":
						h.Coop = v != "0"
					case "event":
						h.Event = v != "0"
						h.Coop = h.Event
					case "fine":
						h.Fine = v
					case "maprev":
						h.MapRev = v != "0"
					case "order":
						h.Order = v
					case "cases":
						h.Cases = n
					default:
						return fmt.Errorf("%s: unknown option %s", p, w)
					}
				}
				if h.Clock == 0 {
					h.Clock = 34
					if h.Coop {
						h.Clock = 16
					}
				}
				hs = append(hs, h)
			}
			for _, h := range hs {
				h.Doc = strings.TrimSpace(doc)
				if h.Tier != "both" && h.Tier != tier {
					continue
				}
				if h.Cases == 0 {
					out = append(out, h)
				}
				for c := 0; c < h.Cases; c++ {
					hc := *h
					hc.Case = c
					out = append(out, &hc)
				}
			}
		}
		return nil
	})
	return out, err
}

// ---- model package directives ----------------------------------------------------------

func (ip *Interp) loadDirectives() {
	ip.redirect = map[string]*ssa.Function{}
	ip.subst = map[string]types.Type{}
	ip.methods = map[string]*ssa.Function{}
	for _, p := range ip.P.pkgs {
		sp := ip.prog.Package(p.Types)
		isVM := p.PkgPath == vmPath
		isH := strings.Contains(p.PkgPath, "/zzh")
		if !isVM && !isH {
			// in-package harness files may carry directives as well
			isH = true
		}
		for _, f := range p.Syntax {
			fn := p.Fset.Position(f.Pos()).Filename
			if !isVM && !strings.Contains(filepath.Base(fn), "zz_verif_") {
				continue
			}
			for _, d := range f.Decls {
				var doc *ast.CommentGroup
				name := ""
				switch x := d.(type) {
				case *ast.FuncDecl:
					doc, name = x.Doc, x.Name.Name
				case *ast.GenDecl:
					doc = x.Doc
					if len(x.Specs) == 1 {
						if ts, ok := x.Specs[0].(*ast.TypeSpec); ok {
							name = ts.Name.Name
						}
					}
				}
				if doc == nil || name == "" {
					continue
				}
				for _, l := range doc.List {
					dir, arg, ok := strings.Cut(l.Text, " ")
					if !ok {
						continue
					}
					arg = strings.TrimSpace(arg)
					switch dir {
					case "//vm:replace":
						skip := false
						for _, k := range ip.opts.Keep {
							skip = skip || strings.HasPrefix(arg, k)
						}
						if skip {
							continue
						}
						ip.redirect[arg] = sp.Func(name)
						if sp.Func(name) == nil {
							unsupported("no function %s", name)
						}
					case "//vm:type":
						ip.subst[arg] = sp.Type(name).Type()
					case "//vm:method":
						ip.methods[arg] = sp.Func(name)
					}
				}
			}
		}
	}
}

// ---- one execution -----------------------------------------------------------------------

func newInterp(P *Program, o *harnessOpts) *Interp {
	ip := &Interp{P: P, prog: P.prog, reach: map[string]*Term{}, thrIdx: map[threadKey]int{}, objIDs: map[objKey]ObjID{},
		globals: map[*ssa.Global]ObjID{}, initPkgs: map[*ssa.Package]bool{}, msgTypes: map[string]types.Type{},
		pqIdx: map[string]*pqItem{}, counters: map[string]int{}, slotLimit: o.Slot, unwind: o.Unwind, prune: o.Prune,
		fnsUsed: map[string]int{}, feasCache: map[*Term]bool{}, stopInfo: map[string]string{}, chanSites: map[ObjID]string{}, opts: o}
	ip.noStop = o.Coop
	ip.traceOn = os.Getenv("VERIF_TRACE") != ""
	ip.loadDirectives()
	return ip
}

func resetTerms() {
	varCount = map[string]int{}
	allVars = nil
	zeroCache = map[types.Type]Value{}
	constCache = map[*ssa.Const]Value{}
	globalZero = map[ObjID]*Obj{}
}

// runInits executes the initialisers of the requested packages, in dependency order.
func (ip *Interp) runInits(pkgs []*ssa.Package) {
	ip.inits = true
	mem := NewMem()
	nc := &Config{tid: -1, guard: True, mem: mem}
	for _, p := range pkgs {
		ip.initPkgs[p] = true
	}
	for _, p := range pkgs {
		p.Build()
		fn := p.Func("init")
		nc = &Config{tid: -1, guard: True, mem: mem, counts: nc.counts}
		ip.push(nc, fn, nil, nil, retBottom, false, 0)
		// distinct allocation sites per package
		nc.frames[0].site = uint64(infoOf(fn).id) * 7919
		ip.ends = nil
		old := ip.unwind
		ip.unwind = 100000
		ip.enqueue(nc)
		ip.drain()
		ip.unwind = old
		if len(ip.ends) != 1 {
			unsupported("init of %s ended %d times", p.Pkg.Path(), len(ip.ends))
		}
		mem = ip.ends[0].mem.Fork()
	}
	ip.base = mem
	ip.ends = nil
	ip.inits = false
}

func depOrder(prog *ssa.Program, set map[*ssa.Package]bool) []*ssa.Package {
	var out []*ssa.Package
	seen := map[*types.Package]bool{}
	var dfs func(p *types.Package)
	dfs = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		imps := append([]*types.Package(nil), p.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, q := range imps {
			dfs(q)
		}
		if sp := prog.Package(p); sp != nil && set[sp] {
			out = append(out, sp)
		}
	}
	var ps []*ssa.Package
	for p := range set {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Pkg.Path() < ps[j].Pkg.Path() })
	for _, p := range ps {
		dfs(p.Pkg)
	}
	return out
}

func (ip *Interp) execute(fn *ssa.Function) {
	o := ip.opts
	if o.Budget > 0 {
		ip.deadline = time.Now().Add(time.Duration(o.Budget) * time.Second)
	}
	ip.nowObj = ip.freshObj()
	ip.base.Set(ip.nowObj, &Obj{kind: 'c', val: Int(1000000000)})
	ip.tickObj = ip.freshObj()
	ip.base.Set(ip.tickObj, &Obj{kind: 'c', val: False})
	ip.concurrent = o.Event // even one thread waits for its timers
	main := &Thread{id: 0, name: "main", idx: map[string]*Saved{}, done: False, must: True}
	ip.threads = append(ip.threads, main)
	nc := &Config{tid: 0, guard: True}
	ip.build(fn)
	ip.push(nc, fn, nil, nil, retBottom, false, 0)
	nc.frames[0].shared = true
	k := ip.saveKey(nc)
	s := &Saved{key: k, frames: nc.frames, guard: True}
	main.idx[k] = s
	main.saved = append(main.saved, s)
	for r := 0; r < o.Rounds; r++ {
		ip.noTimers = o.Coop && !o.Event && (o.Timers == 0 || r < o.Timers)
		if o.Event {
			ip.planTick()
		}
		n := 0
		for i := 0; i < len(ip.threads); i++ {
			t := ip.threads[i]
			if len(t.saved) == 0 {
				continue
			}
			n++
			t0 := time.Now()
			st := ip.steps
			ip.runSlot(t)
			if os.Getenv("VERIF_V") != "" {
				fmt.Fprintf(os.Stderr, "round %d slot %d thread %d (%s): %d steps %.1fs saved=%d terms=%d viols=%d feas=%d\n", r, ip.slot, t.id, t.name, ip.steps-st, time.Since(t0).Seconds(), len(t.saved), termSeq, len(ip.viols), stats.Feas)
			}
		}
		if n == 0 {
			break
		}
	}
	if o.Event {
		ip.planTick()
	}
	if len(ip.threads) > 1 && o.Rounds > 1 {
		ip.runSlot(main)
	}
	if len(ip.finals) > 0 {
		ip.runFinals()
	}
}

// runFinals evaluates the Final functions in quiescent end states: nobody can move.
func (ip *Interp) runFinals() {
	if ip.opts.Event { // a pending timer somebody waits for is a move
		ip.planTick()
	}
	q := []*Term{}
	mem := ip.base
	for _, t := range ip.threads {
		for _, s := range t.saved {
			cc := &Config{frames: s.frames, guard: s.guard, mem: mem.Fork(), tid: t.id}
			e := ip.enabledOf(cc)
			q = append(q, Not(And(s.guard, e)))
			if os.Getenv("VERIF_V") != "" {
				fmt.Fprintf(os.Stderr, "final: thread %d (%s) saved at %s enabled=%s\n", t.id, t.name, ip.where(cc), e.show(3))
			}
		}
	}
	quiet := And(q...)
	ip.inFinal = true
	if o, ok := ip.reach["quiescent"]; ok {
		ip.reach["quiescent"] = Or(o, quiet)
	} else {
		ip.reach["quiescent"] = quiet
	}
	for i, f := range ip.finals {
		g := And(quiet, f.g)
		if g == False {
			continue
		}
		t := &Thread{id: len(ip.threads), name: "final", idx: map[string]*Saved{}, done: False, must: False}
		ip.threads = append(ip.threads, t)
		ip.cur = t
		ip.slot++
		for _, a := range f.fv.alts {
			gg := And(g, a.g)
			if gg == False || a.fn == nil {
				continue
			}
			nc := &Config{tid: t.id, guard: gg, mem: mem.Fork()}
			ip.push(nc, a.fn, nil, a.binds, retBottom, false, 0)
			nc.frames[0].site = mix(uint64(i)+1, 991)
			ip.enqueue(nc)
			ip.drain()
		}
	}
	ip.inFinal = false
}

// ---- results ---------------------------------------------------------------------------------

type Finding struct {
	Kind     string            `json:"kind"`
	Msg      string            `json:"msg"`
	Pos      string            `json:"pos"`
	Inputs   map[string]string `json:"inputs,omitempty"`
	Raw      map[string]any    `json:"raw,omitempty"`
	Schedule []string          `json:"schedule,omitempty"`
	Backend  string            `json:"backend,omitempty"`
	Replay   string            `json:"replay,omitempty"`
	Replayed string            `json:"replayed,omitempty"`
}

type HarnessResult struct {
	Harness   string            `json:"harness"`
	Doc       string            `json:"doc,omitempty"`
	Status    string            `json:"status"` // holds | violated | undecided
	Why       string            `json:"why,omitempty"`
	Findings  []Finding         `json:"findings,omitempty"`
	Asserts   int               `json:"assertions"`
	Obl       int               `json:"obligations"`
	Unwinds   []string          `json:"unwinding_limits_reached,omitempty"`
	Reach     map[string]string `json:"reach,omitempty"`
	Threads   int               `json:"threads"`
	Slots     int               `json:"slots"`
	Steps     int               `json:"instructions"`
	Configs   int               `json:"configurations"`
	Merges    int               `json:"merges"`
	Terms     int               `json:"terms"`
	Vars      int               `json:"variables"`
	Inputs    int               `json:"inputs"`
	SchedVars int               `json:"schedule_variables"`
	Queries   int               `json:"queries"`
	Feas      int               `json:"feasibility_queries"`
	SolverS   float64           `json:"solver_s"`
	ExecS     float64           `json:"exec_s"`
	WallS     float64           `json:"wall_s"`
	Backends  map[string]int    `json:"backends"`
	Functions []string          `json:"functions"`
	Modelled  []string          `json:"modelled"`
	Bounds    map[string]any    `json:"bounds"`
}

func fmtInput(iv inputVar, model map[string]uint64, memo map[*Term]uint64) (string, any) {
	switch v := iv.term.(type) {
	case *Term:
		x := evalTerm(v, model, memo)
		switch iv.kind {
		case "bool":
			return strconv.FormatBool(x == 1), x == 1
		case "f32":
			return fmt.Sprint(math.Float32frombits(uint32(x))), uint32(x)
		case "f64":
			return fmt.Sprint(math.Float64frombits(x)), strconv.FormatUint(x, 10)
		case "i64":
			return strconv.FormatInt(sext(x, v.sort), 10), strconv.FormatInt(sext(x, v.sort), 10)
		case "byte":
			return strconv.Itoa(int(x)), int(x)
		}
		return strconv.FormatInt(sext(x, v.sort), 10), sext(x, v.sort)
	case *StrV:
		for _, a := range v.alts {
			if evalTerm(a.g, model, memo) == 1 {
				b := make([]int, len(a.b))
				bs := make([]byte, len(a.b))
				for i, t := range a.b {
					b[i] = int(evalTerm(t, model, memo))
					bs[i] = byte(b[i])
				}
				return strconv.Quote(string(bs)), b
			}
		}
	}
	return "?", nil
}

func (ip *Interp) describe(f *Finding, model map[string]uint64) {
	memo := map[*Term]uint64{}
	f.Inputs = map[string]string{}
	f.Raw = map[string]any{}
	for _, iv := range ip.inputs {
		s, r := fmtInput(iv, model, memo)
		f.Inputs[iv.name] = s
		f.Raw[iv.name] = r
	}
	last := map[int]string{}
	for _, e := range ip.sched {
		if last[e.tid] == e.where {
			continue
		}
		if evalTerm(e.g, model, memo) == 1 {
			n := "?"
			if e.tid >= 0 && e.tid < len(ip.threads) {
				n = ip.threads[e.tid].name
			}
			last[e.tid] = e.where
			s := fmt.Sprintf("turn %d: thread %d (%s) runs until %s", e.slot, e.tid, n, e.where)
			s = strings.ReplaceAll(s, modPath+"/", "")
			if len(f.Schedule) == 0 || f.Schedule[len(f.Schedule)-1] != s {
				f.Schedule = append(f.Schedule, s)
			}
		}
	}
	for _, v := range allVars {
		if w, ok := ip.stopInfo[v.name]; ok && !strings.HasPrefix(v.name, "stop.") && model[v.name] == 1 {
			f.Schedule = append(f.Schedule, fmt.Sprintf("choice %s at %s", v.name, w))
		}
	}
}

func runHarness(o *harnessOpts, repo, verif string) (res *HarnessResult) {
	fineIn = o.Fine
	t0 := time.Now()
	res = &HarnessResult{Harness: o.id(), Doc: o.Doc, Reach: map[string]string{}, Bounds: map[string]any{"turn_rounds": o.Rounds, "loop_unwind": o.Unwind, "loop_iterations_per_turn": o.Slot}}
	defer func() {
		res.WallS = time.Since(t0).Seconds()
		if r := recover(); r != nil {
			res.Status = "undecided"
			if u, ok := r.(unsupportedErr); ok {
				res.Why = u.msg
			} else {
				res.Why = fmt.Sprintf("engine panic: %v", r)
				if os.Getenv("VERIF_V") != "" {
					debug.PrintStack()
				}
				if os.Getenv("VERIF_V") != "" {
					fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
				}
			}
		}
	}()
	P, err := LoadProgram(repo, verif, []string{modPath + "/" + o.Dir})
	if err != nil {
		res.Status, res.Why = "undecided", err.Error()
		return
	}
	var fn *ssa.Function
	for _, p := range P.pkgs {
		if p.PkgPath == modPath+"/"+o.Dir {
			sp := P.prog.Package(p.Types)
			sp.Build()
			fn = sp.Func(o.Name)
		}
	}
	P.vm.Build()
	if fn == nil {
		res.Status, res.Why = "undecided", "harness function not found"
		return
	}
	if os.Getenv("VERIF_V") != "" {
		fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", time.Since(t0).Seconds())
	}
	need := map[*ssa.Package]bool{P.vm: true, fn.Pkg: true}
	var ip *Interp
	for try := 0; ; try++ {
		if try > 200 {
			unsupported("too many package initialisers")
		}
		if ip != nil && ip.inc != nil {
			ip.inc.Close()
		}
		resetTerms()
		ip = newInterp(P, o)
		var again *ssa.Package
		func() {
			defer func() {
				if r := recover(); r != nil {
					if n, ok := r.(needInit); ok {
						again = n.pkg
						return
					}
					if u, ok := r.(unsupportedErr); ok && os.Getenv("VERIF_V") != "" {
						fmt.Fprintf(os.Stderr, "unsupported: %s\n%s\n", u.msg, debug.Stack())
					}
					panic(r)
				}
			}()
			ip.runInits(depOrder(P.prog, need))
			ip.execute(fn)
		}()
		if again == nil {
			break
		}
		need[again] = true
		if os.Getenv("VERIF_V") != "" {
			fmt.Fprintf(os.Stderr, "init of %s required\n", again.Pkg.Path())
		}
	}
	defer func() {
		if ip.inc != nil {
			ip.inc.Close()
		}
	}()
	res.ExecS = time.Since(t0).Seconds()
	ip.fill(res)
	ip.solve(res, o)
	ip.fill(res)
	return
}

func (ip *Interp) fill(res *HarnessResult) {
	res.Threads, res.Slots, res.Steps, res.Configs, res.Merges = len(ip.threads), ip.slot, ip.steps, ip.nConfigs, ip.nMerges
	res.Terms, res.Vars, res.Asserts, res.Inputs, res.SchedVars = termSeq, len(allVars), ip.nAsserts, len(ip.inputs), ip.nStops
	res.Queries, res.Feas = stats.Queries, stats.Feas
	res.SolverS = (stats.Time + stats.FeasTime).Seconds()
	res.Backends = stats.Backends
	res.Functions, res.Modelled = nil, nil
	for n := range ip.fnsUsed {
		if strings.Contains(n, vmPath+".") {
			continue
		}
		if strings.Contains(n, modPath) && !strings.Contains(n, "/zzh") {
			res.Functions = append(res.Functions, strings.ReplaceAll(n, modPath, "psrpc"))
		}
	}
	for n, f := range ip.redirect {
		if ip.fnsUsed[f.String()] > 0 {
			res.Modelled = append(res.Modelled, n)
		}
	}
	sort.Strings(res.Functions)
	sort.Strings(res.Modelled)
}

func (ip *Interp) solve(res *HarnessResult, o *harnessOpts) {
	asm := append([]*Term(nil), ip.assume...)
	to := time.Duration(o.Timeout) * time.Second
	res.Obl = len(ip.viols)
	if os.Getenv("VERIF_V") != "" {
		for _, v := range ip.viols {
			fmt.Fprintf(os.Stderr, "obligation: [%s] %s @ %s guard=%s\n", v.kind, v.msg, v.pos, v.guard.show(2))
		}
	}
	// reachability of labels (non-vacuity)
	var labels []string
	for l := range ip.reach {
		labels = append(labels, l)
	}
	sort.Strings(labels)
	for _, l := range labels {
		r, _, _ := Solve(Query{o.id() + ".reach." + l, append(append([]*Term(nil), asm...), ip.reach[l])}, to)
		res.Reach[l] = r.String()
	}
	// unwinding limits
	if len(ip.unwinds) > 0 {
		for _, u := range ip.unwinds {
			r, _, _ := Solve(Query{o.id() + ".unwind", append(append([]*Term(nil), asm...), u.guard)}, to)
			if r != Unsat {
				res.Unwinds = append(res.Unwinds, u.msg+" at "+u.pos+" ("+r.String()+")")
			}
		}
	}
	asm = append(asm, ip.cuts...)
	res.Status = "holds"
	var gs []*Term
	for _, v := range ip.viols {
		gs = append(gs, v.guard)
	}
	all := Or(gs...)
	if len(gs) > 0 {
		r, _, _ := Solve(Query{o.id() + ".all", append(append([]*Term(nil), asm...), all)}, to)
		if r == Unsat {
			return
		}
		if os.Getenv("VERIF_V") != "" {
			fmt.Fprintf(os.Stderr, "all obligations: %v\n", r)
		}
	}
	undecided := 0
	for i, v := range ip.viols {
		r, m, b := Solve(Query{fmt.Sprintf("%s.ob%d", o.id(), i), append(append([]*Term(nil), asm...), v.guard)}, to)
		switch r {
		case Sat:
			// the model is validated against the term evaluator
			memo := map[*Term]uint64{}
			okm := evalTerm(v.guard, m, memo) == 1
			for _, a := range asm {
				okm = okm && evalTerm(a, m, memo) == 1
			}
			if !okm {
				undecided++
				res.Why += "model of " + v.msg + " rejected by evaluator; "
				continue
			}
			f := Finding{Kind: v.kind, Msg: v.msg, Pos: v.pos, Backend: b}
			ip.describe(&f, m)
			res.Findings = append(res.Findings, f)
		case Unknown:
			undecided++
			res.Why += "solver gave no verdict on: " + v.msg + "; "
		}
	}
	if len(res.Findings) > 0 {
		res.Status = "violated"
	} else if undecided > 0 {
		res.Status = "undecided"
	}
}

func writeJSON(path string, v any) {
	b, _ := json.MarshalIndent(v, "", " ")
	_ = os.MkdirAll(filepath.Dir(path), 0o755)
	_ = os.WriteFile(path, append(b, '\n'), 0o644)
}
