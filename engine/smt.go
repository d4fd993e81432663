package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---- solver statistics -----------------------------------------------------

type SolverStats struct {
	mu       sync.Mutex
	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	Feas     int // feasibility (pruning) queries
	Time     time.Duration
	FeasTime time.Duration
	Bytes    int
	Backends map[string]int
}

var stats = SolverStats{Backends: map[string]int{}}

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// collect emits declarations and definitions needed for the roots, in dependency order.
func writeDefs(w io.Writer, done map[*Term]bool, roots ...*Term) (n int, hasFP bool) {
	var stack []*Term
	type fr struct {
		t *Term
		i int
	}
	var st []fr
	_ = stack
	for _, r := range roots {
		if done[r] {
			continue
		}
		st = append(st, fr{r, 0})
		for len(st) > 0 {
			f := &st[len(st)-1]
			if done[f.t] {
				st = st[:len(st)-1]
				continue
			}
			if f.i < len(f.t.args) {
				a := f.t.args[f.i]
				f.i++
				if !done[a] {
					st = append(st, fr{a, 0})
				}
				continue
			}
			t := f.t
			st = st[:len(st)-1]
			done[t] = true
			if t.sort.isFP() && fpArith {
				hasFP = true
			}
			switch t.op {
			case OConst:
			case OVar:
				fmt.Fprintf(w, "(declare-const %s %s)\n", t.ref(), t.sort.smt())
			case OAtom:
				fmt.Fprintf(w, "(declare-const %s (_ BitVec 8))\n", t.ref())
			default:
				fmt.Fprintf(w, "(define-fun t%d () %s %s)\n", t.id, t.sort.smt(), t.def())
				n++
			}
		}
	}
	return
}

// ---- one-shot solving (portfolio) -------------------------------------------

type Query struct {
	Name    string
	Asserts []*Term
}

func smtText(q Query, wantModel bool) (string, []*Term) {
	var body bytes.Buffer
	done := map[*Term]bool{}
	_, fp := writeDefs(&body, done, q.Asserts...)
	for _, a := range q.Asserts {
		fmt.Fprintf(&body, "(assert %s)\n", a.ref())
	}
	var vars []*Term
	for _, v := range allVars {
		if done[v] {
			vars = append(vars, v)
		}
	}
	var sb strings.Builder
	if wantModel {
		sb.WriteString("(set-option :produce-models true)\n")
	}
	if fp {
		sb.WriteString("(set-logic QF_BVFP)\n")
	} else {
		sb.WriteString("(set-logic QF_BV)\n")
	}
	sb.Write(body.Bytes())
	sb.WriteString("(check-sat)\n")
	if wantModel && len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(v.ref())
			sb.WriteByte(' ')
		}
		sb.WriteString("))\n")
	}
	return sb.String(), vars
}

type backend struct {
	name string
	argv []string
}

var backends = []backend{
	{"z3", []string{"z3", "-in"}},
	{"z3-new", []string{"z3-new", "-in"}},
	{"cvc5-int", []string{"cvc5", "--lang=smt2", "--produce-models", "--solve-bv-as-int=sum"}},
	{"cvc5", []string{"cvc5", "--lang=smt2", "--produce-models"}},
}

// Solve runs the portfolio; the first definite verdict wins. Any "(error" line makes that backend inconclusive.
func Solve(q Query, timeout time.Duration) (Result, map[string]uint64, string) {
	for _, a := range q.Asserts {
		if a == False {
			stats.mu.Lock()
			stats.Queries++
			stats.Unsat++
			stats.Backends["simplifier"]++
			stats.mu.Unlock()
			return Unsat, nil, "simplifier"
		}
	}
	text, _ := smtText(q, true)
	if d := os.Getenv("VERIF_DUMP"); d != "" {
		_ = os.WriteFile(d+"/"+strings.ReplaceAll(q.Name, "/", "_")+".smt2", []byte(text), 0o644)
	}
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	type ans struct {
		r Result
		m map[string]uint64
		b string
	}
	ch := make(chan ans, len(backends))
	use := backends
	if s := os.Getenv("VERIF_BACKENDS"); s != "" {
		use = nil
		for _, b := range backends {
			if strings.Contains(","+s+",", ","+b.name+",") {
				use = append(use, b)
			}
		}
	}
	for i, b := range use {
		go func(i int, b backend) {
			if i > 0 { // stagger: easy queries only pay for the first backend
				select {
				case <-time.After(time.Duration(i) * 2 * time.Second):
				case <-ctx.Done():
					ch <- ans{Unknown, nil, b.name}
					return
				}
			}
			cmd := exec.CommandContext(ctx, b.argv[0], b.argv[1:]...)
			cmd.Stdin = strings.NewReader(text)
			var out bytes.Buffer
			cmd.Stdout = &out
			_ = cmd.Run()
			r, m := parseAnswer(out.String())
			ch <- ans{r, m, b.name}
		}(i, b)
	}
	res := ans{Unknown, nil, "none"}
	for range use {
		a := <-ch
		if a.r != Unknown {
			res = a
			break
		}
	}
	cancel()
	stats.mu.Lock()
	stats.Queries++
	stats.Time += time.Since(t0)
	stats.Bytes += len(text)
	switch res.r {
	case Sat:
		stats.Sat++
	case Unsat:
		stats.Unsat++
	default:
		stats.Unknown++
	}
	stats.Backends[res.b]++
	stats.mu.Unlock()
	return res.r, res.m, res.b
}

func parseAnswer(s string) (Result, map[string]uint64) {
	nl := strings.IndexByte(s, '\n')
	first := s
	rest := ""
	if nl >= 0 {
		first, rest = s[:nl], s[nl+1:]
	}
	first = strings.TrimSpace(first)
	switch first {
	case "unsat":
		return Unsat, nil // (get-value after unsat yields an error line; harmless)
	case "sat":
		if strings.Contains(rest, "(error") {
			return Unknown, nil
		}
		return Sat, parseModel(rest)
	}
	return Unknown, nil
}

func parseModel(s string) map[string]uint64 {
	m := map[string]uint64{}
	// ((|name| value) ...), value: true|false|#x..|#b..|(fp #b. #b. #b.)|(_ +zero 8 24)...
	i := 0
	for i < len(s) {
		if s[i] == '(' && i+1 < len(s) && (s[i+1] != '(') {
			j := i + 1
			var name string
			if s[j] == '|' {
				k := strings.IndexByte(s[j+1:], '|')
				name = s[j+1 : j+1+k]
				j = j + k + 2
			} else {
				k := strings.IndexAny(s[j:], " \n\t")
				if k < 0 {
					break
				}
				name = s[j : j+k]
				j += k
			}
			for j < len(s) && (s[j] == ' ' || s[j] == '\n' || s[j] == '\t') {
				j++
			}
			// value until the matching close paren
			d := 0
			k := j
			for k < len(s) {
				if s[k] == '(' {
					d++
				} else if s[k] == ')' {
					if d == 0 {
						break
					}
					d--
				}
				k++
			}
			val := strings.TrimSpace(s[j:k])
			m[name] = parseVal(val)
			i = k + 1
			continue
		}
		i++
	}
	return m
}

func parseVal(v string) uint64 {
	switch {
	case v == "true":
		return 1
	case v == "false":
		return 0
	case strings.HasPrefix(v, "#x"):
		x, _ := strconv.ParseUint(v[2:], 16, 64)
		return x
	case strings.HasPrefix(v, "#b"):
		x, _ := strconv.ParseUint(v[2:], 2, 64)
		return x
	case strings.HasPrefix(v, "(fp "):
		f := strings.Fields(strings.Trim(v, "()"))
		bits := ""
		for _, p := range f[1:] {
			if strings.HasPrefix(p, "#b") {
				bits += p[2:]
			} else if strings.HasPrefix(p, "#x") {
				x, _ := strconv.ParseUint(p[2:], 16, 64)
				bits += fmt.Sprintf("%0*b", 4*len(p[2:]), x)
			}
		}
		x, _ := strconv.ParseUint(bits, 2, 64)
		return x
	case strings.HasPrefix(v, "(_ "):
		f := strings.Fields(strings.Trim(v, "()"))
		if len(f) < 4 {
			return 0
		}
		f32 := f[2] == "8"
		switch f[1] {
		case "+zero":
			return 0
		case "-zero":
			if f32 {
				return 1 << 31
			}
			return 1 << 63
		case "+oo":
			if f32 {
				return 0x7f800000
			}
			return 0x7ff0000000000000
		case "-oo":
			if f32 {
				return 0xff800000
			}
			return 0xfff0000000000000
		case "NaN":
			if f32 {
				return 0x7fc00000
			}
			return 0x7ff8000000000001
		}
	}
	return 0
}

// ---- incremental solver for pruning -----------------------------------------

type IncSolver struct {
	cmd  *exec.Cmd
	in   *bufio.Writer
	out  *bufio.Reader
	done map[*Term]bool
	nA   int
	dead bool
	memo map[*Term]bool
	fp   bool
	ms   int

	asserted []*Term
}

func NewIncSolver(timeoutMs int) *IncSolver {
	s := &IncSolver{memo: map[*Term]bool{}, ms: timeoutMs}
	s.start()
	return s
}

func (s *IncSolver) start() {
	s.done, s.fp = map[*Term]bool{}, fpArith
	s.cmd = exec.Command("z3-new", "-in", fmt.Sprintf("-t:%d", s.ms))
	wi, _ := s.cmd.StdinPipe()
	ro, _ := s.cmd.StdoutPipe()
	var w io.Writer = wi
	if f := os.Getenv("VERIF_FEASLOG"); f != "" {
		if fh, err := os.Create(f); err == nil {
			w = io.MultiWriter(wi, fh)
		}
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReader(ro)
	if err := s.cmd.Start(); err != nil {
		s.dead = true
	}
}

// restart begins again because floats are printed differently from now on.
func (s *IncSolver) restart() {
	s.Close()
	s.start()
	for _, t := range s.asserted {
		writeDefs(s.in, s.done, t)
		fmt.Fprintf(s.in, "(assert %s)\n", t.ref())
	}
}

func (s *IncSolver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		_ = s.cmd.Process.Kill()
		_ = s.cmd.Wait()
	}
}

// Assume adds a permanent assertion.
func (s *IncSolver) Assume(t *Term) {
	if s.dead || t == True {
		return
	}
	s.asserted = append(s.asserted, t)
	if s.fp != fpArith {
		s.restart()
		return
	}
	writeDefs(s.in, s.done, t)
	fmt.Fprintf(s.in, "(assert %s)\n", t.ref())
}

// Feasible: false only if the solver proves the conjunction unsatisfiable.
func (s *IncSolver) Feasible(t *Term) bool {
	if t == False {
		return false
	}
	if t == True || s.dead {
		return true
	}
	if f, ok := s.memo[t]; ok && !f {
		return false
	}
	if s.fp != fpArith {
		s.restart()
	}
	t0 := time.Now()
	writeDefs(s.in, s.done, t)
	fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n(check-sat)\n(pop 1)\n", t.ref())
	s.in.Flush()
	r := true
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			break
		}
		line = strings.TrimSpace(line)
		if line == "sat" || line == "unknown" || line == "timeout" {
			break
		}
		if line == "unsat" {
			r = false
			break
		}
		if strings.HasPrefix(line, "(error") {
			fmt.Fprintln(os.Stderr, "solver:", line)
			s.dead = true
			break
		}
	}
	stats.mu.Lock()
	stats.Feas++
	if os.Getenv("VERIF_FEASLOG") != "" {
		fmt.Fprintf(s.in, "; %v %v\n", time.Since(t0), r)
	}
	stats.FeasTime += time.Since(t0)
	stats.mu.Unlock()
	s.memo[t] = r
	return r
}
