package main

import (
	"container/heap"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- configurations ------------------------------------------------------------

type retMode byte

const (
	retNormal  retMode = iota
	retStay            // deferred call run by RunDefers: caller re-executes RunDefers
	retUnwind          // deferred call run while unwinding
	retBottom          // thread entry
	retDiscard         // result dropped, caller continues at next instruction
)

type Deferred struct {
	instr *ssa.Defer
	fn    *FuncV
	bi    *ssa.Builtin
	args  []Value
}

type Frame struct {
	fi        *FnInfo
	fn        *ssa.Function
	block, pc int
	regs      []Value
	iters     []int32
	defers    []*Deferred
	site      uint64
	shared    bool
	ret       retMode
	unwinding bool
	phase     int
	merge     bool
	extra     int // distinguishes alternatives of one call
}

type panicState struct {
	val       Value
	recovered bool
	pos       string
}

type Counts struct {
	m     map[uint64]int
	owner *Config
}

type Config struct {
	frames  []*Frame
	guard   *Term
	mem     *Mem
	counts  map[uint64]int
	cShared bool
	tid     int
	panics  []panicState
	resumed bool
	atomic  int
}

func (c *Config) top() *Frame {
	i := len(c.frames) - 1
	f := c.frames[i]
	if f.shared {
		n := *f
		n.regs = append([]Value(nil), f.regs...)
		n.iters = append([]int32(nil), f.iters...)
		n.shared = false
		c.frames[i] = &n
		return &n
	}
	return f
}

func (c *Config) fork(g *Term) *Config {
	n := &Config{frames: append([]*Frame(nil), c.frames...), guard: g, mem: c.mem.Fork(), counts: c.counts, cShared: true, tid: c.tid,
		panics: append([]panicState(nil), c.panics...), resumed: c.resumed, atomic: c.atomic}
	c.cShared = true
	for _, f := range c.frames {
		f.shared = true
	}
	return n
}

func (c *Config) nextCount(site uint64) int {
	if c.cShared || c.counts == nil {
		m := make(map[uint64]int, len(c.counts)+4)
		for k, v := range c.counts {
			m[k] = v
		}
		c.counts = m
		c.cShared = false
	}
	n := c.counts[site]
	c.counts[site] = n + 1
	return n
}

func mix(a uint64, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a *= 0xff51afd7ed558ccd
	a ^= a >> 33
	return a
}

func (f *Frame) instrSite() uint64 {
	return mix(mix(f.site, uint64(f.fi.id)<<32|uint64(f.block)<<16|uint64(f.pc)), uint64(f.extra))
}

// position vector of a frame
func (f *Frame) vector(noIter bool, out []int32) []int32 {
	bi := &f.fi.blocks[f.block]
	k := len(out)
	out = append(out, bi.pos...)
	if !noIter {
		for i := range bi.loops {
			out[k+1+2*i] = f.iters[i]
		}
	}
	if f.unwinding {
		out = append(out, math.MaxInt32, int32(100000-len(f.defers)))
	} else {
		out = append(out, int32(f.pc), int32(100000-len(f.defers)), int32(f.phase))
	}
	return out
}

func (c *Config) keyVec(noIter bool) []int32 {
	out := make([]int32, 0, 16*len(c.frames))
	for _, f := range c.frames {
		out = append(out, int32(f.fi.id))
		out = f.vector(noIter, out)
		out = append(out, int32(f.ret), -1)
	}
	return out
}

func vecKey(c *Config, v []int32) string {
	b := make([]byte, 0, 4*len(v)+16)
	for _, x := range v {
		b = append(b, byte(x), byte(x>>8), byte(x>>16), byte(x>>24))
	}
	for _, f := range c.frames {
		for _, d := range f.defers {
			b = append(b, byte(d.instr.Block().Index), byte(d.instr.Pos()), byte(d.instr.Pos()>>8))
		}
		b = append(b, '|')
	}
	for _, p := range c.panics {
		b = append(b, 'P')
		if p.recovered {
			b = append(b, 'R')
		}
	}
	return string(b)
}

func cmpVec(a, b []int32) int {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	return len(a) - len(b)
}

type pqItem struct {
	vec []int32
	key string
	cfg *Config
}
type pqueue []*pqItem

func (p pqueue) Len() int           { return len(p) }
func (p pqueue) Less(i, j int) bool { return cmpVec(p[i].vec, p[j].vec) < 0 }
func (p pqueue) Swap(i, j int)      { p[i], p[j] = p[j], p[i] }
func (p *pqueue) Push(x any)        { *p = append(*p, x.(*pqItem)) }
func (p *pqueue) Pop() any {
	o := *p
	x := o[len(o)-1]
	*p = o[:len(o)-1]
	return x
}

// ---- interpreter ---------------------------------------------------------------

type Violation struct {
	guard *Term
	msg   string
	pos   string
	kind  string
}

type Saved struct {
	key    string
	frames []*Frame
	guard  *Term
	counts map[uint64]int
	panics []panicState
	atomic int
}

type Thread struct {
	id    int
	name  string
	saved []*Saved
	idx   map[string]*Saved
	done  *Term
	must  *Term // guard under which this thread has to finish
}

type endPart struct {
	g   *Term
	mem *Mem
}

type threadKey struct {
	tid   int
	site  uint64
	count int
}

type objKey struct {
	tid   int
	site  uint64
	count int
	sub   int
}

type Interp struct {
	P        *Program
	prog     *ssa.Program
	assume   []*Term
	viols    []Violation
	unwinds  []Violation
	reach    map[string]*Term
	threads  []*Thread
	thrIdx   map[threadKey]int
	objIDs   map[objKey]ObjID
	nextObj  ObjID
	globals  map[*ssa.Global]ObjID
	initPkgs map[*ssa.Package]bool
	redirect map[string]*ssa.Function
	subst    map[string]types.Type
	msgTypes map[string]types.Type

	slot       int
	concurrent bool
	base       *Mem
	ends       []endPart
	pq         pqueue
	pqIdx      map[string]*pqItem
	cur        *Thread
	inFinal    bool

	nowObj    ObjID
	finalObj  ObjID
	counters  map[string]int
	slotLimit int
	unwind    int
	inc       *IncSolver
	nAssumed  int
	prune     bool
	noStop    bool
	noTimers  bool
	timers    []ObjID
	tickObj   ObjID
	onlyTimer ObjID
	fireable  map[ObjID]*Term

	steps      int
	nConfigs   int
	nMerges    int
	nStops     int
	fnsUsed    map[string]int
	traceOn    bool
	inits      bool
	deadline   time.Time
	feasCache  map[*Term]bool
	stopInfo   map[string]string
	inputs     []inputVar
	dedupeGo   bool
	maxSaved   int
	savedTotal int
	chanSites  map[ObjID]string
	nAsserts   int
	finals     []finalFn
	cuts       []*Term
	atoms      map[ObjID]int
	snaps      map[int]snapshot
	methods    map[string]*ssa.Function
	sizes      map[string]*Term
	sched      []schedEv
	opts       *harnessOpts
}

type finalFn struct {
	g  *Term
	fv *FuncV
}

// schedEv records a possible end of a thread's turn (for counterexamples).
type schedEv struct {
	slot, tid int
	g         *Term
	where     string
}

type inputVar struct {
	name string
	term Value
	kind string
}

type needInit struct{ pkg *ssa.Package }

func (ip *Interp) newObj(c *Config, sub int) ObjID {
	f := c.frames[len(c.frames)-1]
	site := f.instrSite()
	n := c.nextCount(site)
	return ip.objFor(objKey{c.tid, site, n, sub})
}

func (ip *Interp) objFor(k objKey) ObjID {
	if id, ok := ip.objIDs[k]; ok {
		return id
	}
	ip.nextObj++
	ip.objIDs[k] = ip.nextObj
	return ip.nextObj
}

func (ip *Interp) freshObj() ObjID {
	ip.nextObj++
	return ip.nextObj
}

func (ip *Interp) feasible(g *Term) bool {
	if g == False {
		return false
	}
	if g == True {
		return true
	}
	if r, ok := ip.feasCache[g]; ok {
		return r
	}
	if ip.inc == nil {
		ip.inc = NewIncSolver(3000)
	}
	for ; ip.nAssumed < len(ip.assume); ip.nAssumed++ {
		ip.inc.Assume(ip.assume[ip.nAssumed])
	}
	r := ip.inc.Feasible(g)
	if os.Getenv("VERIF_FEAS") != "" {
		fmt.Fprintf(os.Stderr, "feas %v %v\n", r, g.show(3))
	}
	ip.feasCache[g] = r
	return r
}

// ---- queue ---------------------------------------------------------------------

func (ip *Interp) enqueue(c *Config) {
	if c.guard == False {
		return
	}
	v := c.keyVec(false)
	k := vecKey(c, v)
	if it, ok := ip.pqIdx[k]; ok {
		it.cfg = ip.mergeConfig(it.cfg, c)
		ip.nMerges++
		return
	}
	it := &pqItem{v, k, c}
	ip.pqIdx[k] = it
	heap.Push(&ip.pq, it)
}

// relGuard returns a condition equivalent to a's guard given (a or b).
func relGuard(a, b *Term) *Term {
	la, lb := []*Term{a}, []*Term{b}
	if a.op == OAnd {
		la = a.args
	}
	if b.op == OAnd {
		lb = b.args
	}
	var ra, rb []*Term
	for _, x := range la {
		if !containsTerm2(lb, x) {
			ra = append(ra, x)
		}
	}
	for _, x := range lb {
		if !containsTerm2(la, x) {
			rb = append(rb, x)
		}
	}
	if len(ra) == 1 {
		return ra[0]
	}
	if len(rb) == 1 {
		return Not(rb[0])
	}
	if len(rb) < len(ra) {
		return Not(And(rb...))
	}
	return And(ra...)
}

func containsTerm2(xs []*Term, t *Term) bool {
	for _, x := range xs {
		if x == t {
			return true
		}
	}
	return false
}

func mergeFrames(c *Term, a, b []*Frame) []*Frame {
	out := make([]*Frame, len(a))
	for i := range a {
		x, y := a[i], b[i]
		if x == y {
			x.shared = true
			out[i] = x
			continue
		}
		n := *x
		n.shared = false
		n.iters = append([]int32(nil), x.iters...)
		n.regs = make([]Value, len(x.regs))
		var live bitset
		if x.unwinding {
			live = newBits(x.fi.nregs)
			if x.fn.Recover != nil {
				live.or(x.fi.liveIn[x.fn.Recover.Index])
			}
		} else {
			live = x.fi.liveAt(x.block, x.pc)
		}
		for k := range n.regs {
			if live.has(k) {
				n.regs[k] = iteVal(c, x.regs[k], y.regs[k])
			}
		}
		if len(x.defers) > 0 {
			n.defers = make([]*Deferred, len(x.defers))
			for k := range x.defers {
				d, e := x.defers[k], y.defers[k]
				if d == e {
					n.defers[k] = d
					continue
				}
				m := &Deferred{instr: d.instr, bi: d.bi}
				if d.fn != nil {
					m.fn = iteVal(c, d.fn, e.fn).(*FuncV)
				}
				for q := range d.args {
					m.args = append(m.args, iteVal(c, d.args[q], e.args[q]))
				}
				n.defers[k] = m
			}
		}
		out[i] = &n
	}
	return out
}

func mergeCounts(a, b map[uint64]int) map[uint64]int {
	if len(a) < len(b) {
		a, b = b, a
	}
	same := true
	for k, v := range b {
		if a[k] < v {
			same = false
			break
		}
	}
	if same {
		return a
	}
	m := make(map[uint64]int, len(a))
	for k, v := range a {
		m[k] = v
	}
	for k, v := range b {
		if m[k] < v {
			m[k] = v
		}
	}
	return m
}

func mergePanics(c *Term, a, b []panicState) []panicState {
	out := append([]panicState(nil), a...)
	for i := range out {
		out[i].val = iteVal(c, a[i].val, b[i].val)
	}
	return out
}

func (ip *Interp) mergeConfig(a, b *Config) *Config {
	c := relGuard(a.guard, b.guard)
	n := &Config{tid: a.tid, guard: Or(a.guard, b.guard), atomic: a.atomic}
	n.frames = mergeFrames(c, a.frames, b.frames)
	n.mem = MergeMem(c, a.mem, b.mem)
	n.counts = mergeCounts(a.counts, b.counts)
	n.cShared = true
	n.panics = mergePanics(c, a.panics, b.panics)
	n.resumed = a.resumed && b.resumed
	return n
}

// drain runs all queued configurations to their end.
func (ip *Interp) drain() {
	for len(ip.pq) > 0 {
		it := heap.Pop(&ip.pq).(*pqItem)
		delete(ip.pqIdx, it.key)
		ip.nConfigs++
		ip.run(it.cfg)
		if !ip.deadline.IsZero() && time.Now().After(ip.deadline) {
			unsupported("execution time budget exhausted")
		}
	}
}

// ---- slots ---------------------------------------------------------------------

func (ip *Interp) saveKey(c *Config) string {
	return vecKey(c, c.keyVec(true))
}

func (ip *Interp) save(c *Config, g *Term) {
	if g == False {
		return
	}
	ip.ends = append(ip.ends, endPart{g, c.mem})
	t := ip.threads[c.tid]
	ip.sched = append(ip.sched, schedEv{ip.slot, c.tid, g, ip.where(c)})
	k := ip.saveKey(c)
	fr := make([]*Frame, len(c.frames))
	for i, f := range c.frames {
		n := *f
		n.iters = make([]int32, len(f.iters))
		n.shared = true
		n.regs = append([]Value(nil), f.regs...)
		fr[i] = &n
	}
	if s, ok := t.idx[k]; ok {
		cd := relGuard(s.guard, g)
		s.frames = mergeFrames(cd, s.frames, fr)
		s.counts = mergeCounts(s.counts, c.counts)
		s.panics = mergePanics(cd, s.panics, c.panics)
		s.guard = Or(s.guard, g)
		return
	}
	c.cShared = true
	s := &Saved{key: k, frames: fr, guard: g, counts: c.counts, panics: append([]panicState(nil), c.panics...), atomic: c.atomic}
	t.idx[k] = s
	t.saved = append(t.saved, s)
	ip.savedTotal++
}

func (ip *Interp) finishThread(c *Config) {
	ip.ends = append(ip.ends, endPart{c.guard, c.mem})
	t := ip.threads[c.tid]
	ip.sched = append(ip.sched, schedEv{ip.slot, c.tid, c.guard, "finished"})
	t.done = Or(t.done, c.guard)
}

func (ip *Interp) runSlot(t *Thread) {
	if len(t.saved) == 0 {
		return
	}
	old := t.saved
	t.saved = nil
	t.idx = map[string]*Saved{}
	ip.cur = t
	ip.slot++
	var act []*Term
	ip.ends = nil
	for _, s := range old {
		if ip.prune && !ip.feasible(s.guard) {
			continue
		}
		act = append(act, s.guard)
		for _, f := range s.frames {
			f.shared = true
		}
		c := &Config{tid: t.id, frames: append([]*Frame(nil), s.frames...), guard: s.guard, mem: ip.base.Fork(), counts: s.counts, cShared: true, panics: s.panics, resumed: true, atomic: s.atomic}
		ip.enqueue(c)
	}
	ip.drain()
	active := Or(act...)
	ip.base = ip.foldEnds(active)
	ip.ends = nil
}

func (ip *Interp) foldEnds(active *Term) *Mem {
	var acc *Mem
	ends := ip.ends
	// group ends with identical memory
	if active != True {
		acc = ip.base
	}
	for _, e := range ends {
		if acc == nil {
			acc = e.mem
			continue
		}
		acc = MergeMem(e.g, e.mem, acc)
	}
	if acc == nil {
		acc = ip.base
	}
	return acc.Fork()
}

// visible: scheduling point. enabled gives the condition under which the operation can proceed.
// Returns false if the configuration ended here.
func (ip *Interp) visible(c *Config, enabled func() *Term, what string) bool {
	if !ip.concurrent || ip.inits || c.atomic > 0 || ip.inFinal || ip.noStop {
		if enabled != nil {
			e := enabled()
			if e != True {
				blocked := And(c.guard, Not(e))
				if blocked != False && ip.concurrent && !ip.inits && ip.feasible(blocked) {
					if ip.inFinal || c.atomic > 0 {
						ip.addViol(blocked, "blocked forever at "+what, c, "deadlock")
					} else {
						cc := c.fork(blocked)
						ip.save(cc, blocked)
					}
				} else if blocked != False && !ip.concurrent && ip.feasible(blocked) {
					ip.addViol(blocked, "blocked forever at "+what, c, "deadlock")
				}
				c.guard = And(c.guard, e)
				if ip.noStop && ip.concurrent && !ip.inits && !ip.feasible(c.guard) {
					return false
				}
			}
		}
		return c.guard != False
	}
	en := True
	if enabled != nil {
		en = enabled()
	}
	force := false
	for _, f := range c.frames {
		for i, it := range f.iters {
			if i < len(f.fi.blocks[f.block].loops) && int(it) >= ip.slotLimit {
				force = true
			}
		}
	}
	var s *Term
	if force {
		s = True
	} else {
		s = NewVar(fmt.Sprintf("stop.%d.%d.%d", ip.slot, c.tid, ip.nStops), SBool)
		ip.nStops++
		ip.stopInfo[s.name] = what + " @ " + ip.where(c)
	}
	wasResumed := c.resumed
	_ = wasResumed
	c.resumed = false
	stop := Or(s, Not(en))
	g := And(c.guard, stop)
	if g != False {
		cc := c.fork(g)
		ip.save(cc, g)
	}
	c.guard = And(c.guard, Not(s), en)
	return c.guard != False
}

func (ip *Interp) where(c *Config) string {
	for i := len(c.frames) - 1; i >= 0; i-- {
		f := c.frames[i]
		if f.pc < len(f.fn.Blocks[f.block].Instrs) {
			p := f.fn.Blocks[f.block].Instrs[f.pc].Pos()
			if p == token.NoPos && i == len(c.frames)-1 {
				// search backwards for a position
				for k := f.pc; k >= 0; k-- {
					if q := f.fn.Blocks[f.block].Instrs[k].Pos(); q != token.NoPos {
						p = q
						break
					}
				}
			}
			if p != token.NoPos {
				ps := ip.prog.Fset.Position(p)
				if strings.Contains(ps.Filename, "zzvm") {
					continue
				}
				fn := ps.Filename
				fn = strings.TrimPrefix(fn, repoDir+"/")
				if k := strings.Index(fn, "/pkg/mod/"); k >= 0 {
					fn = fn[k+9:]
				}
				return fmt.Sprintf("%s:%d (%s)", fn, ps.Line, f.fn.Name())
			}
		}
	}
	return "?"
}

func (ip *Interp) stackStr(c *Config) string {
	var out []string
	for i := len(c.frames) - 1; i >= 0; i-- {
		f := c.frames[i]
		ln := 0
		if f.pc < len(f.fn.Blocks[f.block].Instrs) {
			for k := f.pc; k >= 0; k-- {
				if q := f.fn.Blocks[f.block].Instrs[k].Pos(); q != token.NoPos {
					ln = ip.prog.Fset.Position(q).Line
					break
				}
			}
		}
		out = append(out, fmt.Sprintf("%s:%d", f.fn.String(), ln))
	}
	return strings.Join(out, " < ")
}

func (ip *Interp) addViol(g *Term, msg string, c *Config, kind string) {
	if g == False {
		return
	}
	pos := ""
	if c != nil {
		pos = ip.where(c)
	}
	for i := range ip.viols {
		if ip.viols[i].msg == msg && ip.viols[i].pos == pos {
			ip.viols[i].guard = Or(ip.viols[i].guard, g)
			return
		}
	}
	ip.viols = append(ip.viols, Violation{g, msg, pos, kind})
}

// ---- values of operands ----------------------------------------------------------

func sortOf(t types.Type) (Sort, bool) {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Bool, types.UntypedBool:
			return SBool, true
		case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
			return 64, true
		case types.Int32, types.Uint32, types.UntypedRune:
			return 32, true
		case types.Int16, types.Uint16:
			return 16, true
		case types.Int8, types.Uint8:
			return 8, true
		case types.Float32:
			return SF32, true
		case types.Float64, types.UntypedFloat:
			return SF64, true
		}
	}
	return 0, false
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func (ip *Interp) substFor(t types.Type) types.Type {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		if s, ok := ip.subst[n.Obj().Pkg().Path()+"."+n.Obj().Name()]; ok {
			return s
		}
	}
	return t
}

var zeroCache = map[types.Type]Value{}

func (ip *Interp) zero(t types.Type) Value {
	if v, ok := zeroCache[t]; ok {
		return v
	}
	v := ip.zero1(t)
	zeroCache[t] = v
	return v
}

func (ip *Interp) zero1(t types.Type) Value {
	t = ip.substFor(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String, types.UntypedString:
			return strConst("")
		case types.UnsafePointer, types.UntypedNil:
			return nilRef
		}
		s, ok := sortOf(t)
		if !ok {
			unsupported("zero of %v", t)
		}
		switch s {
		case SBool:
			return False
		case SF32:
			return F32c(0)
		case SF64:
			return F64c(0)
		}
		return BVc(0, s)
	case *types.Pointer, *types.Map, *types.Chan:
		return nilRef
	case *types.Slice:
		return nilSlice
	case *types.Interface:
		return nilIface
	case *types.Signature:
		return nilFunc
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = ip.zero(u.Field(i).Type())
		}
		return &AggV{f}
	case *types.Array:
		if u.Len() > 4096 {
			unsupported("array of %d elements", u.Len())
		}
		f := make([]Value, u.Len())
		z := ip.zero(u.Elem())
		for i := range f {
			f[i] = z
		}
		return &AggV{f}
	case *types.Tuple:
		f := make([]Value, u.Len())
		for i := range f {
			f[i] = ip.zero(u.At(i).Type())
		}
		return &AggV{f}
	}
	unsupported("zero of %v", t)
	return nil
}

var constCache = map[*ssa.Const]Value{}

func (ip *Interp) constVal(c *ssa.Const) Value {
	if v, ok := constCache[c]; ok {
		return v
	}
	v := ip.constVal1(c)
	constCache[c] = v
	return v
}

func (ip *Interp) constVal1(c *ssa.Const) Value {
	if c.Value == nil {
		return ip.zero(c.Type())
	}
	t := c.Type()
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if c.Value.Kind() == constant.String {
			return strConst(constant.StringVal(c.Value))
		}
	}
	s, ok := sortOf(t)
	if !ok {
		unsupported("const of type %v", t)
	}
	switch s {
	case SBool:
		return Boolc(constant.BoolVal(c.Value))
	case SF32:
		f, _ := constant.Float32Val(c.Value)
		return F32c(f)
	case SF64:
		f, _ := constant.Float64Val(c.Value)
		return F64c(f)
	}
	iv := constant.ToInt(c.Value)
	if i, ok := constant.Int64Val(iv); ok {
		return BVc(uint64(i), s)
	}
	u, _ := constant.Uint64Val(iv)
	return BVc(u, s)
}

func (ip *Interp) get(c *Config, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return ip.constVal(x)
	case *ssa.Global:
		return refTo(ip.globalObj(x))
	case *ssa.Function:
		return &FuncV{[]FuncAlt{{g: True, fn: x}}}
	case *ssa.Builtin:
		return nil
	}
	f := c.frames[len(c.frames)-1]
	r, ok := f.fi.reg[v]
	if !ok {
		unsupported("no register for %v", v)
	}
	val := f.regs[r]
	if val == nil {
		panic(fmt.Sprintf("undefined register %s = %v in %v", v.Name(), v, f.fn))
	}
	return val
}

func (ip *Interp) globalObj(g *ssa.Global) ObjID {
	if id, ok := ip.globals[g]; ok {
		return id
	}
	if g.Pkg != nil && !ip.initPkgs[g.Pkg] && !noInit(g.Pkg.Pkg.Path()) {
		panic(needInit{g.Pkg})
	}
	id := ip.freshObj()
	ip.globals[g] = id
	globalZero[id] = &Obj{kind: 'c', val: ip.zero(g.Type().Underlying().(*types.Pointer).Elem())}
	return id
}

func (ip *Interp) memGet(c *Config, id ObjID) *Obj {
	o := c.mem.Get(id)
	if o == nil {
		o = globalZero[id] // globals are created lazily with their zero value
	}
	return o
}

func (ip *Interp) set(c *Config, v ssa.Value, x Value) {
	f := c.top()
	f.regs[f.fi.reg[v]] = x
}

// globalZero: initial contents of package-level variables.
var globalZero = map[ObjID]*Obj{}

// ---- memory access -----------------------------------------------------------------

func getPath(v Value, path []int) Value {
	for _, i := range path {
		a, ok := v.(*AggV)
		if !ok {
			unsupported("path into %T", v)
		}
		v = a.f[i]
	}
	return v
}

func setPath(v Value, path []int, x Value) Value {
	if len(path) == 0 {
		return x
	}
	a := v.(*AggV)
	nf := append([]Value(nil), a.f...)
	nf[path[0]] = setPath(a.f[path[0]], path[1:], x)
	return &AggV{nf}
}

func (ip *Interp) load(c *Config, r *RefV) (Value, bool) {
	if !ip.checkNil(c, r, "nil pointer dereference") {
		return nil, false
	}
	if ip.deadRef(c, r) {
		return nil, false
	}
	return ip.loadNN(c, r), true
}

// deadRef: every object the reference may denote exists only on other paths, so this one is
// infeasible (which the solver confirms).
func (ip *Interp) deadRef(c *Config, r *RefV) bool {
	for _, a := range r.alts {
		if a.obj != 0 && ip.memGet(c, a.obj) != nil {
			return false
		}
	}
	if ip.feasible(c.guard) {
		return false
	}
	c.guard = False
	return true
}

func (ip *Interp) loadNN(c *Config, r *RefV) Value {
	var vals []Value
	var gs []*Term
	for _, a := range r.alts {
		if a.obj == 0 {
			continue
		}
		o := ip.memGet(c, a.obj)
		if o == nil {
			if len(r.alts) > 1 {
				continue // object not allocated on this path: alternative infeasible
			}
			unsupported("load of unallocated object %d", a.obj)
		}
		if o.kind != 'c' {
			unsupported("load of map/chan object")
		}
		vals = append(vals, getPath(o.val, a.path.list()))
		gs = append(gs, a.g)
	}
	if len(vals) == 0 {
		unsupported("load through dead reference")
	}
	return unionVal(len(vals), func(i int) (*Term, Value) { return gs[i], vals[i] })
}

func (ip *Interp) store(c *Config, r *RefV, v Value) bool {
	if !ip.checkNil(c, r, "nil pointer dereference (store)") {
		return false
	}
	if ip.deadRef(c, r) {
		return false
	}
	n := 0
	for _, a := range r.alts {
		if a.obj != 0 {
			n++
		}
	}
	for _, a := range r.alts {
		if a.obj == 0 {
			continue
		}
		o := ip.memGet(c, a.obj)
		if o == nil {
			if n > 1 {
				continue
			}
			unsupported("store to unallocated object %d", a.obj)
		}
		p := a.path.list()
		nv := v
		if n > 1 {
			nv = iteVal(a.g, v, getPath(o.val, p))
		}
		c.mem.Set(a.obj, &Obj{kind: 'c', val: setPath(o.val, p, nv)})
	}
	return true
}

func nilGuard(r *RefV) *Term {
	for _, a := range r.alts {
		if a.obj == 0 {
			return a.g
		}
	}
	return False
}

func (ip *Interp) checkNil(c *Config, r *RefV, msg string) bool {
	return ip.checkPanic(c, nilGuard(r), msg)
}

// checkPanic: under guard g the current operation panics. Returns false if nothing else remains.
func (ip *Interp) checkPanic(c *Config, g *Term, msg string) bool {
	if g == False {
		return true
	}
	pg := And(c.guard, g)
	if pg == False {
		return true
	}
	if pg != c.guard && !ip.feasible(pg) {
		return true
	}
	rest := And(c.guard, Not(g))
	if rest == False || pg == c.guard {
		ip.startPanic(c, ip.runtimeError(msg))
		ip.enqueuePanic(c)
		return false
	}
	p := c.fork(pg)
	ip.startPanic(p, ip.runtimeError(msg))
	ip.enqueuePanic(p)
	c.guard = rest
	return true
}

func (ip *Interp) enqueuePanic(c *Config) { ip.enqueue(c) }

func (ip *Interp) runtimeError(msg string) Value {
	t := ip.P.vm.Type("RuntimeError").Type()
	return mkIface(t, strConst(msg))
}

func (ip *Interp) startPanic(c *Config, v Value) {
	c.panics = append(append([]panicState(nil), c.panics...), panicState{val: v, pos: ip.where(c) + " [" + ip.stackStr(c) + "]"})
	c.top().unwinding = true
}

func (ip *Interp) panicMsg(v Value) string {
	iv, ok := v.(*IfaceV)
	if !ok {
		return "panic"
	}
	for _, a := range iv.alts {
		if s, ok := a.val.(*StrV); ok {
			if x, ok := s.concrete(); ok {
				return x
			}
		}
		if a.typ != nil {
			return "value of type " + a.typ.String()
		}
	}
	return "panic"
}

// unwindStep handles a frame that is unwinding. Returns false when the config ended.
func (ip *Interp) unwindStep(c *Config) bool {
	f := c.top()
	ps := &c.panics[len(c.panics)-1]
	if ps.recovered {
		c.panics = append([]panicState(nil), c.panics[:len(c.panics)-1]...)
		f.unwinding = false
		if f.fn.Recover != nil {
			f.block = f.fn.Recover.Index
			f.pc = 0
			f.iters = make([]int32, len(f.fi.blocks[f.block].loops))
			return true
		}
		return ip.doReturn(c, ip.zeroResults(f.fn))
	}
	if n := len(f.defers); n > 0 {
		d := f.defers[n-1]
		if !ip.preDefer(c, d) {
			return false
		}
		f = c.top()
		f.defers = append([]*Deferred(nil), f.defers[:n-1]...)
		return ip.callDeferred(c, d, retUnwind)
	}
	ret := f.ret
	if ret == retBottom || len(c.frames) == 1 {
		if ip.inits {
			unsupported("panic in package init: %s at %s", ip.panicMsg(ps.val), ps.pos)
		}
		if ip.feasible(c.guard) {
			msg := "uncaught panic: " + ip.panicMsg(ps.val) + " at " + ps.pos
			ip.addViol(c.guard, msg, nil, "panic")
		}
		ip.finishThread(c)
		return false
	}
	c.frames = append([]*Frame(nil), c.frames[:len(c.frames)-1]...)
	c.top().unwinding = true
	return true
}

func (ip *Interp) zeroResults(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return ip.zero(res.At(0).Type())
	}
	return ip.zero(res)
}

// ---- run -----------------------------------------------------------------------------

func (ip *Interp) jump(c *Config, to *ssa.BasicBlock) bool {
	f := c.top()
	from := f.fn.Blocks[f.block]
	// phis
	n := 0
	for _, in := range to.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	if n > 0 {
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
				break
			}
		}
		vals := make([]Value, n)
		for i := 0; i < n; i++ {
			phi := to.Instrs[i].(*ssa.Phi)
			vals[i] = ip.phiGet(c, phi.Edges[pi])
		}
		for i := 0; i < n; i++ {
			f.regs[f.fi.reg[to.Instrs[i].(*ssa.Phi)]] = vals[i]
		}
	}
	ob, nb := &f.fi.blocks[f.block], &f.fi.blocks[to.Index]
	it := make([]int32, len(nb.loops))
	back := false
	for i := range nb.loops {
		if i < len(ob.loops) && ob.loops[i] == nb.loops[i] {
			it[i] = f.iters[i]
			if nb.head == nb.loops[i] {
				it[i]++
				back = true
				if int(it[i]) > ip.unwind && (int(it[i]) > 20*ip.unwind || f.fn.Pkg != ip.P.vm) {
					if ip.feasible(c.guard) {
						ip.unwinds = append(ip.unwinds, Violation{c.guard, fmt.Sprintf("loop bound %d exceeded in %s", ip.unwind, f.fn), ip.where(c), "unwind"})
						ip.cuts = append(ip.cuts, Not(c.guard))
					}
					c.guard = False
					return false
				}
			}
		} else {
			break
		}
	}
	f.iters = it
	f.block = to.Index
	f.pc = n
	if back && c.guard != True {
		k := it[len(it)-1]
		if (k >= 3 && ip.prune || k >= 8) && !ip.feasible(c.guard) {
			c.guard = False
			return false
		}
	}
	if len(to.Preds) > 1 && len(ip.pq) > 0 {
		ip.enqueue(c)
		return false
	}
	return true
}

// phiGet tolerates undefined (dead) values.
func (ip *Interp) phiGet(c *Config, v ssa.Value) Value {
	f := c.frames[len(c.frames)-1]
	if r, ok := f.fi.reg[v]; ok {
		return f.regs[r]
	}
	return ip.get(c, v)
}

// fineOp: accesses to memory that other threads may share, which are scheduling points in functions
// executed in the fine mode.
func (ip *Interp) fineOp(f *Frame, in ssa.Instruction) bool {
	local := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.Alloc:
				return !x.Heap
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
					return false
				}
				v = x.X
			default:
				return false
			}
		}
	}
	switch x := in.(type) {
	case *ssa.Store:
		return !local(x.Addr)
	case *ssa.UnOp:
		return x.Op == token.MUL && !local(x.X)
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		return ok && (b.Name() == "append" || b.Name() == "copy" || b.Name() == "delete")
	case *ssa.Convert:
		_, ok := x.X.Type().Underlying().(*types.Slice)
		return ok
	case *ssa.MapUpdate, *ssa.Lookup:
		return true
	}
	return false
}

func (ip *Interp) run(c *Config) {
	for {
		if c.guard == False {
			return
		}
		f := c.top()
		if f.unwinding {
			if !ip.unwindStep(c) {
				return
			}
			continue
		}
		in := f.fn.Blocks[f.block].Instrs[f.pc]
		ip.steps++
		if ip.traceOn {
			fmt.Fprintf(os.Stderr, "T%d %*s%s b%d.%d %v   [%s]\n", c.tid, len(c.frames), "", f.fn.Name(), f.block, f.pc, in, c.guard.show(1))
		}
		if !ip.step(c, f, in) {
			return
		}
	}
}

// advance to the next instruction
func (ip *Interp) step(c *Config, f *Frame, in ssa.Instruction) bool {
	if f.fi.fine && ip.fineOp(f, in) && !ip.visible(c, nil, "memory access") {
		return false
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		id := ip.newObj(c, 0)
		c.mem.Set(id, &Obj{kind: 'c', val: ip.zero(x.Type().Underlying().(*types.Pointer).Elem())})
		f.regs[f.fi.reg[x]] = refTo(id)
	case *ssa.BinOp:
		v, ok := ip.binop(c, x)
		if !ok {
			return false
		}
		c.top().regs[f.fi.reg[x]] = v
	case *ssa.UnOp:
		return ip.unop(c, x)
	case *ssa.Phi:
		unsupported("phi reached")
	case *ssa.Call:
		return ip.call(c, x)
	case *ssa.ChangeInterface:
		f.regs[f.fi.reg[x]] = ip.get(c, x.X)
	case *ssa.ChangeType:
		f.regs[f.fi.reg[x]] = ip.get(c, x.X)
	case *ssa.Convert:
		v, ok := ip.convert(c, ip.get(c, x.X), x.X.Type(), x.Type())
		if !ok {
			return false
		}
		c.top().regs[f.fi.reg[x]] = v
	case *ssa.MultiConvert:
		v, ok := ip.convert(c, ip.get(c, x.X), x.X.Type(), x.Type())
		if !ok {
			return false
		}
		c.top().regs[f.fi.reg[x]] = v
	case *ssa.MakeInterface:
		f.regs[f.fi.reg[x]] = mkIface(x.X.Type(), ip.get(c, x.X))
	case *ssa.MakeClosure:
		b := make([]Value, len(x.Bindings))
		for i, y := range x.Bindings {
			b[i] = ip.get(c, y)
		}
		f.regs[f.fi.reg[x]] = &FuncV{[]FuncAlt{{g: True, fn: x.Fn.(*ssa.Function), binds: b}}}
	case *ssa.MakeMap:
		id := ip.newObj(c, 0)
		c.mem.Set(id, &Obj{kind: 'm'})
		f.regs[f.fi.reg[x]] = refTo(id)
	case *ssa.MakeChan:
		n, ok := ip.concreteInt(c, ip.get(c, x.Size).(*Term), "channel size")
		if !ok {
			return false
		}
		id := ip.newObj(c, 0)
		ip.chanSites[id] = ip.where(c)
		c.mem.Set(id, &Obj{kind: 'h', ch: &ChanState{cap: n, closed: False, taken: False, zero: ip.zero(x.Type().Underlying().(*types.Chan).Elem())}})
		f.regs[f.fi.reg[x]] = refTo(id)
	case *ssa.MakeSlice:
		lv, cv := ip.get(c, x.Len).(*Term), ip.get(c, x.Cap).(*Term)
		et := x.Type().Underlying().(*types.Slice).Elem()
		var alts []SliceAlt
		neg := Cmp(OSlt, Sext(lv, 64), Int(0))
		if !ip.checkPanic(c, neg, "makeslice: len out of range") {
			return false
		}
		if cv != lv && !ip.checkPanic(c, Cmp(OSlt, Sext(cv, 64), Sext(lv, 64)), "makeslice: cap out of range") {
			return false
		}
		lvs := ip.enumerate(c, Sext(lv, 64), "slice length")
		for i, l := range lvs {
			n := int(int64(l.t.val))
			if n < 0 {
				continue // excluded above
			}
			if n > 8192 {
				unsupported("make slice of %d", n)
			}
			if cv == lv {
				id := ip.newObj(c, n)
				ip.initArray(c, id, et, n)
				alts = append(alts, SliceAlt{l.g, id, nil, 0, n, n})
				continue
			}
			for j, cl := range ip.enumerateUnder(c, And(c.guard, l.g), Sext(cv, 64), "slice cap") {
				cp := int(int64(cl.t.val))
				if cp < n {
					continue // excluded above
				}
				if cp > 8192 {
					unsupported("make slice with cap %d", cp)
				}
				id := ip.newObj(c, i<<32|j<<16|cp)
				ip.initArray(c, id, et, cp)
				alts = append(alts, SliceAlt{And(l.g, cl.g), id, nil, 0, n, cp})
			}
		}
		f = c.top()
		f.regs[f.fi.reg[x]] = &SliceV{alts}
	case *ssa.Field:
		f.regs[f.fi.reg[x]] = ip.get(c, x.X).(*AggV).f[x.Field]
	case *ssa.FieldAddr:
		r := ip.get(c, x.X).(*RefV)
		if !ip.checkNil(c, r, "nil pointer dereference (field "+fieldName(x)+")") {
			return false
		}
		f = c.top()
		f.regs[f.fi.reg[x]] = refField(r, x.Field)
	case *ssa.IndexAddr:
		v, ok := ip.indexAddr(c, x)
		if !ok {
			return false
		}
		c.top().regs[f.fi.reg[x]] = v
	case *ssa.Index:
		v, ok := ip.index(c, x)
		if !ok {
			return false
		}
		c.top().regs[f.fi.reg[x]] = v
	case *ssa.Lookup:
		v, ok := ip.lookup(c, x)
		if !ok {
			return false
		}
		c.top().regs[f.fi.reg[x]] = v
	case *ssa.MapUpdate:
		if !ip.mapUpdate(c, ip.get(c, x.Map).(*RefV), ip.get(c, x.Key), ip.get(c, x.Value)) {
			return false
		}
	case *ssa.Range:
		switch y := ip.get(c, x.X).(type) {
		case *StrV:
			f.regs[f.fi.reg[x]] = &IterV{str: y, pos: Int(0)}
		case *RefV:
			var slots []mapSlot
			for _, a := range y.alts {
				if a.obj == 0 {
					continue
				}
				o := c.mem.Get(a.obj)
				for _, s := range o.slots {
					g := And(a.g, s.g)
					if g != False {
						slots = append(slots, mapSlot{g, s.k, s.v})
					}
				}
			}
			if ip.opts.MapRev {
				for i, j := 0, len(slots)-1; i < j; i, j = i+1, j-1 {
					slots[i], slots[j] = slots[j], slots[i]
				}
			}
			f.regs[f.fi.reg[x]] = &IterV{isMap: true, keys: slots, pos: Int(0)}
		}
	case *ssa.Next:
		return ip.next(c, x)
	case *ssa.Extract:
		t := ip.get(c, x.Tuple).(*AggV)
		f.regs[f.fi.reg[x]] = t.f[x.Index]
	case *ssa.Slice:
		v, ok := ip.slice(c, x)
		if !ok {
			return false
		}
		c.top().regs[f.fi.reg[x]] = v
	case *ssa.SliceToArrayPointer:
		s := ip.get(c, x.X).(*SliceV)
		var alts []RefAlt
		for _, a := range s.alts {
			if a.off != 0 {
				unsupported("slice to array pointer with offset")
			}
			alts = append(alts, RefAlt{a.g, a.obj, a.path})
		}
		f.regs[f.fi.reg[x]] = &RefV{alts}
	case *ssa.Store:
		if !ip.store(c, ip.get(c, x.Addr).(*RefV), ip.get(c, x.Val)) {
			return false
		}
	case *ssa.TypeAssert:
		v, ok := ip.typeAssert(c, x)
		if !ok {
			return false
		}
		c.top().regs[f.fi.reg[x]] = v
	case *ssa.If:
		cond := ip.get(c, x.Cond).(*Term)
		b := x.Block()
		if cond == True {
			return ip.jump(c, b.Succs[0])
		}
		if cond == False {
			return ip.jump(c, b.Succs[1])
		}
		gt, gf := And(c.guard, cond), And(c.guard, Not(cond))
		if gt == False || gf == c.guard {
			return ip.jump(c, b.Succs[1])
		}
		if gf == False || gt == c.guard {
			return ip.jump(c, b.Succs[0])
		}
		d := c.fork(gf)
		c.guard = gt
		// keep d queued so that c does not run past merge points
		if ip.jump2(d, b.Succs[1]) {
			ip.enqueue(d)
		}
		if ip.jump2(c, b.Succs[0]) {
			ip.enqueue(c)
		}
		return false
	case *ssa.Jump:
		return ip.jump(c, x.Block().Succs[0])
	case *ssa.Return:
		var v Value
		switch len(x.Results) {
		case 0:
		case 1:
			v = ip.get(c, x.Results[0])
		default:
			fs := make([]Value, len(x.Results))
			for i, r := range x.Results {
				fs[i] = ip.get(c, r)
			}
			v = &AggV{fs}
		}
		return ip.doReturn(c, v)
	case *ssa.Panic:
		ip.startPanic(c, ip.get(c, x.X))
		return true
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			if !ip.preDefer(c, d) {
				return false
			}
			f = c.top()
			f.defers = append([]*Deferred(nil), f.defers[:n-1]...)
			return ip.callDeferred(c, d, retStay)
		}
	case *ssa.Defer:
		d := &Deferred{instr: x}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			d.bi = b
			for _, a := range x.Call.Args {
				d.args = append(d.args, ip.get(c, a))
			}
		} else {
			fv, args, ok := ip.callee(c, &x.Call)
			if !ok {
				return false
			}
			d.fn, d.args = fv, args
		}
		f = c.top()
		f.defers = append(append([]*Deferred(nil), f.defers...), d)
	case *ssa.Go:
		return ip.goStmt(c, x)
	case *ssa.Send:
		return ip.send(c, x)
	case *ssa.Select:
		return ip.selectStmt(c, x)
	default:
		unsupported("instruction %T", in)
	}
	c.top().pc++
	return true
}

// jump2 is jump without direct continuation (config stays for enqueueing by the caller).
func (ip *Interp) jump2(c *Config, to *ssa.BasicBlock) bool {
	save := ip.pq
	ip.pq = nil // prevents jump from enqueueing itself
	ok := ip.jump(c, to)
	ip.pq = save
	return ok
}

func fieldName(x *ssa.FieldAddr) string {
	st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying()
	if s, ok := st.(*types.Struct); ok && x.Field < s.NumFields() {
		return s.Field(x.Field).Name()
	}
	return "?"
}

func refField(r *RefV, i int) *RefV {
	out := make([]RefAlt, 0, len(r.alts))
	for _, a := range r.alts {
		if a.obj == 0 {
			continue
		}
		out = append(out, RefAlt{a.g, a.obj, pathOf(a.path, i)})
	}
	return &RefV{out}
}

func (ip *Interp) doReturn(c *Config, v Value) bool {
	f := c.frames[len(c.frames)-1]
	if f.ret == retBottom {
		if ip.inits {
			ip.ends = append(ip.ends, endPart{c.guard, c.mem})
			return false
		}
		ip.finishThread(c)
		return false
	}
	nret := 0
	for _, b := range f.fn.Blocks {
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				nret++
			}
		}
	}
	mode, merge := f.ret, f.merge || nret > 1
	c.frames = append([]*Frame(nil), c.frames[:len(c.frames)-1]...)
	ip.deliver(c, v, mode)
	if merge && len(ip.pq) > 0 {
		ip.enqueue(c)
		return false
	}
	return true
}

func (ip *Interp) deliver(c *Config, v Value, mode retMode) {
	g := c.top()
	switch mode {
	case retNormal:
		in := g.fn.Blocks[g.block].Instrs[g.pc]
		if cv, ok := in.(ssa.Value); ok && v != nil {
			g.regs[g.fi.reg[cv]] = v
		}
		g.pc++
	case retDiscard:
		g.pc++
	case retStay, retUnwind:
	}
}

// ---- calls -----------------------------------------------------------------------------

// callee resolves the called function value and the full argument list.
func (ip *Interp) callee(c *Config, cc *ssa.CallCommon) (*FuncV, []Value, bool) {
	var args []Value
	for _, a := range cc.Args {
		args = append(args, ip.get(c, a))
	}
	if !cc.IsInvoke() {
		fv := ip.get(c, cc.Value).(*FuncV)
		return fv, args, true
	}
	iv := ip.get(c, cc.Value).(*IfaceV)
	var ng = False
	for _, a := range iv.alts {
		if a.typ == nil {
			ng = a.g
		}
	}
	if !ip.checkPanic(c, ng, "method "+cc.Method.Name()+" called on nil interface") {
		return nil, nil, false
	}
	var alts []FuncAlt
	var recvs []Value
	for _, a := range iv.alts {
		if a.typ == nil {
			continue
		}
		m := ip.prog.LookupMethod(a.typ, cc.Method.Pkg(), cc.Method.Name())
		if m == nil {
			unsupported("no method %s on %v", cc.Method.Name(), a.typ)
		}
		alts = append(alts, FuncAlt{g: a.g, fn: m})
		recvs = append(recvs, a.val)
	}
	// receiver differs per alternative: bind it
	if len(alts) == 1 {
		return &FuncV{alts}, append([]Value{recvs[0]}, args...), true
	}
	for i := range alts {
		alts[i].binds = []Value{recvBind{recvs[i]}}
	}
	return &FuncV{alts}, args, true
}

type recvBind struct{ v Value }

func (ip *Interp) call(c *Config, x *ssa.Call) bool {
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		var args []Value
		for _, a := range x.Call.Args {
			args = append(args, ip.get(c, a))
		}
		v, ok := ip.builtin(c, b.Name(), args, &x.Call, x.Type())
		if !ok {
			return false
		}
		f := c.top()
		if v != nil {
			f.regs[f.fi.reg[x]] = v
		}
		f.pc++
		return true
	}
	fv, args, ok := ip.callee(c, &x.Call)
	if !ok {
		return false
	}
	return ip.invoke(c, fv, args, retNormal, &x.Call)
}

// preDefer is the scheduling point of a deferred close, taken while the deferred call is still pending.
func (ip *Interp) preDefer(c *Config, d *Deferred) bool {
	if d.bi != nil && d.bi.Name() == "close" {
		return ip.visible(c, nil, "close of "+chName(ip, d.args[0].(*RefV)))
	}
	return true
}

func (ip *Interp) redirectFor(fn *ssa.Function, oname string) *ssa.Function {
	if r, ok := ip.redirect[oname]; ok {
		return r
	}
	if r, ok := ip.methods[fn.Name()]; ok && fn.Signature.Recv() != nil && (fn.Pkg == nil || fn.Pkg != ip.P.vm) {
		return r
	}
	return nil
}

// adaptArgs boxes arguments whose parameter is concrete in the original and an interface in the model.
func adaptArgs(fn, r *ssa.Function, args []Value) []Value {
	var ts []types.Type
	if rc := fn.Signature.Recv(); rc != nil {
		ts = append(ts, rc.Type())
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		ts = append(ts, fn.Signature.Params().At(i).Type())
	}
	ps := r.Signature.Params()
	for i := range args {
		if i >= ps.Len() || i >= len(ts) {
			break
		}
		if _, ok := ps.At(i).Type().Underlying().(*types.Interface); !ok {
			continue
		}
		if _, ok := args[i].(*IfaceV); !ok {
			if _, isI := ts[i].Underlying().(*types.Interface); !isI {
				args = append([]Value(nil), args...)
				args[i] = mkIface(ts[i], args[i])
			}
		}
	}
	return args
}

func (ip *Interp) callDeferred(c *Config, d *Deferred, mode retMode) bool {
	if d.bi != nil {
		if d.bi.Name() == "close" {
			return ip.closeBody(c, d.args[0].(*RefV))
		}
		_, ok := ip.builtin(c, d.bi.Name(), d.args, &d.instr.Call, nil)
		return ok
	}
	return ip.invoke(c, d.fn, d.args, mode, &d.instr.Call)
}

func (ip *Interp) invoke(c *Config, fv *FuncV, args []Value, mode retMode, cc *ssa.CallCommon) bool {
	ng := False
	var alts []FuncAlt
	for _, a := range fv.alts {
		if a.fn == nil && a.bi == "" {
			ng = Or(ng, a.g)
		} else {
			alts = append(alts, a)
		}
	}
	if !ip.checkPanic(c, ng, "call of nil function") {
		return false
	}
	if len(alts) == 0 {
		return false
	}
	if len(alts) == 1 {
		return ip.invoke1(c, alts[0], args, mode, false, 0)
	}
	base := c.guard
	var live []FuncAlt
	var gs []*Term
	for _, a := range alts {
		g := And(base, a.g)
		if g == False || !ip.feasible(g) {
			continue
		}
		live = append(live, a)
		gs = append(gs, g)
	}
	if len(live) == 1 {
		return ip.invoke1(c, live[0], args, mode, false, 0)
	}
	for i, a := range live {
		d := c
		if i < len(live)-1 {
			d = c.fork(gs[i])
		} else {
			c.guard = gs[i]
		}
		d.top()
		// run eagerly; merge happens when the callee returns
		if ip.invoke1(d, a, args, mode, true, i+1) {
			ip.enqueue(d)
		}
	}
	return false
}

func (ip *Interp) invoke1(c *Config, a FuncAlt, args []Value, mode retMode, merge bool, extra int) bool {
	binds := a.binds
	if len(binds) == 1 {
		if rb, ok := binds[0].(recvBind); ok {
			args = append([]Value{rb.v}, args...)
			binds = nil
		}
	}
	fn := a.fn
	name := fn.String()
	oname := name
	if o := fn.Origin(); o != nil {
		oname = o.String()
	}
	if r := ip.redirectFor(fn, oname); r != nil {
		args = adaptArgs(fn, r, args)
		fn = r
		name = fn.String()
		oname = name
	}
	ip.fnsUsed[oname]++
	if h, ok := intrinsics[oname]; ok {
		v, st := h(ip, c, &callCtx{fn: fn, args: args, mode: mode, merge: merge, extra: extra})
		switch st {
		case iDone:
			ip.deliver(c, v, mode)
			return true
		case iPushed:
			return true
		default:
			return false
		}
	}
	if ip.noop(fn, oname) {
		ip.deliver(c, ip.zeroResults(fn), mode)
		return true
	}
	if len(fn.Blocks) == 0 {
		ip.build(fn)
		if len(fn.Blocks) == 0 {
			unsupported("external function %s called from %s", oname, ip.stackStr(c))
		}
	}
	ip.push(c, fn, args, binds, mode, merge, extra)
	return true
}

func (ip *Interp) build(fn *ssa.Function) {
	if fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
}

func (ip *Interp) push(c *Config, fn *ssa.Function, args, binds []Value, mode retMode, merge bool, extra int) {
	fi := infoOf(fn)
	var site uint64
	if len(c.frames) > 0 {
		site = mix(c.frames[len(c.frames)-1].instrSite(), uint64(extra)<<8|uint64(mode))
	}
	if len(c.frames) > 120 {
		unsupported("call depth exceeded at %s", ip.stackStr(c)[:400])
	}
	f := &Frame{fi: fi, fn: fn, regs: make([]Value, fi.nregs), site: site, ret: mode, merge: merge, iters: make([]int32, len(fi.blocks[0].loops))}
	if len(args) != len(fn.Params) {
		unsupported("argument count for %v: %d vs %d", fn, len(args), len(fn.Params))
	}
	for i, p := range fn.Params {
		f.regs[fi.reg[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.regs[fi.reg[p]] = binds[i]
	}
	c.frames = append(append([]*Frame(nil), c.frames...), f)
}

func (ip *Interp) goStmt(c *Config, x *ssa.Go) bool {
	if ip.inits {
		unsupported("go statement in init")
	}
	fv, args, ok := ip.callee(c, &x.Call)
	if !ok {
		return false
	}
	if len(fv.alts) == 0 {
		unsupported("go of nothing")
	}
	site := c.frames[len(c.frames)-1].instrSite()
	n := c.nextCount(site)
	base := c.guard
	for ai, a := range fv.alts {
		g := And(base, a.g)
		if g == False || a.fn == nil {
			continue
		}
		ip.spawn(c, g, a, args, site, n*8+ai, x)
	}
	ip.concurrent = true
	c.top().pc++
	return true
}

func (ip *Interp) spawn(c *Config, g *Term, a FuncAlt, args []Value, site uint64, n int, x *ssa.Go) {
	binds := a.binds
	if len(binds) == 1 {
		if rb, ok := binds[0].(recvBind); ok {
			args = append([]Value{rb.v}, args...)
			binds = nil
		}
	}
	fn := a.fn
	oname := fn.String()
	if o := fn.Origin(); o != nil {
		oname = o.String()
	}
	if r := ip.redirectFor(fn, oname); r != nil {
		args = adaptArgs(fn, r, args)
		fn = r
	}
	if len(fn.Blocks) == 0 {
		ip.build(fn)
	}
	if len(fn.Blocks) == 0 {
		unsupported("go of external function %s", oname)
	}
	ip.fnsUsed[oname]++
	k := threadKey{c.tid, site, n}
	tid, ok := ip.thrIdx[k]
	if !ok {
		tid = len(ip.threads)
		ip.thrIdx[k] = tid
		where := ""
		if x != nil {
			where = ip.where(c)
		}
		ip.threads = append(ip.threads, &Thread{id: tid, name: fn.Name() + " from " + where, idx: map[string]*Saved{}, done: False, must: False})
	}
	t := ip.threads[tid]
	nc := &Config{tid: tid, guard: g}
	ip.push(nc, fn, args, binds, retBottom, false, 0)
	nc.frames[0].site = mix(uint64(tid)+1, 77)
	k2 := ip.saveKey(nc)
	nc.frames[0].shared = true
	if s, ok := t.idx[k2]; ok {
		cd := relGuard(s.guard, g)
		s.frames = mergeFrames(cd, s.frames, nc.frames)
		s.guard = Or(s.guard, g)
		return
	}
	s := &Saved{key: k2, frames: nc.frames, guard: g}
	t.idx[k2] = s
	t.saved = append(t.saved, s)
}

// ---- enumeration of symbolic integers -----------------------------------------------------

func (ip *Interp) concreteInt(c *Config, t *Term, what string) (int, bool) {
	if t.isConst() {
		return int(t.sval()), true
	}
	ls := ip.enumerate(c, t, what)
	if len(ls) == 1 {
		return int(ls[0].t.sval()), true
	}
	unsupported("symbolic %s with %d values", what, len(ls))
	return 0, false
}

func (ip *Interp) enumerate(c *Config, t *Term, what string) []leaf {
	return ip.enumerateUnder(c, c.guard, t, what)
}

// enumerateUnder lists the feasible values of t under g as (guard, const).
func (ip *Interp) enumerateUnder(c *Config, g *Term, t *Term, what string) []leaf {
	if t.isConst() {
		return []leaf{{True, t}}
	}
	if t.leafy {
		var out []leaf
		for _, l := range leaves(t) {
			if And(g, l.g) != False {
				out = append(out, l)
			}
		}
		return out
	}
	// solver enumeration for small ranges
	var out []leaf
	lim := 40
	for v := -1; v <= lim; v++ {
		k := BVc(uint64(int64(v)), t.sort)
		e := Eq(t, k)
		if e == False || !ip.feasible(And(g, e)) {
			continue
		}
		out = append(out, leaf{e, k})
	}
	rest := And(g, Not(Or(Cmp(OSlt, t, BVc(uint64(lim+1), t.sort)), False)))
	neg := And(g, Cmp(OSlt, t, BVc(^uint64(0), t.sort)))
	if ip.feasible(rest) || ip.feasible(neg) {
		unsupported("symbolic %s out of enumerable range at %s", what, ip.where(c))
	}
	return out
}

// ---- arrays ---------------------------------------------------------------------------------

func (ip *Interp) initArray(c *Config, id ObjID, et types.Type, n int) {
	z := ip.zero(et)
	f := make([]Value, n)
	for i := range f {
		f[i] = z
	}
	c.mem.Set(id, &Obj{kind: 'c', val: &AggV{f}})
}

func (ip *Interp) indexAddr(c *Config, x *ssa.IndexAddr) (Value, bool) {
	idx := ip.idx64(ip.get(c, x.Index).(*Term), x.Index.Type())
	switch b := ip.get(c, x.X).(type) {
	case *SliceV:
		ln := ip.sliceLen(b)
		oob := Not(Cmp(OUlt, idx, ln))
		if !ip.checkPanic(c, oob, "index out of range") {
			return nil, false
		}
		var out []RefAlt
		add := func(g *Term, obj ObjID, p *PathN) {
			if g == False {
				return
			}
			for i := range out {
				if out[i].obj == obj && out[i].path == p {
					out[i].g = Or(out[i].g, g)
					return
				}
			}
			out = append(out, RefAlt{g, obj, p})
		}
		for _, a := range b.alts {
			if a.len == 0 {
				continue
			}
			if idx.isConst() {
				i := int(idx.val)
				if i < a.len {
					add(a.g, a.obj, pathOf(a.path, a.off+i))
				}
				continue
			}
			if idx.leafy {
				for _, l := range leaves(idx) {
					if i := int(int64(l.t.val)); i >= 0 && i < a.len {
						add(And(a.g, l.g), a.obj, pathOf(a.path, a.off+i))
					}
				}
				continue
			}
			for i := 0; i < a.len; i++ {
				add(And(a.g, Eq(idx, Int(i))), a.obj, pathOf(a.path, a.off+i))
			}
		}
		if len(out) == 0 {
			c.guard = False
			return nil, false
		}
		if len(out) == 1 {
			out[0].g = True
		}
		return &RefV{out}, true
	case *RefV: // pointer to array
		n := int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		oob := Not(Cmp(OUlt, idx, Int(n)))
		if !ip.checkPanic(c, oob, "index out of range") {
			return nil, false
		}
		if !ip.checkNil(c, b, "nil array pointer") {
			return nil, false
		}
		var out []RefAlt
		for _, a := range b.alts {
			if a.obj == 0 {
				continue
			}
			if idx.isConst() {
				out = append(out, RefAlt{a.g, a.obj, pathOf(a.path, int(idx.val))})
				continue
			}
			if idx.leafy {
				for _, l := range leaves(idx) {
					if i := int(int64(l.t.val)); i >= 0 && i < n {
						if g := And(a.g, l.g); g != False {
							out = append(out, RefAlt{g, a.obj, pathOf(a.path, i)})
						}
					}
				}
				continue
			}
			for i := 0; i < n; i++ {
				if g := And(a.g, Eq(idx, Int(i))); g != False {
					out = append(out, RefAlt{g, a.obj, pathOf(a.path, i)})
				}
			}
		}
		return &RefV{out}, true
	}
	unsupported("indexaddr")
	return nil, false
}

func (ip *Interp) idx64(t *Term, typ types.Type) *Term {
	if t.sort == 64 {
		return t
	}
	if isSigned(typ) {
		return Sext(t, 64)
	}
	return Zext(t, 64)
}

func (ip *Interp) index(c *Config, x *ssa.Index) (Value, bool) {
	idx := ip.idx64(ip.get(c, x.Index).(*Term), x.Index.Type())
	switch b := ip.get(c, x.X).(type) {
	case *AggV:
		if !ip.checkPanic(c, Not(Cmp(OUlt, idx, Int(len(b.f)))), "index out of range") {
			return nil, false
		}
		return pick(idx, b.f), true
	case *StrV:
		return ip.strIndex(c, b, idx)
	}
	unsupported("index")
	return nil, false
}

func pick(idx *Term, vs []Value) Value {
	if idx.isConst() {
		return vs[int(idx.val)]
	}
	if idx.leafy {
		ls := leaves(idx)
		var ok []leaf
		for _, l := range ls {
			if i := int(int64(l.t.val)); i >= 0 && i < len(vs) {
				ok = append(ok, l)
			}
		}
		return unionVal(len(ok), func(i int) (*Term, Value) { return ok[i].g, vs[int(ok[i].t.val)] })
	}
	return unionVal(len(vs), func(i int) (*Term, Value) { return Eq(idx, Int(i)), vs[i] })
}

func (ip *Interp) strIndex(c *Config, s *StrV, idx *Term) (Value, bool) {
	if !ip.checkPanic(c, Not(Cmp(OUlt, idx, strLen(s))), "string index out of range") {
		return nil, false
	}
	var vals []Value
	var gs []*Term
	for _, a := range s.alts {
		if len(a.b) == 0 {
			continue
		}
		if idx.isConst() && int(idx.val) >= len(a.b) {
			continue
		}
		vs := make([]Value, len(a.b))
		for i := range a.b {
			vs[i] = a.b[i]
		}
		v := pick(idx, vs)
		if v == nil {
			continue
		}
		vals = append(vals, v)
		gs = append(gs, a.g)
	}
	if len(vals) == 0 {
		c.guard = False
		return nil, false
	}
	return unionVal(len(vals), func(i int) (*Term, Value) { return gs[i], vals[i] }), true
}

func (ip *Interp) sliceLen(s *SliceV) *Term {
	return unionTerm(len(s.alts), func(i int) (*Term, *Term) { return s.alts[i].g, Int(s.alts[i].len) })
}
func (ip *Interp) sliceCap(s *SliceV) *Term {
	return unionTerm(len(s.alts), func(i int) (*Term, *Term) { return s.alts[i].g, Int(s.alts[i].cap) })
}

func (ip *Interp) slice(c *Config, x *ssa.Slice) (Value, bool) {
	bound := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return ip.idx64(ip.get(c, v).(*Term), v.Type())
	}
	lo, hi, mx := bound(x.Low), bound(x.High), bound(x.Max)
	switch b := ip.get(c, x.X).(type) {
	case *StrV:
		return ip.strSlice(c, b, lo, hi)
	case *SliceV:
		return ip.sliceSlice(c, b, lo, hi, mx)
	case *RefV:
		if !ip.checkNil(c, b, "slice of nil array pointer") {
			return nil, false
		}
		n := int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		var alts []SliceAlt
		for _, a := range b.alts {
			if a.obj != 0 {
				alts = append(alts, SliceAlt{a.g, a.obj, a.path, 0, n, n})
			}
		}
		return ip.sliceSlice(c, &SliceV{alts}, lo, hi, mx)
	}
	unsupported("slice")
	return nil, false
}

func (ip *Interp) strSlice(c *Config, s *StrV, lo, hi *Term) (Value, bool) {
	if lo == nil {
		lo = Int(0)
	}
	ln := strLen(s)
	h := hi
	if h == nil {
		h = ln
	}
	bad := Not(And(Cmp(OUle, lo, h), Cmp(OUle, h, ln)))
	if !ip.checkPanic(c, bad, "slice bounds out of range") {
		return nil, false
	}
	los := ip.enumerate(c, lo, "string slice bound")
	byLen := map[int]int{}
	var out []StrAlt
	for _, a := range s.alts {
		his := []leaf{{True, Int(len(a.b))}}
		if hi != nil {
			his = ip.enumerate(c, hi, "string slice bound")
		}
		for _, l := range los {
			for _, q := range his {
				i, j := int(int64(l.t.val)), int(int64(q.t.val))
				if i < 0 || j < i || j > len(a.b) {
					continue
				}
				g := And(a.g, l.g, q.g)
				if g == False {
					continue
				}
				nb := a.b[i:j]
				if k, ok := byLen[len(nb)]; ok {
					o := out[k]
					m := make([]*Term, len(nb))
					for z := range nb {
						m[z] = Ite(g, nb[z], o.b[z])
					}
					out[k] = StrAlt{Or(o.g, g), m}
				} else {
					byLen[len(nb)] = len(out)
					out = append(out, StrAlt{g, nb})
				}
			}
		}
	}
	if len(out) == 0 {
		c.guard = False
		return nil, false
	}
	if len(out) == 1 {
		out[0].g = True
	}
	sort.Slice(out, func(i, j int) bool { return len(out[i].b) < len(out[j].b) })
	return &StrV{out}, true
}

func (ip *Interp) sliceSlice(c *Config, s *SliceV, lo, hi, mx *Term) (Value, bool) {
	if lo == nil {
		lo = Int(0)
	}
	ln, cp := ip.sliceLen(s), ip.sliceCap(s)
	h := hi
	if h == nil {
		h = ln
	}
	m := mx
	if m == nil {
		m = cp
	}
	bad := Not(And(Cmp(OUle, lo, h), Cmp(OUle, h, m), Cmp(OUle, m, cp)))
	if !ip.checkPanic(c, bad, "slice bounds out of range") {
		return nil, false
	}
	los := ip.enumerate(c, lo, "slice bound")
	var out []SliceAlt
	for _, a := range s.alts {
		his := []leaf{{True, Int(a.len)}}
		if hi != nil {
			his = ip.enumerate(c, hi, "slice bound")
		}
		mxs := []leaf{{True, Int(a.cap)}}
		if mx != nil {
			mxs = ip.enumerate(c, mx, "slice bound")
		}
		for _, l := range los {
			for _, q := range his {
				for _, r := range mxs {
					i, j, k := int(int64(l.t.val)), int(int64(q.t.val)), int(int64(r.t.val))
					if i < 0 || j < i || k < j || k > a.cap {
						continue
					}
					g := And(a.g, l.g, q.g, r.g)
					if g == False {
						continue
					}
					na := SliceAlt{g, a.obj, a.path, a.off + i, j - i, k - i}
					dup := false
					for z := range out {
						o := &out[z]
						if o.obj == na.obj && o.path == na.path && o.off == na.off && o.len == na.len && o.cap == na.cap {
							o.g = Or(o.g, g)
							dup = true
							break
						}
					}
					if !dup {
						out = append(out, na)
					}
				}
			}
		}
	}
	if len(out) == 0 {
		c.guard = False
		return nil, false
	}
	if len(out) == 1 {
		out[0].g = True
	}
	return &SliceV{out}, true
}

// elements of one slice alternative
func (ip *Interp) sliceElems(c *Config, a SliceAlt) []Value {
	if a.len == 0 {
		return nil
	}
	o := ip.memGet(c, a.obj)
	if o == nil {
		unsupported("slice of unallocated object")
	}
	arr := getPath(o.val, a.path.list()).(*AggV)
	if a.off+a.len > len(arr.f) {
		// the array in this memory belongs to another alternative, this one cannot be taken here
		if len(arr.f) == 0 || ip.feasible(And(c.guard, a.g)) {
			unsupported("slice beyond its array")
		}
		out := make([]Value, a.len)
		for i := range out {
			out[i] = arr.f[0]
			if a.off+i < len(arr.f) {
				out[i] = arr.f[a.off+i]
			}
		}
		return out
	}
	return arr.f[a.off : a.off+a.len]
}

// ---- maps -----------------------------------------------------------------------------------

func (ip *Interp) lookup(c *Config, x *ssa.Lookup) (Value, bool) {
	if s, ok := ip.get(c, x.X).(*StrV); ok {
		idx := ip.idx64(ip.get(c, x.Index).(*Term), x.Index.Type())
		return ip.strIndex(c, s, idx)
	}
	m := ip.get(c, x.X).(*RefV)
	k := ip.get(c, x.Index)
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	v, found := ip.mapGet(c, m, k, vt)
	if x.CommaOk {
		return &AggV{[]Value{v, found}}, true
	}
	return v, true
}

func (ip *Interp) mapGet(c *Config, m *RefV, k Value, vt types.Type) (Value, *Term) {
	v := ip.zero(vt)
	found := False
	for _, a := range m.alts {
		if a.obj == 0 {
			continue
		}
		o := c.mem.Get(a.obj)
		if o == nil {
			if len(m.alts) > 1 {
				continue
			}
			unsupported("map object missing")
		}
		for _, s := range o.slots {
			g := And(a.g, s.g, eqVal(s.k, k))
			if g == False {
				continue
			}
			v = iteVal(g, s.v, v)
			found = Or(found, g)
		}
	}
	return v, found
}

func (ip *Interp) mapUpdate(c *Config, m *RefV, k, v Value) bool {
	if !ip.checkNil(c, m, "assignment to entry in nil map") {
		return false
	}
	n := 0
	for _, a := range m.alts {
		if a.obj != 0 {
			n++
		}
	}
	for _, a := range m.alts {
		if a.obj == 0 {
			continue
		}
		o := c.mem.Get(a.obj)
		if o == nil {
			continue
		}
		mg := a.g
		if n == 1 {
			mg = True
		}
		c.mem.Set(a.obj, &Obj{kind: 'm', slots: slotsPut(o.slots, k, v, mg)})
	}
	return true
}

func slotsPut(slots []mapSlot, k, v Value, mg *Term) []mapSlot {
	out := make([]mapSlot, 0, len(slots)+1)
	any := False
	same := -1
	for i, s := range slots {
		if sameVal(s.k, k) {
			same = i
		}
	}
	for i, s := range slots {
		if i == same {
			out = append(out, s)
			continue
		}
		eq := And(s.g, eqVal(s.k, k))
		if eq != False {
			hit := And(mg, eq)
			s.v = iteVal(hit, v, s.v)
			any = Or(any, eq)
		}
		out = append(out, s)
	}
	if same >= 0 {
		s := out[same]
		put := And(mg, Not(any))
		if put == True {
			out[same] = mapSlot{True, k, v}
		} else {
			out[same] = mapSlot{Or(s.g, put), k, iteVal(put, v, s.v)}
		}
		return out
	}
	ng := And(mg, Not(any))
	if ng != False {
		out = append(out, mapSlot{ng, k, v})
	}
	return out
}

func (ip *Interp) mapDelete(c *Config, m *RefV, k Value) {
	for _, a := range m.alts {
		if a.obj == 0 {
			continue
		}
		o := c.mem.Get(a.obj)
		if o == nil {
			continue
		}
		var out []mapSlot
		for _, s := range o.slots {
			g := And(s.g, Not(And(a.g, eqVal(s.k, k))))
			if g == False {
				// keep the slot position for canonical keys; it is simply absent
			}
			out = append(out, mapSlot{g, s.k, s.v})
		}
		c.mem.Set(a.obj, &Obj{kind: 'm', slots: out})
	}
}

func (ip *Interp) mapLen(c *Config, m *RefV) *Term {
	var sums []*Term
	var gs []*Term
	for _, a := range m.alts {
		gs = append(gs, a.g)
		if a.obj == 0 {
			sums = append(sums, Int(0))
			continue
		}
		o := c.mem.Get(a.obj)
		if o == nil {
			sums = append(sums, Int(0))
			continue
		}
		// unary counter as an ite tree keeps the result leafy
		cnt := []*Term{True} // cnt[i]: at least i
		for _, s := range o.slots {
			if s.g == False {
				continue
			}
			n := make([]*Term, len(cnt)+1)
			for i := range n {
				var keep, inc *Term = False, False
				if i < len(cnt) {
					keep = cnt[i]
				}
				if i > 0 {
					inc = And(cnt[i-1], s.g)
				}
				n[i] = Or(keep, inc)
			}
			cnt = n
		}
		t := Int(0)
		for i := 1; i < len(cnt); i++ {
			t = Ite(cnt[i], Int(i), t)
		}
		sums = append(sums, t)
	}
	return unionTerm(len(sums), func(i int) (*Term, *Term) { return gs[i], sums[i] })
}

// ---- iteration --------------------------------------------------------------------------------

func (ip *Interp) next(c *Config, x *ssa.Next) bool {
	f := c.top()
	rg := x.Iter.(*ssa.Range)
	it := f.regs[f.fi.reg[rg]].(*IterV)
	tt := x.Type().(*types.Tuple)
	if x.IsString {
		return ip.nextStr(c, x, rg, it)
	}
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	m := ip.get(c, rg.X).(*RefV)
	mt := rg.X.Type().Underlying().(*types.Map)
	var pg []*Term // pg[i]: the position is exactly i
	pg = make([]*Term, len(it.keys)+1)
	for i := range pg {
		pg[i] = False
	}
	for _, l := range leavesOr(it.pos) {
		if i := int(l.t.val); i < len(pg) {
			pg[i] = Or(pg[i], l.g)
		}
	}
	type pick struct {
		g    *Term
		i    int
		k, v Value
	}
	var ps []pick
	at := False // position reached slot i without a yield
	for i, s := range it.keys {
		at = Or(at, pg[i])
		if at == False {
			continue
		}
		cur, present := ip.mapGet(c, m, s.k, mt.Elem())
		g := And(at, s.g, present)
		if g == False || And(c.guard, g) == False {
			continue
		}
		ps = append(ps, pick{g, i, s.k, cur})
		at = And(at, Not(And(s.g, present)))
	}
	end := Or(at, pg[len(it.keys)])
	f = c.top()
	k, v := Value(False), Value(False)
	if !isInvalid(kt) {
		k = ip.zero(kt)
	}
	if !isInvalid(vt) {
		v = ip.zero(vt)
	}
	ok := False
	np := Int(len(it.keys))
	for j := len(ps) - 1; j >= 0; j-- {
		p := ps[j]
		g := p.g
		if len(ps) == 1 && And(c.guard, end) == False {
			g = True
		}
		if !isInvalid(kt) {
			k = iteVal(g, p.k, k)
		}
		if !isInvalid(vt) {
			v = iteVal(g, p.v, v)
		}
		np = Ite(g, Int(p.i+1), np)
		ok = Or(ok, g)
	}
	f.regs[f.fi.reg[rg]] = &IterV{isMap: true, keys: it.keys, pos: np}
	f.regs[f.fi.reg[x]] = &AggV{[]Value{ok, k, v}}
	f.pc++
	return true
}

func isInvalid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}

// nextStr decodes one UTF-8 rune; all alternatives (position, width) fold into terms.
func (ip *Interp) nextStr(c *Config, x *ssa.Next, rg *ssa.Range, it *IterV) bool {
	type res struct {
		g            *Term
		ok, key, val *Term
		np           *Term
	}
	var rs []res
	for _, p := range leavesOr(it.pos) {
		i := int(p.t.val)
		for _, a := range it.str.alts {
			g := And(p.g, a.g)
			if g == False {
				continue
			}
			if i >= len(a.b) {
				rs = append(rs, res{g, False, Int(0), BVc(0, 32), Int(i)})
				continue
			}
			r, w := decodeRune(a.b[i:])
			rs = append(rs, res{g, True, Int(i), r, BVop(OAdd, Int(i), w)})
		}
	}
	un := func(sel func(r res) *Term) *Term {
		return unionTerm(len(rs), func(i int) (*Term, *Term) { return rs[i].g, sel(rs[i]) })
	}
	f := c.top()
	ok := un(func(r res) *Term { return r.ok })
	f.regs[f.fi.reg[x]] = &AggV{[]Value{ok, un(func(r res) *Term { return r.key }), un(func(r res) *Term { return r.val })}}
	f.regs[f.fi.reg[rg]] = &IterV{str: it.str, pos: un(func(r res) *Term { return r.np })}
	f.pc++
	return true
}

func leavesOr(t *Term) []leaf {
	if t.isConst() {
		return []leaf{{True, t}}
	}
	if !t.leafy {
		unsupported("iterator position not enumerable")
	}
	return leaves(t)
}

// decodeRune implements Go's UTF-8 decoding on symbolic bytes; returns rune (32 bit) and width (64 bit).
func decodeRune(b []*Term) (*Term, *Term) {
	z := func(t *Term) *Term { return Zext(t, 32) }
	c8 := func(v uint64) *Term { return BVc(v, 8) }
	rng := func(t *Term, lo, hi uint64) *Term { return And(Cmp(OUle, c8(lo), t), Cmp(OUle, t, c8(hi))) }
	bad := BVc(0xFFFD, 32)
	one := Int(1)
	b0 := b[0]
	r, w := bad, one
	low6 := func(t *Term) *Term { return BVop(OBand, z(t), BVc(0x3f, 32)) }
	shl := func(t *Term, n uint64) *Term { return BVop(OShl, t, BVc(n, 32)) }
	or := func(ts ...*Term) *Term {
		x := ts[0]
		for _, y := range ts[1:] {
			x = BVop(OBor, x, y)
		}
		return x
	}
	if len(b) >= 4 {
		b1ok := Or(And(Eq(b0, c8(0xF0)), rng(b[1], 0x90, 0xBF)), And(rng(b0, 0xF1, 0xF3), rng(b[1], 0x80, 0xBF)), And(Eq(b0, c8(0xF4)), rng(b[1], 0x80, 0x8F)))
		g := And(b1ok, rng(b[2], 0x80, 0xBF), rng(b[3], 0x80, 0xBF))
		v := or(shl(BVop(OBand, z(b0), BVc(7, 32)), 18), shl(low6(b[1]), 12), shl(low6(b[2]), 6), low6(b[3]))
		r, w = Ite(g, v, r), Ite(g, Int(4), w)
	}
	if len(b) >= 3 {
		b1ok := Or(And(Eq(b0, c8(0xE0)), rng(b[1], 0xA0, 0xBF)), And(Eq(b0, c8(0xED)), rng(b[1], 0x80, 0x9F)),
			And(Or(rng(b0, 0xE1, 0xEC), rng(b0, 0xEE, 0xEF)), rng(b[1], 0x80, 0xBF)))
		g := And(b1ok, rng(b[2], 0x80, 0xBF))
		v := or(shl(BVop(OBand, z(b0), BVc(15, 32)), 12), shl(low6(b[1]), 6), low6(b[2]))
		r, w = Ite(g, v, r), Ite(g, Int(3), w)
	}
	if len(b) >= 2 {
		g := And(rng(b0, 0xC2, 0xDF), rng(b[1], 0x80, 0xBF))
		v := or(shl(BVop(OBand, z(b0), BVc(31, 32)), 6), low6(b[1]))
		r, w = Ite(g, v, r), Ite(g, Int(2), w)
	}
	g := Cmp(OUlt, b0, c8(0x80))
	return Ite(g, z(b0), r), Ite(g, one, w)
}

// ---- type assertions -----------------------------------------------------------------------------

func (ip *Interp) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (ip *Interp) assertAlts(iv *IfaceV, target types.Type) (match *Term, vals []Value, gs []*Term, isIface bool) {
	match = False
	if it, ok := target.Underlying().(*types.Interface); ok {
		isIface = true
		var alts []IfaceAlt
		for _, a := range iv.alts {
			if a.typ != nil && ip.implements(a.typ, it) {
				match = Or(match, a.g)
				alts = append(alts, a)
			}
		}
		vals = []Value{&IfaceV{alts}}
		gs = []*Term{True}
		return
	}
	ct := canonType(target)
	for _, a := range iv.alts {
		if a.typ == ct {
			match = Or(match, a.g)
			vals = append(vals, a.val)
			gs = append(gs, a.g)
		}
	}
	return
}

func (ip *Interp) typeAssert(c *Config, x *ssa.TypeAssert) (Value, bool) {
	iv := ip.get(c, x.X).(*IfaceV)
	match, vals, gs, isIface := ip.assertAlts(iv, x.AssertedType)
	var v Value
	if isIface {
		v = vals[0]
		if len(v.(*IfaceV).alts) == 0 {
			v = nilIface
		}
	} else if len(vals) > 0 {
		v = unionVal(len(vals), func(i int) (*Term, Value) { return gs[i], vals[i] })
	} else {
		v = ip.zero(x.AssertedType)
	}
	if x.CommaOk {
		if match != True {
			v = iteVal(match, v, ip.zero(x.AssertedType))
		}
		return &AggV{[]Value{v, match}}, true
	}
	if !ip.checkPanic(c, Not(match), "interface conversion: wrong type for "+x.AssertedType.String()) {
		return nil, false
	}
	if isIface && len(v.(*IfaceV).alts) == 1 {
		a := v.(*IfaceV).alts[0]
		a.g = True
		v = &IfaceV{[]IfaceAlt{a}}
	}
	return v, true
}

// ---- operators --------------------------------------------------------------------------------------

func (ip *Interp) binop(c *Config, x *ssa.BinOp) (Value, bool) {
	a, b := ip.get(c, x.X), ip.get(c, x.Y)
	switch x.Op {
	case token.EQL:
		return eqVal(a, b), true
	case token.NEQ:
		return Not(eqVal(a, b)), true
	}
	if s, ok := a.(*StrV); ok {
		t := b.(*StrV)
		switch x.Op {
		case token.ADD:
			return strConcat(s, t), true
		case token.LSS:
			return strLt(s, t, false), true
		case token.LEQ:
			return strLt(s, t, true), true
		case token.GTR:
			return strLt(t, s, false), true
		case token.GEQ:
			return strLt(t, s, true), true
		}
	}
	p, q := a.(*Term), b.(*Term)
	signed := isSigned(x.X.Type())
	if p.sort.isFP() {
		switch x.Op {
		case token.ADD:
			return FBin(OFadd, p, q), true
		case token.SUB:
			return FBin(OFsub, p, q), true
		case token.MUL:
			return FBin(OFmul, p, q), true
		case token.QUO:
			return FBin(OFdiv, p, q), true
		case token.LSS:
			return FCmp(OFlt, p, q), true
		case token.LEQ:
			return FCmp(OFle, p, q), true
		case token.GTR:
			return FCmp(OFlt, q, p), true
		case token.GEQ:
			return FCmp(OFle, q, p), true
		}
		unsupported("float op %v", x.Op)
	}
	if p.sort == SBool {
		switch x.Op {
		case token.AND, token.LAND:
			return And(p, q), true
		case token.OR, token.LOR:
			return Or(p, q), true
		case token.XOR:
			return Not(Eq(p, q)), true
		case token.AND_NOT:
			return And(p, Not(q)), true
		}
	}
	lt, le := OUlt, OUle
	if signed {
		lt, le = OSlt, OSle
	}
	switch x.Op {
	case token.ADD:
		return BVop(OAdd, p, q), true
	case token.SUB:
		return BVop(OSub, p, q), true
	case token.MUL:
		return BVop(OMul, p, q), true
	case token.QUO, token.REM:
		if !ip.checkPanic(c, Eq(q, BVc(0, q.sort)), "integer divide by zero") {
			return nil, false
		}
		op := OUdiv
		if x.Op == token.REM {
			op = OUrem
		}
		if signed {
			op = OSdiv
			if x.Op == token.REM {
				op = OSrem
			}
		}
		return BVop(op, p, q), true
	case token.AND:
		return BVop(OBand, p, q), true
	case token.OR:
		return BVop(OBor, p, q), true
	case token.XOR:
		return BVop(OBxor, p, q), true
	case token.AND_NOT:
		return BVop(OBand, p, Bnot(q)), true
	case token.SHL, token.SHR:
		if isSigned(x.Y.Type()) {
			if !ip.checkPanic(c, Cmp(OSlt, q, BVc(0, q.sort)), "negative shift amount") {
				return nil, false
			}
		}
		big := False
		if q.sort > p.sort {
			big = Not(Cmp(OUlt, q, BVc(uint64(p.sort), q.sort)))
			q = Trunc(q, p.sort)
		} else {
			q = Zext(q, p.sort)
		}
		if x.Op == token.SHL {
			return Ite(big, BVc(0, p.sort), BVop(OShl, p, q)), true
		}
		if signed {
			return Ite(big, BVop(OAshr, p, BVc(uint64(p.sort)-1, p.sort)), BVop(OAshr, p, q)), true
		}
		return Ite(big, BVc(0, p.sort), BVop(OLshr, p, q)), true
	case token.LSS:
		return Cmp(lt, p, q), true
	case token.LEQ:
		return Cmp(le, p, q), true
	case token.GTR:
		return Cmp(lt, q, p), true
	case token.GEQ:
		return Cmp(le, q, p), true
	}
	unsupported("binop %v", x.Op)
	return nil, false
}

func (ip *Interp) unop(c *Config, x *ssa.UnOp) bool {
	switch x.Op {
	case token.MUL:
		r := ip.get(c, x.X).(*RefV)
		v, ok := ip.load(c, r)
		if !ok {
			return false
		}
		ip.set(c, x, v)
	case token.NOT:
		ip.set(c, x, Not(ip.get(c, x.X).(*Term)))
	case token.SUB:
		t := ip.get(c, x.X).(*Term)
		if t.sort.isFP() {
			if t.isConst() {
				if t.sort == SF32 {
					ip.set(c, x, F32c(-float32(fval(t))))
				} else {
					ip.set(c, x, F64c(-fval(t)))
				}
			} else {
				ip.set(c, x, mk(OFneg, t.sort, 0, "", t))
			}
		} else {
			ip.set(c, x, Neg(t))
		}
	case token.XOR:
		ip.set(c, x, Bnot(ip.get(c, x.X).(*Term)))
	case token.ARROW:
		return ip.recv(c, x)
	default:
		unsupported("unop %v", x.Op)
	}
	c.top().pc++
	return true
}

func (ip *Interp) convert(c *Config, v Value, from, to types.Type) (Value, bool) {
	fu, tu := from.Underlying(), to.Underlying()
	if fs, ok := sortOf(from); ok {
		if ts, ok2 := sortOf(to); ok2 {
			t := v.(*Term)
			switch {
			case fs.isFP() && ts.isFP():
				if fs == ts {
					return t, true
				}
				if t.isConst() {
					if ts == SF32 {
						return F32c(float32(fval(t))), true
					}
					return F64c(fval(t)), true
				}
				unsupported("float width conversion")
			case fs.isFP():
				if t.isConst() {
					return BVc(uint64(int64(fval(t))), ts), true
				}
				return mk(OFtoS, ts, 0, "", t), true
			case ts.isFP():
				if t.isConst() {
					var f float64
					if isSigned(from) {
						f = float64(t.sval())
					} else {
						f = float64(t.val)
					}
					if ts == SF32 {
						return F32c(float32(f)), true
					}
					return F64c(f), true
				}
				if isSigned(from) {
					return mk(OFfromS, ts, 0, "", t), true
				}
				return mk(OFfromU, ts, 0, "", t), true
			}
			if ts == fs {
				return t, true
			}
			if ts < fs {
				return Trunc(t, ts), true
			}
			if isSigned(from) {
				return Sext(t, ts), true
			}
			return Zext(t, ts), true
		}
		// integer -> string
		if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			t := v.(*Term)
			if t.isConst() {
				return strConst(string(rune(t.sval()))), true
			}
			return runeToStr(Zext(Trunc(t, minSort(t.sort, 32)), 32)), true
		}
	}
	if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
		if sl, ok := tu.(*types.Slice); ok {
			s := v.(*StrV)
			if es, _ := sortOf(sl.Elem()); es == 8 {
				var alts []SliceAlt
				for i, a := range s.alts {
					id := ip.newObj(c, i)
					f := make([]Value, len(a.b))
					for k := range f {
						f[k] = a.b[k]
					}
					c.mem.Set(id, &Obj{kind: 'c', val: &AggV{f}})
					alts = append(alts, SliceAlt{a.g, id, nil, 0, len(f), len(f)})
				}
				return &SliceV{alts}, true
			}
			if str, ok := s.concrete(); ok {
				id := ip.newObj(c, 0)
				rs := []rune(str)
				f := make([]Value, len(rs))
				for k := range f {
					f[k] = BVc(uint64(rs[k]), 32)
				}
				c.mem.Set(id, &Obj{kind: 'c', val: &AggV{f}})
				return &SliceV{[]SliceAlt{{True, id, nil, 0, len(f), len(f)}}}, true
			}
			unsupported("symbolic string to []rune")
		}
		return v, true
	}
	if sl, ok := fu.(*types.Slice); ok {
		if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			s := v.(*SliceV)
			es, _ := sortOf(sl.Elem())
			if es == 8 {
				return ip.bytesToStr(c, s), true
			}
			out := &StrV{}
			for _, a := range s.alts {
				acc := strConst("")
				for _, e := range ip.sliceElems(c, a) {
					t := e.(*Term)
					if t.isConst() {
						acc = strConcat(acc, strConst(string(rune(t.sval()))))
					} else {
						acc = strConcat(acc, runeToStr(t))
					}
				}
				if len(out.alts) == 0 {
					out = acc
				} else {
					out = iteStr(a.g, acc, out)
				}
			}
			return out, true
		}
		return v, true
	}
	// pointer / unsafe.Pointer / same underlying
	return v, true
}

func minSort(a, b Sort) Sort {
	if a < b {
		return a
	}
	return b
}

func runeToStr(r *Term) *StrV {
	c := func(v uint64) *Term { return BVc(v, 32) }
	b := func(t *Term) *Term { return Trunc(t, 8) }
	sh := func(t *Term, n uint64) *Term { return BVop(OLshr, t, c(n)) }
	lo := func(t *Term) *Term { return BVop(OBor, BVop(OBand, t, c(0x3f)), c(0x80)) }
	bad := Or(Cmp(OUlt, c(0x10FFFF), r), And(Cmp(OUle, c(0xD800), r), Cmp(OUle, r, c(0xDFFF))))
	g1 := Cmp(OUlt, r, c(0x80))
	g2 := And(Not(g1), Cmp(OUlt, r, c(0x800)))
	g3 := And(Not(bad), Not(g1), Not(g2), Cmp(OUlt, r, c(0x10000)))
	g4 := And(Not(bad), Not(Cmp(OUlt, r, c(0x10000))))
	r3 := Ite(bad, c(0xFFFD), r)
	alts := []StrAlt{
		{g1, []*Term{b(r)}},
		{g2, []*Term{b(BVop(OBor, sh(r, 6), c(0xC0))), b(lo(r))}},
		{Or(g3, bad), []*Term{b(BVop(OBor, sh(r3, 12), c(0xE0))), b(lo(sh(r3, 6))), b(lo(r3))}},
		{g4, []*Term{b(BVop(OBor, sh(r, 18), c(0xF0))), b(lo(sh(r, 12))), b(lo(sh(r, 6))), b(lo(r))}},
	}
	out := &StrV{}
	for _, a := range alts {
		if a.g != False {
			out.alts = append(out.alts, a)
		}
	}
	return out
}

func (ip *Interp) bytesToStr(c *Config, s *SliceV) *StrV {
	byLen := map[int]int{}
	var out []StrAlt
	for _, a := range s.alts {
		es := ip.sliceElems(c, a)
		b := make([]*Term, len(es))
		for i := range es {
			b[i] = es[i].(*Term)
		}
		if k, ok := byLen[len(b)]; ok {
			o := out[k]
			m := make([]*Term, len(b))
			for z := range b {
				m[z] = Ite(a.g, b[z], o.b[z])
			}
			out[k] = StrAlt{Or(o.g, a.g), m}
		} else {
			byLen[len(b)] = len(out)
			out = append(out, StrAlt{a.g, b})
		}
	}
	sort.Slice(out, func(i, j int) bool { return len(out[i].b) < len(out[j].b) })
	return &StrV{out}
}
