package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- per-function information: registers, weak topological order, liveness ---

type blockInfo struct {
	loops []int   // loop ids, outermost first
	pos   []int32 // position template; iteration slots are at odd indices
	head  int     // loop id if this block heads a loop, else -1
}

type FnInfo struct {
	fn     *ssa.Function
	id     int
	nregs  int
	reg    map[ssa.Value]int
	blocks []blockInfo
	nloops int
	fine   bool // memory accesses are scheduling points
	liveIn []bitset
	use    []bitset
	live   map[[2]int]bitset
}

type bitset []uint64

func newBits(n int) bitset      { return make(bitset, (n+63)/64) }
func (b bitset) has(i int) bool { return b[i/64]>>(uint(i)%64)&1 == 1 }
func (b bitset) set(i int)      { b[i/64] |= 1 << (uint(i) % 64) }
func (b bitset) clear(i int)    { b[i/64] &^= 1 << (uint(i) % 64) }
func (b bitset) clone() bitset  { return append(bitset(nil), b...) }
func (b bitset) or(c bitset) (ch bool) {
	for i := range b {
		n := b[i] | c[i]
		if n != b[i] {
			b[i] = n
			ch = true
		}
	}
	return
}

// fineIn lists the packages (by path suffix) executed in the fine mode
var fineIn string

var fnInfos = map[*ssa.Function]*FnInfo{}

func infoOf(fn *ssa.Function) *FnInfo {
	if fi, ok := fnInfos[fn]; ok {
		return fi
	}
	fi := &FnInfo{fn: fn, id: len(fnInfos) + 1, reg: map[ssa.Value]int{}, live: map[[2]int]bitset{}}
	fnInfos[fn] = fi
	if fineIn != "" {
		f := fn
		for f.Parent() != nil {
			f = f.Parent()
		}
		for f.Origin() != nil {
			f = f.Origin()
		}
		for _, s := range strings.Split(fineIn, ",") {
			fi.fine = fi.fine || f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), s)
		}
	}
	add := func(v ssa.Value) {
		fi.reg[v] = fi.nregs
		fi.nregs++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.computeWTO()
	fi.computeLive()
	return fi
}

func (fi *FnInfo) computeWTO() {
	n := len(fi.fn.Blocks)
	fi.blocks = make([]blockInfo, n)
	for i := range fi.blocks {
		fi.blocks[i].head = -1
	}
	// reverse post order for head selection
	rpo := make([]int, n)
	{
		seen := make([]bool, n)
		var order []int
		var dfs func(b *ssa.BasicBlock)
		dfs = func(b *ssa.BasicBlock) {
			seen[b.Index] = true
			for _, s := range b.Succs {
				if !seen[s.Index] {
					dfs(s)
				}
			}
			order = append(order, b.Index)
		}
		for _, b := range fi.fn.Blocks {
			if !seen[b.Index] {
				dfs(b)
			}
		}
		for i, b := range order {
			rpo[b] = n - i
		}
	}
	var comp func(nodes map[int]bool, removedHead int, prefix []int32, loops []int)
	comp = func(nodes map[int]bool, removedHead int, prefix []int32, loops []int) {
		// Tarjan SCC over nodes, edges into removedHead dropped
		index := map[int]int{}
		low := map[int]int{}
		on := map[int]bool{}
		var st []int
		cnt := 0
		var sccs [][]int
		var strong func(v int)
		strong = func(v int) {
			index[v] = cnt
			low[v] = cnt
			cnt++
			st = append(st, v)
			on[v] = true
			for _, s := range fi.fn.Blocks[v].Succs {
				w := s.Index
				if !nodes[w] || w == removedHead {
					continue
				}
				if _, ok := index[w]; !ok {
					strong(w)
					if low[w] < low[v] {
						low[v] = low[w]
					}
				} else if on[w] && index[w] < low[v] {
					low[v] = index[w]
				}
			}
			if low[v] == index[v] {
				var c []int
				for {
					w := st[len(st)-1]
					st = st[:len(st)-1]
					on[w] = false
					c = append(c, w)
					if w == v {
						break
					}
				}
				sccs = append(sccs, c)
			}
		}
		var ns []int
		for v := range nodes {
			ns = append(ns, v)
		}
		sort.Slice(ns, func(i, j int) bool { return rpo[ns[i]] < rpo[ns[j]] })
		for _, v := range ns {
			if _, ok := index[v]; !ok {
				strong(v)
			}
		}
		for k := len(sccs) - 1; k >= 0; k-- {
			c := sccs[k]
			pos := int32(len(sccs) - k)
			self := false
			if len(c) == 1 {
				for _, s := range fi.fn.Blocks[c[0]].Succs {
					if s.Index == c[0] && c[0] != removedHead {
						self = true
					}
				}
			}
			if len(c) == 1 && !self {
				bi := &fi.blocks[c[0]]
				bi.pos = append(append([]int32(nil), prefix...), pos)
				bi.loops = append([]int(nil), loops...)
				continue
			}
			head := c[0]
			for _, v := range c {
				if rpo[v] < rpo[head] {
					head = v
				}
			}
			id := fi.nloops
			fi.nloops++
			sub := map[int]bool{}
			for _, v := range c {
				sub[v] = true
			}
			np := append(append([]int32(nil), prefix...), pos, 0)
			nl := append(append([]int(nil), loops...), id)
			hb := head
			// the head precedes everything in its component
			fi.blocks[hb].head = id
			fi.blocks[hb].loops = nl
			fi.blocks[hb].pos = append(append([]int32(nil), np...), 0)
			delete(sub, hb)
			comp(sub, -1, np, nl)
		}
	}
	all := map[int]bool{}
	for i := 0; i < n; i++ {
		all[i] = true
	}
	comp(all, -1, nil, nil)
}

func operands(in ssa.Instruction) []ssa.Value {
	var buf [16]*ssa.Value
	var out []ssa.Value
	for _, p := range in.Operands(buf[:0]) {
		if p != nil && *p != nil {
			out = append(out, *p)
		}
	}
	// stepping an iterator looks at what it ranges over
	if nx, ok := in.(*ssa.Next); ok {
		if rg, ok := nx.Iter.(*ssa.Range); ok {
			out = append(out, rg.X)
		}
	}
	return out
}

func (fi *FnInfo) computeLive() {
	n := len(fi.fn.Blocks)
	fi.liveIn = make([]bitset, n)
	for i := range fi.liveIn {
		fi.liveIn[i] = newBits(fi.nregs)
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			l := fi.liveBack(i, fi.firstNonPhi(i))
			if fi.liveIn[i].or(l) {
				changed = true
			}
		}
	}
	fi.live = map[[2]int]bitset{}
}

func (fi *FnInfo) firstNonPhi(b int) int {
	k := 0
	for _, in := range fi.fn.Blocks[b].Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		k++
	}
	return k
}

// liveBack computes the registers live just before instruction pc of block b (after phis).
func (fi *FnInfo) liveBack(b, pc int) bitset {
	blk := fi.fn.Blocks[b]
	l := newBits(fi.nregs)
	for _, s := range blk.Succs {
		t := fi.liveIn[s.Index].clone()
		// phi results are defined along this edge
		for _, in := range s.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if r, ok := fi.reg[phi]; ok {
				t.clear(r)
			}
		}
		l.or(t)
	}
	for _, s := range blk.Succs {
		for pi, p := range s.Preds {
			if p != blk {
				continue
			}
			for _, in := range s.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if r, ok := fi.reg[phi.Edges[pi]]; ok {
					l.set(r)
				}
			}
		}
	}
	if fi.fn.Recover != nil && blk != fi.fn.Recover {
		l.or(fi.liveIn[fi.fn.Recover.Index])
	}
	for i := len(blk.Instrs) - 1; i >= pc; i-- {
		in := blk.Instrs[i]
		if v, ok := in.(ssa.Value); ok {
			l.clear(fi.reg[v])
		}
		for _, o := range operands(in) {
			if r, ok := fi.reg[o]; ok {
				l.set(r)
			}
		}
	}
	return l
}

func (fi *FnInfo) liveAt(b, pc int) bitset {
	k := [2]int{b, pc}
	if l, ok := fi.live[k]; ok {
		return l
	}
	l := fi.liveBack(b, pc)
	fi.live[k] = l
	return l
}
