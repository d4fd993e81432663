package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// ---- hash-consed SMT terms -------------------------------------------------

type Op uint8

const (
	OConst Op = iota // constant of sort (val)
	OVar
	OAtom // opaque byte (a token standing for an encoded message), all distinct
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	ONeg
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OExtract // val = hi<<8|lo
	OZext
	OSext
	OFlt // float <
	OFle
	OFeq
	OFadd
	OFsub
	OFmul
	OFdiv
	OFneg
	OFfromS // signed bv -> float
	OFfromU
	OFtoS // float -> signed bv (rtz)
	OFisNaN
)

var opName = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OBnot: "bvnot", ONeg: "bvneg",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OFlt: "fp.lt", OFle: "fp.leq", OFeq: "fp.eq", OFneg: "fp.neg", OFisNaN: "fp.isNaN"}

// Sort: 0 = Bool, 1..64 = BV width, 132 = Float32, 164 = Float64.
type Sort uint8

const (
	SBool Sort = 0
	SF32  Sort = 132
	SF64  Sort = 164
)

func BV(w int) Sort { return Sort(w) }

func (s Sort) isFP() bool { return s == SF32 || s == SF64 }

type Term struct {
	id    int
	op    Op
	sort  Sort
	leafy bool // const/atom, or an ite tree whose leaves are all const/atom
	lsize int32
	val   uint64
	name  string
	args  []*Term
	neg   *Term
}

type termKey struct {
	op         Op
	sort       Sort
	val        uint64
	a0, a1, a2 int
	more       string
}

var (
	termTab = map[termKey]*Term{}
	termSeq = 0
	allVars []*Term
	True    = mk(OConst, SBool, 1, "")
	False   = mk(OConst, SBool, 0, "")
)

func mk(op Op, s Sort, val uint64, name string, args ...*Term) *Term {
	switch op {
	case OFadd, OFsub, OFmul, OFdiv, OFfromS, OFfromU, OFtoS:
		fpArith = true
	}
	k := termKey{op: op, sort: s, val: val, a0: -1, a1: -1, a2: -1, more: name}
	switch {
	case len(args) <= 3:
		if len(args) > 0 {
			k.a0 = args[0].id
		}
		if len(args) > 1 {
			k.a1 = args[1].id
		}
		if len(args) > 2 {
			k.a2 = args[2].id
		}
	default:
		var sb strings.Builder
		for _, a := range args {
			i := a.id
			sb.WriteByte(byte(i))
			sb.WriteByte(byte(i >> 8))
			sb.WriteByte(byte(i >> 16))
			sb.WriteByte(byte(i >> 24))
		}
		k.more = sb.String()
		k.a0 = -2 - len(args)
	}
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{id: termSeq, op: op, sort: s, val: val, name: name, args: append([]*Term(nil), args...)}
	termSeq++
	switch op {
	case OConst, OAtom:
		t.leafy = true
		t.lsize = 1
	case OIte:
		if s != SBool && args[1].leafy && args[2].leafy && args[1].lsize+args[2].lsize <= 64 {
			t.leafy = true
			t.lsize = args[1].lsize + args[2].lsize
		}
	}
	termTab[k] = t
	return t
}

var varCount = map[string]int{}

func NewVar(name string, s Sort) *Term {
	n := varCount[name]
	varCount[name]++
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	t := mk(OVar, s, 0, name)
	allVars = append(allVars, t)
	return t
}

func mask(w Sort) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func BVc(v uint64, w Sort) *Term {
	if w == 0 || w > 64 {
		panic("BVc width")
	}
	return mk(OConst, w, v&mask(w), "")
}
func Int(v int) *Term { return BVc(uint64(v), 64) }
func Boolc(b bool) *Term {
	if b {
		return True
	}
	return False
}
func F32c(f float32) *Term { return mk(OConst, SF32, uint64(math.Float32bits(f)), "") }
func F64c(f float64) *Term { return mk(OConst, SF64, math.Float64bits(f), "") }

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t == True }
func (t *Term) isFalse() bool { return t == False }
func (t *Term) sval() int64   { return sext(t.val, t.sort) }

func sext(v uint64, w Sort) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func Atom(snap int) *Term {
	return mk(OAtom, BV(8), uint64(snap), "")
}

// ---- booleans --------------------------------------------------------------

func Not(a *Term) *Term {
	if a.neg != nil {
		return a.neg
	}
	var r *Term
	switch a.op {
	case OConst:
		if a == True {
			r = False
		} else {
			r = True
		}
	case ONot:
		r = a.args[0]
	case OAnd:
		xs := make([]*Term, len(a.args))
		for i, x := range a.args {
			xs[i] = Not(x)
		}
		sortTerms(xs)
		r = mk(OOr, SBool, 0, "", xs...)
	case OOr:
		xs := make([]*Term, len(a.args))
		for i, x := range a.args {
			xs[i] = Not(x)
		}
		sortTerms(xs)
		r = mk(OAnd, SBool, 0, "", xs...)
	default:
		r = mk(ONot, SBool, 0, "", a)
	}
	a.neg = r
	if r.neg == nil {
		r.neg = a
	}
	return r
}

func sortTerms(xs []*Term) {
	sort.Slice(xs, func(i, j int) bool { return xs[i].id < xs[j].id })
}

const flatMax = 24

func containsTerm(xs []*Term, t *Term) bool {
	lo, hi := 0, len(xs)
	for lo < hi {
		m := (lo + hi) / 2
		if xs[m].id < t.id {
			lo = m + 1
		} else {
			hi = m
		}
	}
	return lo < len(xs) && xs[lo] == t
}

func And(ts ...*Term) *Term { return nary(OAnd, ts) }
func Or(ts ...*Term) *Term  { return nary(OOr, ts) }
func Implies(a, b *Term) *Term {
	return Or(Not(a), b)
}

func nary(op Op, ts []*Term) *Term {
	zero, one := False, True // absorbing, neutral
	dual := OOr
	if op == OOr {
		zero, one = True, False
		dual = OAnd
	}
	var xs []*Term
	n := 0
	for _, t := range ts {
		if t.op == op {
			n += len(t.args)
		} else {
			n++
		}
	}
	for _, t := range ts {
		if t == zero {
			return zero
		}
		if t == one {
			continue
		}
		if t.op == op && (n <= flatMax || len(ts) == 1) {
			xs = append(xs, t.args...)
		} else {
			xs = append(xs, t)
		}
	}
	for iter := 0; iter < 4; iter++ {
		if len(xs) == 0 {
			return one
		}
		if len(xs) == 1 {
			return xs[0]
		}
		sortTerms(xs)
		j := 1
		for i := 1; i < len(xs); i++ {
			if xs[i] != xs[j-1] {
				xs[j] = xs[i]
				j++
			}
		}
		xs = xs[:j]
		// complements
		for _, x := range xs {
			if x.neg != nil && containsTerm(xs, x.neg) {
				return zero
			}
		}
		changed := false
		// nested same-op (unflattened) members: look one level into them
		for _, x := range xs {
			if x.op == op {
				for _, y := range x.args {
					if y.neg != nil && containsTerm(xs, y.neg) {
						return zero
					}
				}
			}
		}
		// drop members contained in a nested same-op member
		{
			out := xs[:0:0]
			for _, x := range xs {
				drop := false
				for _, z := range xs {
					if z != x && z.op == op && containsTerm(z.args, x) {
						drop = true
						break
					}
				}
				if !drop {
					out = append(out, x)
				} else {
					changed = true
				}
			}
			xs = out
		}
		// absorption / unit resolution against dual members
		for i := 0; i < len(xs); i++ {
			x := xs[i]
			if x.op != dual {
				continue
			}
			drop := false
			var rest []*Term
			resolved := false
			for _, y := range x.args {
				if containsTerm(xs, y) {
					drop = true
					break
				}
				if y.neg != nil && containsTerm(xs, y.neg) {
					resolved = true
					continue
				}
				// y itself may be an op-node with members falsified here
				if y.op == op {
					f := false
					all := true
					for _, z := range y.args {
						if z.neg != nil && containsTerm(xs, z.neg) {
							f = true
							break
						}
						if !containsTerm(xs, z) {
							all = false
						}
					}
					if f {
						resolved = true
						continue
					}
					if all {
						drop = true
						break
					}
				}
				rest = append(rest, y)
			}
			if drop {
				xs = append(append([]*Term{}, xs[:i]...), xs[i+1:]...)
				i--
				changed = true
				continue
			}
			if resolved {
				nx := nary(dual, rest)
				if nx == zero {
					return zero
				}
				ys := append([]*Term{}, xs[:i]...)
				ys = append(ys, xs[i+1:]...)
				if nx != one {
					if nx.op == op && len(ys)+len(nx.args) <= flatMax {
						ys = append(ys, nx.args...)
					} else {
						ys = append(ys, nx)
					}
				}
				xs = ys
				changed = true
				break
			}
		}
		// factoring: two dual members differing in one complementary literal
		if !changed && len(xs) <= 12 {
		outer:
			for i := 0; i < len(xs); i++ {
				for k := i + 1; k < len(xs); k++ {
					if m := factor(dual, xs[i], xs[k]); m != nil {
						ys := []*Term{m}
						for q, x := range xs {
							if q != i && q != k {
								ys = append(ys, x)
							}
						}
						if m == zero {
							return zero
						}
						xs = nil
						for _, y := range ys {
							if y == one {
								continue
							}
							if y.op == op {
								xs = append(xs, y.args...)
							} else {
								xs = append(xs, y)
							}
						}
						changed = true
						break outer
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	if len(xs) == 0 {
		return one
	}
	if len(xs) == 1 {
		return xs[0]
	}
	sortTerms(xs)
	return mk(op, SBool, 0, "", xs...)
}

// factor: for op=OR (dual=AND): (S∧x)∨(S∧¬x) = S ; also S ∨ (S∧..)=S handled by absorption.
func factor(dual Op, a, b *Term) *Term {
	var as, bs []*Term
	if a.op == dual {
		as = a.args
	} else {
		as = []*Term{a}
	}
	if b.op == dual {
		bs = b.args
	} else {
		bs = []*Term{b}
	}
	if len(as) != len(bs) || len(as) < 2 {
		return nil
	}
	var da, db *Term
	i, j := 0, 0
	for i < len(as) || j < len(bs) {
		switch {
		case j >= len(bs) || (i < len(as) && as[i].id < bs[j].id):
			if da != nil {
				return nil
			}
			da = as[i]
			i++
		case i >= len(as) || bs[j].id < as[i].id:
			if db != nil {
				return nil
			}
			db = bs[j]
			j++
		default:
			i++
			j++
		}
	}
	if da == nil || db == nil || da.neg != db {
		return nil
	}
	var rest []*Term
	for _, x := range as {
		if x != da {
			rest = append(rest, x)
		}
	}
	if len(rest) == 1 {
		return rest[0]
	}
	return mk(dual, SBool, 0, "", rest...)
}

func Ite(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %d %d", a.sort, b.sort))
	}
	if a.sort == SBool {
		switch {
		case a == True && b == False:
			return c
		case a == False && b == True:
			return Not(c)
		case a == True:
			return Or(c, b)
		case a == False:
			return And(Not(c), b)
		case b == True:
			return Or(Not(c), a)
		case b == False:
			return And(c, a)
		}
		if a == c {
			return Or(c, b)
		}
		if b == c {
			return And(c, a)
		}
		if a.neg != nil && a.neg == b {
			return Eq(c, a)
		}
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == c {
		return Ite(c, a.args[1], b)
	}
	if b.op == OIte && b.args[0] == c {
		return Ite(c, a, b.args[2])
	}
	if a.op == OIte && a.args[2] == b { // ite(c, ite(d,x,b), b)
		return Ite(And(c, a.args[0]), a.args[1], b)
	}
	if a.op == OIte && a.args[1] == b { // ite(c, ite(d,b,x), b)
		return Ite(And(c, Not(a.args[0])), a.args[2], b)
	}
	if b.op == OIte && b.args[1] == a { // ite(c,a,ite(d,a,x))
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	if b.op == OIte && b.args[2] == a { // ite(c,a,ite(d,x,a))
		return Ite(And(Not(c), b.args[0]), b.args[1], a)
	}
	return mk(OIte, a.sort, 0, "", c, a, b)
}

// leaves enumerates the (guard, leaf) pairs of a leafy term.
type leaf struct {
	g *Term
	t *Term
}

func leaves(t *Term) []leaf {
	m := map[*Term]*Term{}
	var order []*Term
	var rec func(t, g *Term)
	rec = func(t, g *Term) {
		if g == False {
			return
		}
		if t.op == OIte && t.sort != SBool {
			rec(t.args[1], And(g, t.args[0]))
			rec(t.args[2], And(g, Not(t.args[0])))
			return
		}
		if o, ok := m[t]; ok {
			m[t] = Or(o, g)
		} else {
			m[t] = g
			order = append(order, t)
		}
	}
	rec(t, True)
	out := make([]leaf, 0, len(order))
	for _, x := range order {
		if m[x] != False {
			out = append(out, leaf{m[x], x})
		}
	}
	return out
}

func Eq(a, b *Term) *Term {
	if a == b {
		if a.sort.isFP() {
			panic("Eq on float")
		}
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %d %d", a.sort, b.sort))
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if a == False {
			return Not(b)
		}
		if b == True {
			return a
		}
		if b == False {
			return Not(a)
		}
		if a.neg == b && b != nil && a.neg != nil {
			return False
		}
	}
	ac := a.op == OConst || a.op == OAtom
	bc := b.op == OConst || b.op == OAtom
	if ac && bc {
		return False
	}
	if a.sort != SBool {
		if a.leafy && b.leafy {
			if a.lsize*b.lsize <= 256 || ac || bc {
				if ac {
					a, b = b, a
				}
				return eqLeafy(a, b)
			}
		}
		if bc && a.op == OIte {
			a, b = b, a
			ac, bc = bc, ac
		}
		if ac && b.op == OIte {
			// push constant equality into an ite when one branch decides
			l, r := b.args[1], b.args[2]
			if l.leafy || r.leafy {
				return Ite(b.args[0], Eq(l, a), Eq(r, a))
			}
		}
		if ac && b.op == OZext {
			iw := b.args[0].sort
			if a.val>>iw != 0 {
				return False
			}
			return Eq(b.args[0], BVc(a.val, iw))
		}
		if ac && (b.op == OAdd) && b.args[1].isConst() {
			return Eq(b.args[0], BVc(a.val-b.args[1].val, a.sort))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, SBool, 0, "", a, b)
}

func eqLeafy(a, b *Term) *Term {
	if b.op == OConst || b.op == OAtom {
		if a.op == OConst || a.op == OAtom {
			return Boolc(a == b)
		}
		return Ite(a.args[0], eqLeafy(a.args[1], b), eqLeafy(a.args[2], b))
	}
	return Ite(b.args[0], eqLeafy1(a, b.args[1]), eqLeafy1(a, b.args[2]))
}
func eqLeafy1(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.op == OConst || a.op == OAtom {
		return eqLeafy(b, a)
	}
	return eqLeafy(a, b)
}

// ---- bit-vectors -----------------------------------------------------------

func foldBV(op Op, w Sort, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUdiv:
		if y == 0 {
			return 0, false
		}
		return x / y, true
	case OUrem:
		if y == 0 {
			return 0, false
		}
		return x % y, true
	case OSdiv:
		if y == 0 {
			return 0, false
		}
		sx, sy := sext(x, w), sext(y, w)
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OSrem:
		if y == 0 {
			return 0, false
		}
		sx, sy := sext(x, w), sext(y, w)
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OBand:
		return x & y, true
	case OBor:
		return x | y, true
	case OBxor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m, true
	}
	return 0, false
}

func BVop(op Op, a, b *Term) *Term {
	w := a.sort
	if b.sort != w {
		panic(fmt.Sprintf("bvop %s sorts %d %d", opName[op], a.sort, b.sort))
	}
	if a.op == OConst && b.op == OConst {
		if v, ok := foldBV(op, w, a.val, b.val); ok {
			return BVc(v, w)
		}
	}
	// lift over const-leaf ites
	if a.leafy && b.leafy && !hasAtom(a) && !hasAtom(b) && a.lsize*b.lsize <= 48 {
		return lift2(a, b, func(x, y *Term) *Term {
			if v, ok := foldBV(op, w, x.val, y.val); ok {
				return BVc(v, w)
			}
			return mk(op, w, 0, "", x, y)
		})
	}
	switch op {
	case OAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.args[1].op == OConst {
				return BVop(OAdd, a.args[0], BVc(a.args[1].val+b.val, w))
			}
		}
	case OSub:
		if b.op == OConst {
			return BVop(OAdd, a, BVc(-b.val, w))
		}
		if a == b {
			return BVc(0, w)
		}
		if a.op == OAdd && a.args[0] == b {
			return a.args[1]
		}
		if a.op == OAdd && a.args[1] == b {
			return a.args[0]
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OBand:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBor, OBxor:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.val == 0 {
			return a
		}
		if a == b {
			if op == OBor {
				return a
			}
			return BVc(0, w)
		}
	case OShl, OLshr, OAshr:
		if b.op == OConst && b.val == 0 {
			return a
		}
	case OUdiv, OSdiv:
		if b.op == OConst && b.val == 1 {
			return a
		}
	}
	return mk(op, w, 0, "", a, b)
}

func hasAtom(t *Term) bool {
	if t.op == OAtom {
		return true
	}
	if t.op == OIte {
		return hasAtom(t.args[1]) || hasAtom(t.args[2])
	}
	return false
}

func lift2(a, b *Term, f func(x, y *Term) *Term) *Term {
	if a.op == OIte {
		return Ite(a.args[0], lift2(a.args[1], b, f), lift2(a.args[2], b, f))
	}
	if b.op == OIte {
		return Ite(b.args[0], lift2(a, b.args[1], f), lift2(a, b.args[2], f))
	}
	return f(a, b)
}
func lift1(a *Term, f func(x *Term) *Term) *Term {
	if a.op == OIte {
		return Ite(a.args[0], lift1(a.args[1], f), lift1(a.args[2], f))
	}
	return f(a)
}

func foldCmp(op Op, w Sort, x, y uint64) bool {
	switch op {
	case OUlt:
		return x < y
	case OUle:
		return x <= y
	case OSlt:
		return sext(x, w) < sext(y, w)
	}
	return sext(x, w) <= sext(y, w)
}

func Cmp(op Op, a, b *Term) *Term {
	w := a.sort
	if b.sort != w {
		panic("cmp sorts")
	}
	if a == b {
		return Boolc(op == OUle || op == OSle)
	}
	if a.op == OConst && b.op == OConst {
		return Boolc(foldCmp(op, w, a.val, b.val))
	}
	if a.leafy && b.leafy && !hasAtom(a) && !hasAtom(b) && a.lsize*b.lsize <= 64 {
		return lift2(a, b, func(x, y *Term) *Term { return Boolc(foldCmp(op, w, x.val, y.val)) })
	}
	// zero-extended operand against a constant out of its range
	if a.op == OZext && b.op == OConst {
		iw := a.args[0].sort
		lim := uint64(1) << iw
		if op == OUlt || op == OSlt {
			if sext(b.val, w) >= int64(lim) || (op == OUlt && b.val >= lim) {
				return True
			}
			if op == OSlt && sext(b.val, w) <= 0 {
				return False
			}
			if b.val < lim {
				return Cmp(OUlt, a.args[0], BVc(b.val, iw))
			}
		}
		if op == OUle || op == OSle {
			if op == OSle && sext(b.val, w) < 0 {
				return False
			}
			if b.val < lim {
				return Cmp(OUle, a.args[0], BVc(b.val, iw))
			}
			return True
		}
	}
	if b.op == OZext && a.op == OConst {
		iw := b.args[0].sort
		lim := uint64(1) << iw
		if op == OSlt || op == OSle {
			if sext(a.val, w) < 0 {
				return True
			}
		}
		if a.val < lim {
			if op == OUlt || op == OSlt {
				return Cmp(OUlt, BVc(a.val, iw), b.args[0])
			}
			return Cmp(OUle, BVc(a.val, iw), b.args[0])
		}
		return False
	}
	return mk(op, SBool, 0, "", a, b)
}

func Zext(a *Term, w Sort) *Term {
	if a.sort == w {
		return a
	}
	if a.op == OConst {
		return BVc(a.val, w)
	}
	if a.leafy && !hasAtom(a) {
		return lift1(a, func(x *Term) *Term { return BVc(x.val, w) })
	}
	return mk(OZext, w, 0, "", a)
}
func Sext(a *Term, w Sort) *Term {
	if a.sort == w {
		return a
	}
	if a.op == OConst {
		return BVc(uint64(sext(a.val, a.sort)), w)
	}
	if a.leafy && !hasAtom(a) {
		return lift1(a, func(x *Term) *Term { return BVc(uint64(sext(x.val, x.sort)), w) })
	}
	if a.op == OZext {
		return Zext(a.args[0], w)
	}
	return mk(OSext, w, 0, "", a)
}
func Trunc(a *Term, w Sort) *Term {
	if a.sort == w {
		return a
	}
	if a.op == OConst {
		return BVc(a.val, w)
	}
	if a.leafy && !hasAtom(a) {
		return lift1(a, func(x *Term) *Term { return BVc(x.val, w) })
	}
	if a.op == OZext || a.op == OSext {
		in := a.args[0]
		if in.sort == w {
			return in
		}
		if in.sort > w {
			return Trunc(in, w)
		}
		if a.op == OZext {
			return Zext(in, w)
		}
		return Sext(in, w)
	}
	return mk(OExtract, w, uint64(w-1)<<8, "", a)
}
func Bnot(a *Term) *Term {
	if a.op == OConst {
		return BVc(^a.val, a.sort)
	}
	return mk(OBnot, a.sort, 0, "", a)
}
func Neg(a *Term) *Term {
	if a.op == OConst {
		return BVc(-a.val, a.sort)
	}
	return mk(ONeg, a.sort, 0, "", a)
}

// ---- floats ----------------------------------------------------------------

func fval(t *Term) float64 {
	if t.sort == SF32 {
		return float64(math.Float32frombits(uint32(t.val)))
	}
	return math.Float64frombits(t.val)
}
func FCmp(op Op, a, b *Term) *Term {
	f := func(x, y *Term) *Term {
		if x.op == OConst && y.op == OConst {
			u, v := fval(x), fval(y)
			switch op {
			case OFlt:
				return Boolc(u < v)
			case OFle:
				return Boolc(u <= v)
			}
			return Boolc(u == v)
		}
		return mk(op, SBool, 0, "", x, y)
	}
	if a.leafy && b.leafy && a.lsize*b.lsize <= 48 {
		return lift2(a, b, f)
	}
	return f(a, b)
}
func FBin(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		u, v := fval(a), fval(b)
		var r float64
		switch op {
		case OFadd:
			r = u + v
		case OFsub:
			r = u - v
		case OFmul:
			r = u * v
		case OFdiv:
			r = u / v
		}
		if a.sort == SF32 {
			return F32c(float32(r))
		}
		return F64c(r)
	}
	return mk(op, a.sort, 0, "", a, b)
}

// ---- SMT-LIB printing ------------------------------------------------------

// fpArith is set once a query may contain floating-point arithmetic. Until then floats are only
// stored and compared, and are printed as their bits (no floating-point theory needed).
var fpArith bool

func (s Sort) smt() string {
	if !fpArith && s.isFP() {
		if s == SF32 {
			return "(_ BitVec 32)"
		}
		return "(_ BitVec 64)"
	}
	switch s {
	case SBool:
		return "Bool"
	case SF32:
		return "(_ FloatingPoint 8 24)"
	case SF64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", s)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		switch t.sort {
		case SBool:
			if t.val == 1 {
				return "true"
			}
			return "false"
		case SF32:
			if !fpArith {
				return fmt.Sprintf("#x%08x", t.val)
			}
			return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.val)
		case SF64:
			if !fpArith {
				return fmt.Sprintf("#x%016x", t.val)
			}
			return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.val)
		}
		if t.sort%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.sort)/4, t.val)
		}
		return fmt.Sprintf("#b%0*b", int(t.sort), t.val)
	case OVar:
		return "|" + t.name + "|"
	case OAtom:
		return fmt.Sprintf("atom%d", t.val)
	}
	return fmt.Sprintf("t%d", t.id)
}

// fpBits prints a comparison of floats given by their bits.
func (t *Term) fpBits() string {
	w, exp, one := 32, "#x7f800000", "#x80000000"
	if t.args[0].sort == SF64 {
		w, exp, one = 64, "#x7ff0000000000000", "#x8000000000000000"
	}
	zero := fmt.Sprintf("#x%0*x", w/4, 0)
	mag := func(a string) string { return fmt.Sprintf("(bvand %s (bvnot %s))", a, one) }
	nan := func(a string) string { return fmt.Sprintf("(bvugt %s %s)", mag(a), exp) }
	a := t.args[0].ref()
	switch t.op {
	case OFneg:
		return fmt.Sprintf("(bvxor %s %s)", a, one)
	case OFisNaN:
		return nan(a)
	}
	b := t.args[1].ref()
	ok := fmt.Sprintf("(not %s) (not %s)", nan(a), nan(b))
	zz := fmt.Sprintf("(= (bvand (bvor %s %s) (bvnot %s)) %s)", a, b, one, zero)
	eq := fmt.Sprintf("(or (= %s %s) %s)", a, b, zz)
	// both non-negative: unsigned order; both negative: reversed; otherwise the negative one is less
	lt := fmt.Sprintf("(and (not %s) (ite (bvslt %s %s) (ite (bvslt %s %s) (bvult %s %s) true) (and (bvsge %s %s) (bvult %s %s))))",
		zz, a, zero, b, zero, b, a, b, zero, a, b)
	switch t.op {
	case OFlt:
		return fmt.Sprintf("(and %s %s)", ok, lt)
	case OFle:
		return fmt.Sprintf("(and %s (or %s %s))", ok, eq, lt)
	}
	return fmt.Sprintf("(and %s %s)", ok, eq)
}

func (t *Term) def() string {
	if !fpArith {
		switch t.op {
		case OFlt, OFle, OFeq, OFneg, OFisNaN:
			return t.fpBits()
		}
	}
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.op {
	case OExtract:
		fmt.Fprintf(&sb, "(_ extract %d %d)", t.val>>8, t.val&255)
	case OZext:
		fmt.Fprintf(&sb, "(_ zero_extend %d)", t.sort-t.args[0].sort)
	case OSext:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", t.sort-t.args[0].sort)
	case OFadd:
		sb.WriteString("fp.add RNE")
	case OFsub:
		sb.WriteString("fp.sub RNE")
	case OFmul:
		sb.WriteString("fp.mul RNE")
	case OFdiv:
		sb.WriteString("fp.div RNE")
	case OFfromS:
		if t.sort == SF32 {
			sb.WriteString("(_ to_fp 8 24) RNE")
		} else {
			sb.WriteString("(_ to_fp 11 53) RNE")
		}
	case OFfromU:
		if t.sort == SF32 {
			sb.WriteString("(_ to_fp_unsigned 8 24) RNE")
		} else {
			sb.WriteString("(_ to_fp_unsigned 11 53) RNE")
		}
	case OFtoS:
		fmt.Fprintf(&sb, "(_ fp.to_sbv %d) RTZ", t.sort)
	default:
		sb.WriteString(opName[t.op])
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(a.ref())
	}
	sb.WriteByte(')')
	return sb.String()
}

func (t *Term) String() string {
	return t.show(4)
}
func (t *Term) show(d int) string {
	if len(t.args) == 0 || d == 0 {
		return t.ref()
	}
	var sb strings.Builder
	sb.WriteString("(" + opName[t.op])
	for _, a := range t.args {
		sb.WriteString(" " + a.show(d-1))
	}
	sb.WriteString(")")
	return sb.String()
}

// Eval under a model (map var name -> value).
func evalTerm(t *Term, model map[string]uint64, memo map[*Term]uint64) uint64 {
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	ev := func(i int) uint64 { return evalTerm(t.args[i], model, memo) }
	switch t.op {
	case OConst:
		r = t.val
	case OVar:
		r = model[t.name]
	case OAtom:
		r = t.val
	case ONot:
		r = 1 - ev(0)
	case OAnd:
		r = 1
		for i := range t.args {
			if ev(i) == 0 {
				r = 0
				break
			}
		}
	case OOr:
		for i := range t.args {
			if ev(i) == 1 {
				r = 1
				break
			}
		}
	case OIte:
		if ev(0) == 1 {
			r = ev(1)
		} else {
			r = ev(2)
		}
	case OEq:
		r = b2u(ev(0) == ev(1))
	case OUlt, OUle, OSlt, OSle:
		r = b2u(foldCmp(t.op, t.args[0].sort, ev(0), ev(1)))
	case OBnot:
		r = ^ev(0) & mask(t.sort)
	case ONeg:
		r = -ev(0) & mask(t.sort)
	case OExtract:
		r = (ev(0) >> (t.val & 255)) & mask(t.sort)
	case OZext:
		r = ev(0)
	case OSext:
		r = uint64(sext(ev(0), t.args[0].sort)) & mask(t.sort)
	case OFlt, OFle, OFeq:
		x := fval(&Term{sort: t.args[0].sort, val: ev(0)})
		y := fval(&Term{sort: t.args[1].sort, val: ev(1)})
		switch t.op {
		case OFlt:
			r = b2u(x < y)
		case OFle:
			r = b2u(x <= y)
		default:
			r = b2u(x == y)
		}
	case OFisNaN:
		r = b2u(math.IsNaN(fval(&Term{sort: t.args[0].sort, val: ev(0)})))
	case OFadd, OFsub, OFmul, OFdiv:
		c := FBin(t.op, mk(OConst, t.sort, ev(0), ""), mk(OConst, t.sort, ev(1), ""))
		r = c.val
	case OFneg:
		if t.sort == SF32 {
			r = ev(0) ^ (1 << 31)
		} else {
			r = ev(0) ^ (1 << 63)
		}
	case OFfromS, OFfromU:
		var f float64
		if t.op == OFfromS {
			f = float64(sext(ev(0), t.args[0].sort))
		} else {
			f = float64(ev(0))
		}
		if t.sort == SF32 {
			r = uint64(math.Float32bits(float32(f)))
		} else {
			r = math.Float64bits(f)
		}
	case OFtoS:
		r = uint64(int64(fval(&Term{sort: t.args[0].sort, val: ev(0)}))) & mask(t.sort)
	case OUdiv, OUrem, OSdiv, OSrem:
		y := ev(1)
		if y == 0 {
			r = 0
		} else {
			r, _ = foldBV(t.op, t.sort, ev(0), y)
		}
	default:
		r, _ = foldBV(t.op, t.sort, ev(0), ev(1))
	}
	memo[t] = r
	return r
}
