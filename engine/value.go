package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- symbolic values ---------------------------------------------------------
//
// *Term            scalars
// *StrV            string: union by concrete length of byte vectors
// *RefV            pointer, map or channel reference: guarded union of (object, path)
// *SliceV          guarded union of (object, path, off, len, cap)
// *IfaceV          guarded union of (dynamic type, value)
// *FuncV           guarded union of closures
// *AggV            struct, array or tuple
// *IterV           range iterator

type Value interface{}

type ObjID int32

type PathN struct {
	parent *PathN
	idx    int
}

var pathTab = map[PathN]*PathN{}

func pathOf(p *PathN, idx int) *PathN {
	k := PathN{p, idx}
	if q, ok := pathTab[k]; ok {
		return q
	}
	q := &PathN{p, idx}
	pathTab[k] = q
	return q
}
func (p *PathN) list() []int {
	n := 0
	for q := p; q != nil; q = q.parent {
		n++
	}
	out := make([]int, n)
	for q := p; q != nil; q = q.parent {
		n--
		out[n] = q.idx
	}
	return out
}

type StrAlt struct {
	g *Term
	b []*Term
}
type StrV struct{ alts []StrAlt }

type RefAlt struct {
	g    *Term
	obj  ObjID // 0 = nil
	path *PathN
}
type RefV struct{ alts []RefAlt }

type SliceAlt struct {
	g             *Term
	obj           ObjID
	path          *PathN
	off, len, cap int
}
type SliceV struct{ alts []SliceAlt }

type IfaceAlt struct {
	g   *Term
	typ types.Type // canonical; nil = nil interface
	val Value
}
type IfaceV struct{ alts []IfaceAlt }

type FuncAlt struct {
	g     *Term
	fn    *ssa.Function // nil = nil func
	bi    string        // engine builtin name (fn==nil)
	binds []Value
}
type FuncV struct{ alts []FuncAlt }

type AggV struct{ f []Value }

type IterV struct {
	isMap bool
	str   *StrV
	keys  []mapSlot
	pos   *Term // position (string: byte offset; map: slot index)
}

type mapSlot struct {
	g    *Term
	k, v Value
}

func strConst(s string) *StrV {
	b := make([]*Term, len(s))
	for i := 0; i < len(s); i++ {
		b[i] = BVc(uint64(s[i]), 8)
	}
	return &StrV{[]StrAlt{{True, b}}}
}

func (s *StrV) concrete() (string, bool) {
	if len(s.alts) != 1 {
		return "", false
	}
	var sb strings.Builder
	for _, t := range s.alts[0].b {
		if !t.isConst() {
			return "", false
		}
		sb.WriteByte(byte(t.val))
	}
	return sb.String(), true
}

var nilRef = &RefV{[]RefAlt{{True, 0, nil}}}
var nilSlice = &SliceV{[]SliceAlt{{True, 0, nil, 0, 0, 0}}}
var nilIface = &IfaceV{[]IfaceAlt{{True, nil, nil}}}
var nilFunc = &FuncV{[]FuncAlt{{g: True}}}

func refTo(o ObjID) *RefV { return &RefV{[]RefAlt{{True, o, nil}}} }

func mkIface(t types.Type, v Value) *IfaceV {
	return &IfaceV{[]IfaceAlt{{True, canonType(t), v}}}
}

func iteVal(c *Term, a, b Value) Value {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	switch x := a.(type) {
	case *Term:
		return Ite(c, x, b.(*Term))
	case *StrV:
		return iteStr(c, x, b.(*StrV))
	case *RefV:
		y := b.(*RefV)
		nc := Not(c)
		out := make([]RefAlt, 0, len(x.alts)+len(y.alts))
		if len(x.alts) == 1 && len(y.alts) == 1 && x.alts[0] == y.alts[0] {
			return x
		}
		used := make([]bool, len(y.alts))
		for _, p := range x.alts {
			g := And(c, p.g)
			for j, q := range y.alts {
				if q.obj == p.obj && q.path == p.path {
					used[j] = true
					if q.g == p.g {
						g = p.g
					} else {
						g = Or(g, And(nc, q.g))
					}
				}
			}
			if g != False {
				out = append(out, RefAlt{g, p.obj, p.path})
			}
		}
		for j, q := range y.alts {
			if !used[j] {
				if g := And(nc, q.g); g != False {
					out = append(out, RefAlt{g, q.obj, q.path})
				}
			}
		}
		return &RefV{out}
	case *SliceV:
		y := b.(*SliceV)
		nc := Not(c)
		var out []SliceAlt
		used := make([]bool, len(y.alts))
		for _, p := range x.alts {
			g := And(c, p.g)
			for j, q := range y.alts {
				if q.obj == p.obj && q.path == p.path && q.off == p.off && q.len == p.len && q.cap == p.cap {
					used[j] = true
					if q.g == p.g {
						g = p.g
					} else {
						g = Or(g, And(nc, q.g))
					}
				}
			}
			if g != False {
				p.g = g
				out = append(out, p)
			}
		}
		for j, q := range y.alts {
			if !used[j] {
				if g := And(nc, q.g); g != False {
					q.g = g
					out = append(out, q)
				}
			}
		}
		return &SliceV{out}
	case *IfaceV:
		y := b.(*IfaceV)
		nc := Not(c)
		var out []IfaceAlt
		used := make([]bool, len(y.alts))
		for _, p := range x.alts {
			g := And(c, p.g)
			v := p.val
			for j, q := range y.alts {
				if q.typ == p.typ {
					used[j] = true
					if q.g == p.g {
						g = p.g
					} else {
						g = Or(g, And(nc, q.g))
					}
					v = iteVal(c, p.val, q.val)
				}
			}
			if g != False {
				out = append(out, IfaceAlt{g, p.typ, v})
			}
		}
		for j, q := range y.alts {
			if !used[j] {
				if g := And(nc, q.g); g != False {
					out = append(out, IfaceAlt{g, q.typ, q.val})
				}
			}
		}
		return &IfaceV{out}
	case *FuncV:
		y := b.(*FuncV)
		nc := Not(c)
		var out []FuncAlt
		used := make([]bool, len(y.alts))
		for _, p := range x.alts {
			g := And(c, p.g)
			bd := p.binds
			for j, q := range y.alts {
				if q.fn == p.fn && q.bi == p.bi && len(q.binds) == len(p.binds) {
					used[j] = true
					if q.g == p.g {
						g = p.g
					} else {
						g = Or(g, And(nc, q.g))
					}
					nb := make([]Value, len(bd))
					for k := range bd {
						nb[k] = iteVal(c, bd[k], q.binds[k])
					}
					bd = nb
				}
			}
			if g != False {
				out = append(out, FuncAlt{g, p.fn, p.bi, bd})
			}
		}
		for j, q := range y.alts {
			if !used[j] {
				if g := And(nc, q.g); g != False {
					q.g = g
					out = append(out, q)
				}
			}
		}
		return &FuncV{out}
	case *AggV:
		y := b.(*AggV)
		if len(x.f) != len(y.f) {
			// backing arrays of slices; each slice carries its own length and capacity
			short, long := x.f, y.f
			if len(short) > len(long) {
				short, long = long, short
			}
			nf := make([]Value, len(long))
			copy(nf, long)
			for i := range short {
				nf[i] = iteVal(c, x.f[i], y.f[i])
			}
			return &AggV{nf}
		}
		nf := make([]Value, len(x.f))
		same := true
		for i := range nf {
			nf[i] = iteVal(c, x.f[i], y.f[i])
			if nf[i] != x.f[i] {
				same = false
			}
		}
		if same {
			return x
		}
		return &AggV{nf}
	case *IterV:
		y := b.(*IterV)
		r := &IterV{isMap: x.isMap, pos: Ite(c, x.pos, y.pos)}
		if x.isMap {
			// positions refer to slots by index; what one side does not have is absent there
			at := func(k []mapSlot, other []mapSlot, i int) mapSlot {
				if i < len(k) {
					return k[i]
				}
				return mapSlot{False, other[i].k, other[i].v}
			}
			n := max(len(x.keys), len(y.keys))
			r.keys = make([]mapSlot, n)
			for i := range r.keys {
				p, q := at(x.keys, y.keys, i), at(y.keys, x.keys, i)
				r.keys[i] = mapSlot{Ite(c, p.g, q.g), iteVal(c, p.k, q.k), iteVal(c, p.v, q.v)}
			}
		} else {
			r.str = iteStr(c, x.str, y.str)
		}
		return r
	}
	panic(fmt.Sprintf("iteVal %T", a))
}

func iteStr(c *Term, x, y *StrV) *StrV {
	if x == y {
		return x
	}
	nc := Not(c)
	byLen := map[int]int{}
	var out []StrAlt
	for _, p := range x.alts {
		byLen[len(p.b)] = len(out)
		out = append(out, StrAlt{And(c, p.g), p.b})
	}
	for _, q := range y.alts {
		if i, ok := byLen[len(q.b)]; ok {
			p := out[i]
			nb := make([]*Term, len(q.b))
			for k := range nb {
				nb[k] = Ite(c, p.b[k], q.b[k])
			}
			var g *Term
			og := x.alts[i].g
			if og == q.g {
				g = og
			} else {
				g = Or(p.g, And(nc, q.g))
			}
			out[i] = StrAlt{g, nb}
		} else {
			byLen[len(q.b)] = len(out)
			out = append(out, StrAlt{And(nc, q.g), q.b})
		}
	}
	res := out[:0]
	for _, p := range out {
		if p.g != False {
			res = append(res, p)
		}
	}
	sort.Slice(res, func(i, j int) bool { return len(res[i].b) < len(res[j].b) })
	return &StrV{res}
}

// sameVal: syntactic (definite) equality.
func sameVal(a, b Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *Term:
		return false
	case *StrV:
		y, ok := b.(*StrV)
		if !ok || len(x.alts) != len(y.alts) {
			return false
		}
		for i := range x.alts {
			if x.alts[i].g != y.alts[i].g || len(x.alts[i].b) != len(y.alts[i].b) {
				return false
			}
			for k := range x.alts[i].b {
				if x.alts[i].b[k] != y.alts[i].b[k] {
					return false
				}
			}
		}
		return true
	case *RefV:
		y, ok := b.(*RefV)
		if !ok || len(x.alts) != len(y.alts) {
			return false
		}
		for i := range x.alts {
			if x.alts[i] != y.alts[i] {
				return false
			}
		}
		return true
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok || len(x.alts) != len(y.alts) {
			return false
		}
		for i := range x.alts {
			if x.alts[i] != y.alts[i] {
				return false
			}
		}
		return true
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok || len(x.alts) != len(y.alts) {
			return false
		}
		for i := range x.alts {
			if x.alts[i].g != y.alts[i].g || x.alts[i].typ != y.alts[i].typ {
				return false
			}
			if x.alts[i].typ != nil && !sameVal(x.alts[i].val, y.alts[i].val) {
				return false
			}
		}
		return true
	case *AggV:
		y, ok := b.(*AggV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !sameVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// eqVal: symbolic equality of two values of the same static type.
func eqVal(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		if x.sort.isFP() {
			return FCmp(OFeq, x, y)
		}
		return Eq(x, y)
	case *StrV:
		return strEq(x, b.(*StrV))
	case *RefV:
		y := b.(*RefV)
		var or []*Term
		for _, p := range x.alts {
			for _, q := range y.alts {
				if p.obj == q.obj && p.path == q.path {
					or = append(or, And(p.g, q.g))
				}
			}
		}
		return Or(or...)
	case *SliceV: // only comparison with nil
		y := b.(*SliceV)
		var or []*Term
		for _, p := range x.alts {
			for _, q := range y.alts {
				if p.obj == 0 && q.obj == 0 {
					or = append(or, And(p.g, q.g))
				}
			}
		}
		return Or(or...)
	case *FuncV:
		y := b.(*FuncV)
		var or []*Term
		for _, p := range x.alts {
			for _, q := range y.alts {
				if p.fn == nil && q.fn == nil && p.bi == "" && q.bi == "" {
					or = append(or, And(p.g, q.g))
				}
			}
		}
		return Or(or...)
	case *IfaceV:
		y := b.(*IfaceV)
		var or []*Term
		for _, p := range x.alts {
			for _, q := range y.alts {
				if p.typ != q.typ {
					continue
				}
				if p.typ == nil {
					or = append(or, And(p.g, q.g))
				} else {
					or = append(or, And(p.g, q.g, eqVal(p.val, q.val)))
				}
			}
		}
		return Or(or...)
	case *AggV:
		y := b.(*AggV)
		var and []*Term
		for i := range x.f {
			and = append(and, eqVal(x.f[i], y.f[i]))
		}
		return And(and...)
	}
	panic(fmt.Sprintf("eqVal %T", a))
}

func strEq(x, y *StrV) *Term {
	if x == y {
		return True
	}
	var or []*Term
	for _, p := range x.alts {
		for _, q := range y.alts {
			if len(p.b) != len(q.b) {
				continue
			}
			and := []*Term{p.g, q.g}
			dead := false
			for i := range p.b {
				e := Eq(p.b[i], q.b[i])
				if e == False {
					dead = true
					break
				}
				and = append(and, e)
			}
			if !dead {
				or = append(or, And(and...))
			}
		}
	}
	return Or(or...)
}

func strLt(x, y *StrV, orEq bool) *Term {
	var or []*Term
	for _, p := range x.alts {
		for _, q := range y.alts {
			// lexicographic
			n := len(p.b)
			if len(q.b) < n {
				n = len(q.b)
			}
			var r *Term
			if len(p.b) < len(q.b) {
				r = True
			} else if len(p.b) == len(q.b) {
				r = Boolc(orEq)
			} else {
				r = False
			}
			for i := n - 1; i >= 0; i-- {
				r = Or(Cmp(OUlt, p.b[i], q.b[i]), And(Eq(p.b[i], q.b[i]), r))
			}
			or = append(or, And(p.g, q.g, r))
		}
	}
	return Or(or...)
}

func strConcat(x, y *StrV) *StrV {
	byLen := map[int]int{}
	var out []StrAlt
	for _, p := range x.alts {
		for _, q := range y.alts {
			g := And(p.g, q.g)
			if g == False {
				continue
			}
			b := make([]*Term, 0, len(p.b)+len(q.b))
			b = append(append(b, p.b...), q.b...)
			if i, ok := byLen[len(b)]; ok {
				o := out[i]
				nb := make([]*Term, len(b))
				for k := range b {
					nb[k] = Ite(g, b[k], o.b[k])
				}
				out[i] = StrAlt{Or(o.g, g), nb}
			} else {
				byLen[len(b)] = len(out)
				out = append(out, StrAlt{g, b})
			}
		}
	}
	return &StrV{out}
}

func strLen(x *StrV) *Term {
	return unionTerm(len(x.alts), func(i int) (*Term, *Term) { return x.alts[i].g, Int(len(x.alts[i].b)) })
}

// unionTerm folds guarded alternatives into one ite term (last one unguarded).
func unionTerm(n int, f func(i int) (*Term, *Term)) *Term {
	if n == 0 {
		return Int(0)
	}
	_, r := f(n - 1)
	for i := n - 2; i >= 0; i-- {
		g, t := f(i)
		r = Ite(g, t, r)
	}
	return r
}

func unionVal(n int, f func(i int) (*Term, Value)) Value {
	if n == 0 {
		return nil
	}
	_, r := f(n - 1)
	for i := n - 2; i >= 0; i-- {
		g, t := f(i)
		r = iteVal(g, t, r)
	}
	return r
}

func mergeSlots(c *Term, a, b []mapSlot) []mapSlot {
	nc := Not(c)
	used := make([]bool, len(b))
	var out []mapSlot
	for i, p := range a {
		j := -1
		if i < len(b) && !used[i] && sameVal(p.k, b[i].k) {
			j = i
		} else {
			for q := range b {
				if !used[q] && sameVal(p.k, b[q].k) {
					j = q
					break
				}
			}
		}
		if j >= 0 {
			used[j] = true
			out = append(out, mapSlot{Ite(c, p.g, b[j].g), p.k, iteVal(c, p.v, b[j].v)})
		} else {
			out = append(out, mapSlot{And(c, p.g), p.k, p.v})
		}
	}
	for q := range b {
		if !used[q] {
			out = append(out, mapSlot{And(nc, b[q].g), b[q].k, b[q].v})
		}
	}
	return out
}

type unsupportedErr struct{ msg string }

func unsupported(f string, a ...any) {
	panic(unsupportedErr{fmt.Sprintf(f, a...)})
}

func showVal(v Value) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case *Term:
		return x.show(2)
	case *StrV:
		if s, ok := x.concrete(); ok {
			return fmt.Sprintf("%q", s)
		}
		return fmt.Sprintf("str/%d", len(x.alts))
	case *RefV:
		s := "ref{"
		for _, a := range x.alts {
			s += fmt.Sprintf("%s:%d%v ", a.g.show(1), a.obj, a.path.list())
		}
		return s + "}"
	case *SliceV:
		s := "slice{"
		for _, a := range x.alts {
			s += fmt.Sprintf("%s:%d[%d:%d:%d] ", a.g.show(1), a.obj, a.off, a.len, a.cap)
		}
		return s + "}"
	case *IfaceV:
		s := "iface{"
		for _, a := range x.alts {
			s += fmt.Sprintf("%s:%v(%s) ", a.g.show(1), a.typ, showVal(a.val))
		}
		return s + "}"
	case *FuncV:
		s := "func{"
		for _, a := range x.alts {
			s += fmt.Sprintf("%s:%v ", a.g.show(1), a.fn)
		}
		return s + "}"
	case *AggV:
		s := "{"
		for _, a := range x.f {
			s += showVal(a) + ","
		}
		return s + "}"
	}
	return fmt.Sprintf("%T", v)
}
