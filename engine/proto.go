package main

import (
	"go/types"
	"hash/fnv"
	"reflect"
	"strings"
)

// ---- protobuf model --------------------------------------------------------------
//
// Marshalling yields one opaque byte that refers to a deep copy of the message;
// unmarshalling restores a deep copy into the target (field numbers match when the
// message types differ), and reports an error for any other non-empty bytes.

func protoFields(st *types.Struct) []int {
	var out []int
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Exported() {
			out = append(out, i)
		}
	}
	return out
}

func fieldNumber(st *types.Struct, i int) string {
	tag := reflect.StructTag(st.Tag(i)).Get("protobuf")
	if tag == "" {
		return "" // oneof
	}
	p := strings.Split(tag, ",")
	if len(p) > 1 {
		return p[1]
	}
	return ""
}

func msgStruct(t types.Type) (*types.Struct, types.Type) {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil, nil
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	return s, p.Elem()
}

// protoCopy deep-copies a value of a protobuf field type.
// typeSub keeps objects of different types or sizes apart that mutually exclusive
// configurations allocate at one site with one count.
func typeSub(t types.Type, n int) int {
	h := fnv.New32a()
	h.Write([]byte(types.TypeString(t, nil)))
	return int(h.Sum32())<<16 | n
}

func (ip *Interp) protoCopy(c *Config, v Value, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		r := v.(*RefV)
		st, et := msgStruct(t)
		var out []RefAlt
		for _, a := range r.alts {
			if a.obj == 0 {
				out = append(out, a)
				continue
			}
			o := ip.memGet(c, a.obj)
			if o == nil {
				continue
			}
			src := getPath(o.val, a.path.list())
			id := ip.newObj(c, typeSub(t, 0))
			if st == nil {
				c.mem.Set(id, &Obj{kind: 'c', val: src})
			} else {
				c.mem.Set(id, &Obj{kind: 'c', val: ip.protoCopyStruct(c, src.(*AggV), et)})
			}
			out = append(out, RefAlt{a.g, id, nil})
		}
		return &RefV{out}
	case *types.Slice:
		s := v.(*SliceV)
		var out []SliceAlt
		for _, a := range s.alts {
			if a.len == 0 {
				out = addSliceAlt(out, SliceAlt{a.g, 0, nil, 0, 0, 0})
				continue
			}
			es := ip.sliceElems(c, a)
			ne := make([]Value, len(es))
			for i := range es {
				ne[i] = ip.protoCopy(c, es[i], u.Elem())
			}
			id := ip.newObj(c, typeSub(t, len(ne)))
			c.mem.Set(id, &Obj{kind: 'c', val: &AggV{ne}})
			out = append(out, SliceAlt{a.g, id, nil, 0, len(ne), len(ne)})
		}
		return &SliceV{out}
	case *types.Map:
		r := v.(*RefV)
		var out []RefAlt
		for _, a := range r.alts {
			o := c.mem.Get(a.obj)
			if a.obj == 0 || o == nil {
				out = append(out, RefAlt{a.g, 0, nil})
				continue
			}
			id := ip.newObj(c, typeSub(t, 0))
			sl := make([]mapSlot, len(o.slots))
			for i, s := range o.slots {
				sl[i] = mapSlot{s.g, s.k, ip.protoCopy(c, s.v, u.Elem())}
			}
			c.mem.Set(id, &Obj{kind: 'm', slots: sl})
			out = append(out, RefAlt{a.g, id, nil})
		}
		return &RefV{out}
	case *types.Interface:
		iv := v.(*IfaceV)
		var out []IfaceAlt
		for _, a := range iv.alts {
			if a.typ != nil {
				a.val = ip.protoCopy(c, a.val, a.typ)
			}
			out = append(out, a)
		}
		return &IfaceV{out}
	}
	return v
}

func (ip *Interp) protoCopyStruct(c *Config, src *AggV, t types.Type) *AggV {
	st := t.Underlying().(*types.Struct)
	dst := append([]Value(nil), ip.zero(t).(*AggV).f...)
	for _, i := range protoFields(st) {
		dst[i] = ip.protoCopy(c, src.f[i], st.Field(i).Type())
	}
	return &AggV{dst}
}

type snapshot struct {
	typ types.Type // pointer type
	obj ObjID
}

func protoMarshal(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
	m := k.args[0].(*IfaceV)
	var out []SliceAlt
	var bytes []*Term
	var gs []*Term
	for _, a := range m.alts {
		if a.typ == nil {
			out = addSliceAlt(out, SliceAlt{a.g, 0, nil, 0, 0, 0})
			continue
		}
		_, et := msgStruct(a.typ)
		if et == nil {
			unsupported("marshal of %v", a.typ)
		}
		for _, r := range a.val.(*RefV).alts {
			g := And(a.g, r.g)
			if g == False || And(c.guard, g) == False {
				continue
			}
			if r.obj == 0 {
				out = addSliceAlt(out, SliceAlt{g, 0, nil, 0, 0, 0})
				continue
			}
			o := ip.memGet(c, r.obj)
			if o == nil {
				continue
			}
			id := ip.newObj(c, typeSub(a.typ, 0))
			c.mem.Set(id, &Obj{kind: 'c', val: ip.protoCopyStruct(c, getPath(o.val, r.path.list()).(*AggV), et)})
			bytes = append(bytes, ip.atomFor(snapshot{a.typ, id}))
			gs = append(gs, g)
		}
	}
	if len(bytes) > 0 {
		t := unionTerm(len(bytes), func(i int) (*Term, *Term) { return gs[i], bytes[i] })
		id := ip.newObj(c, 0)
		c.mem.Set(id, &Obj{kind: 'c', val: &AggV{[]Value{t}}})
		out = append(out, SliceAlt{Or(gs...), id, nil, 0, 1, 1})
	}
	if len(out) == 1 {
		out[0].g = True
	}
	return &SliceV{out}, iDone
}

func (ip *Interp) atomFor(s snapshot) *Term {
	if ip.atoms == nil {
		ip.atoms = map[ObjID]int{}
		ip.snaps = map[int]snapshot{}
	}
	n, ok := ip.atoms[s.obj]
	if !ok {
		n = len(ip.snaps) + 1
		ip.atoms[s.obj] = n
		ip.snaps[n] = s
	}
	return Atom(n)
}

// protoUnmarshal merges bytes into a message; returns whether the bytes were well-formed.
func protoUnmarshal(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
	b := k.args[0].(*SliceV)
	m := k.args[1].(*IfaceV)
	ok := False
	for _, ta := range m.alts {
		if ta.typ == nil {
			continue
		}
		dst, det := msgStruct(ta.typ)
		if dst == nil {
			unsupported("unmarshal into %v", ta.typ)
		}
		for _, tr := range ta.val.(*RefV).alts {
			tg := And(ta.g, tr.g)
			if tr.obj == 0 || tg == False {
				continue
			}
			var cur Value = ip.zero(det)
			p := tr.path.list()
			for _, ba := range b.alts {
				g := And(tg, ba.g)
				if g == False || And(c.guard, g) == False {
					continue
				}
				if ba.len == 0 {
					ok = Or(ok, g)
					continue
				}
				if ba.len != 1 {
					continue // no snapshot has another length: malformed
				}
				bt := ip.sliceElems(c, ba)[0].(*Term)
				for _, lf := range atomLeaves(bt) {
					if lf.t.op != OAtom {
						continue
					}
					lg := And(g, lf.g)
					if lg == False || And(c.guard, lg) == False {
						continue
					}
					s := ip.snaps[int(lf.t.val)]
					so := ip.memGet(c, s.obj)
					if so == nil {
						continue
					}
					sst, set := msgStruct(s.typ)
					var nv Value
					if types.Identical(set, det) {
						nv = ip.protoCopyStruct(c, so.val.(*AggV), set)
					} else {
						nv = ip.protoProject(c, so.val.(*AggV), sst, dst, det)
						if nv == nil {
							continue
						}
					}
					cur = iteVal(And(ba.g, lf.g), nv, cur)
					ok = Or(ok, lg)
				}
			}
			o := ip.memGet(c, tr.obj)
			if o == nil {
				continue
			}
			c.mem.Set(tr.obj, &Obj{kind: 'c', val: setPath(o.val, p, iteVal(tg, cur, getPath(o.val, p)))})
		}
	}
	return ok, iDone
}

// protoProject reads the bytes of one message type as another: fields match by number.
// Fields whose Go types differ make the bytes malformed for the target (nil).
func (ip *Interp) protoProject(c *Config, src *AggV, sst, dst *types.Struct, det types.Type) Value {
	out := append([]Value(nil), ip.zero(det).(*AggV).f...)
	for _, i := range protoFields(sst) {
		n := fieldNumber(sst, i)
		if n == "" {
			continue
		}
		for _, j := range protoFields(dst) {
			if fieldNumber(dst, j) == n {
				if !types.Identical(sst.Field(i).Type(), dst.Field(j).Type()) {
					return nil
				}
				out[j] = ip.protoCopy(c, src.f[i], dst.Field(j).Type())
			}
		}
	}
	return &AggV{out}
}

func atomLeaves(t *Term) []leaf {
	if t.op == OAtom || t.isConst() {
		return []leaf{{True, t}}
	}
	if t.leafy {
		return leaves(t)
	}
	return nil
}

func protoName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return t.String()
	}
	return strings.ReplaceAll(n.Obj().Pkg().Path(), "/", ".") + "." + n.Obj().Name()
}

func protoTypeName(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
	v := k.args[0].(*IfaceV)
	var gs []*Term
	var vs []Value
	for _, a := range v.alts {
		if a.typ != nil {
			ip.msgTypes[protoName(a.typ)] = a.typ
			gs = append(gs, a.g)
			vs = append(vs, strConst(protoName(a.typ)))
		}
	}
	if len(vs) == 0 {
		return strConst(""), iDone
	}
	return unionVal(len(vs), func(i int) (*Term, Value) { return gs[i], vs[i] }), iDone
}

func (ip *Interp) newMsg(c *Config, t types.Type) *RefV {
	_, et := msgStruct(t)
	id := ip.newObj(c, typeSub(t, 0))
	c.mem.Set(id, &Obj{kind: 'c', val: ip.zero(et)})
	return refTo(id)
}

func protoNewLike(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
	v := k.args[0].(*IfaceV)
	var out []IfaceAlt
	for _, a := range v.alts {
		if a.typ == nil {
			out = append(out, a)
			continue
		}
		out = append(out, IfaceAlt{a.g, a.typ, ip.newMsg(c, a.typ)})
	}
	return &IfaceV{out}, iDone
}

func protoNewByName(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
	s := k.args[0].(*StrV)
	out := []IfaceAlt{}
	none := True
	var names []string
	for n := range ip.msgTypes {
		names = append(names, n)
	}
	sortStrings(names)
	for _, n := range names {
		t := ip.msgTypes[n]
		g := strEq(s, strConst(n))
		if g == False {
			continue
		}
		out = append(out, IfaceAlt{g, t, ip.newMsg(c, t)})
		none = And(none, Not(g))
	}
	if none != False {
		out = append(out, IfaceAlt{none, nil, nil})
	}
	return &IfaceV{out}, iDone
}

func protoDeepCopy(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
	v := k.args[0].(*IfaceV)
	var out []IfaceAlt
	for _, a := range v.alts {
		if a.typ != nil {
			a.val = ip.protoCopy(c, a.val, a.typ)
		}
		out = append(out, a)
	}
	return &IfaceV{out}, iDone
}

// deepEq compares protobuf field values structurally.
func (ip *Interp) deepEq(c *Config, x, y Value, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		r := False
		st, et := msgStruct(t)
		for _, a := range x.(*RefV).alts {
			for _, b := range y.(*RefV).alts {
				g := And(a.g, b.g)
				if g == False {
					continue
				}
				if a.obj == 0 || b.obj == 0 {
					if a.obj == b.obj {
						r = Or(r, g)
					}
					continue
				}
				oa, ob := ip.memGet(c, a.obj), ip.memGet(c, b.obj)
				if oa == nil || ob == nil {
					continue
				}
				va, vb := getPath(oa.val, a.path.list()), getPath(ob.val, b.path.list())
				if st == nil {
					r = Or(r, And(g, eqVal(va, vb)))
					continue
				}
				e := g
				for _, i := range protoFields(st) {
					e = And(e, ip.deepEq(c, va.(*AggV).f[i], vb.(*AggV).f[i], st.Field(i).Type()))
				}
				_ = et
				r = Or(r, e)
			}
		}
		return r
	case *types.Slice:
		r := False
		for _, a := range x.(*SliceV).alts {
			for _, b := range y.(*SliceV).alts {
				if a.len != b.len {
					continue
				}
				e := And(a.g, b.g)
				if e == False {
					continue
				}
				ea, eb := ip.sliceElems(c, a), ip.sliceElems(c, b)
				for i := range ea {
					ta, ok1 := ea[i].(*Term)
					tb, ok2 := eb[i].(*Term)
					if ok1 && ok2 && (hasAtom(ta) || hasAtom(tb)) {
						e = And(e, ip.atomEq(c, ta, tb))
						continue
					}
					e = And(e, ip.deepEq(c, ea[i], eb[i], u.Elem()))
				}
				r = Or(r, e)
			}
		}
		return r
	case *types.Map:
		r := False
		sub := func(p, q []mapSlot) *Term {
			e := True
			for _, s := range p {
				f := False
				for _, d := range q {
					f = Or(f, And(d.g, eqVal(s.k, d.k), ip.deepEq(c, s.v, d.v, u.Elem())))
				}
				e = And(e, Or(Not(s.g), f))
			}
			return e
		}
		for _, a := range x.(*RefV).alts {
			for _, b := range y.(*RefV).alts {
				var pa, pb []mapSlot
				if o := c.mem.Get(a.obj); a.obj != 0 && o != nil {
					pa = o.slots
				}
				if o := c.mem.Get(b.obj); b.obj != 0 && o != nil {
					pb = o.slots
				}
				r = Or(r, And(a.g, b.g, sub(pa, pb), sub(pb, pa)))
			}
		}
		return r
	case *types.Interface:
		r := False
		for _, a := range x.(*IfaceV).alts {
			for _, b := range y.(*IfaceV).alts {
				if a.typ != b.typ {
					continue
				}
				if a.typ == nil {
					r = Or(r, And(a.g, b.g))
				} else {
					r = Or(r, And(a.g, b.g, ip.deepEq(c, a.val, b.val, a.typ)))
				}
			}
		}
		return r
	}
	return eqVal(x, y)
}

// atomEq: two marshalled tokens are equal when their messages are.
func (ip *Interp) atomEq(c *Config, x, y *Term) *Term {
	r := False
	for _, a := range atomLeaves(x) {
		for _, b := range atomLeaves(y) {
			g := And(a.g, b.g)
			if g == False {
				continue
			}
			if a.t == b.t {
				r = Or(r, g)
				continue
			}
			if a.t.op != OAtom || b.t.op != OAtom {
				continue
			}
			sa, sb := ip.snaps[int(a.t.val)], ip.snaps[int(b.t.val)]
			if !types.Identical(sa.typ, sb.typ) {
				continue
			}
			r = Or(r, And(g, ip.deepEq(c, refTo(sa.obj), refTo(sb.obj), sa.typ)))
		}
	}
	return r
}

func protoEqual(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
	x, y := k.args[0].(*IfaceV), k.args[1].(*IfaceV)
	r := False
	for _, a := range x.alts {
		for _, b := range y.alts {
			if a.typ != b.typ {
				continue
			}
			if a.typ == nil {
				r = Or(r, And(a.g, b.g))
				continue
			}
			r = Or(r, And(a.g, b.g, ip.deepEq(c, a.val, b.val, a.typ)))
		}
	}
	return r, iDone
}
