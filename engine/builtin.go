package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var stdSizes = types.SizesFor("gc", "amd64")

// size classes of the Go allocator (bytes); append growth rounds up to them.
var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, newLen int, et types.Type) int {
	n := oldCap
	dbl := n + n
	if newLen > dbl {
		n = newLen
	} else if oldCap < 256 {
		n = dbl
	} else {
		for n < newLen {
			n += (n + 3*256) >> 2
		}
	}
	es := 8
	func() {
		defer func() { _ = recover() }()
		es = int(stdSizes.Sizeof(et))
	}()
	if es == 0 {
		return newLen
	}
	b := n * es
	for _, s := range sizeClasses {
		if s >= b {
			return s / es
		}
	}
	return n
}

func (ip *Interp) builtin(c *Config, name string, args []Value, cc *ssa.CallCommon, rt types.Type) (Value, bool) {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case *StrV:
			return strLen(x), true
		case *SliceV:
			return ip.sliceLen(x), true
		case *AggV:
			return Int(len(x.f)), true
		case *RefV:
			switch t := cc.Args[0].Type().Underlying().(type) {
			case *types.Map:
				return ip.mapLen(c, x), true
			case *types.Chan:
				return ip.chanLen(c, x), true
			case *types.Pointer:
				return Int(int(t.Elem().Underlying().(*types.Array).Len())), true
			}
		}
	case "cap":
		switch x := args[0].(type) {
		case *SliceV:
			return ip.sliceCap(x), true
		case *RefV:
			if _, ok := cc.Args[0].Type().Underlying().(*types.Chan); ok {
				return ip.chanCap(c, x), true
			}
			return Int(int(cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())), true
		}
	case "append":
		return ip.appendB(c, args, cc), true
	case "copy":
		return ip.copyB(c, args), true
	case "delete":
		ip.mapDelete(c, args[0].(*RefV), args[1])
		return nil, true
	case "clear":
		switch x := args[0].(type) {
		case *RefV:
			for _, a := range x.alts {
				o := c.mem.Get(a.obj)
				if a.obj == 0 || o == nil {
					continue
				}
				var out []mapSlot
				for _, s := range o.slots {
					out = append(out, mapSlot{And(s.g, Not(a.g)), s.k, s.v})
				}
				c.mem.Set(a.obj, &Obj{kind: 'm', slots: out})
			}
		case *SliceV:
			z := ip.zero(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
			for _, a := range x.alts {
				vals := make([]Value, a.len)
				for i := range vals {
					vals[i] = z
				}
				g := a.g
				if len(x.alts) == 1 {
					g = True
				}
				ip.writeElems(c, a, 0, vals, g)
			}
		}
		return nil, true
	case "close":
		return nil, ip.closeChan(c, args[0].(*RefV))
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if s, ok := r.(*StrV); ok {
				lt := strLt(s, a.(*StrV), false)
				if name == "max" {
					lt = strLt(a.(*StrV), s, false)
				}
				r = iteVal(lt, r, a)
				continue
			}
			x, y := r.(*Term), a.(*Term)
			var lt *Term
			switch {
			case x.sort.isFP():
				lt = FCmp(OFlt, x, y)
				if name == "max" {
					lt = FCmp(OFlt, y, x)
				}
			default:
				op := OUlt
				if isSigned(cc.Args[0].Type()) {
					op = OSlt
				}
				lt = Cmp(op, x, y)
				if name == "max" {
					lt = Cmp(op, y, x)
				}
			}
			r = Ite(lt, x, y)
		}
		return r, true
	case "print", "println":
		return nil, true
	case "recover":
		f := c.frames[len(c.frames)-1]
		if f.ret == retUnwind && len(c.frames) > 1 && c.frames[len(c.frames)-2].unwinding && len(c.panics) > 0 {
			ps := append([]panicState(nil), c.panics...)
			p := &ps[len(ps)-1]
			if !p.recovered {
				p.recovered = true
				c.panics = ps
				return p.val, true
			}
		}
		return nilIface, true
	case "ssa:wrapnilchk":
		if !ip.checkNil(c, args[0].(*RefV), "value method called using nil pointer") {
			return nil, false
		}
		return args[0], true
	}
	unsupported("builtin %s at %s", name, ip.where(c))
	return nil, false
}

type elemsAlt struct {
	g     *Term
	elems []Value
}

func (ip *Interp) elemsOf(c *Config, v Value) []elemsAlt {
	var out []elemsAlt
	switch x := v.(type) {
	case *StrV:
		for _, a := range x.alts {
			e := make([]Value, len(a.b))
			for i := range e {
				e[i] = a.b[i]
			}
			out = append(out, elemsAlt{a.g, e})
		}
	case *SliceV:
		for _, a := range x.alts {
			out = append(out, elemsAlt{a.g, ip.sliceElems(c, a)})
		}
	}
	return out
}

func (ip *Interp) writeElems(c *Config, a SliceAlt, at int, vals []Value, g *Term) {
	if len(vals) == 0 || g == False {
		return
	}
	o := ip.memGet(c, a.obj)
	p := a.path.list()
	arr := getPath(o.val, p).(*AggV)
	nf := append([]Value(nil), arr.f...)
	for i, v := range vals {
		k := a.off + at + i
		if k >= len(nf) {
			if ip.feasible(And(c.guard, g)) {
				unsupported("write beyond the array of a slice")
			}
			break
		}
		nf[k] = iteVal(g, v, nf[k])
	}
	c.mem.Set(a.obj, &Obj{kind: 'c', val: setPath(o.val, p, &AggV{nf})})
}

func (ip *Interp) appendB(c *Config, args []Value, cc *ssa.CallCommon) Value {
	s := args[0].(*SliceV)
	if len(args) < 2 {
		return s
	}
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	es := ip.elemsOf(c, args[1])
	var out []SliceAlt
	sub := 0
	f := c.frames[len(c.frames)-1]
	site := f.instrSite()
	n := -1
	for _, a := range s.alts {
		for _, e := range es {
			g := And(a.g, e.g)
			if g == False || And(c.guard, g) == False {
				continue
			}
			if len(e.elems) == 0 {
				a2 := a
				a2.g = g
				out = addSliceAlt(out, a2)
				continue
			}
			nl := a.len + len(e.elems)
			if nl <= a.cap {
				wg := g
				if len(s.alts) == 1 && len(es) == 1 {
					wg = True
				}
				ip.writeElems(c, a, a.len, e.elems, wg)
				out = addSliceAlt(out, SliceAlt{g, a.obj, a.path, a.off, nl, a.cap})
				continue
			}
			cp := growCap(a.cap, nl, et)
			if n < 0 {
				n = c.nextCount(site)
			}
			id := ip.objFor(objKey{c.tid, site, n, sub})
			sub++
			var old []Value
			if a.len > 0 {
				old = ip.sliceElems(c, a)
			}
			arr := make([]Value, cp)
			copy(arr, old)
			copy(arr[a.len:], e.elems)
			z := ip.zero(et)
			for i := nl; i < cp; i++ {
				arr[i] = z
			}
			c.mem.Set(id, &Obj{kind: 'c', val: &AggV{arr}})
			out = addSliceAlt(out, SliceAlt{g, id, nil, 0, nl, cp})
		}
	}
	if len(out) == 0 {
		return s
	}
	if len(out) == 1 {
		out[0].g = True
	}
	return &SliceV{out}
}

func addSliceAlt(out []SliceAlt, a SliceAlt) []SliceAlt {
	for i := range out {
		o := &out[i]
		if o.obj == a.obj && o.path == a.path && o.off == a.off && o.len == a.len && o.cap == a.cap {
			o.g = Or(o.g, a.g)
			return out
		}
	}
	return append(out, a)
}

func (ip *Interp) copyB(c *Config, args []Value) Value {
	d := args[0].(*SliceV)
	es := ip.elemsOf(c, args[1])
	var gs, ns []*Term
	single := len(d.alts) == 1 && len(es) == 1
	for _, a := range d.alts {
		for _, e := range es {
			g := And(a.g, e.g)
			if g == False {
				continue
			}
			n := len(e.elems)
			if a.len < n {
				n = a.len
			}
			wg := g
			if single {
				wg = True
			}
			ip.writeElems(c, a, 0, append([]Value(nil), e.elems[:n]...), wg)
			gs = append(gs, g)
			ns = append(ns, Int(n))
		}
	}
	return unionTerm(len(ns), func(i int) (*Term, *Term) { return gs[i], ns[i] })
}
