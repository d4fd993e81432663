package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type istatus int

const (
	iEnded  istatus = iota // configuration ended or was queued
	iDone                  // value delivered
	iPushed                // frame pushed, go on
)

type callCtx struct {
	fn    *ssa.Function
	args  []Value
	mode  retMode
	merge bool
	extra int
}

type intrinsic func(ip *Interp, c *Config, k *callCtx) (Value, istatus)

var repoDir = "/repo"
var thorough bool

const vp = vmPath + "."

var intrinsics map[string]intrinsic

// awaits: blocking model primitives and their enabledness.
var awaits = map[string]func(ip *Interp, c *Config, arg Value) *Term{
	vp + "AwaitZero": func(ip *Interp, c *Config, a Value) *Term {
		return Eq(ip.loadNN(c, a.(*RefV)).(*Term), Int(0))
	},
	vp + "AwaitNonNeg": func(ip *Interp, c *Config, a Value) *Term {
		return Not(Cmp(OSlt, ip.loadNN(c, a.(*RefV)).(*Term), Int(0)))
	},
	vp + "AwaitTrue": func(ip *Interp, c *Config, a Value) *Term {
		return ip.loadNN(c, a.(*RefV)).(*Term)
	},
}

// noInit: packages whose package initialisation is not run; their globals read as zero values.
func noInit(path string) bool {
	switch path {
	case modPath + "/internal", "internal/testlog", "internal/cpu", "internal/godebug", "runtime":
		return true
	}
	return strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "google.golang.org/protobuf/")
}

// noop: calls without effect on any property (logging, registration).
func (ip *Interp) noop(fn *ssa.Function, name string) bool {
	n := fn.Name()
	if n == "init" && fn.Pkg != nil && fn.Synthetic != "" {
		return true // imported package initialisers run on their own
	}
	if strings.HasPrefix(n, "file_") && strings.HasSuffix(n, "_proto_init") {
		return true
	}
	p := ""
	if fn.Pkg != nil {
		p = fn.Pkg.Pkg.Path()
	}
	switch p {
	case modPath + "/internal/logger", "github.com/go-logr/logr", "log":
		return true
	}
	if strings.HasPrefix(name, "internal/race.") || strings.HasPrefix(name, "internal/godebug.") || strings.HasPrefix(name, "(*internal/godebug.") {
		return true
	}
	return name == "runtime.SetFinalizer" || name == "runtime.Gosched" || name == "runtime.KeepAlive"
}

func conc(c *Config, ip *Interp, v Value, what string) string {
	s, ok := v.(*StrV).concrete()
	if !ok {
		unsupported("symbolic %s", what)
	}
	return s
}

func (ip *Interp) inputName(c *Config, k *callCtx, idxArg int) string {
	n := conc(c, ip, k.args[0], "input name")
	if len(k.args) > idxArg {
		s := k.args[idxArg].(*SliceV)
		for _, a := range s.alts {
			for _, e := range ip.sliceElems(c, a) {
				t := e.(*Term)
				if !t.isConst() {
					unsupported("symbolic input index")
				}
				n += "." + strconv.FormatInt(t.sval(), 10)
			}
			break
		}
	}
	return n
}

func (ip *Interp) addInput(name, kind string, v Value) Value {
	ip.inputs = append(ip.inputs, inputVar{name, v, kind})
	return v
}

// assumeIf adds an assumption valid under the configuration's guard.
func (ip *Interp) assumeIf(g, t *Term) {
	if a := Or(Not(g), t); a != True {
		ip.assume = append(ip.assume, a)
	}
}

func (ip *Interp) strInput(name string, lo, hi int) *StrV {
	b := make([]*Term, hi)
	for i := range b {
		b[i] = NewVar(fmt.Sprintf("%s[%d]", name, i), 8)
	}
	if lo == hi {
		return &StrV{[]StrAlt{{True, b}}}
	}
	out := &StrV{}
	rest := True
	for n := lo; n <= hi; n++ {
		g := rest
		if n < hi {
			v := NewVar(fmt.Sprintf("%s.len%d", name, n), SBool)
			g = And(rest, v)
			rest = And(rest, Not(v))
		}
		out.alts = append(out.alts, StrAlt{g, b[:n]})
	}
	return out
}

func (ip *Interp) choose(name string, n int) *Term {
	t := Int(n - 1)
	for i := n - 2; i >= 0; i-- {
		t = Ite(NewVar(fmt.Sprintf("%s=%d", name, i), SBool), Int(i), t)
	}
	return t
}

func simple(sort Sort, kind string) intrinsic {
	return func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
		n := ip.inputName(c, k, 1)
		return ip.addInput(n, kind, NewVar(n, sort)), iDone
	}
}

func ifaceRefAlts(v Value) []RefAlt {
	var out []RefAlt
	switch x := v.(type) {
	case *RefV:
		return x.alts
	case *IfaceV:
		for _, a := range x.alts {
			if r, ok := a.val.(*RefV); ok && a.typ != nil {
				for _, q := range r.alts {
					g := And(a.g, q.g)
					if g != False {
						out = append(out, RefAlt{g, q.obj, q.path})
					}
				}
			} else {
				out = append(out, RefAlt{a.g, 0, nil})
			}
		}
	}
	return out
}

func init() {
	intrinsics = map[string]intrinsic{
		vp + "Bool": simple(SBool, "bool"),
		vp + "Byte": simple(8, "byte"),
		vp + "I32":  simple(32, "i32"),
		vp + "I64":  simple(64, "i64"),
		vp + "U64":  simple(64, "i64"),
		vp + "F32":  simple(SF32, "f32"),
		vp + "F64":  simple(SF64, "f64"),
		vp + "Int": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			n := ip.inputName(c, k, 3)
			lo, hi := k.args[1].(*Term), k.args[2].(*Term)
			if lo.isConst() && hi.isConst() && int64(lo.val) <= int64(hi.val) && hi.val-lo.val < 1<<16 {
				w := Sort(1)
				for hi.val-lo.val >= 1<<w {
					w++
				}
				x := NewVar(n, w)
				if r := Cmp(OUle, x, BVc(hi.val-lo.val, w)); r != True {
					ip.assume = append(ip.assume, r)
				}
				return ip.addInput(n, "int", BVop(OAdd, Zext(x, 64), lo)), iDone
			}
			v := NewVar(n, 64)
			ip.assume = append(ip.assume, Cmp(OSle, lo, v), Cmp(OSle, v, hi))
			return ip.addInput(n, "int", v), iDone
		},
		vp + "Choose": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			n := ip.inputName(c, k, 2)
			cnt := k.args[1].(*Term)
			if !cnt.isConst() {
				unsupported("symbolic Choose")
			}
			return ip.addInput(n, "int", ip.choose(n, int(cnt.val))), iDone
		},
		vp + "Str": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			n := ip.inputName(c, k, 2)
			return ip.addInput(n, "str", ip.strInput(n, 0, int(k.args[1].(*Term).val))), iDone
		},
		vp + "StrN": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			n := ip.inputName(c, k, 2)
			l := int(k.args[1].(*Term).val)
			return ip.addInput(n, "str", ip.strInput(n, l, l)), iDone
		},
		vp + "Assume": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			t := k.args[0].(*Term)
			// every query carries the assumptions, so the path's guard stays as it is
			ip.assumeIf(c.guard, t)
			if And(c.guard, t) == False {
				return nil, iEnded
			}
			return nil, iDone
		},
		vp + "Assert": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			ip.nAsserts++
			ip.addViol(And(c.guard, Not(k.args[0].(*Term))), conc(c, ip, k.args[1], "assert message"), c, "assert")
			return nil, iDone
		},
		vp + "Reach": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			l := conc(c, ip, k.args[0], "reach label")
			if o, ok := ip.reach[l]; ok {
				ip.reach[l] = Or(o, c.guard)
			} else {
				ip.reach[l] = c.guard
			}
			return nil, iDone
		},
		vp + "Final": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			if ip.finalObj == 0 {
				ip.finalObj = ip.freshObj()
			}
			ip.finals = append(ip.finals, finalFn{c.guard, k.args[0].(*FuncV)})
			return nil, iDone
		},
		vp + "Case": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			return Int(ip.opts.Case), iDone
		},
		vp + "Thorough": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) { return Boolc(thorough), iDone },
		vp + "Symbolic": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) { return True, iDone },
		vp + "Yield": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			if !ip.visible(c, nil, "atomic step") {
				return nil, iEnded
			}
			return nil, iDone
		},
		vp + "AtomicBegin": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) { c.atomic++; return nil, iDone },
		vp + "AtomicEnd":   func(ip *Interp, c *Config, k *callCtx) (Value, istatus) { c.atomic--; return nil, iDone },
		vp + "UniqueID": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			// identified by call path, so that every execution agrees
			id := ip.newObj(c, 0)
			c.mem.Set(id, &Obj{kind: 'c', val: True})
			return strConst(conc(c, ip, k.args[0], "prefix") + fmt.Sprintf("%03d", id)), iDone
		},
		vp + "Unsupported": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			if ip.feasible(c.guard) {
				unsupported("model: %s at %s", conc(c, ip, k.args[0], "msg"), ip.stackStr(c))
			}
			return nil, iEnded
		},
		vp + "Now": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			now := ip.now(c)
			if ip.opts.Clock < 0 { // time passes only when timers fire
				return now, iDone
			}
			d := NewVar(fmt.Sprintf("elapsed.%d.%d", ip.slot, c.tid), Sort(ip.opts.Clock))
			n := BVop(OAdd, now, Zext(d, 64))
			c.mem.Set(ip.nowObj, &Obj{kind: 'c', val: n})
			return n, iDone
		},
		vp + "Clock": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			return ip.now(c), iDone
		},
		vp + "FreshI64": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			n := conc(c, ip, k.args[0], "name")
			v := NewVar(n, 64)
			return ip.addInput(v.name, "i64", v), iDone
		},
		vp + "ToTime":   func(ip *Interp, c *Config, k *callCtx) (Value, istatus) { return k.args[0], iDone },
		vp + "FromTime": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) { return k.args[0], iDone },
		vp + "TimerChan": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			id := ip.newObj(c, 0)
			ip.chanSites[id] = "timer " + ip.where(c)
			dl := BVop(OAdd, ip.now(c), k.args[0].(*Term))
			zero := &AggV{[]Value{Int(0), False}}
			c.mem.Set(id, &Obj{kind: 'h', ch: &ChanState{cap: 1, closed: False, taken: False, isTimer: true, armed: True, deadline: dl, zero: zero, timerID: id}})
			ip.addTimer(id)
			return refTo(id), iDone
		},
		vp + "TimerDisarm": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			was := False
			for _, a := range k.args[0].(*RefV).alts {
				s := ip.chObj(c, a.obj)
				if s == nil {
					continue
				}
				n := s.clone()
				// a timer that fired unobserved leaves its value; since Go 1.23 Stop discards it
				was = Or(was, And(a.g, s.armed))
				n.armed = And(s.armed, Not(a.g))
				c.mem.Set(a.obj, &Obj{kind: 'h', ch: n})
			}
			return was, iDone
		},
		vp + "TimerReset": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			was := False
			dl := BVop(OAdd, ip.now(c), k.args[1].(*Term))
			for _, a := range k.args[0].(*RefV).alts {
				s := ip.chObj(c, a.obj)
				if s == nil {
					continue
				}
				n := s.clone()
				was = Or(was, And(a.g, s.armed))
				n.armed = Or(s.armed, a.g)
				n.deadline = Ite(a.g, dl, s.deadline)
				c.mem.Set(a.obj, &Obj{kind: 'h', ch: n})
			}
			return was, iDone
		},
		vp + "NewDone": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			id := ip.newObj(c, 0)
			ip.chanSites[id] = "context " + ip.where(c)
			timer := k.args[1].(*Term)
			var ps []RefAlt
			for _, a := range k.args[0].(*RefV).alts {
				if a.obj != 0 {
					ps = append(ps, a)
				}
			}
			c.mem.Set(id, &Obj{kind: 'h', ch: &ChanState{cap: 0, closed: False, taken: False, isTimer: timer == True, armed: timer, deadline: k.args[2].(*Term), zero: &AggV{}, parents: ps, timerID: id}})
			if timer == True {
				ip.addTimer(id)
			}
			return refTo(id), iDone
		},
		vp + "ClosedNow": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			r := False
			for _, a := range k.args[0].(*RefV).alts {
				if s := ip.chObj(c, a.obj); s != nil {
					r = Or(r, And(a.g, ip.effClosed(c, s)))
				}
			}
			return r, iDone
		},
		vp + "OwnClosed": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			return ip.anyClosed(c, k.args[0].(*RefV)), iDone
		},
		vp + "PollFire": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			for _, a := range k.args[0].(*RefV).alts {
				if s := ip.chObj(c, a.obj); s != nil {
					f := And(a.g, ip.canFire(c, s), Not(ip.effClosed(c, s)))
					if f != False && And(c.guard, f) != False {
						ip.fire(c, a.obj, And(f, ip.freshBool("fired", c)))
					}
				}
			}
			return nil, iDone
		},
		vp + "CloseNow": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			r := k.args[0].(*RefV)
			for _, a := range r.alts {
				if s := ip.chObj(c, a.obj); s != nil {
					n := s.clone()
					n.closed = Or(s.closed, a.g)
					c.mem.Set(a.obj, &Obj{kind: 'h', ch: n})
				}
			}
			return nil, iDone
		},
		vp + "AssignTo": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			v := k.args[0].(*IfaceV)
			r := False
			for _, ta := range k.args[1].(*IfaceV).alts {
				pt, ok := ta.typ.(*types.Pointer)
				if !ok {
					continue
				}
				m, vals, gs, isI := ip.assertAlts(v, pt.Elem())
				g := And(ta.g, m)
				if g == False {
					continue
				}
				var nv Value
				if isI {
					nv = vals[0]
				} else {
					nv = unionVal(len(vals), func(i int) (*Term, Value) { return gs[i], vals[i] })
				}
				ref := ta.val.(*RefV)
				old := ip.loadNN(c, ref)
				if !ip.store(c, ref, iteVal(g, nv, old)) {
					return nil, iEnded
				}
				r = Or(r, g)
			}
			return r, iDone
		},
		vp + "Comparable": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			r := False
			for _, a := range k.args[0].(*IfaceV).alts {
				if a.typ == nil || types.Comparable(a.typ) {
					r = Or(r, a.g)
				}
			}
			return r, iDone
		},
		vp + "SameType": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			r := False
			for _, a := range k.args[0].(*IfaceV).alts {
				for _, b := range k.args[1].(*IfaceV).alts {
					if a.typ == b.typ {
						r = Or(r, And(a.g, b.g))
					}
				}
			}
			return r, iDone
		},
		vp + "GoTypeString": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			v := k.args[0].(*IfaceV)
			return unionVal(len(v.alts), func(i int) (*Term, Value) {
				if v.alts[i].typ == nil {
					return v.alts[i].g, strConst("<nil>")
				}
				return v.alts[i].g, strConst(types.TypeString(v.alts[i].typ, func(p *types.Package) string { return p.Name() }))
			}), iDone
		},
		vp + "Marshal":    protoMarshal,
		vp + "Unmarshal":  protoUnmarshal,
		vp + "TypeName":   protoTypeName,
		vp + "NewLike":    protoNewLike,
		vp + "NewByName":  protoNewByName,
		vp + "DeepCopy":   protoDeepCopy,
		vp + "ProtoEqual": protoEqual,
		vp + "SizeOf": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			// an uninterpreted non-negative size, a function of the message's identity
			v := Value(Int(0))
			for _, a := range ifaceRefAlts(k.args[0]) {
				if a.obj == 0 {
					continue
				}
				key := fmt.Sprintf("size.%d.%v", a.obj, a.path.list())
				if ip.sizes == nil {
					ip.sizes = map[string]*Term{}
				}
				if ip.sizes[key] == nil {
					ip.sizes[key] = Zext(NewVar(key, 16), 64)
				}
				v = iteVal(a.g, ip.sizes[key], v)
			}
			return v, iDone
		},
		vp + "IsNilV": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			r := False
			for _, a := range ifaceRefAlts(k.args[0]) {
				if a.obj == 0 {
					r = Or(r, a.g)
				}
			}
			return r, iDone
		},
		"maps.Clone":                  mapClone,
		"golang.org/x/exp/maps.Clone": mapClone,
		"internal/abi.NoEscape":       ident,
		"internal/abi.Escape":         ident,
		"strings.noescape":            ident,
		"internal/bytealg.MakeNoZero": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			n, ok := ip.concreteInt(c, k.args[0].(*Term), "buffer size")
			if !ok {
				return nil, iEnded
			}
			id := ip.newObj(c, 0)
			ip.initArray(c, id, types.Typ[types.Uint8], n)
			return &SliceV{[]SliceAlt{{True, id, nil, 0, n, n}}}, iDone
		},
		"(*strings.Builder).String": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			r := k.args[0].(*RefV)
			if !ip.checkNil(c, r, "nil builder") {
				return nil, iEnded
			}
			b := ip.loadNN(c, refField(r, 1)).(*SliceV)
			return ip.bytesToStr(c, b), iDone
		},
		"(*strings.Builder).copyCheck": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) { return nil, iDone },
		"math.Float32bits": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			t := k.args[0].(*Term)
			if !t.isConst() {
				unsupported("Float32bits of symbolic")
			}
			return BVc(t.val, 32), iDone
		},
		"math.Float64bits": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			t := k.args[0].(*Term)
			if !t.isConst() {
				unsupported("Float64bits of symbolic")
			}
			return BVc(t.val, 64), iDone
		},
		"math.Pow": func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			a, b := k.args[0].(*Term), k.args[1].(*Term)
			if !a.isConst() || !b.isConst() {
				unsupported("math.Pow symbolic")
			}
			return F64c(math.Pow(fval(a), fval(b))), iDone
		},
	}
	for n, e := range awaits {
		n, e := n, e
		what := map[string]string{vp + "AwaitZero": "lock/wait", vp + "AwaitNonNeg": "read lock", vp + "AwaitTrue": "wait"}[n]
		intrinsics[n] = func(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
			if !ip.visible(c, func() *Term { return e(ip, c, k.args[0]) }, what) {
				return nil, iEnded
			}
			return nil, iDone
		}
	}
	_ = os.Stderr
}

func ident(ip *Interp, c *Config, k *callCtx) (Value, istatus) { return k.args[0], iDone }

func mapClone(ip *Interp, c *Config, k *callCtx) (Value, istatus) {
	r := k.args[0].(*RefV)
	var out []RefAlt
	site := c.frames[len(c.frames)-1].instrSite()
	n := c.nextCount(site)
	for i, a := range r.alts {
		if a.obj == 0 {
			out = append(out, a)
			continue
		}
		o := c.mem.Get(a.obj)
		if o == nil {
			continue
		}
		id := ip.objFor(objKey{c.tid, site, n, 1000 + i})
		c.mem.Set(id, &Obj{kind: 'm', slots: append([]mapSlot(nil), o.slots...)})
		out = append(out, RefAlt{a.g, id, nil})
	}
	return &RefV{out}, iDone
}
