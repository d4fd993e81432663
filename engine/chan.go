package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- channels ------------------------------------------------------------------
//
// A channel object holds a unary occupancy vector. Timer channels can fire whenever
// they are armed; a "done" channel (context) may be linked to parents and is closed
// when it or any parent is closed or fires.

func (ip *Interp) chObj(c *Config, id ObjID) *ChanState {
	o := c.mem.Get(id)
	if o == nil || o.kind != 'h' {
		return nil
	}
	return o.ch
}

func (s *ChanState) clone() *ChanState {
	n := *s
	n.occ = append([]*Term(nil), s.occ...)
	n.cells = append([]Value(nil), s.cells...)
	return &n
}

// effClosed: closed itself or through a parent.
func (ip *Interp) effClosed(c *Config, s *ChanState) *Term {
	r := s.closed
	for _, p := range s.parents {
		if ps := ip.chObj(c, p.obj); ps != nil {
			r = Or(r, And(p.g, ip.effClosed(c, ps)))
		}
	}
	return r
}

// canFire: a timer of the channel or of a parent may fire (only meaningful when not closed).
func (ip *Interp) canFire(c *Config, s *ChanState) *Term {
	r := False
	if ip.noTimers {
		return False
	}
	if s.isTimer {
		r = ip.ownFire(c, s)
	}
	for _, p := range s.parents {
		if ps := ip.chObj(c, p.obj); ps != nil {
			r = Or(r, And(p.g, ip.canFire(c, ps)))
		}
	}
	return r
}

// ownFire: this very timer may fire.
func (ip *Interp) ownFire(c *Config, s *ChanState) *Term {
	r := And(s.armed, Not(s.closed))
	if !ip.opts.Event || r == False {
		return r
	}
	if ip.onlyTimer != 0 {
		if s.timerID != ip.onlyTimer {
			return False
		}
		return r
	}
	f, ok := ip.fireable[s.timerID]
	if !ok || f == False {
		return False
	}
	return And(r, f, c.mem.Get(ip.tickObj).val.(*Term))
}

func (ip *Interp) addTimer(id ObjID) {
	for _, t := range ip.timers {
		if t == id {
			return
		}
	}
	ip.timers = append(ip.timers, id)
}

// planTick decides, for event-driven harnesses, which timer fires in this round: when nobody
// can move, the earliest of those somebody waits for.
func (ip *Interp) planTick() {
	ip.fireable = map[ObjID]*Term{}
	enabled := func() *Term {
		r := False
		for _, t := range ip.threads {
			for _, s := range t.saved {
				cc := &Config{frames: s.frames, guard: s.guard, mem: ip.base.Fork(), tid: t.id}
				r = Or(r, And(s.guard, ip.enabledOf(cc)))
			}
		}
		return r
	}
	ip.noTimers = true
	quiet := Not(enabled())
	ip.noTimers = false
	if quiet == False || !ip.feasible(quiet) {
		return
	}
	type tm struct {
		id ObjID
		w  *Term
		dl *Term
	}
	var ts []tm
	c := &Config{guard: True, mem: ip.base.Fork()}
	for _, id := range ip.timers {
		s := ip.chObj(c, id)
		if s == nil || And(s.armed, Not(ip.effClosed(c, s))) == False {
			continue
		}
		ip.onlyTimer = id
		w := And(s.armed, Not(ip.effClosed(c, s)), enabled())
		ip.onlyTimer = 0
		if w != False && ip.feasible(And(quiet, w)) {
			ts = append(ts, tm{id, w, s.deadline})
		}
	}
	for _, t := range ts {
		f := And(quiet, t.w)
		for _, u := range ts {
			if u.id != t.id {
				f = And(f, Not(And(u.w, Cmp(OSlt, u.dl, t.dl))))
			}
		}
		if f != False && ip.feasible(f) {
			ip.fireable[t.id] = f
		}
	}
	ip.base.Set(ip.tickObj, &Obj{kind: 'c', val: True})
}

// fire makes the nearest armed timer of a channel fire under g.
func (ip *Interp) fire(c *Config, id ObjID, g *Term) {
	s := ip.chObj(c, id)
	if s == nil || g == False {
		return
	}
	rest := g
	if s.isTimer {
		own := And(g, ip.ownFire(c, s))
		if own != False {
			if ip.opts.Event {
				c.mem.Set(ip.tickObj, &Obj{kind: 'c', val: And(c.mem.Get(ip.tickObj).val.(*Term), Not(own))})
			}
			n := s.clone()
			n.armed = And(s.armed, Not(own))
			now := ip.now(c)
			nn := Ite(And(own, Cmp(OSlt, now, s.deadline)), s.deadline, now)
			c.mem.Set(ip.nowObj, &Obj{kind: 'c', val: nn})
			if s.cap == 0 { // done channel: closing
				n.closed = Or(s.closed, own)
			} else {
				v := s.zero
				if a, ok := v.(*AggV); ok && len(a.f) == 2 {
					v = &AggV{[]Value{nn, True}}
				}
				pushCh(n, own, v)
			}
			c.mem.Set(id, &Obj{kind: 'h', ch: n})
			if ip.opts.Event {
				ip.expire(c, id, own, nn)
			}
		}
		rest = And(g, Not(own))
	}
	for _, p := range s.parents {
		ip.fire(c, p.obj, And(rest, p.g))
	}
}

// expire lets the timers nobody waits for fire when time has passed them.
func (ip *Interp) expire(c *Config, but ObjID, g, now *Term) {
	for _, id := range ip.timers {
		s := ip.chObj(c, id)
		if s == nil || id == but || ip.fireable[id] != nil {
			continue
		}
		own := And(g, s.armed, Not(s.closed), Not(Cmp(OSlt, now, s.deadline)))
		if own == False {
			continue
		}
		n := s.clone()
		n.armed = And(s.armed, Not(own))
		if s.cap == 0 {
			n.closed = Or(s.closed, own)
		} else {
			v := s.zero
			if a, ok := v.(*AggV); ok && len(a.f) == 2 {
				v = &AggV{[]Value{now, True}}
			}
			pushCh(n, own, v)
		}
		c.mem.Set(id, &Obj{kind: 'h', ch: n})
	}
}

func (ip *Interp) now(c *Config) *Term {
	o := c.mem.Get(ip.nowObj)
	if o == nil {
		return Int(1000000000)
	}
	return o.val.(*Term)
}

func pushCh(n *ChanState, g *Term, v Value) {
	// position k is written when exactly k messages are queued
	prev := True
	for k := 0; ; k++ {
		at := And(g, prev, Not(occAt(n, k)))
		if at != False {
			if k < len(n.cells) {
				n.cells[k] = iteVal(at, v, n.cells[k])
			} else {
				n.cells = append(n.cells, v)
				n.occ = append(n.occ, False)
			}
		}
		if k >= len(n.occ) {
			break
		}
		old := n.occ[k]
		n.occ[k] = Or(old, at)
		prev = And(prev, old)
		if prev == False {
			break
		}
	}
	trimCh(n)
}

func occAt(n *ChanState, k int) *Term {
	if k < len(n.occ) {
		return n.occ[k]
	}
	return False
}

func trimCh(n *ChanState) {
	for len(n.occ) > 0 && n.occ[len(n.occ)-1] == False {
		n.occ = n.occ[:len(n.occ)-1]
		n.cells = n.cells[:len(n.cells)-1]
	}
}

func popCh(n *ChanState, g *Term) Value {
	if len(n.occ) == 0 {
		return n.zero
	}
	v := n.cells[0]
	had := n.occ[0]
	pg := And(g, had)
	for k := range n.occ {
		no := occAt(n, k+1)
		n.occ[k] = Ite(pg, no, n.occ[k])
		if k+1 < len(n.cells) {
			n.cells[k] = iteVal(pg, n.cells[k+1], n.cells[k])
		}
	}
	trimCh(n)
	if had == True {
		return v
	}
	return iteVal(had, v, n.zero)
}

// recvEnabled / sendEnabled over a union of channels
func (ip *Interp) recvEnabled(c *Config, r *RefV) *Term {
	e := False
	for _, a := range r.alts {
		if a.obj == 0 {
			continue
		}
		s := ip.chObj(c, a.obj)
		if s == nil {
			continue
		}
		e = Or(e, And(a.g, Or(occAt(s, 0), ip.effClosed(c, s), ip.canFire(c, s))))
	}
	return e
}

func (ip *Interp) sendEnabled(c *Config, r *RefV, phase int) *Term {
	e := False
	for _, a := range r.alts {
		if a.obj == 0 {
			continue
		}
		s := ip.chObj(c, a.obj)
		if s == nil {
			continue
		}
		if s.cap == 0 {
			if phase == 0 {
				e = Or(e, And(a.g, Or(And(Not(occAt(s, 0)), Not(s.taken)), s.closed)))
			} else {
				e = Or(e, And(a.g, Or(s.taken, s.closed)))
			}
			continue
		}
		e = Or(e, And(a.g, Or(Not(occAt(s, s.cap-1)), s.closed)))
	}
	return e
}

func chName(ip *Interp, r *RefV) string {
	for _, a := range r.alts {
		if n, ok := ip.chanSites[a.obj]; ok {
			return "chan made at " + n
		}
	}
	return "chan"
}

func (ip *Interp) anyClosed(c *Config, r *RefV) *Term {
	e := False
	for _, a := range r.alts {
		if s := ip.chObj(c, a.obj); s != nil {
			e = Or(e, And(a.g, s.closed))
		}
	}
	return e
}

func (ip *Interp) isUnbuf(c *Config, r *RefV) bool {
	n, u := 0, 0
	for _, a := range r.alts {
		if s := ip.chObj(c, a.obj); s != nil {
			n++
			if s.cap == 0 {
				u++
			}
		}
	}
	if u > 0 && u < n {
		unsupported("mix of buffered and unbuffered channels in one send")
	}
	return u > 0
}

func (ip *Interp) doPush(c *Config, r *RefV, g *Term, v Value) {
	for _, a := range r.alts {
		s := ip.chObj(c, a.obj)
		if s == nil {
			continue
		}
		ag := a.g
		if len(r.alts) == 1 {
			ag = True
		}
		n := s.clone()
		pushCh(n, And(g, ag), v)
		c.mem.Set(a.obj, &Obj{kind: 'h', ch: n})
	}
}

// doPop receives under g (assumed enabled); returns value and ok flag.
func (ip *Interp) doPop(c *Config, r *RefV, g *Term, zero Value) (Value, *Term) {
	v := zero
	ok := False
	for _, a := range r.alts {
		s := ip.chObj(c, a.obj)
		if s == nil {
			continue
		}
		ag := And(g, a.g)
		if ag == False {
			continue
		}
		if f := ip.canFire(c, s); f != False {
			ip.fire(c, a.obj, And(ag, Not(occAt(s, 0)), Not(ip.effClosed(c, s)), f))
			s = ip.chObj(c, a.obj)
		}
		had := occAt(s, 0)
		if had == False {
			continue
		}
		n := s.clone()
		x := popCh(n, ag)
		if s.cap == 0 && !s.isTimer {
			n.taken = Or(n.taken, And(ag, had))
		}
		c.mem.Set(a.obj, &Obj{kind: 'h', ch: n})
		v = iteVal(And(a.g, had), x, v)
		ok = Or(ok, And(a.g, had))
	}
	return v, ok
}

func (ip *Interp) send(c *Config, x *ssa.Send) bool {
	r := ip.get(c, x.Chan).(*RefV)
	f := c.top()
	ph := f.phase
	if !ip.visible(c, func() *Term { return ip.sendEnabled(c, r, ph) }, "send on "+chName(ip, r)) {
		return false
	}
	if !ip.checkPanic(c, ip.anyClosed(c, r), "send on closed channel") {
		return false
	}
	f = c.top()
	if ip.isUnbuf(c, r) {
		if ph == 0 {
			ip.doPush(c, r, True, ip.get(c, x.X))
			f.phase = 1
			return true
		}
		for _, a := range r.alts {
			s := ip.chObj(c, a.obj)
			if s == nil {
				continue
			}
			n := s.clone()
			n.taken = And(s.taken, Not(a.g))
			c.mem.Set(a.obj, &Obj{kind: 'h', ch: n})
		}
		f.phase = 0
		f.pc++
		return true
	}
	ip.doPush(c, r, True, ip.get(c, x.X))
	f.pc++
	return true
}

func (ip *Interp) recv(c *Config, x *ssa.UnOp) bool {
	r := ip.get(c, x.X).(*RefV)
	if !ip.visible(c, func() *Term { return ip.recvEnabled(c, r) }, "receive from "+chName(ip, r)) {
		return false
	}
	zero := ip.zero(x.X.Type().Underlying().(*types.Chan).Elem())
	v, ok := ip.doPop(c, r, True, zero)
	f := c.top()
	if x.CommaOk {
		f.regs[f.fi.reg[x]] = &AggV{[]Value{v, ok}}
	} else {
		f.regs[f.fi.reg[x]] = v
	}
	f.pc++
	return true
}

func (ip *Interp) selectEnabled(c *Config, x *ssa.Select) []*Term {
	out := make([]*Term, len(x.States))
	for i, st := range x.States {
		r := ip.get(c, st.Chan).(*RefV)
		if st.Dir == types.SendOnly {
			out[i] = ip.sendEnabled(c, r, 0)
		} else {
			out[i] = ip.recvEnabled(c, r)
		}
	}
	return out
}

func (ip *Interp) freshBool(kind string, c *Config) *Term {
	v := NewVar(fmt.Sprintf("%s.%d.%d", kind, ip.slot, c.tid), SBool)
	ip.stopInfo[v.name] = ip.where(c)
	return v
}

func (ip *Interp) selectStmt(c *Config, x *ssa.Select) bool {
	for _, st := range x.States {
		if st.Dir == types.SendOnly && ip.isUnbuf(c, ip.get(c, st.Chan).(*RefV)) {
			unsupported("select send on unbuffered channel at %s", ip.where(c))
		}
	}
	var en func() *Term
	if x.Blocking {
		en = func() *Term { return Or(ip.selectEnabled(c, x)...) }
	}
	if !ip.visible(c, en, "select") {
		return false
	}
	ens := ip.selectEnabled(c, x)
	if !x.Blocking {
		// an armed timer has fired, or not yet
		for i, st := range x.States {
			if st.Dir == types.SendOnly {
				continue
			}
			r := ip.get(c, st.Chan).(*RefV)
			e := False
			for _, a := range r.alts {
				if s := ip.chObj(c, a.obj); s != nil {
					now := Or(occAt(s, 0), ip.effClosed(c, s))
					if f := ip.canFire(c, s); f != False {
						now = Or(now, And(f, ip.freshBool("fired", c)))
					}
					e = Or(e, And(a.g, now))
				}
			}
			ens[i] = e
		}
	}
	picks := make([]*Term, len(ens))
	none := True
	for i := range ens {
		later := Or(ens[i+1:]...)
		p := And(none, ens[i])
		if p != False && later != False {
			p = And(p, Or(ip.freshBool("pick", c), Not(later)))
		}
		picks[i] = p
		none = And(none, Not(p))
	}
	// closed sends panic
	cl := False
	for i, st := range x.States {
		if st.Dir == types.SendOnly {
			cl = Or(cl, And(picks[i], ip.anyClosed(c, ip.get(c, st.Chan).(*RefV))))
		}
	}
	if !ip.checkPanic(c, cl, "send on closed channel (select)") {
		return false
	}
	res := []Value{Int(-1), False}
	idx := BVc(^uint64(0), 64)
	rok := False
	for i, st := range x.States {
		idx = Ite(picks[i], Int(i), idx)
		r := ip.get(c, st.Chan).(*RefV)
		if st.Dir == types.SendOnly {
			if picks[i] != False {
				ip.doPush(c, r, picks[i], ip.get(c, st.Send))
			}
			continue
		}
		zero := ip.zero(st.Chan.Type().Underlying().(*types.Chan).Elem())
		if picks[i] == False {
			res = append(res, zero)
			continue
		}
		v, ok := ip.doPop(c, r, picks[i], zero)
		rok = Or(rok, And(picks[i], ok))
		res = append(res, v)
	}
	res[0], res[1] = idx, rok
	f := c.top()
	f.regs[f.fi.reg[x]] = &AggV{res}
	f.pc++
	return true
}

func (ip *Interp) closeChan(c *Config, r *RefV) bool {
	if !ip.visible(c, nil, "close of "+chName(ip, r)) {
		return false
	}
	return ip.closeBody(c, r)
}

func (ip *Interp) closeBody(c *Config, r *RefV) bool {
	if !ip.checkNil(c, r, "close of nil channel") {
		return false
	}
	if !ip.checkPanic(c, ip.anyClosed(c, r), "close of closed channel") {
		return false
	}
	for _, a := range r.alts {
		s := ip.chObj(c, a.obj)
		if s == nil {
			continue
		}
		n := s.clone()
		if len(r.alts) == 1 {
			n.closed = True
		} else {
			n.closed = Or(s.closed, a.g)
		}
		c.mem.Set(a.obj, &Obj{kind: 'h', ch: n})
	}
	return true
}

func (ip *Interp) chanLen(c *Config, r *RefV) *Term {
	var gs, ls []*Term
	for _, a := range r.alts {
		t := Int(0)
		if s := ip.chObj(c, a.obj); s != nil {
			for i, o := range s.occ {
				t = Ite(o, Int(i+1), t)
			}
		}
		gs = append(gs, a.g)
		ls = append(ls, t)
	}
	return unionTerm(len(ls), func(i int) (*Term, *Term) { return gs[i], ls[i] })
}

func (ip *Interp) chanCap(c *Config, r *RefV) *Term {
	var gs, ls []*Term
	for _, a := range r.alts {
		t := Int(0)
		if s := ip.chObj(c, a.obj); s != nil {
			t = Int(s.cap)
		}
		gs = append(gs, a.g)
		ls = append(ls, t)
	}
	return unionTerm(len(ls), func(i int) (*Term, *Term) { return gs[i], ls[i] })
}

// enabledOf: can the saved configuration make progress in c.mem?
func (ip *Interp) enabledOf(c *Config) *Term {
	f := c.frames[len(c.frames)-1]
	if f.unwinding {
		return True
	}
	in := f.fn.Blocks[f.block].Instrs[f.pc]
	switch x := in.(type) {
	case *ssa.Send:
		return ip.sendEnabled(c, ip.get(c, x.Chan).(*RefV), f.phase)
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return ip.recvEnabled(c, ip.get(c, x.X).(*RefV))
		}
	case *ssa.Select:
		if x.Blocking {
			return Or(ip.selectEnabled(c, x)...)
		}
	case *ssa.Call:
		if fn := x.Call.StaticCallee(); fn != nil {
			if e, ok := awaits[fn.String()]; ok {
				return e(ip, c, ip.get(c, x.Call.Args[0]))
			}
		}
	}
	return True
}
