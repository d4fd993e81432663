package main

// ---- memory: objects by id, copy-on-write chunks -----------------------------

type ChanState struct {
	cap      int
	closed   *Term
	occ      []*Term // occ[i]: more than i messages queued
	cells    []Value
	zero     Value
	taken    *Term // unbuffered hand-off acknowledgement
	isTimer  bool
	timerID  ObjID
	armed    *Term
	deadline *Term
	parents  []RefAlt // done channels: closed when a parent is
}

type Obj struct {
	kind  byte // 'c' cell, 'm' map, 'h' chan
	val   Value
	slots []mapSlot
	ch    *ChanState
}

const chunkSize = 32

type chunk struct {
	owner *Mem
	objs  [chunkSize]*Obj
}

type Mem struct {
	chunks []*chunk
}

func NewMem() *Mem { return &Mem{} }

func (m *Mem) Fork() *Mem {
	n := &Mem{chunks: append([]*chunk(nil), m.chunks...)}
	// neither may write in place any more: ownership is by Mem identity, so the
	// parent must give up ownership too.
	for i, c := range m.chunks {
		if c != nil && c.owner == m {
			c.owner = nil
			_ = i
		}
	}
	return n
}

func (m *Mem) Get(id ObjID) *Obj {
	ci := int(id) / chunkSize
	if ci >= len(m.chunks) || m.chunks[ci] == nil {
		return nil
	}
	return m.chunks[ci].objs[int(id)%chunkSize]
}

func (m *Mem) Set(id ObjID, o *Obj) {
	ci := int(id) / chunkSize
	for ci >= len(m.chunks) {
		m.chunks = append(m.chunks, nil)
	}
	c := m.chunks[ci]
	if c == nil {
		c = &chunk{owner: m}
		m.chunks[ci] = c
	} else if c.owner != m {
		nc := &chunk{owner: m, objs: c.objs}
		m.chunks[ci] = nc
		c = nc
	}
	c.objs[int(id)%chunkSize] = o
}

// MergeMem returns ite(c, a, b).
func MergeMem(c *Term, a, b *Mem) *Mem {
	if a == b || c == True {
		return a
	}
	if c == False {
		return b
	}
	n := len(a.chunks)
	if len(b.chunks) > n {
		n = len(b.chunks)
	}
	out := &Mem{chunks: make([]*chunk, n)}
	for i := 0; i < n; i++ {
		var x, y *chunk
		if i < len(a.chunks) {
			x = a.chunks[i]
		}
		if i < len(b.chunks) {
			y = b.chunks[i]
		}
		if x == y {
			out.chunks[i] = x
			if x != nil {
				x.owner = nil
			}
			continue
		}
		if x == nil {
			x = &chunk{}
		}
		if y == nil {
			y = &chunk{}
		}
		nc := &chunk{owner: out}
		for k := 0; k < chunkSize; k++ {
			p, q := x.objs[k], y.objs[k]
			if p != q && (p == nil || q == nil) {
				if z := globalZero[ObjID(i*chunkSize+k)]; z != nil {
					if p == nil {
						p = z
					} else {
						q = z
					}
				}
			}
			nc.objs[k] = mergeObj(c, p, q)
		}
		out.chunks[i] = nc
	}
	return out
}

func mergeObj(c *Term, a, b *Obj) *Obj {
	if a == b || b == nil {
		return a
	}
	if a == nil {
		return b
	}
	if a.kind != b.kind {
		unsupported("merge of objects of different kinds")
	}
	switch a.kind {
	case 'c':
		return &Obj{kind: 'c', val: iteVal(c, a.val, b.val)}
	case 'm':
		return &Obj{kind: 'm', slots: mergeSlots(c, a.slots, b.slots)}
	}
	x, y := a.ch, b.ch
	if x.cap != y.cap {
		unsupported("merge of channels with different capacities")
	}
	r := &ChanState{cap: x.cap, closed: Ite(c, x.closed, y.closed), zero: x.zero, taken: Ite(c, x.taken, y.taken),
		isTimer: x.isTimer, timerID: x.timerID, armed: x.armed, deadline: x.deadline, parents: x.parents}
	if x.isTimer {
		r.armed = Ite(c, x.armed, y.armed)
		r.deadline = Ite(c, x.deadline, y.deadline)
	}
	if len(x.parents) > 0 || len(y.parents) > 0 {
		r.parents = iteVal(c, &RefV{x.parents}, &RefV{y.parents}).(*RefV).alts
	}
	n := len(x.occ)
	if len(y.occ) > n {
		n = len(y.occ)
	}
	for i := 0; i < n; i++ {
		ox, oy := False, False
		var vx, vy Value
		if i < len(x.occ) {
			ox, vx = x.occ[i], x.cells[i]
		}
		if i < len(y.occ) {
			oy, vy = y.occ[i], y.cells[i]
		}
		o := Ite(c, ox, oy)
		if o == False {
			break
		}
		r.occ = append(r.occ, o)
		if ox == False {
			r.cells = append(r.cells, vy)
		} else if oy == False {
			r.cells = append(r.cells, vx)
		} else {
			r.cells = append(r.cells, iteVal(c, vx, vy))
		}
	}
	return &Obj{kind: 'h', ch: r}
}
