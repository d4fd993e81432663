package zzvm

import (
	"context"
	"strconv"
	"time"
)

// ---- time ---------------------------------------------------------------------------

//vm:type time.Time
type Time struct {
	ns  int64
	set bool
}

//vm:type time.Timer
type Timer struct {
	C       <-chan time.Time
	ch      chan time.Time
	stopped bool
}

func ToTime(t Time) time.Time                   { panic("model") } // identity
func FromTime(t time.Time) Time                 { panic("model") } // identity
func TimerChan(d int64) chan time.Time          { panic("model") }
func TimerDisarm(c chan time.Time) bool         { panic("model") }
func TimerReset(c chan time.Time, d int64) bool { panic("model") }

//vm:replace time.Now
func timeNow() Time { return Time{Now(), true} }

//vm:replace time.Since
func timeSince(t Time) time.Duration { return time.Duration(Now() - t.ns) }

//vm:replace time.Until
func timeUntil(t Time) time.Duration { return time.Duration(t.ns - Now()) }

//vm:replace time.Unix
func timeUnix(s, ns int64) Time { return Time{s*1000000000 + ns, true} }

//vm:replace time.UnixMilli
func timeUnixMilli(ms int64) Time { return Time{ms * 1000000, true} }

//vm:replace (time.Time).Add
func timeAdd(t Time, d time.Duration) Time { return Time{t.ns + int64(d), t.set} }

//vm:replace (time.Time).Sub
func timeSub(t, u Time) time.Duration { return time.Duration(t.ns - u.ns) }

//vm:replace (time.Time).Before
func timeBefore(t, u Time) bool { return t.ns < u.ns }

//vm:replace (time.Time).After
func timeAfter(t, u Time) bool { return t.ns > u.ns }

//vm:replace (time.Time).Equal
func timeEqual(t, u Time) bool { return t.ns == u.ns }

//vm:replace (time.Time).Compare
func timeCompare(t, u Time) int {
	if t.ns < u.ns {
		return -1
	} else if t.ns > u.ns {
		return 1
	}
	return 0
}

//vm:replace (time.Time).IsZero
func timeIsZero(t Time) bool { return !t.set }

//vm:replace (time.Time).UnixNano
func timeUnixNano(t Time) int64 { return t.ns }

//vm:replace (time.Time).UnixMilli
func timeToUnixMilli(t Time) int64 { return t.ns / 1000000 }

//vm:replace (time.Time).Unix
func timeToUnix(t Time) int64 { return t.ns / 1000000000 }

//vm:replace (time.Time).UTC
func timeUTC(t Time) Time { return t }

//vm:replace (time.Time).String
func timeString(t Time) string { return "time" }

//vm:replace (time.Duration).String
func durString(d time.Duration) string { return "duration" }

//vm:replace time.NewTimer
func timeNewTimer(d time.Duration) *Timer {
	c := TimerChan(int64(d))
	return &Timer{C: c, ch: c}
}

//vm:replace time.After
func timeAfterCh(d time.Duration) <-chan time.Time { return TimerChan(int64(d)) }

//vm:replace time.Sleep
func timeSleep(d time.Duration) {
	if d <= 0 {
		Yield()
		return
	}
	<-TimerChan(int64(d))
}

//vm:replace time.AfterFunc
func timeAfterFunc(d time.Duration, f func()) *Timer {
	c := TimerChan(int64(d))
	go func() {
		<-c
		f()
	}()
	return &Timer{ch: c}
}

//vm:replace (*time.Timer).Stop
func timerStop(t *Timer) bool {
	Yield()
	return TimerDisarm(t.ch)
}

//vm:replace (*time.Timer).Reset
func timerReset(t *Timer, d time.Duration) bool {
	Yield()
	return TimerReset(t.ch, int64(d))
}

// ---- sync -----------------------------------------------------------------------------

//vm:type sync.Mutex
type Mutex struct{ state int }

//vm:replace (*sync.Mutex).Lock
func mutexLock(m *Mutex) {
	AwaitZero(&m.state)
	m.state = 1
}

//vm:replace (*sync.Mutex).TryLock
func mutexTryLock(m *Mutex) bool {
	Yield()
	if m.state == 0 {
		m.state = 1
		return true
	}
	return false
}

//vm:replace (*sync.Mutex).Unlock
func mutexUnlock(m *Mutex) {
	if m.state != 1 {
		panic("sync: unlock of unlocked mutex")
	}
	m.state = 0
}

//vm:type sync.RWMutex
type RWMutex struct{ state int }

//vm:replace (*sync.RWMutex).Lock
func rwLock(m *RWMutex) {
	AwaitZero(&m.state)
	m.state = -1
}

//vm:replace (*sync.RWMutex).Unlock
func rwUnlock(m *RWMutex) {
	if m.state != -1 {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.state = 0
}

//vm:replace (*sync.RWMutex).RLock
func rwRLock(m *RWMutex) {
	AwaitNonNeg(&m.state)
	m.state++
}

//vm:replace (*sync.RWMutex).RUnlock
func rwRUnlock(m *RWMutex) {
	if m.state <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.state--
}

//vm:type sync.WaitGroup
type WaitGroup struct{ n int }

//vm:replace (*sync.WaitGroup).Add
func wgAdd(w *WaitGroup, d int) {
	Yield()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

//vm:replace (*sync.WaitGroup).Done
func wgDone(w *WaitGroup) {
	w.n--
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

//vm:replace (*sync.WaitGroup).Wait
func wgWait(w *WaitGroup) { AwaitZero(&w.n) }

//vm:replace (*sync.WaitGroup).Go
func wgGo(w *WaitGroup, f func()) {
	wgAdd(w, 1)
	go func() {
		defer wgDone(w)
		f()
	}()
}

//vm:type sync.Once
type Once struct {
	busy int
	done bool
}

//vm:replace (*sync.Once).Do
func onceDo(o *Once, f func()) {
	AwaitZero(&o.busy)
	if o.done {
		return
	}
	o.busy = 1
	defer func() {
		o.done = true
		o.busy = 0
	}()
	f()
}

//vm:type sync.Map
type SyncMap struct{ m map[any]any }

//vm:replace (*sync.Map).Load
func smLoad(s *SyncMap, k any) (any, bool) {
	Yield()
	v, ok := s.m[k]
	return v, ok
}

//vm:replace (*sync.Map).Store
func smStore(s *SyncMap, k, v any) {
	Yield()
	if s.m == nil {
		s.m = map[any]any{}
	}
	s.m[k] = v
}

//vm:replace (*sync.Map).LoadOrStore
func smLoadOrStore(s *SyncMap, k, v any) (any, bool) {
	Yield()
	if s.m == nil {
		s.m = map[any]any{}
	}
	if x, ok := s.m[k]; ok {
		return x, true
	}
	s.m[k] = v
	return v, false
}

//vm:replace (*sync.Map).LoadAndDelete
func smLoadAndDelete(s *SyncMap, k any) (any, bool) {
	Yield()
	x, ok := s.m[k]
	delete(s.m, k)
	return x, ok
}

//vm:replace (*sync.Map).Delete
func smDelete(s *SyncMap, k any) {
	Yield()
	delete(s.m, k)
}

//vm:replace (*sync.Map).Range
func smRange(s *SyncMap, f func(k, v any) bool) {
	Yield()
	for k, v := range s.m {
		if !f(k, v) {
			return
		}
	}
}

//vm:type sync.Pool
type Pool struct {
	items []any
	n     int
	p2    int
	p3    int
	p4    int
	New   func() any
}

//vm:replace (*sync.Pool).Get
func poolGet(p *Pool) any {
	Yield()
	if p.n > 0 {
		p.n--
		return p.items[p.n]
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//vm:replace (*sync.Pool).Put
func poolPut(p *Pool, x any) {
	Yield()
	if p.items == nil {
		p.items = make([]any, 6)
	}
	if p.n < 6 { // a pool may drop items
		p.items[p.n] = x
		p.n++
	}
}

// ---- sync/atomic ------------------------------------------------------------------------

//vm:replace sync/atomic.LoadUint32
func atLoadU32(p *uint32) uint32 { Yield(); return *p }

//vm:replace sync/atomic.StoreUint32
func atStoreU32(p *uint32, v uint32) { Yield(); *p = v }

//vm:replace sync/atomic.AddUint32
func atAddU32(p *uint32, d uint32) uint32 { Yield(); *p += d; return *p }

//vm:replace sync/atomic.SwapUint32
func atSwapU32(p *uint32, v uint32) uint32 { Yield(); o := *p; *p = v; return o }

//vm:replace sync/atomic.CompareAndSwapUint32
func atCasU32(p *uint32, o, n uint32) bool {
	Yield()
	if *p == o {
		*p = n
		return true
	}
	return false
}

//vm:replace sync/atomic.LoadInt32
func atLoadI32(p *int32) int32 { Yield(); return *p }

//vm:replace sync/atomic.StoreInt32
func atStoreI32(p *int32, v int32) { Yield(); *p = v }

//vm:replace sync/atomic.AddInt32
func atAddI32(p *int32, d int32) int32 { Yield(); *p += d; return *p }

//vm:replace sync/atomic.SwapInt32
func atSwapI32(p *int32, v int32) int32 { Yield(); o := *p; *p = v; return o }

//vm:replace sync/atomic.CompareAndSwapInt32
func atCasI32(p *int32, o, n int32) bool {
	Yield()
	if *p == o {
		*p = n
		return true
	}
	return false
}

//vm:replace sync/atomic.LoadInt64
func atLoadI64(p *int64) int64 { Yield(); return *p }

//vm:replace sync/atomic.StoreInt64
func atStoreI64(p *int64, v int64) { Yield(); *p = v }

//vm:replace sync/atomic.AddInt64
func atAddI64(p *int64, d int64) int64 { Yield(); *p += d; return *p }

//vm:replace sync/atomic.CompareAndSwapInt64
func atCasI64(p *int64, o, n int64) bool {
	Yield()
	if *p == o {
		*p = n
		return true
	}
	return false
}

//vm:replace sync/atomic.LoadUint64
func atLoadU64(p *uint64) uint64 { Yield(); return *p }

//vm:replace sync/atomic.StoreUint64
func atStoreU64(p *uint64, v uint64) { Yield(); *p = v }

//vm:replace sync/atomic.AddUint64
func atAddU64(p *uint64, d uint64) uint64 { Yield(); *p += d; return *p }

//vm:type sync/atomic.Value
type AtomicValue struct{ v any }

//vm:replace (*sync/atomic.Value).Load
func avLoad(a *AtomicValue) any { Yield(); return a.v }

//vm:replace (*sync/atomic.Value).Store
func avStore(a *AtomicValue, v any) {
	Yield()
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	a.v = v
}

//vm:replace (*sync/atomic.Value).Swap
func avSwap(a *AtomicValue, v any) any {
	Yield()
	o := a.v
	a.v = v
	return o
}

//vm:replace (*sync/atomic.Value).CompareAndSwap
func avCas(a *AtomicValue, o, n any) bool {
	Yield()
	if a.v == o {
		a.v = n
		return true
	}
	return false
}

// ---- core.Fuse ---------------------------------------------------------------------------
// github.com/frostbyte73/core is a dependency: modelled by its documented contract.

//vm:type github.com/frostbyte73/core.Fuse
type Fuse struct {
	broken bool
	busy   int
	c      chan struct{}
}

//vm:replace (*github.com/frostbyte73/core.Fuse).IsBroken
func fuseIsBroken(f *Fuse) bool {
	Yield()
	return f.broken
}

//vm:replace (*github.com/frostbyte73/core.Fuse).Watch
func fuseWatch(f *Fuse) <-chan struct{} {
	Yield()
	if f.c == nil {
		f.c = make(chan struct{})
		if f.broken {
			CloseNow(f.c)
		}
	}
	return f.c
}

//vm:replace (*github.com/frostbyte73/core.Fuse).Break
func fuseBreak(f *Fuse) bool {
	AwaitZero(&f.busy)
	if f.broken {
		return false
	}
	f.broken = true
	if f.c != nil {
		CloseNow(f.c)
	}
	return true
}

//vm:replace (*github.com/frostbyte73/core.Fuse).Once
func fuseOnce(f *Fuse, do func()) {
	AwaitZero(&f.busy)
	if f.broken {
		return
	}
	f.busy = 1
	defer func() { f.busy = 0 }()
	if do != nil {
		do()
	}
	Yield()
	f.broken = true
	if f.c != nil {
		CloseNow(f.c)
	}
}

// CloseNow closes a channel without a scheduling point.
func CloseNow(c chan struct{}) { close(c) }

// ---- context -------------------------------------------------------------------------------

// NewDone creates a context's done channel, closed with its parent, firing at its deadline.
func NewDone(parent <-chan struct{}, timer bool, deadline int64) chan struct{} { panic("model") }

// ClosedNow reports whether a done channel (or a parent) is closed, without a scheduling point.
func ClosedNow(c <-chan struct{}) bool { panic("model") }

// OwnClosed reports whether this very channel is closed.
func OwnClosed(c <-chan struct{}) bool { panic("model") }

// PollFire lets an armed timer of the channel fire, or not.
func PollFire(c <-chan struct{}) { panic("model") }

type vctx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	dl       Time
	hasDL    bool
	key, val any
	isVal    bool
	noCancel bool
}

type bgctx struct{}

func (bgctx) Deadline() (t time.Time, ok bool) { return }
func (bgctx) Done() <-chan struct{}            { return nil }
func (bgctx) Err() error                       { return nil }
func (bgctx) Value(any) any                    { return nil }

//vm:replace context.Background
func ctxBackground() context.Context { return bgctx{} }

//vm:replace context.TODO
func ctxTODO() context.Context { return bgctx{} }

func (c *vctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return ToTime(c.dl), true
	}
	if c.noCancel {
		return ToTime(Time{}), false
	}
	return c.parent.Deadline()
}

func (c *vctx) Done() <-chan struct{} {
	if c.noCancel {
		return nil
	}
	if c.isVal {
		return c.parent.Done()
	}
	return c.done
}

func (c *vctx) Err() error {
	if c.noCancel {
		return nil
	}
	if c.isVal {
		return c.parent.Err()
	}
	Yield()
	PollFire(c.done)
	return c.errNow()
}

func (c *vctx) errNow() error {
	if c.err != nil {
		return c.err
	}
	if c.isVal {
		return errNow(c.parent)
	}
	if OwnClosed(c.done) {
		return context.DeadlineExceeded
	}
	if ClosedNow(c.done) {
		return errNow(c.parent)
	}
	return nil
}

func errNow(c context.Context) error {
	switch x := c.(type) {
	case *vctx:
		if x.noCancel {
			return nil
		}
		return x.errNow()
	case bgctx:
		return nil
	}
	return c.Err()
}

func causeNow(c context.Context) error {
	x, ok := c.(*vctx)
	if !ok {
		return c.Err()
	}
	if x.noCancel {
		return nil
	}
	if x.cause != nil {
		return x.cause
	}
	if x.isVal {
		return causeNow(x.parent)
	}
	if OwnClosed(x.done) {
		return x.errNow()
	}
	if ClosedNow(x.done) {
		return causeNow(x.parent)
	}
	return nil
}

func (c *vctx) Value(key any) any {
	if c.isVal && c.key == key {
		return c.val
	}
	return c.parent.Value(key)
}

func (c *vctx) cancel(err, cause error) {
	Yield()
	if !ClosedNow(c.done) {
		c.err = err
		c.cause = cause
		CloseNow(c.done)
	}
}

//vm:replace context.WithValue
func ctxWithValue(parent context.Context, key, val any) context.Context {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	if key == nil {
		panic("nil key")
	}
	return &vctx{parent: parent, key: key, val: val, isVal: true}
}

//vm:replace context.WithoutCancel
func ctxWithoutCancel(parent context.Context) context.Context {
	return &vctx{parent: parent, noCancel: true}
}

//vm:replace context.WithCancel
func ctxWithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCancel(parent)
	return c, func() { c.cancel(context.Canceled, nil) }
}

//vm:replace context.WithCancelCause
func ctxWithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCancel(parent)
	return c, func(cause error) { c.cancel(context.Canceled, cause) }
}

func newCancel(parent context.Context) *vctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	return &vctx{parent: parent, done: NewDone(parent.Done(), false, 0)}
}

//vm:replace context.WithDeadline
func ctxWithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return withDeadline(parent, FromTime(d))
}

//vm:replace context.WithTimeout
func ctxWithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return withDeadline(parent, Time{Now() + int64(d), true})
}

func withDeadline(parent context.Context, d Time) (context.Context, context.CancelFunc) {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	if pd, ok := parent.Deadline(); ok && FromTime(pd).ns < d.ns {
		return ctxWithCancel(parent)
	}
	c := &vctx{parent: parent, done: NewDone(parent.Done(), true, d.ns), dl: d, hasDL: true}
	if d.ns-Now() <= 0 && !ClosedNow(c.done) {
		c.err = context.DeadlineExceeded
		CloseNow(c.done)
	}
	return c, func() { c.cancel(context.Canceled, nil) }
}

//vm:replace context.Cause
func ctxCause(c context.Context) error {
	Yield()
	return causeNow(c)
}

//vm:replace context.AfterFunc
func ctxAfterFunc(c context.Context, f func()) func() bool {
	stop := make(chan struct{})
	state := 0
	go func() {
		select {
		case <-c.Done():
			if state == 0 {
				state = 1
				f()
			}
		case <-stop:
		}
	}()
	return func() bool {
		Yield()
		if state != 0 {
			return false
		}
		state = 2
		CloseNow(stop)
		return true
	}
}

// ---- errors -----------------------------------------------------------------------------------

//vm:replace errors.Is
func errorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	return errIs(err, target, Comparable(target))
}

func errIs(err, target error, cmp bool) bool {
	if cmp && Comparable(err) && err == target {
		return true
	}
	if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
		return true
	}
	switch x := err.(type) {
	case interface{ Unwrap() error }:
		u := x.Unwrap()
		if u == nil {
			return false
		}
		return errIs(u, target, cmp)
	case interface{ Unwrap() []error }:
		for _, u := range x.Unwrap() {
			if u != nil && errIs(u, target, cmp) {
				return true
			}
		}
	}
	return false
}

//vm:replace errors.As
func errorsAs(err error, target any) bool {
	if err == nil {
		return false
	}
	if AssignTo(err, target) {
		return true
	}
	if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
		return true
	}
	switch x := err.(type) {
	case interface{ Unwrap() error }:
		return errorsAs(x.Unwrap(), target)
	case interface{ Unwrap() []error }:
		for _, u := range x.Unwrap() {
			if u != nil && errorsAs(u, target) {
				return true
			}
		}
	}
	return false
}

//vm:replace errors.Unwrap
func errorsUnwrap(err error) error {
	if x, ok := err.(interface{ Unwrap() error }); ok {
		return x.Unwrap()
	}
	return nil
}

// ---- fmt -----------------------------------------------------------------------------------------

type fmtErr struct{ msg string }

func (e *fmtErr) Error() string { return e.msg }

type fmtWrapErr struct {
	msg string
	err error
}

func (e *fmtWrapErr) Error() string { return e.msg }
func (e *fmtWrapErr) Unwrap() error { return e.err }

//vm:replace fmt.Errorf
func fmtErrorf(format string, args ...any) error {
	msg := fmtSprintf(format, args...)
	n := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' {
			if format[i+1] == 'w' {
				if e, ok := args[n].(error); ok {
					return &fmtWrapErr{msg, e}
				}
			}
			if format[i+1] != '%' {
				n++
			}
			i++
		}
	}
	return &fmtErr{msg}
}

//vm:replace fmt.Sprintf
func fmtSprintf(format string, args ...any) string {
	out := ""
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' || i+1 >= len(format) {
			out += format[i : i+1]
			continue
		}
		i++
		v := format[i]
		if v == '+' || v == '#' {
			i++
			v = format[i]
		}
		if v == '%' {
			out += "%"
			continue
		}
		if n >= len(args) {
			out += "%!" + string(rune(v)) + "(MISSING)"
			continue
		}
		a := args[n]
		n++
		switch v {
		case 'T':
			out += GoTypeString(a)
		case 'q':
			out += "\"" + fmtOne(a) + "\""
		case 's', 'v', 'w', 'd', 't', 'f':
			out += fmtOne(a)
		default:
			Unsupported("fmt verb")
		}
	}
	return out
}

func fmtOne(a any) string {
	switch x := a.(type) {
	case nil:
		return "<nil>"
	case error:
		return x.Error()
	case string:
		return x
	case interface{ String() string }:
		return x.String()
	case int:
		return strconv.Itoa(x)
	case int32:
		return strconv.Itoa(int(x))
	case int64:
		return strconv.FormatInt(x, 10)
	case uint64:
		return strconv.FormatUint(x, 10)
	case bool:
		if x {
			return "true"
		}
		return "false"
	}
	return "<" + GoTypeString(a) + ">"
}

//vm:replace fmt.Sprint
func fmtSprint(args ...any) string {
	out := ""
	for i, a := range args {
		if i > 0 {
			_, s1 := a.(string)
			_, s2 := args[i-1].(string)
			if !s1 && !s2 {
				out += " "
			}
		}
		out += fmtOne(a)
	}
	return out
}

//vm:replace fmt.Println
func fmtPrintln(args ...any) (int, error) { return 0, nil }

//vm:replace fmt.Printf
func fmtPrintf(f string, args ...any) (int, error) { return 0, nil }

//vm:replace runtime/debug.Stack
func debugStack() []byte { return []byte("stack") }

// RuntimeError is the dynamic type of runtime panics.
type RuntimeError string

func (e RuntimeError) Error() string { return "runtime error: " + string(e) }
func (e RuntimeError) RuntimeError() {}

// ---- strings / bytealg ---------------------------------------------------------------------------

//vm:replace internal/bytealg.IndexByteString
func baIndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

//vm:replace internal/bytealg.IndexByte
func baIndexByte(s []byte, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

//vm:replace internal/bytealg.LastIndexByteString
func baLastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

//vm:replace internal/bytealg.CountString
func baCountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

//vm:replace strings.Index
func strIndex(s, sep string) int {
	for i := 0; i+len(sep) <= len(s); i++ {
		if s[i:i+len(sep)] == sep {
			return i
		}
	}
	return -1
}

//vm:replace strings.LastIndex
func strLastIndex(s, sep string) int {
	for i := len(s) - len(sep); i >= 0; i-- {
		if s[i:i+len(sep)] == sep {
			return i
		}
	}
	return -1
}

//vm:replace strings.Count
func strCount(s, sep string) int {
	n := 0
	for i := 0; i+len(sep) <= len(s); {
		if s[i:i+len(sep)] == sep {
			n++
			i += len(sep)
		} else {
			i++
		}
	}
	return n
}

//vm:replace bytes.Equal
func bytesEqual(a, b []byte) bool { return string(a) == string(b) }

//vm:replace internal/stringslite.Index
func slIndex(s, sep string) int { return strIndex(s, sep) }

//vm:replace internal/stringslite.IndexByte
func slIndexByte(s string, c byte) int { return baIndexByteString(s, c) }

// ---- protobuf ---------------------------------------------------------------------------------------

var ErrMalformed error = &fmtErr{"proto: cannot parse invalid wire-format data"}

//vm:replace google.golang.org/protobuf/proto.Marshal
func protoMarshal(m any) ([]byte, error) {
	return Marshal(m), nil
}

//vm:replace google.golang.org/protobuf/proto.Unmarshal
func protoUnmarshal(b []byte, m any) error {
	if !Unmarshal(b, m) {
		return &fmtErr{"proto: cannot parse invalid wire-format data"}
	}
	return nil
}

type unmarshalOptions struct{}

//vm:replace (google.golang.org/protobuf/proto.UnmarshalOptions).Unmarshal
func protoOptUnmarshal(o unmarshalOptions, b []byte, m any) error { return protoUnmarshal(b, m) }

//vm:replace google.golang.org/protobuf/proto.Clone
func protoClone(m any) any { return DeepCopy(m) }

//vm:replace google.golang.org/protobuf/proto.Equal
func protoEqualM(a, b any) bool { return ProtoEqual(a, b) }

//vm:replace google.golang.org/protobuf/proto.Size
func protoSize(m any) int {
	if IsNilV(m) {
		return 0
	}
	return SizeOf(m)
}

// SizeOf is an uninterpreted size of a message: equal for equal messages.
func SizeOf(m any) int { panic("model") }

// ProtoMsg is the reflective view of a message.
type ProtoMsg struct{ m any }

//vm:method ProtoReflect
func protoReflect(m any) any { return &ProtoMsg{m} }

func (p *ProtoMsg) New() any         { return &ProtoMsg{NewLike(p.m)} }
func (p *ProtoMsg) Interface() any   { return p.m }
func (p *ProtoMsg) Type() any        { return p }
func (p *ProtoMsg) IsValid() bool    { return !IsNilV(p.m) }
func (p *ProtoMsg) Descriptor() any  { return p }
func (p *ProtoMsg) FullName() string { return TypeName(p.m) }

//vm:replace google.golang.org/protobuf/types/known/anypb.New
func anypbNew(m any) (*AnyMsg, error) {
	a := &AnyMsg{TypeUrl: "type.googleapis.com/" + TypeName(m), Value: Marshal(m)}
	return a, nil
}

// AnyMsg has the exported layout of anypb.Any.
//
//vm:type google.golang.org/protobuf/types/known/anypb.Any
type AnyMsg struct {
	state         int
	TypeUrl       string
	Value         []byte
	unknownFields int
	sizeCache     int
}

//vm:replace (*google.golang.org/protobuf/types/known/anypb.Any).UnmarshalNew
func anyUnmarshalNew(a *AnyMsg) (any, error) {
	if a.TypeUrl == "" {
		return nil, &fmtErr{"proto: not found"}
	}
	name := a.TypeUrl
	for i := len(name) - 1; i >= 0; i-- {
		if name[i] == '/' {
			name = name[i+1:]
			break
		}
	}
	m := NewByName(name)
	if m == nil {
		return nil, &fmtErr{"proto: not found"}
	}
	if !Unmarshal(a.Value, m) {
		return m, &fmtErr{"proto: cannot parse invalid wire-format data"}
	}
	return m, nil
}

//vm:replace (*google.golang.org/protobuf/types/known/anypb.Any).MarshalFrom
func anyMarshalFrom(a *AnyMsg, m any) error {
	a.TypeUrl = "type.googleapis.com/" + TypeName(m)
	a.Value = Marshal(m)
	return nil
}

// ---- identifiers -----------------------------------------------------------------------
// Unique identifiers; the real generator is the subject of P19 (harness option keep=).

//vm:replace github.com/livekit/psrpc/pkg/rand.NewRequestID
func randRequestID() string { return UniqueID("REQ_") }

//vm:replace github.com/livekit/psrpc/pkg/rand.NewStreamID
func randStreamID() string { return UniqueID("STR_") }

//vm:replace github.com/livekit/psrpc/pkg/rand.NewServerID
func randServerID() string { return UniqueID("SRV_") }

//vm:replace github.com/livekit/psrpc/pkg/rand.NewClientID
func randClientID() string { return UniqueID("CLI_") }

//vm:replace github.com/livekit/psrpc/pkg/rand.NewString
func randString() string { return UniqueID("ID_") }

// Source stands for math/rand sources: every value is arbitrary.
type Source struct{ s int64 }

func (s *Source) Int63() int64 {
	if RandDraw != nil {
		return RandDraw()
	}
	v := FreshI64("rand")
	if v < 0 {
		v = ^v
	}
	return v
}
func (s *Source) Seed(int64) {}

// RandDraw, when set, supplies the values of the random sources.
var RandDraw func() int64

//vm:replace math/rand.NewSource
func randNewSource(seed int64) RandSource { return &Source{} }

type RandSource interface {
	Int63() int64
	Seed(int64)
}

// reflect: values of function types with string parameters and an error or no result.

//vm:type reflect.Value
type reflectValue struct{ v any }

//vm:replace reflect.ValueOf
func reflectValueOf(v any) reflectValue { return reflectValue{v} }

//vm:replace (reflect.Value).Interface
func reflectInterface(r reflectValue) any { return r.v }

//vm:replace (reflect.Value).IsNil
func reflectIsNil(r reflectValue) bool { return r.v == nil }

//vm:replace (reflect.Value).IsValid
func reflectIsValid(r reflectValue) bool { return r.v != nil }

//vm:replace (reflect.Value).Call
func reflectCall(r reflectValue, in []reflectValue) []reflectValue {
	var err error
	switch f := r.v.(type) {
	case func() error:
		reflectArgs(in, 0)
		err = f()
	case func(string) error:
		reflectArgs(in, 1)
		err = f(in[0].v.(string))
	case func(string, string) error:
		reflectArgs(in, 2)
		err = f(in[0].v.(string), in[1].v.(string))
	case func():
		reflectArgs(in, 0)
		f()
		return nil
	case func(string):
		reflectArgs(in, 1)
		f(in[0].v.(string))
		return nil
	case func(string, string):
		reflectArgs(in, 2)
		f(in[0].v.(string), in[1].v.(string))
		return nil
	default:
		Unsupported("reflect.Value.Call of this type")
	}
	if err == nil {
		return []reflectValue{{}}
	}
	return []reflectValue{{err}}
}

func reflectArgs(in []reflectValue, n int) {
	if len(in) != n {
		panic("reflect: Call with wrong number of arguments")
	}
}
