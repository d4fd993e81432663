// Package zzvm is the verification API used by harnesses, and the models of
// environment packages. It is overlaid into the module as internal/zzvm; the
// functions of this file are intercepted by the symbolic engine, and have
// native bodies so that a counterexample can be replayed with "go test".
package zzvm

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strconv"
	"sync"
	"time"
)

var nat struct {
	once   sync.Once
	mu     sync.Mutex
	vals   map[string]json.RawMessage
	failed []string
	reach  map[string]bool
	finals []func()
	skip   bool
}

type skipRun struct{}

func natLoad() {
	nat.once.Do(func() {
		nat.vals = map[string]json.RawMessage{}
		nat.reach = map[string]bool{}
		if p := os.Getenv("VERIF_REPLAY"); p != "" {
			if b, err := os.ReadFile(p); err == nil {
				_ = json.Unmarshal(b, &nat.vals)
			}
		}
	})
}

func natKey(name string, idx []int) string {
	for _, i := range idx {
		name += "." + strconv.Itoa(i)
	}
	return name
}

func natGet(name string, idx []int, out any) {
	natLoad()
	nat.mu.Lock()
	defer nat.mu.Unlock()
	if v, ok := nat.vals[natKey(name, idx)]; ok {
		_ = json.Unmarshal(v, out)
	}
}

// RunNative runs a harness with the values of VERIF_REPLAY and returns the failed assertions.
func RunNative(h func()) (failed []string) {
	natLoad()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(skipRun); !ok {
				nat.failed = append(nat.failed, fmt.Sprintf("uncaught panic: %v", r))
			}
		}
		failed = nat.failed
	}()
	h()
	for _, f := range nat.finals {
		f()
	}
	return nat.failed
}

// symbolic inputs
func Bool(name string, idx ...int) bool { var v bool; natGet(name, idx, &v); return v }
func Byte(name string, idx ...int) byte { var v byte; natGet(name, idx, &v); return v }
func I32(name string, idx ...int) int32 { var v int32; natGet(name, idx, &v); return v }
func I64(name string, idx ...int) int64 {
	var v string
	natGet(name, idx, &v)
	i, _ := strconv.ParseInt(v, 10, 64)
	return i
}
func U64(name string, idx ...int) uint64 { return uint64(I64(name, idx...)) }
func F32(name string, idx ...int) float32 {
	var v uint32
	natGet(name, idx, &v)
	return f32bits(v)
}
func F64(name string, idx ...int) float64 {
	var v string
	natGet(name, idx, &v)
	u, _ := strconv.ParseUint(v, 10, 64)
	return f64bits(u)
}

// Int is a 64 bit value in [lo,hi].
func Int(name string, lo, hi int, idx ...int) int {
	v := lo
	natGet(name, idx, &v)
	return v
}

// Choose is a value in [0,n) whose uses are enumerated.
func Choose(name string, n int, idx ...int) int {
	v := 0
	natGet(name, idx, &v)
	return v
}

// Str is an arbitrary string of at most max bytes.
func Str(name string, max int, idx ...int) string {
	var v []int
	natGet(name, idx, &v)
	b := make([]byte, len(v))
	for i := range v {
		b[i] = byte(v[i])
	}
	return string(b)
}

// StrN is an arbitrary string of exactly n bytes.
func StrN(name string, n int, idx ...int) string {
	var v []int
	natGet(name, idx, &v)
	b := make([]byte, n)
	for i := range v {
		b[i] = byte(v[i])
	}
	return string(b)
}

func Assume(c bool) {
	if !c {
		panic(skipRun{})
	}
}
func Assert(c bool, msg string) {
	if !c {
		nat.mu.Lock()
		nat.failed = append(nat.failed, msg)
		nat.mu.Unlock()
	}
}
func Reach(label string) { natLoad(); nat.mu.Lock(); nat.reach[label] = true; nat.mu.Unlock() }
func Final(f func())     { nat.mu.Lock(); nat.finals = append(nat.finals, f); nat.mu.Unlock() }

// Clock is the current time, without letting any pass.
func Clock() int64 { return time.Now().UnixNano() }

// Slack is what a replay on the real machine may be late.
func Slack() int64 {
	if Symbolic() {
		return 1e6
	}
	return 300e6
}

// Case is the number of the case that this run of the harness decides.
func Case() int { n, _ := strconv.Atoi(os.Getenv("VERIF_CASE")); return n }

// Thorough reports whether the deeper tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Symbolic is true under the engine and false natively.
func Symbolic() bool { return false }

// scheduling
func Yield()       {}
func AtomicBegin() { natAtomic.Lock() }
func AtomicEnd()   { natAtomic.Unlock() }

var natAtomic sync.Mutex

// AwaitZero blocks until *p == 0.
func AwaitZero(p *int) {}

// AwaitNonNeg blocks until *p >= 0.
func AwaitNonNeg(p *int) {}

// AwaitTrue blocks until *p.
func AwaitTrue(p *bool) {}

// unique concrete identifiers
var uniq int

func UniqueID(prefix string) string { uniq++; return prefix + strconv.Itoa(uniq) }

// dynamic helpers for the models
func Marshal(m any) []byte                         { panic("model") }
func Unmarshal(b []byte, m any) bool               { panic("model") }
func TypeName(m any) string                        { return reflect.TypeOf(m).String() }
func NewLike(m any) any                            { panic("model") }
func NewByName(n string) any                       { panic("model") }
func DeepCopy(m any) any                           { panic("model") }
func ProtoEqual(a, b any) bool                     { panic("model") }
func AssignTo(v any, target any) bool              { panic("model") }
func Comparable(v any) bool                        { panic("model") }
func SameType(a, b any) bool                       { return reflect.TypeOf(a) == reflect.TypeOf(b) }
func GoTypeString(v any) string                    { return fmt.Sprintf("%T", v) }
func MapClone(m any) any                           { panic("model") }
func MapLen(m any) int                             { return reflect.ValueOf(m).Len() }
func FreshI64(name string) int64                   { panic("model") }
func Now() int64                                   { panic("model") }
func Unsupported(msg string)                       { panic(msg) }
func AsTimePtr(p any) any                          { panic("model") }
func UnsafeStore(p *uint32, v uint32)              { *p = v }
func NumMethod(v any) int                          { panic("model") }
func MethodName(v any, i int) string               { panic("model") }
func IsPtrLike(v any) bool                         { panic("model") }
func IsNilV(v any) bool                            { panic("model") }
func BytesToStrings(s string, sep string) []string { panic("model") }
