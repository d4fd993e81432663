package zzh_rand

import (
	vm "github.com/livekit/psrpc/internal/zzvm"
	"github.com/livekit/psrpc/pkg/rand"
)

func alphanumeric(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z'
}

var kinds = []func() string{rand.NewClientID, rand.NewServerID, rand.NewRequestID, rand.NewStreamID, rand.NewString}
var prefixes = []string{"CLI_", "SRV_", "REQ_", "STR_", ""}

// letters finds the character of each usable six-bit group, from identifiers made of given bits.
func letters() (f [62]byte) {
	for g := 0; g < 62; g++ {
		vm.RandDraw = func() int64 {
			r := int64(0)
			for i := 0; i < 10; i++ {
				r = r<<6 | int64(g)
			}
			return r
		}
		id := rand.NewString()
		f[g] = id[0]
		vm.Assert(alphanumeric(f[g]), "character outside the alphabet")
		for h := 0; h < g; h++ {
			vm.Assert(f[g] != f[h], "two bit patterns give the same character")
		}
	}
	return
}

// Shape: one identifier of each kind (one case per kind) from arbitrary 63-bit values of the random
// source, given that two (thorough: three) of them hold twelve usable six-bit groups.
//
//verif:harness P19 cases=5 keep=github.com/livekit/psrpc/pkg/rand unwind=64
func Shape() {
	k := vm.Case()
	max := 2
	if vm.Thorough() {
		max = 3
	}
	f := letters()
	n, usable := 0, 0
	var want [12]byte
	vm.RandDraw = func() int64 {
		vm.Assert(usable < 12, "draws again although enough bits are left")
		vm.Assume(n < max)
		r := vm.I64("draw", n)
		vm.Assume(r >= 0)
		for i := 0; i < 10; i++ {
			if g := int(r>>(6*i)) & 63; g < 62 {
				if usable < 12 {
					want[usable] = f[g]
				}
				usable++
			}
		}
		n++
		return r
	}
	id := kinds[k]()
	p := prefixes[k]
	vm.Assert(len(id) == len(p)+12, "wrong length")
	vm.Assert(id[:len(p)] == p, "wrong prefix")
	id = id[len(p):]
	vm.Assert(usable >= 12, "random bits used twice")
	for i := 0; i < 12; i++ {
		vm.Assert(id[i] == want[i], "characters do not correspond to the usable bits drawn, in order")
	}
	vm.Reach("returns")
	if n == 2 {
		vm.Reach("two draws")
	}
}

// Concurrent: two identifiers generated at the same time: the source is never used by both at once.
//
//verif:harness P19 rounds=3 rounds.thorough=4 keep=github.com/livekit/psrpc/pkg/rand unwind=64
func Concurrent() {
	busy := false
	draws := 0
	vm.RandDraw = func() int64 {
		vm.Yield()
		vm.Assert(!busy, "the random source is used by two goroutines at once")
		busy = true
		vm.Yield()
		busy = false
		draws++
		return int64(draws)
	}
	done := 0
	for i := 0; i < 2; i++ {
		go func() {
			rand.NewRequestID()
			done++
		}()
	}
	vm.Final(func() {
		vm.Assert(done == 2, "never returns")
		vm.Assert(draws == 4, "wrong number of draws")
	})
}
