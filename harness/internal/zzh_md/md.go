package zzh_md

import (
	"context"
	"time"

	vm "github.com/livekit/psrpc/internal/zzvm"
	"github.com/livekit/psrpc/pkg/metadata"
)

// Every write stores a value of its own: the code never looks into values.
var vals = [6][5]string{{"00", "01", "02", "03", "04"}, {"10", "11", "12", "13", "14"}, {"20", "21", "22", "23", "24"},
	{"30", "31", "32", "33", "34"}, {"40", "41", "42", "43", "44"}, {"50", "51", "52", "53", "54"}}

var keys = [3]string{"a", "b", "cc"}

// node is a context together with the metadata it must carry (the oracle).
type node struct {
	ctx  context.Context
	has  [3]bool
	val  [3]string
	some bool // some operation has set metadata
}

func same(md metadata.Metadata, n *node, what string) {
	c := 0
	for i := 0; i < 3; i++ {
		v, ok := md[keys[i]]
		vm.Assert(ok == n.has[i], what+": key set differs")
		if ok {
			vm.Assert(v == n.val[i], what+": value differs")
		}
		if n.has[i] {
			c++
		}
	}
	vm.Assert(len(md) == c, what+": size differs")
}

type callerMap struct {
	m metadata.Metadata
	n node
}

// Any tree of contexts derived by any sequence of operations carries the latest value of every key.
// The kinds of the operations are split into cases; parents, keys and presence are symbolic.
//
//verif:harness P15 native=1 cases=16 cases.thorough=64 timeout=300 timeout.thorough=900
func Outgoing() {
	ops := 3
	if vm.Thorough() {
		ops = 4
	}
	kind := [4]int{1, 0, 0, 0}
	c := vm.Case()
	for i := 1; i < ops; i++ {
		kind[i] = c % 4
		c /= 4
	}
	if vm.Bool("first") {
		kind[0] = 2
	}
	nodes := []*node{{ctx: context.Background()}}
	var maps []*callerMap
	var kvs [][]string
	var kvw [][]string
	for i := 0; i < ops; i++ {
		p := nodes[i]
		if i > 0 && vm.Bool("sibling", i) {
			p = nodes[i-1] // the previous operation made a sibling
		}
		n := &node{has: p.has, val: p.val}
		switch kind[i] {
		case 0, 1: // reset or merge with a map
			m := metadata.Metadata{}
			cm := &callerMap{m: m}
			for k := 0; k < 2; k++ {
				if vm.Bool("in", i, k) {
					v := vals[i][k]
					m[keys[k]] = v
					cm.n.has[k], cm.n.val[k] = true, v
				}
			}
			maps = append(maps, cm)
			if kind[i] == 0 {
				vm.Reach("reset")
				n.has, n.val = cm.n.has, cm.n.val
				n.ctx = metadata.NewContextWithOutgoingMetadata(p.ctx, m)
			} else {
				vm.Reach("merge")
				for k := 0; k < 2; k++ {
					if cm.n.has[k] {
						n.has[k], n.val[k] = true, cm.n.val[k]
					}
				}
				n.ctx = metadata.WithOutgoingMetadata(p.ctx, m)
			}
		case 2: // append pairs
			vm.Reach("append")
			var kv []string
			for j := 0; j < 2; j++ {
				k := 0
				if vm.Bool("k", i, j) {
					k = 1
				}
				v := vals[i][3+j]
				for q := 0; q < 2; q++ {
					if q == k {
						n.has[q], n.val[q] = true, v
					}
				}
				kv = append(kv, keys[k], v)
			}
			kvs = append(kvs, kv)
			kvw = append(kvw, append([]string(nil), kv...))
			n.ctx = metadata.AppendMetadataToOutgoingContext(p.ctx, kv...)
			if vm.Bool("overwrite", i) {
				// the caller reuses its slice
				kv[1] = "zz"
				kvw[len(kvw)-1][1] = "zz"
			}
		case 3: // read, and scribble over the copy
			md := metadata.OutgoingContextMetadata(p.ctx)
			if md != nil {
				md["a"] = "scribble"
				delete(md, "b")
			}
			n.ctx = context.WithValue(p.ctx, i, i)
		}
		nodes = append(nodes, n)
	}
	for _, n := range nodes {
		same(metadata.OutgoingContextMetadata(n.ctx), n, "outgoing")
	}
	for _, cm := range maps {
		same(cm.m, &cm.n, "the caller's map")
	}
	for i, kv := range kvs {
		for j := range kv {
			vm.Assert(kv[j] == kvw[i][j], "the caller's slice changed")
		}
	}
}

// Incoming headers are returned exactly as received, as a copy, and outgoing metadata is independent of them.
//
//verif:harness P15 native=1
func Incoming() {
	vm.Assert(metadata.IncomingHeader(context.Background()) == nil, "header invented")
	vm.Assert(metadata.OutgoingContextMetadata(context.Background()) == nil, "metadata invented")
	id := vm.Str("id", 3)
	at := time.Unix(0, vm.I64("at"))
	var md metadata.Metadata
	n := &node{}
	if vm.Bool("md") {
		md = metadata.Metadata{}
		for k := 0; k < 3; k++ {
			if vm.Bool("in", k) {
				md[keys[k]] = vm.StrN("v", 1, k)
				n.has[k], n.val[k] = true, md[keys[k]]
			}
		}
	}
	ctx := metadata.NewContextWithIncomingHeader(context.Background(), &metadata.Header{RemoteID: id, SentAt: at, Metadata: md})
	vm.Assert(metadata.OutgoingContextMetadata(ctx) == nil, "incoming metadata leaks into outgoing")
	ctx2 := metadata.AppendMetadataToOutgoingContext(ctx, "a", "out")
	for i := 0; i < 2; i++ {
		h := metadata.IncomingHeader(ctx2)
		vm.Assert(h != nil && h.RemoteID == id && h.SentAt.Equal(at), "header changed")
		same(h.Metadata, n, "incoming")
		if h.Metadata != nil {
			h.Metadata["a"] = "scribble"
		}
		h.RemoteID = "scribble"
	}
	same(md, n, "received metadata")
}

// Chains: a chain of one to five appends, or a merge and appends (one case per length and kind), from
// which two contexts are derived by any operation each.
//
//verif:harness P15 native=1 cases=10
func Chains() {
	ctx := context.Background()
	n := &node{}
	apply := func(p *node, kind int, k int, v string) *node {
		q := &node{has: p.has, val: p.val}
		switch kind {
		case 0:
			q.ctx = metadata.AppendMetadataToOutgoingContext(p.ctx, keys[k], v)
		case 1:
			q.ctx = metadata.WithOutgoingMetadata(p.ctx, metadata.Metadata{keys[k]: v})
		case 2:
			q.has = [3]bool{}
			q.ctx = metadata.NewContextWithOutgoingMetadata(p.ctx, metadata.Metadata{keys[k]: v})
		}
		q.has[k], q.val[k] = true, v
		return q
	}
	n.ctx = ctx
	if vm.Case() >= 5 {
		n = apply(n, 1, 2, "m")
	}
	for i := 0; i <= vm.Case()%5; i++ {
		k := 0
		if vm.Bool("b", i) {
			n = apply(n, 0, 1, "0")
			continue
		}
		n = apply(n, 0, k, "1")
	}
	var kids []*node
	for i, v := range []string{"x", "y"} {
		var kid *node
		switch vm.Choose("kind", 3, i) {
		case 0:
			kid = apply(n, 0, 0, v)
		case 1:
			kid = apply(n, 1, 0, v)
		default:
			kid = apply(n, 2, 0, v)
		}
		kids = append(kids, kid)
	}
	for _, k := range append(kids, n) {
		same(metadata.OutgoingContextMetadata(k.ctx), k, "outgoing")
	}
}
