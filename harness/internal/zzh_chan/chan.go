package zzh_chan

import (
	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/bus"
	vm "github.com/livekit/psrpc/internal/zzvm"
	"github.com/livekit/psrpc/pkg/info"
)

func req(service, method string, topic []string, queue bool) *info.RequestInfo {
	return &info.RequestInfo{RPCInfo: psrpc.RPCInfo{Service: service, Method: method, Topic: topic}, Queue: queue}
}

// text assumes well-formed UTF-8.
func text(s string) string {
	for i, r := range s {
		if r == 0xFFFD {
			vm.Assume(i+2 < len(s) && s[i] == 0xEF && s[i+1] == 0xBF && s[i+2] == 0xBD)
		}
	}
	return s
}

func word(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c == '_'
}

// ident is an arbitrary identifier of n characters.
func ident(name string, n int, idx ...int) string {
	s := vm.StrN(name, n, idx...)
	for i := 0; i < len(s); i++ {
		vm.Assume(word(s[i]))
	}
	return s
}

// wellFormed: letters, digits, underscore, plus and the separator; no empty parts.
func wellFormed(s string, sep byte) bool {
	ok := len(s) > 0
	part := 0
	for i := 0; i < len(s); i++ {
		if s[i] == sep {
			ok = ok && part > 0
			part = 0
			continue
		}
		ok = ok && (word(s[i]) || s[i] == '+')
		part++
	}
	return ok && part > 0
}

func all(r *info.RequestInfo) []bus.Channel {
	return []bus.Channel{r.GetRPCChannel(), r.GetClaimResponseChannel(), r.GetStreamServerChannel()}
}

// Topics: two one-part topics of up to 4 bytes of text (one case per pair of lengths).
//
//verif:harness P18 cases=3 cases.thorough=10 native=1
func Topics() {
	la, lb := 1, 1
	for k := 0; k < vm.Case(); k++ {
		if lb < la {
			lb++
		} else {
			la, lb = la+1, 1
		}
	}
	a, b := text(vm.StrN("a", la)), text(vm.StrN("b", lb))
	ra, rb := req("S", "M", []string{a}, false), req("S", "M", []string{b}, false)
	ca, cb := all(ra), all(rb)
	for k := range ca {
		vm.Assert(wellFormed(ca[k].Legacy, '|') && wellFormed(ca[k].Server, '.') && wellFormed(ca[k].Local, '.'), "malformed channel name")
		if a != b {
			vm.Assert(ca[k].Legacy != cb[k].Legacy, "different topics share a channel")
			vm.Assert(ca[k].Server != cb[k].Server, "different topics share a subject")
		} else {
			vm.Reach("same topic")
			vm.Assert(ca[k] == cb[k], "names of one topic differ")
		}
	}
	if a != b {
		vm.Assert(ra.GetHandlerKey() != rb.GetHandlerKey(), "different topics share a handler key")
	} else {
		vm.Assert(ra.GetHandlerKey() == rb.GetHandlerKey(), "handler keys of one topic differ")
	}
}

// rune3, rune4: a code point of three or four UTF-8 bytes.
func long(name string, n int) string {
	s := vm.StrN(name, n)
	vm.Assume(n == 3 && s[0] >= 0xE1 && s[0] <= 0xEC || n == 4 && s[0] >= 0xF1 && s[0] <= 0xF3)
	for i := 1; i < n; i++ {
		vm.Assume(s[i] >= 0x80 && s[i] <= 0xBF)
	}
	return s
}

// Runes: two one-part topics made of one three- or four-byte code point each (U+1000..U+CFFF,
// U+40000..U+FFFFF).
//
//verif:harness P18 cases=3 native=1
func Runes() {
	la, lb := 3+vm.Case()/2, 3+(vm.Case()+1)/2
	a, b := long("a", la), long("b", lb)
	ra, rb := req("S", "M", []string{a}, false), req("S", "M", []string{b}, false)
	ca, cb := all(ra), all(rb)
	for k := range ca {
		vm.Assert(wellFormed(ca[k].Legacy, '|') && wellFormed(ca[k].Server, '.') && wellFormed(ca[k].Local, '.'), "malformed channel name")
		vm.Assert((ca[k].Legacy == cb[k].Legacy) == (a == b), "channels not equal exactly when topics are")
		vm.Assert((ca[k].Server == cb[k].Server) == (a == b), "subjects not equal exactly when topics are")
	}
	vm.Assert((ra.GetHandlerKey() == rb.GetHandlerKey()) == (a == b), "handler keys not equal exactly when topics are")
}

var shapes = [][]int{{}, {1}, {2}, {1, 1}, {2, 1}, {1, 2}, {1, 1, 1}}

func parts(name string, shape []int) []string {
	var out []string
	for k, n := range shape {
		s := vm.StrN(name, n, k)
		for i := 0; i < len(s); i++ {
			vm.Assume(s[i] < 0x80)
		}
		out = append(out, s)
	}
	return out
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = ok && a[i] == b[i]
	}
	return ok
}

// Parts: two topics of up to three non-empty parts each, up to 3 ASCII characters altogether.
//
//verif:harness P18 cases=28 native=1
func Parts() {
	i, j := 0, 0
	for k := 0; k < vm.Case(); k++ {
		if j < i {
			j++
		} else {
			i, j = i+1, 0
		}
	}
	a, b := parts("a", shapes[i]), parts("b", shapes[j])
	ra, rb := req("S", "M", a, false), req("S", "M", b, false)
	ca, cb := all(ra), all(rb)
	if same(a, b) {
		vm.Reach("same topic")
		vm.Assert(ra.GetHandlerKey() == rb.GetHandlerKey() && ca[0] == cb[0] && ca[1] == cb[1] && ca[2] == cb[2], "names of one topic differ")
		return
	}
	vm.Assert(ra.GetHandlerKey() != rb.GetHandlerKey(), "different topics share a handler key")
	for k := range ca {
		vm.Assert(ca[k].Legacy != cb[k].Legacy, "different topics share a channel")
		vm.Assert(ca[k].Server != cb[k].Server, "different topics share a subject")
	}
}

// EmptyParts: topics of the same number of parts, some of which are empty.
//
//verif:harness P18 cases=3 native=1
func EmptyParts() {
	n := vm.Case() + 1
	var a, b []string
	for k := 0; k < n; k++ {
		s, t := vm.Str("a", 1, k), vm.Str("b", 1, k)
		vm.Assume((s == "" || s[0] < 0x80) && (t == "" || t[0] < 0x80))
		a, b = append(a, s), append(b, t)
	}
	ra, rb := req("S", "M", a, false), req("S", "M", b, false)
	ca, cb := all(ra), all(rb)
	if same(a, b) {
		vm.Assert(ra.GetHandlerKey() == rb.GetHandlerKey() && ca[0] == cb[0] && ca[1] == cb[1] && ca[2] == cb[2], "names of one topic differ")
		return
	}
	if same(filled(a), filled(b)) {
		vm.Assert(ra.GetHandlerKey() != rb.GetHandlerKey() && ca[0].Legacy != cb[0].Legacy && ca[0].Server != cb[0].Server, "topics that differ in empty parts only share names")
		return
	}
	vm.Assert(ra.GetHandlerKey() != rb.GetHandlerKey(), "different topics share a handler key")
	for k := range ca {
		vm.Assert(ca[k].Legacy != cb[k].Legacy, "different topics share a channel")
		vm.Assert(ca[k].Server != cb[k].Server, "different topics share a subject")
	}
}

// filled lists the non-empty parts.
func filled(t []string) []string {
	var out []string
	for _, s := range t {
		if s != "" {
			out = append(out, s)
		}
	}
	return out
}

type use struct {
	kind    int
	service string
	name    string // method or client
	topic   []string
	queue   bool
	ch      bus.Channel
	key     string
}

// anyUse is any kind of channel of any service, method, topic and client.
func anyUse(name string, kind, ntopic int) use {
	u := use{kind: kind, service: ident(name+".service", 1), queue: vm.Bool(name + ".queue")}
	u.name = ident(name+".name", 1)
	if vm.Bool(name + ".long") {
		u.name += ident(name+".more", 1)
		u.service += ident(name+".smore", 1)
	}
	for k := 0; k < ntopic; k++ {
		s := vm.StrN(name+".topic", 1, k)
		vm.Assume(s[0] < 0x80)
		u.topic = append(u.topic, s)
	}
	r := req(u.service, u.name, u.topic, u.queue)
	u.key = r.GetHandlerKey()
	switch kind {
	case 0:
		u.ch = r.GetRPCChannel()
	case 1:
		u.ch = r.GetClaimResponseChannel()
	case 2:
		u.ch = r.GetStreamServerChannel()
	case 3:
		u.ch = info.GetResponseChannel(u.service, u.name)
	case 4:
		u.ch = info.GetClaimRequestChannel(u.service, u.name)
	case 5:
		u.ch = info.GetStreamChannel(u.service, u.name)
	}
	return u
}

// Kinds: any two channels of any of the six kinds (one case per pair of kinds), services, methods,
// clients and topics. Client ids are assumed to differ from method names, as generated ones do.
//
//verif:harness P18 cases=21 native=1
func Kinds() {
	i, j := 0, 0
	for k := 0; k < vm.Case(); k++ {
		if j < i {
			j++
		} else {
			i, j = i+1, 0
		}
	}
	a, b := anyUse("a", i, 1), anyUse("b", j, 1)
	server := i < 3 && j < 3
	if i == 5 && j == 2 {
		vm.Assume(a.name != b.name)
	}
	if i >= 3 && j >= 3 || server {
		sameKey := a.name == b.name && (!server || same(a.topic, b.topic))
		if server {
			vm.Assert((a.key == b.key) == sameKey, "handler keys not equal exactly when method and topic are")
		}
		if i == j && sameKey && a.service == b.service {
			vm.Reach("same channel")
			if a.queue == b.queue {
				vm.Assert(a.ch == b.ch, "one channel under two names")
			}
			return
		}
	}
	vm.Assert(a.ch.Legacy != b.ch.Legacy, "different uses share a channel")
	vm.Assert(a.ch.Server != b.ch.Server || a.ch.Local != b.ch.Local, "different uses share a subject and a local channel")
	if i >= 3 || j >= 3 {
		vm.Assert(a.ch.Server != b.ch.Server, "a client's subject is shared with another use")
	}
}

// QueueSubject: a queue request subject is not the subject of plain subscriptions of other topics.
//
//verif:harness P18 native=1
func QueueSubject() {
	t := vm.StrN("b", 1)
	a, b := req("S", "A", []string{"t"}, true), req("S", "B", []string{"t", t}, false)
	differ := a.GetRPCChannel().Server != b.GetRPCChannel().Server
	if t == "Q" {
		vm.Assert(differ, "queue subject equals the subject of a topic with the extra part Q")
	} else {
		vm.Assert(differ, "queue subject equals the subject of another topic")
	}
}

// Concurrent: names built by several goroutines at once are the ones built alone.
//
//verif:harness P18 rounds.quick=2 rounds=3
func Concurrent() {
	a, b := req("S", "Ma", []string{"x"}, false), req("S", "Mb", []string{"y"}, false)
	ka, kb, kc := a.GetHandlerKey(), b.GetHandlerKey(), info.GetResponseChannel("S", "c1")
	ca, cb := a.GetRPCChannel(), b.GetRPCChannel()
	done := 0
	build := func(r *info.RequestInfo, k string, c bus.Channel) {
		vm.Assert(r.GetHandlerKey() == k, "handler key mixed up")
		if vm.Thorough() {
			vm.Assert(r.GetRPCChannel() == c, "channel name mixed up")
			vm.Assert(info.GetResponseChannel("S", "c1") == kc, "client channel name mixed up")
		} else {
			vm.Assert(r.GetRPCChannel().Server == c.Server, "channel name mixed up")
		}
		done++
	}
	go build(a, ka, ca)
	go build(b, kb, cb)
	vm.Final(func() { vm.Assert(done == 2, "never returns") })
}

// Races: two names of any two kinds built at the same time, switching at every memory access.
//
//verif:harness P18 cases=6 rounds=2 fine=pkg/info
func Races() {
	build := func(kind int, name string) bus.Channel {
		r := req("S", name, []string{"t"}, true)
		switch kind {
		case 0:
			return r.GetRPCChannel()
		case 1:
			return info.GetResponseChannel("S", name)
		}
		return bus.Channel{Legacy: r.GetHandlerKey()}
	}
	i, j := 0, 0
	for k := 0; k < vm.Case(); k++ {
		if j < i {
			j++
		} else {
			i, j = i+1, 0
		}
	}
	a, b := build(i, "A"), build(j, "B")
	var ca, cb bus.Channel
	done := 0
	go func() { ca = build(i, "A"); done++ }()
	go func() { cb = build(j, "B"); done++ }()
	vm.Final(func() {
		vm.Assert(done == 2, "never returns")
		vm.Assert(ca == a && cb == b, "names built concurrently are mixed up")
	})
}

// Spelled: a topic that may look like the escape of another one.
//
//verif:harness P18 cases=2 native=1
func Spelled() {
	hex := func(name string, k int) byte {
		c := vm.Byte(name, k)
		vm.Assume(c >= '0' && c <= '9' || c >= 'a' && c <= 'f')
		return c
	}
	c0 := byte('u')
	n := 4
	if vm.Case() == 1 {
		c0, n = 'U', 8
	}
	c1 := vm.Byte("sep")
	vm.Assume(c1 < 0x80)
	buf := []byte{c0, c1}
	for k := 0; k < n; k++ {
		if k < n-2 && n == 8 {
			buf = append(buf, "0001f6"[k])
			continue
		}
		buf = append(buf, hex("hex", k))
	}
	a := string(buf)
	b := ""
	if n == 4 {
		b = long("b", 3)
	} else {
		x, y := vm.Byte("x"), vm.Byte("y")
		vm.Assume(x >= 0x80 && x <= 0xBF && y >= 0x80 && y <= 0xBF)
		b = string([]byte{0xF0, 0x9F, x, y})
	}
	ra, rb := req("S", "M", []string{a}, false), req("S", "M", []string{b}, false)
	ca, cb := all(ra), all(rb)
	for k := range ca {
		vm.Assert(ca[k].Legacy != cb[k].Legacy, "different topics share a channel")
		vm.Assert(ca[k].Server != cb[k].Server, "different topics share a subject")
	}
	vm.Assert(ra.GetHandlerKey() != rb.GetHandlerKey(), "different topics share a handler key")
}
