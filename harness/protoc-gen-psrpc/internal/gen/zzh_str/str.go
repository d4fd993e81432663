package zzh_str

import (
	vm "github.com/livekit/psrpc/internal/zzvm"
	"github.com/livekit/psrpc/protoc-gen-psrpc/internal/gen/stringutils"
)

func lower(c byte) bool  { return 'a' <= c && c <= 'z' }
func upper(c byte) bool  { return 'A' <= c && c <= 'Z' }
func digit(c byte) bool  { return '0' <= c && c <= '9' }
func letter(c byte) bool { return lower(c) || upper(c) || c == '_' }

// ident is an arbitrary proto identifier of n characters.
func ident(name string, n int) string {
	s := vm.StrN(name, n)
	for i := 0; i < n; i++ {
		vm.Assume(letter(s[i]) || i > 0 && digit(s[i]))
	}
	return s
}

// goCamelCase is protoc-gen-go's GoCamelCase (google.golang.org/protobuf/internal/strs).
func goCamelCase(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '.' && i+1 < len(s) && lower(s[i+1]):
		case c == '.':
			b = append(b, '_')
		case c == '_' && (i == 0 || s[i-1] == '.'):
			b = append(b, 'X')
		case c == '_' && i+1 < len(s) && lower(s[i+1]):
		case digit(c):
			b = append(b, c)
		default:
			if lower(c) {
				c -= 'a' - 'A'
			}
			b = append(b, c)
			for ; i+1 < len(s) && lower(s[i+1]); i++ {
				b = append(b, s[i+1])
			}
		}
	}
	return string(b)
}

// CamelCase: every proto identifier of 1..4 (thorough: 1..5) characters.
//
//verif:harness P22 cases=4 cases.thorough=5 budget.thorough=1500 native=1
func CamelCase() {
	s := ident("s", vm.Case()+1)
	vm.Assert(stringutils.CamelCase(s) == goCamelCase(s), "identifier differs from protoc-gen-go's")
}

// LowerCamelCase: the names of topic parameters, from identifiers of 1..4 characters.
//
//verif:harness P22 cases=4 native=1
func LowerCamelCase() {
	s := ident("s", vm.Case()+1)
	w, l := goCamelCase(s), stringutils.LowerCamelCase(s)
	vm.Assert(len(l) == len(w) && l[1:] == w[1:], "variable name differs from the type name beyond its first letter")
	vm.Assert(lower(l[0]) && upper(w[0]) && l[0]-'a' == w[0]-'A', "variable name is not the type name with a small first letter")
}

// printable is an arbitrary string of n printable ASCII characters.
func printable(n int) string {
	s := vm.StrN("s", n)
	for i := 0; i < n; i++ {
		vm.Assume(s[i] > 0x20 && s[i] < 0x7F)
	}
	return s
}

// Clean: package names from proto packages of one printable character.
//
//verif:harness P22 cases=1 cases.thorough=2 budget.thorough=1500 native=1
func Clean() {
	s := printable(vm.Case() + 1)
	c := stringutils.CleanIdentifier(s)
	vm.Assert(len(c) == len(s), "cleaned name differs")
	for i := range s {
		if letter(s[i]) || digit(s[i]) {
			vm.Assert(c[i] == s[i], "cleaned name differs")
		} else {
			vm.Assert(c[i] == '_', "cleaned name is no identifier")
		}
	}
}

// Base: package names from file names of 1..4 printable characters.
//
//verif:harness P22 cases=4 native=1
func Base() {
	n := vm.Case() + 1
	s := printable(n)
	from, to := 0, n
	for i := 0; i < n; i++ {
		if s[i] == '/' {
			from, to = i+1, n
		}
		if s[i] == '.' && i >= from {
			to = i
		}
	}
	vm.Assert(stringutils.BaseName(s) == s[from:to], "base name differs")
}
