package main

import (
	descriptor "google.golang.org/protobuf/types/descriptorpb"

	vm "github.com/livekit/psrpc/internal/zzvm"
	"github.com/livekit/psrpc/protoc-gen-psrpc/internal/gen/typemap"
)

func verifFile(name, pkg string) *descriptor.FileDescriptorProto {
	return &descriptor.FileDescriptorProto{Name: &name, Options: &descriptor.FileOptions{GoPackage: &pkg}}
}

// verifPick builds a string of up to n characters of the given alphabet.
func verifPick(name, alphabet string, n int, idx ...int) string {
	s := vm.StrN(name, n, idx...)
	for i := 0; i < n; i++ {
		ok := false
		for k := 0; k < len(alphabet); k++ {
			ok = ok || s[i] == alphabet[k]
		}
		vm.Assume(ok)
	}
	return s
}

// VerifGoPackage: go_package values of 0..4 characters of {a b / ; .} with at most one semicolon.
//
//verif:harness P22 cases=5 native=1
func VerifGoPackage() {
	n := vm.Case()
	s := verifPick("s", "ab/;.", n)
	imp, pkg, ok := goPackageOption(verifFile("f.proto", s))
	imp2, pkg2 := parseGoPackageOption(s)
	semi, slash := -1, -1
	for i := 0; i < n; i++ {
		if s[i] == ';' {
			vm.Assume(semi < 0)
			semi = i
		} else if s[i] == '/' {
			slash = i
		}
	}
	// protoc-gen-go: "path;name", "path/name" or "name"
	wi, wp := "", s
	if semi >= 0 {
		wi, wp = s[:semi], s[semi+1:]
	} else if slash >= 0 {
		wi, wp = s, s[slash+1:]
	}
	vm.Assert(ok == (n > 0), "presence of the option")
	vm.Assert(imp == wi && pkg == wp, "import path or package name differs from protoc-gen-go's")
	vm.Assert(imp2 == wi && pkg2 == wp, "the two readings of go_package differ")
}

// verifPath is a path of elements of the given lengths, made of arbitrary letters a and b.
func verifPath(name string, lens []int) string {
	var out []byte
	for i, n := range lens {
		if i > 0 {
			out = append(out, '/')
		}
		for k := 0; k < n; k++ {
			c := byte('a')
			if vm.Bool(name, i, k) {
				c = 'b'
			}
			out = append(out, c)
		}
	}
	return string(out)
}

var verifPaths = [][]int{{}, {1}, {2}, {1, 1}, {2, 1}}
var verifModules = [][]int{{}, {1}, {1, 1}, {2}}

// VerifFileName: output names for a file in a directory of up to one element, an import path of up to
// two elements and a module prefix of up to two elements, with or without a trailing slash, in
// both path modes.
//
//verif:harness P22 cases=80 native=1
func VerifFileName() {
	k := vm.Case()
	imp, mod, dir := verifPath("imp", verifPaths[k%5]), verifPath("mod", verifModules[k/5%4]), verifPath("dir", verifPaths[k/20%2])
	base := verifPath("base", []int{1})
	t := newGenerator()
	t.sourceRelativePaths = vm.Bool("relative")
	if dir != "" {
		dir += "/"
	}
	t.modulePrefix = mod
	if mod != "" && k >= 40 {
		t.modulePrefix += "/"
	}
	f := verifFile(dir+base+".proto", imp)
	if k%3 == 1 && imp != "" {
		*f.Options.GoPackage += ";x"
	} else if k%5 < 3 {
		imp = "" // a bare package name
	}
	want := dir + base + ".psrpc.go"
	if !t.sourceRelativePaths && imp != "" {
		rest := imp
		if mod != "" {
			if imp == mod {
				rest = ""
			} else if len(imp) > len(mod) && imp[:len(mod)] == mod && imp[len(mod)] == '/' {
				rest = imp[len(mod)+1:]
			}
		}
		want = base + ".psrpc.go"
		if rest != "" {
			want = rest + "/" + want
		}
	}
	vm.Assert(t.goFileName(f) == want, "output file name differs from the requested path")
}

func verifParams() {
	keys := []string{"paths", "module", "Mf", "go_import_mapping@f", "import_prefix", "Mg", "x"}
	n := len(keys)
	if !vm.Thorough() {
		n = 4
	}
	ka, kb := keys[vm.Case()/n], keys[vm.Case()%n]
	va, vb := verifValue("va", ka), verifValue("vb", kb)
	p, err := parseCommandLineParams(ka + "=" + va + "," + kb + "=" + vb)
	bad := func(k, v string) bool {
		return k == "x" || v == "" || k == "paths" && v != "import" && v != "source_relative"
	}
	// a later setting of the same key replaces an earlier one
	vm.Assert((err != nil) == (kb == "x" || va == "" || vb == "" || bad(kb, vb) || bad(ka, va) && ka != kb), "parameters accepted or rejected wrongly")
	if err != nil {
		vm.Assert(p == nil, "parameters returned with an error")
		return
	}
	vm.Reach("accepted")
	file := func(k string) string {
		if k == "go_import_mapping@f" {
			return "Mf"
		}
		return k
	}
	get := func(k string) string {
		if file(kb) == k {
			return vb
		}
		if file(ka) == k {
			return va
		}
		return ""
	}
	rel := get("paths")
	if rel == "import" {
		rel = ""
	}
	vm.Assert(p.paths == rel && p.module == get("module") && p.importPrefix == get("import_prefix"), "parameter lost or mixed up")
	vm.Assert(p.importMap["f"] == get("Mf") && p.importMap["g"] == get("Mg"), "import mapping lost or mixed up")
}

// verifValue is "import", "source_relative" or one letter, or nothing.
func verifValue(name, key string) string {
	if vm.Case()%5 == 4 && name == "vb" {
		return ""
	}
	if key == "paths" {
		s := []byte("import")
		if vm.Bool(name) {
			s[vm.Case()%6] = 'x'
		}
		return string(s)
	}
	return verifPath(name, []int{1})
}

// VerifParams: every pair of parameters out of four (thorough: seven) keys, with good, bad and empty values.
//
//verif:harness P22 cases=16 cases.thorough=49 native=1
func VerifParams() { verifParams() }

// VerifParamsReversed: the same, iterating maps in the opposite order.
//
//verif:harness P22 maprev=1 cases=16 cases.thorough=49
func VerifParamsReversed() { verifParams() }

// verifName is a proto identifier of n characters out of {a A _ 1}.
func verifName(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		switch vm.Choose(name, 4, i) {
		case 0:
			b[i] = 'a'
		case 1:
			b[i] = 'A'
		case 2:
			b[i] = '_'
		default:
			vm.Assume(i > 0)
			b[i] = '1'
		}
	}
	return string(b)
}

func verifCamel(s string) string {
	lower := func(c byte) bool { return 'a' <= c && c <= 'z' }
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '.' && i+1 < len(s) && lower(s[i+1]):
		case c == '.':
			b = append(b, '_')
		case c == '_' && (i == 0 || s[i-1] == '.'):
			b = append(b, 'X')
		case c == '_' && i+1 < len(s) && lower(s[i+1]):
		case '0' <= c && c <= '9':
			b = append(b, c)
		default:
			if lower(c) {
				c -= 'a' - 'A'
			}
			b = append(b, c)
			for ; i+1 < len(s) && lower(s[i+1]); i++ {
				b = append(b, s[i+1])
			}
		}
	}
	return string(b)
}

// VerifTypeName: messages nested up to two levels, with names of 1..2 characters of {a A _ 1}.
//
//verif:harness P22 cases=6 native=1
func VerifTypeName() {
	k := vm.Case()
	a, b := verifName("a", 1+k%2), verifName("b", 1+k/2%2)
	c := verifName("c", 1)
	inner := &descriptor.DescriptorProto{Name: &c}
	mid := &descriptor.DescriptorProto{Name: &b}
	if k >= 4 {
		mid.NestedType = append(mid.NestedType, inner)
	}
	top := &descriptor.DescriptorProto{Name: &a, NestedType: []*descriptor.DescriptorProto{mid}}
	f := verifFile("f.proto", "x/y")
	p := "p"
	f.Package = &p
	f.MessageType = append(f.MessageType, top)
	t := newGenerator()
	t.reg = typemap.New([]*descriptor.FileDescriptorProto{f})
	t.genPkgName = "y"
	own := vm.Bool("own package")
	prefix := "other."
	if own {
		t.fileToGoPackageName[f] = "y"
		prefix = ""
	} else {
		t.fileToGoPackageName[f] = "other"
	}
	vm.Assert(t.goTypeName(".p."+a) == prefix+verifCamel(a), "type name of a message")
	vm.Assert(t.goTypeName(".p."+a+"."+b) == prefix+verifCamel(a+"."+b), "type name of a nested message differs from protoc-gen-go's")
	if k >= 4 {
		vm.Assert(t.goTypeName(".p."+a+"."+b+"."+c) == prefix+verifCamel(a+"."+b+"."+c), "type name of a nested message differs from protoc-gen-go's")
	}
}
