package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

const modPath = "github.com/livekit/psrpc"
const vmPath = modPath + "/internal/zzvm"

// overlayFiles maps virtual paths in the repository to harness/model files in /verif.
func overlayFiles(repo, verif string) map[string]string {
	out := map[string]string{}
	vm, _ := filepath.Glob(filepath.Join(verif, "vm", "*.go"))
	for _, f := range vm {
		out[filepath.Join(repo, "internal", "zzvm", filepath.Base(f))] = f
	}
	hd := filepath.Join(verif, "harness")
	_ = filepath.Walk(hd, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(hd, p)
			out[filepath.Join(repo, filepath.Dir(rel), "zz_verif_"+filepath.Base(rel))] = p
		}
		return nil
	})
	return out
}

type Program struct {
	prog *ssa.Program
	pkgs []*packages.Package
	vm   *ssa.Package
}

func LoadProgram(repo, verif string, patterns []string) (*Program, error) {
	ov := map[string][]byte{}
	for k, v := range overlayFiles(repo, verif) {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		ov[k] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off")}
	cfg.Env = append(cfg.Env, "GOFLAGS=")
	pats := append([]string{vmPath}, patterns...)
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{prog: prog, pkgs: pkgs}
	for _, q := range prog.AllPackages() {
		if q.Pkg.Path() == vmPath {
			p.vm = q
		}
	}
	if p.vm == nil {
		return nil, fmt.Errorf("model package not loaded")
	}
	return p, nil
}

// ---- canonical types ---------------------------------------------------------

var canonMap = func() *typeutil.Map { m := new(typeutil.Map); m.SetHasher(typeutil.MakeHasher()); return m }()
var canonPtr = map[types.Type]types.Type{}

func canonType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if c, ok := canonPtr[t]; ok {
		return c
	}
	u := types.Unalias(t)
	if v := canonMap.At(u); v != nil {
		canonPtr[t] = v.(types.Type)
		return v.(types.Type)
	}
	canonMap.Set(u, u)
	canonPtr[t] = u
	canonPtr[u] = u
	return u
}
