package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// ownFirst imports packages that were checked here before others.
type ownFirst struct {
	own  map[string]*types.Package
	rest types.Importer
}

func (o ownFirst) Import(path string) (*types.Package, error) {
	if p := o.own[path]; p != nil {
		return p, nil
	}
	return o.rest.Import(path)
}

// body gives a function without one a body that calls what the simulation puts in its place.
func (in *inst) body(x *ast.FuncDecl) {
	n := x.Name.Name
	v := "zzsimExtern_" + n
	in.extern = append(in.extern, n)
	fmt.Fprintf(&in.f.tail, "\nvar %s func%s\n", v, in.f.text(in.fset, x.Type.Params.Pos(), x.Type.End()))
	var args []string
	named := true
	for _, p := range x.Type.Params.List {
		named = named && len(p.Names) > 0
		for _, id := range p.Names {
			named = named && id.Name != "_"
			a := id.Name
			if _, ok := p.Type.(*ast.Ellipsis); ok {
				a += "..."
			}
			args = append(args, a)
		}
	}
	call := fmt.Sprintf("panic(%q)", "no arguments: "+n)
	if named {
		call = v + "(" + strings.Join(args, ", ") + ")"
		if x.Type.Results != nil {
			call = "return " + call
		}
	}
	end := in.off(x.End())
	in.f.add(end, end, fmt.Sprintf(" {\n\tif %s == nil {\n\t\t%s.NotSimulated(%q)\n\t}\n\t%s\n}", v, rt, n, call))
}

type system2 struct {
	os, arch string
	dsp      bool
}

var systems = []system2{
	{"linux", "amd64", true}, {"linux", "386", false}, {"linux", "arm", true}, {"linux", "arm64", false},
	{"android", "arm64", false}, {"freebsd", "arm64", false}, {"darwin", "arm64", false}, {"windows", "arm64", false},
}

func filesFor(dir, sys, arch string) []string {
	ctx := build.Default
	ctx.GOOS, ctx.GOARCH, ctx.CgoEnabled = sys, arch, false
	bp, err := ctx.ImportDir(dir, 0)
	if err != nil {
		fatalf("%s for %s/%s: %v", dir, sys, arch, err)
	}
	return bp.GoFiles
}

func targets(repo string) (ts []*target) {
	for _, s := range systems {
		ts = append(ts, &target{sys: s.os + "/" + s.arch, own: map[string]*types.Package{}})
	}
	return ts
}

// stdImports are the packages the files for other systems need.
func stdImports(ts []*target, repo string) []string {
	need := map[string]bool{"time": true}
	for _, s := range systems {
		for _, dir := range []string{"dsp/internal/cpu", "dsp"} {
			for _, n := range filesFor(filepath.Join(repo, dir), s.os, s.arch) {
				f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(repo, dir, n), nil, parser.ImportsOnly)
				must(err)
				for _, im := range f.Imports {
					if path, _ := strconv.Unquote(im.Path.Value); !strings.Contains(path, ".") && path != "C" && path != "unsafe" {
						need[path] = true
					}
				}
			}
		}
	}
	var out []string
	for p := range need {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

// registry instruments what every system has and lists it.
func registry(ts []*target, exports map[string]string, repo, out, simdir string, overlay map[string]string) string {
	var imports, list strings.Builder
	for i, t := range ts {
		fmt.Fprintf(&list, "\t{Sys: %q", t.sys)
		for _, pkg := range []string{"cpu", "dsp"} {
			s := systems[i]
			dir := filepath.Join(repo, "dsp")
			if pkg == "cpu" {
				dir = filepath.Join(dir, "internal", "cpu")
			} else if !s.dsp || system(dir, s.os, s.arch) != "" {
				continue
			}
			base := "zzproc/" + s.os + "_" + s.arch + "/" + pkg
			t.dir = filepath.Join(simdir, base)
			path := "verif/sim/" + base
			name := s.os + "_" + s.arch + "_" + pkg
			process(&pkgInfo{ImportPath: path, Dir: dir, Name: pkg, GoFiles: filesFor(dir, s.os, s.arch)}, exports, "", repo, out, overlay, t)
			fmt.Fprintf(&imports, "\t%s %q\n", name, path)
			fmt.Fprintf(&list, ", %s: &Package{%s.SimReset, %s.SimVars(), %s.SimExtern(), %s.SimUnexported()}", strings.ToUpper(pkg), name, name, name, name)
		}
		list.WriteString("},\n")
	}
	return "// Package zzproc lists the instrumented packages for other systems.\npackage zzproc\n\nimport (\n" + imports.String() + ")\n" + types0 +
		"\nfunc init() {\n\tSystems = []*System{\n" + list.String() + "\t}\n}\n"
}

const types0 = `
// Package is an instrumented package.
type Package struct {
	Reset  func()
	Vars   map[string]any // pointers
	Extern map[string]any // pointers to what stands for functions without a body
	Funcs  map[string]any
}

// System is an operating system on an architecture, and the packages for it.
type System struct {
	Sys      string
	CPU, DSP *Package
}

// Systems are filled in when the repository is instrumented.
var Systems []*System
`
