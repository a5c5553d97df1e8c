// Command instrument rewrites the current sources of the repository so that they run under simrt,
// and writes an overlay for the go command. Nothing in the repository is touched.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/samuel/go-dsp"
const rt = "zzsimrt"

var simImports = map[string]string{
	"net": "verif/sim/simlib/net", "sync": "verif/sim/simlib/sync", "time": "verif/sim/simlib/time",
	"os": "verif/sim/simlib/os", "os/signal": "verif/sim/simlib/os/signal", "log": "verif/sim/simlib/log",
	"fmt": "verif/sim/simlib/fmt", "runtime": "verif/sim/simlib/runtime", "runtime/pprof": "verif/sim/simlib/runtime/pprof",
	"math/rand": "verif/sim/simlib/math/rand", "context": "verif/sim/simlib/context", "flag": "verif/sim/simlib/flag", "io/ioutil": "verif/sim/simlib/io/ioutil",
}

// imports that reach the real world and have no simulated counterpart
var refused = map[string]bool{
	"os/exec": true, "syscall": true, "net/http": true, "net/rpc": true, "crypto/rand": true, "math/rand/v2": true,
	"plugin": true, "os/user": true, "golang.org/x/sys/unix": true, "log/slog": true, "testing": true, "log/syslog": true,
	"runtime/trace": true, "C": true,
}

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	SFiles     []string
	Standard   bool
	ImportMap  map[string]string
	Error      *struct{ Err string }
	DepsErrors []*struct{ Err string }
}

type edit struct {
	pos, end int
	text     string
	seq      int
}

type file struct {
	path  string
	name  string
	src   []byte
	ast   *ast.File
	edits []edit
	tail  strings.Builder
	seq   int
}

type inst struct {
	fset  *token.FileSet
	info  *types.Info
	f     *file
	sites *[]string
	tmp   int
	funcs []ast.Node // enclosing function literals

	written map[*types.Var]bool // package variables that some function changes
	extern  []string            // functions without a body that were given one
	fresh   map[*types.Var]bool // maps that no other task can see; nil: the package changes no map another task can see
}

// target is a package instrumented for another system: a package of its own, in the module of the simulation.
type target struct {
	dir string // where it goes, below the module
	sys string // operating system and architecture
	own map[string]*types.Package
}

var siteTable []string

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	modfile := flag.String("modfile", "", "go.mod of the driver module")
	simdir := flag.String("simdir", ".", "driver module directory")
	base := flag.String("base", "", "overlay go.mod for the repository")
	pkgs := flag.String("pkgs", "", "comma separated import paths")
	procs := flag.Bool("procs", false, "instrument the detection of processor features for other systems")
	flag.Parse()
	_ = os.RemoveAll(filepath.Join(*out, "src"))
	must(os.MkdirAll(filepath.Join(*out, "src"), 0755))

	overlay := map[string]string{filepath.Join(*repo, "go.mod"): *base}
	virt := map[string]string{} // package path -> main file
	for _, p := range strings.Split(*pkgs, ",") {
		if strings.HasSuffix(p, "/zzdtmffile") {
			src := filepath.Join(*repo, "examples", "dtmf_file.go")
			overlay[filepath.Join(*repo, "zzdtmffile", "main.go")] = src
			virt[p] = src
		}
	}
	ov0 := filepath.Join(*out, "overlay0.json")
	writeJSON(ov0, map[string]any{"Replace": overlay})
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles,CgoFiles,SFiles,Standard,ImportMap,Error,DepsErrors", "-overlay", ov0, "-modfile", *modfile}
	if *pkgs != "" {
		args = append(args, strings.Split(*pkgs, ",")...)
	}
	var ts []*target
	if *procs {
		ts = targets(*repo)
		args = append(args, stdImports(ts, *repo)...)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = *simdir
	cmd.Stderr = os.Stderr
	outb, err := cmd.Output()
	if err != nil {
		fatalf("go list: %v", err)
	}
	dec := json.NewDecoder(strings.NewReader(string(outb)))
	var all []*pkgInfo
	exports := map[string]string{}
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatalf("go list output: %v", err)
		}
		if p.Error != nil {
			fatalf("%s: %s", p.ImportPath, p.Error.Err)
		}
		all = append(all, p)
		exports[p.ImportPath] = p.Export
	}
	var order []string
	for _, p := range all {
		if p.ImportPath != modPath && !strings.HasPrefix(p.ImportPath, modPath+"/") {
			continue
		}
		if strings.HasSuffix(p.ImportPath, "/internal/cpu") {
			continue
		}
		process(p, exports, virt[p.ImportPath], *repo, *out, overlay, nil)
		order = append(order, p.ImportPath)
	}
	if *procs {
		dst := filepath.Join(*out, "src", "zzproc__zzproc.go")
		must(os.WriteFile(dst, []byte(registry(ts, exports, *repo, *out, *simdir, overlay)), 0644))
		overlay[filepath.Join(*simdir, "zzproc", "zzproc.go")] = dst
	}
	writeJSON(filepath.Join(*out, "overlay.json"), map[string]any{"Replace": overlay})
	writeJSON(filepath.Join(*out, "sites.json"), siteTable)
	writeJSON(filepath.Join(*out, "packages.json"), order)
}

func must(err error) {
	if err != nil {
		fatalf("%v", err)
	}
}

func writeJSON(p string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	must(err)
	must(os.WriteFile(p, b, 0644))
}

func process(p *pkgInfo, exports map[string]string, virtMain, repo, out string, overlay map[string]string, t *target) {
	if len(p.CgoFiles) > 0 {
		fatalf("%s uses cgo", p.ImportPath)
	}
	fset := token.NewFileSet()
	var files []*file
	var asts []*ast.File
	for _, n := range p.GoFiles {
		path := filepath.Join(p.Dir, n)
		rd := path
		if virtMain != "" {
			rd = virtMain
		}
		src, err := os.ReadFile(rd)
		must(err)
		a, err := parser.ParseFile(fset, rd, src, parser.ParseComments|parser.SkipObjectResolution)
		must(err)
		f := &file{path: path, name: n, src: src, ast: a}
		if t != nil {
			// neither the name nor a build constraint nor a directive for assembler may count
			f.name = "f" + strings.TrimRight(strings.TrimSuffix(n, ".go"), "_") + "_x.go"
			f.path = filepath.Join(t.dir, f.name)
			for _, g := range a.Comments {
				for _, c := range g.List {
					if strings.HasPrefix(c.Text, "//go:") || strings.HasPrefix(c.Text, "// +build") {
						f.add(fset.Position(c.Pos()).Offset, fset.Position(c.End()).Offset, "//")
					}
				}
			}
		}
		files = append(files, f)
		asts = append(asts, a)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: imp, GoVersion: "go1.21"}
	if t != nil {
		conf.Importer = ownFirst{t.own, imp}
	}
	checked, err := conf.Check(p.ImportPath, fset, asts, info)
	if err != nil {
		fatalf("type check %s: %v", p.ImportPath, err)
	}
	pkgName := p.Name
	isMain := p.Name == "main"
	if isMain {
		pkgName = filepath.Base(p.ImportPath)
	}
	var inits []string
	tf := map[*token.File]*file{}
	for _, f := range files {
		tf[fset.File(f.ast.Pos())] = f
	}
	written := writtenVars(asts, info)
	fresh := ownMaps(asts, info)
	var extern []string
	for _, f := range files {
		in := &inst{fset: fset, info: info, f: f, written: written, fresh: fresh}
		in.file(pkgName, isMain, &inits, t)
		extern = append(extern, in.extern...)
	}
	// re-initialisation of package variables, in dependency order
	declared := map[*types.Var]bool{}
	var reset []string
	n := 0
	// first: variables without initialiser
	for _, f := range files {
		for _, d := range f.ast.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Values) > 0 || vs.Type == nil {
					continue
				}
				var names []string
				for _, id := range vs.Names {
					if id.Name != "_" {
						names = append(names, id.Name)
					}
				}
				if len(names) == 0 {
					continue
				}
				n++
				fn := fmt.Sprintf("zzsimZero%d", n)
				fmt.Fprintf(&f.tail, "\nfunc %s() {", fn)
				for _, nm := range names {
					fmt.Fprintf(&f.tail, " { var zzz %s; %s = zzz };", f.text(fset, vs.Type.Pos(), vs.Type.End()), nm)
				}
				f.tail.WriteString(" }\n")
				reset = append(reset, fn)
			}
		}
	}
	for _, init := range info.InitOrder {
		var names []string
		blank := true
		for _, v := range init.Lhs {
			declared[v] = true
			names = append(names, v.Name())
			blank = blank && v.Name() == "_"
		}
		if blank && len(names) == 1 {
			hasCall := false
			ast.Inspect(init.Rhs, func(x ast.Node) bool {
				if c, ok := x.(*ast.CallExpr); ok && !info.Types[c.Fun].IsType() {
					hasCall = true
				}
				return true
			})
			if !hasCall {
				continue
			}
		}
		f := tf[fset.File(init.Rhs.Pos())]
		n++
		fn := fmt.Sprintf("zzsimVar%d", n)
		fmt.Fprintf(&f.tail, "\nfunc %s() { %s = %s }\n", fn, strings.Join(names, ", "), f.text(fset, init.Rhs.Pos(), init.Rhs.End()))
		reset = append(reset, fn)
	}
	reset = append(reset, inits...)
	for _, f := range files {
		txt := f.render(0, len(f.src)) + f.tail.String()
		dst := filepath.Join(out, "src", strings.ReplaceAll(strings.TrimPrefix(p.ImportPath, modPath+"/"), "/", "_")+"__"+f.name)
		must(os.WriteFile(dst, []byte(txt), 0644))
		overlay[f.path] = dst
	}
	var b strings.Builder
	cpu := ""
	for _, f := range files {
		for _, im := range f.ast.Imports {
			if path, _ := strconv.Unquote(im.Path.Value); strings.HasSuffix(path, "/internal/cpu") && strings.HasPrefix(path, modPath) {
				cpu = path
			}
		}
	}
	fmt.Fprintf(&b, "package %s\n", pkgName)
	if t != nil {
		t.own[modPath+strings.TrimPrefix(p.Dir, repo)] = checked
		b.WriteString("\n// SimExtern are the functions without a body.\nfunc SimExtern() map[string]any {\n\treturn map[string]any{\n")
		for _, x := range extern {
			fmt.Fprintf(&b, "\t\t%q: &zzsimExtern_%s,\n", x, x)
		}
		b.WriteString("\t}\n}\n\n// SimVars are the package's variables.\nfunc SimVars() map[string]any {\n\treturn map[string]any{\n")
		for _, n := range checked.Scope().Names() {
			if _, ok := checked.Scope().Lookup(n).(*types.Var); ok {
				fmt.Fprintf(&b, "\t\t%q: &%s,\n", n, n)
			}
		}
		b.WriteString("\t}\n}\n")
	} else if cpu != "" {
		fmt.Fprintf(&b, "\nimport zzcpu %q\n\n// SimCPU simulates a processor that has some features of the real one; init looks at them.\n", cpu)
		b.WriteString("func SimCPU(mask int) {\n\tzzcpu.Initialize(\"\")\n\tx := &zzcpu.X86\n\tx.HasSSE2 = x.HasSSE2 && mask&1 != 0\n\tx.HasSSE41 = x.HasSSE41 && mask&2 != 0\n")
		b.WriteString("\tx.HasAVX = x.HasAVX && mask&4 != 0\n\tx.HasAVX2 = x.HasAVX2 && x.HasAVX && mask&4 != 0\n\tif mask == 0 {\n\t\t*x = zzx86\n\t}\n}\n\nvar zzx86 = zzcpu.X86 // as the program finds it\n")
	} else {
		b.WriteString("\n// SimCPU: nothing here looks at the processor.\nfunc SimCPU(mask int) {}\n")
	}
	fmt.Fprintf(&b, "\n// SimReset re-initialises the package's variables and runs its init functions.\nfunc SimReset() {\n")
	for _, r := range reset {
		fmt.Fprintf(&b, "\t%s()\n", r)
	}
	b.WriteString("}\n")
	var unexp []string
	for _, f := range files {
		for _, d := range f.ast.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Type.TypeParams == nil && (t != nil || !ast.IsExported(fd.Name.Name)) &&
				fd.Name.Name != "init" && fd.Name.Name != "_" && !(isMain && fd.Name.Name == "main") {
				unexp = append(unexp, fd.Name.Name)
			}
		}
	}
	sort.Strings(unexp)
	b.WriteString("\n// SimUnexported are the package's own functions, such as portable versions of assembler.\nfunc SimUnexported() map[string]any {\n\treturn map[string]any{\n")
	for _, u := range unexp {
		fmt.Fprintf(&b, "\t\t%q: %s,\n", u, u)
	}
	b.WriteString("\t}\n}\n")
	if p.ImportPath == modPath+"/dsp" && t == nil {
		b.WriteString("\n// SimAsm is the assembler of other processors, and the functions they need it to define.\nfunc SimAsm(arch string) (listing string, declared []string, fail string) {\n\tswitch arch {\n")
		for _, arch := range []string{"386", "arm", "arm64"} {
			listing, declared, fail := assemble(p.Dir, out, arch)
			fmt.Fprintf(&b, "\tcase %q:\n\t\treturn %q, %#v, %q\n", arch, listing, declared, fail)
		}
		b.WriteString("\t}\n\treturn \"\", nil, \"\"\n}\n")
		b.WriteString("\n// SimSystems are the systems the package is for, and what is wrong there.\nfunc SimSystems() [][2]string {\n\treturn [][2]string{\n")
		for _, sys := range []string{"linux", "windows", "darwin", "freebsd"} {
			for _, arch := range []string{"amd64", "386", "arm", "arm64"} {
				if sys != "darwin" || strings.HasSuffix(arch, "64") {
					fmt.Fprintf(&b, "\t\t{%q, %q},\n", sys+"/"+arch, system(p.Dir, sys, arch))
				}
			}
		}
		b.WriteString("\t}\n}\n")
	}
	if isMain {
		b.WriteString("\n// SimMain is the program.\nfunc SimMain() { main() }\n")
	}
	dst := filepath.Join(out, "src", strings.ReplaceAll(strings.TrimPrefix(p.ImportPath, modPath+"/"), "/", "_")+"__zz_simreset.go")
	must(os.WriteFile(dst, []byte(b.String()), 0644))
	if t != nil {
		overlay[filepath.Join(t.dir, "zz_simreset.go")] = dst
		return
	}
	overlay[filepath.Join(p.Dir, "zz_simreset.go")] = dst
}

var hexLine = regexp.MustCompile(`^\t0x[0-9a-f]+ ((?:[0-9a-f]{2} )+)`)

// assemble lists the machine code of a package's assembler for another processor, and the names of the
// functions that have no body in Go there.
func assemble(dir, out, arch string) (listing string, declared []string, fail string) {
	ctx := build.Default
	ctx.GOOS, ctx.GOARCH, ctx.CgoEnabled = "linux", arch, false
	bp, err := ctx.ImportDir(dir, 0)
	if err != nil {
		fatalf("%s: %v", dir, err)
	}
	for _, n := range bp.GoFiles {
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, n), nil, parser.SkipObjectResolution)
		if err != nil {
			return "", nil, err.Error()
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body == nil && fd.Recv == nil {
				declared = append(declared, fd.Name.Name)
			}
		}
	}
	sort.Strings(declared)
	root, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		fatalf("go env: %v", err)
	}
	var b strings.Builder
	for _, n := range bp.SFiles {
		cmd := exec.Command("go", "tool", "asm", "-S", "-p", modPath+"/dsp", "-I", filepath.Join(strings.TrimSpace(string(root)), "pkg", "include"),
			"-D", "GOOS_linux", "-D", "GOARCH_"+arch, "-o", filepath.Join(out, "asm.o"), n)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "GOOS=linux", "GOARCH="+arch)
		o, err := cmd.CombinedOutput()
		if err != nil {
			if fail = string(o); !strings.Contains(fail, n+":") {
				fatalf("go tool asm %s: %v\n%s", n, err, o)
			}
			return "", declared, fail
		}
		for _, l := range strings.Split(string(o), "\n") {
			if h := hexLine.FindString(l); h != "" {
				l = h
			} else if strings.HasPrefix(l, "\t0x") {
				continue
			}
			b.WriteString(l + "\n")
		}
	}
	return b.String(), declared, ""
}

var textRE = regexp.MustCompile(`(?m)^\s*TEXT\s+[^,\s]*·(\w+)`)

// system tells what keeps a package from being built for an operating system and architecture: functions that
// are declared twice, or not defined by the assembler files there.
func system(dir, sys, arch string) string {
	ctx := build.Default
	ctx.GOOS, ctx.GOARCH, ctx.CgoEnabled = sys, arch, false
	bp, err := ctx.ImportDir(dir, 0)
	if err != nil {
		return err.Error()
	}
	where, body := map[string]string{}, map[string]bool{}
	for _, n := range bp.GoFiles {
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, n), nil, parser.SkipObjectResolution)
		if err != nil {
			return err.Error()
		}
		var names []string
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					names = append(names, d.Name.Name)
					body[d.Name.Name] = d.Body != nil
				}
			case *ast.GenDecl:
				for _, sp := range d.Specs {
					switch sp := sp.(type) {
					case *ast.TypeSpec:
						names = append(names, sp.Name.Name)
					case *ast.ValueSpec:
						for _, id := range sp.Names {
							names = append(names, id.Name)
							body[id.Name] = true
						}
					}
				}
			}
		}
		for _, id := range names {
			if id == "_" || id == "init" {
				continue
			}
			if where[id] != "" {
				return id + " is declared in " + where[id] + " and in " + n
			}
			where[id] = n
		}
	}
	for _, n := range bp.SFiles {
		t, err := os.ReadFile(filepath.Join(dir, n))
		must(err)
		for _, m := range textRE.FindAllStringSubmatch(string(t), -1) {
			body[m[1]] = true
		}
	}
	var missing []string
	for id, ok := range body {
		if !ok && id != "init" && id != "_" {
			missing = append(missing, id)
		}
	}
	sort.Strings(missing)
	if len(missing) > 0 {
		return strings.Join(missing, ", ") + " has no body"
	}
	return ""
}

func (f *file) off(fset *token.FileSet, p token.Pos) int { return fset.Position(p).Offset }

func (f *file) add(pos, end int, text string) {
	f.seq++
	f.edits = append(f.edits, edit{pos, end, text, f.seq})
}

// render returns the text of a range with the edits inside it applied.
func (f *file) render(from, to int) string {
	var es []edit
	for _, e := range f.edits {
		if e.pos >= from && e.end <= to {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].pos != es[j].pos {
			return es[i].pos < es[j].pos
		}
		// insertions before replacements at the same place
		ai, aj := es[i].end == es[i].pos, es[j].end == es[j].pos
		if ai != aj {
			return ai
		}
		return es[i].seq < es[j].seq
	})
	var b strings.Builder
	at := from
	for _, e := range es {
		if e.pos < at {
			fatalf("%s: overlapping edits at %d (%q)", f.path, e.pos, e.text)
		}
		b.Write(f.src[at:e.pos])
		b.WriteString(e.text)
		at = e.end
	}
	b.Write(f.src[at:to])
	return b.String()
}

func (f *file) text(fset *token.FileSet, p, e token.Pos) string {
	return f.render(f.off(fset, p), f.off(fset, e))
}

// replace substitutes a range wholesale, dropping the edits inside it.
func (f *file) replace(pos, end int, text string) {
	var keep []edit
	for _, e := range f.edits {
		if e.pos >= pos && e.end <= end && !(e.pos == pos && e.end == pos) {
			continue
		}
		keep = append(keep, e)
	}
	f.edits = keep
	f.add(pos, end, text)
}

func (in *inst) off(p token.Pos) int { return in.fset.Position(p).Offset }

func (in *inst) site(p token.Pos) string {
	pos := in.fset.Position(p)
	siteTable = append(siteTable, fmt.Sprintf("%s:%d:%d", strings.TrimPrefix(pos.Filename, "/repo/"), pos.Line, pos.Column))
	return strconv.Itoa(len(siteTable) + 15)
}

func (in *inst) file(pkgName string, isMain bool, inits *[]string, t *target) {
	f := in.f
	a := f.ast
	f.add(in.off(a.Name.Pos()), in.off(a.Name.End()), pkgName+"; import "+rt+" \"verif/sim/simrt\"")
	f.tail.WriteString("\nvar _ = " + rt + ".Y\n")
	for _, im := range a.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if refused[path] {
			fatalf("%s imports %s: not simulated", f.path, path)
		}
		s, ok := simImports[path]
		if t != nil && t.own[path] != nil {
			s, ok = t.own[path].Path(), true
		}
		if ok {
			t := strconv.Quote(s)
			if im.Name == nil {
				t = filepath.Base(path) + " " + t
			}
			f.add(in.off(im.Path.Pos()), in.off(im.Path.End()), t)
		}
	}
	for _, d := range a.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Body == nil {
				if t != nil && x.Recv == nil {
					in.body(x)
				}
				continue
			}
			if x.Recv == nil && x.Name.Name == "init" {
				nm := fmt.Sprintf("zzsimInit_%s_%d", strings.NewReplacer(".", "_", "-", "_").Replace(f.name), len(*inits))
				f.add(in.off(x.Name.Pos()), in.off(x.Name.End()), nm)
				*inits = append(*inits, nm)
			}
			in.node(x.Body)
		case *ast.GenDecl:
			if x.Tok == token.VAR {
				in.node(x)
			}
		}
	}
}

// node rewrites everything below n, children first.
func (in *inst) node(n ast.Node) {
	if n == nil {
		return
	}
	skipRecv := map[ast.Node]bool{}
	var stack []ast.Node
	ast.Inspect(n, func(x ast.Node) bool {
		if x == nil {
			top := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if _, ok := top.(*ast.FuncLit); ok {
				in.funcs = in.funcs[:len(in.funcs)-1]
			}
			in.leave(top, skipRecv)
			return true
		}
		stack = append(stack, x)
		switch y := x.(type) {
		case *ast.FuncLit:
			in.funcs = append(in.funcs, y)
		case *ast.CommClause:
			// the communication itself is rewritten by the select
			switch c := y.Comm.(type) {
			case *ast.SendStmt:
				skipRecv[c] = true
			case *ast.ExprStmt:
				skipRecv[ast.Unparen(c.X)] = true
			case *ast.AssignStmt:
				skipRecv[ast.Unparen(c.Rhs[0])] = true
			}
		}
		return true
	})
}

func (in *inst) isBuiltin(e ast.Expr, name string) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = in.info.Uses[id].(*types.Builtin)
	return ok
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}
func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (in *inst) leave(n ast.Node, skipRecv map[ast.Node]bool) {
	f := in.f
	switch x := n.(type) {
	case *ast.BlockStmt:
		in.list(x.List)
	case *ast.CaseClause:
		in.list(x.Body)
	case *ast.CommClause:
		in.list(x.Body)
	case *ast.UnaryExpr:
		if x.Op == token.ARROW && !skipRecv[x] {
			f.add(in.off(x.OpPos), in.off(x.OpPos)+2, rt+".Recv(")
			f.add(in.off(x.End()), in.off(x.End()), ")")
		}
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			in.recv2(x.Rhs[0])
		}
	case *ast.ValueSpec:
		if len(x.Names) == 2 && len(x.Values) == 1 {
			in.recv2(x.Values[0])
		}
	case *ast.SendStmt:
		if skipRecv[x] {
			return
		}
		// ch <- v  =>  SendTo(ch)(v)
		f.add(in.off(x.Pos()), in.off(x.Pos()), rt+".SendTo(")
		f.add(in.off(x.Arrow), in.off(x.Arrow)+2, ")(")
		f.add(in.off(x.End()), in.off(x.End()), ")")
	case *ast.CallExpr:
		if in.isBuiltin(x.Fun, "print") {
			f.add(in.off(x.Fun.Pos()), in.off(x.Fun.End()), rt+".Print")
		} else if in.isBuiltin(x.Fun, "println") {
			f.add(in.off(x.Fun.Pos()), in.off(x.Fun.End()), rt+".Println")
		} else if in.isBuiltin(x.Fun, "close") {
			f.add(in.off(x.Fun.Pos()), in.off(x.Fun.End()), rt+".Close")
		} else if in.isBuiltin(x.Fun, "len") && len(x.Args) == 1 && isChan(in.info.Types[x.Args[0]].Type) {
			f.add(in.off(x.Fun.Pos()), in.off(x.Fun.End()), rt+".ChanLen")
		}
	case *ast.GoStmt:
		in.goStmt(x)
	case *ast.SelectStmt:
		in.selectStmt(x)
	case *ast.RangeStmt:
		in.rangeStmt(x)
		in.loopHead(x.Body)
	case *ast.ForStmt:
		in.loopHead(x.Body)
	}
}

func (in *inst) recv2(e ast.Expr) {
	u, ok := ast.Unparen(e).(*ast.UnaryExpr)
	if !ok || u.Op != token.ARROW {
		return
	}
	p := in.off(u.OpPos)
	for i := range in.f.edits {
		if in.f.edits[i].pos == p && in.f.edits[i].text == rt+".Recv(" {
			in.f.edits[i].text = rt + ".Recv2("
		}
	}
}

func (in *inst) loopHead(b *ast.BlockStmt) {
	if len(b.List) == 0 {
		p := in.off(b.Lbrace) + 1
		in.f.add(p, p, " "+rt+".Y("+in.site(b.Lbrace)+");")
	}
}

func (in *inst) list(l []ast.Stmt) {
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		in.split(s)
		p := in.off(s.Pos())
		in.mapPoints(s)
		if v := in.sharedVar(s); v != 0 {
			in.prepend(p, fmt.Sprintf("%s.Sh(%s, %d); ", rt, in.site(s.Pos()), v))
			continue
		}
		in.prepend(p, rt+".Y("+in.site(s.Pos())+"); ")
	}
}

// writtenVars finds the package variables that functions of the package may change.
func writtenVars(asts []*ast.File, info *types.Info) map[*types.Var]bool {
	out := map[*types.Var]bool{}
	mark := func(e ast.Expr) {
		for e != nil {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
			case *ast.IndexExpr:
				e = x.X
			case *ast.SliceExpr:
				e = x.X
			case *ast.StarExpr:
				e = x.X
			case *ast.SelectorExpr:
				e = x.X
			case *ast.Ident:
				if v, ok := info.Uses[x].(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
					out[v] = true
				}
				return
			default:
				return
			}
		}
	}
	for _, a := range asts {
		for _, d := range a.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv == nil && fd.Name.Name == "init" {
				continue
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.AssignStmt:
					for _, l := range x.Lhs {
						mark(l)
					}
				case *ast.IncDecStmt:
					mark(x.X)
				case *ast.RangeStmt:
					if x.Tok == token.ASSIGN {
						mark(x.Key)
						mark(x.Value)
					}
				case *ast.UnaryExpr:
					if x.Op == token.AND {
						mark(x.X)
					}
				case *ast.CallExpr: // a method or function that may change what it is given
					if sel, ok := x.Fun.(*ast.SelectorExpr); ok && info.Selections[sel] != nil {
						mark(sel.X)
					}
					for _, arg := range x.Args {
						if t := info.Types[arg].Type; t != nil {
							switch t.Underlying().(type) {
							case *types.Slice, *types.Map, *types.Pointer:
								mark(arg)
							}
						}
					}
				}
				return true
			})
		}
	}
	return out
}

var varIDs = map[string]int{}

// sharedVar returns a number for a changing package variable the statement itself uses, or 0.
func (in *inst) sharedVar(s ast.Stmt) int {
	var best *types.Var
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.Ident:
			v, ok := in.info.Uses[x].(*types.Var)
			if !ok || v.IsField() || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() {
				return true
			}
			if !in.written[v] && v.Pkg().Path() == in.pkg() || !strings.HasPrefix(v.Pkg().Path(), modPath) {
				return true
			}
			switch u := v.Type().Underlying().(type) {
			case *types.Signature, *types.Interface:
				_ = u
				return true
			}
			if nm, ok := v.Type().(*types.Named); ok && nm.Obj().Pkg() != nil && nm.Obj().Pkg().Path() == "sync" {
				return true
			}
			if best == nil {
				best = v
			}
		}
		return true
	})
	if best == nil {
		return 0
	}
	k := best.Pkg().Path() + "." + best.Name()
	if varIDs[k] == 0 {
		varIDs[k] = len(varIDs) + 1
	}
	return varIDs[k]
}

func (in *inst) pkg() string {
	for _, o := range in.info.Defs {
		if o != nil && o.Pkg() != nil {
			return o.Pkg().Path()
		}
	}
	return ""
}

// prepend inserts text at p before every other insertion there.
func (in *inst) prepend(p int, text string) {
	in.f.seq++
	in.f.edits = append(in.f.edits, edit{p, p, text, -in.f.seq})
}

// split makes a read-modify-write of a possibly shared location two steps.
func (in *inst) split(s ast.Stmt) {
	var lhs, rhs ast.Expr
	op := ""
	switch x := s.(type) {
	case *ast.IncDecStmt:
		lhs = x.X
		op = "+"
		if x.Tok == token.DEC {
			op = "-"
		}
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || x.Tok == token.DEFINE {
			return
		}
		lhs, rhs = x.Lhs[0], x.Rhs[0]
		if x.Tok == token.ASSIGN { // v = append(v, ...), v = v + ...
			if _, ok := ast.Unparen(lhs).(*ast.IndexExpr); ok || !mentions(rhs, lhs) || !types.Identical(in.info.Types[lhs].Type, in.info.Types[rhs].Type) {
				return
			}
			if b, ok := in.info.Types[lhs].Type.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				return
			}
			break
		}
		op = strings.TrimSuffix(x.Tok.String(), "=")
	default:
		return
	}
	switch l := ast.Unparen(lhs).(type) {
	case *ast.SelectorExpr, *ast.StarExpr:
	case *ast.IndexExpr:
		if t := in.info.Types[l.X].Type; t == nil || isMap(t) {
			return
		}
	case *ast.Ident:
		v, ok := in.info.Uses[l].(*types.Var)
		if !ok {
			return
		}
		shared := v.Parent() == v.Pkg().Scope()
		if len(in.funcs) > 0 && v.Pos() < in.funcs[len(in.funcs)-1].Pos() {
			shared = true
		}
		if !shared {
			return
		}
	default:
		return
	}
	pure := true
	for _, e := range []ast.Expr{lhs, rhs} {
		if e == nil {
			continue
		}
		ast.Inspect(e, func(n ast.Node) bool {
			switch y := n.(type) {
			case *ast.CallExpr:
				if !in.info.Types[y.Fun].IsType() && !in.isBuiltin(y.Fun, "len") && !(op == "" && in.isBuiltin(y.Fun, "append")) {
					pure = false
				}
			case *ast.FuncLit:
				pure = false
			case *ast.UnaryExpr:
				if y.Op == token.ARROW {
					pure = false
				}
			case *ast.IndexExpr:
				if isMap(in.info.Types[y.X].Type) {
					pure = false
				}
			}
			return true
		})
	}
	if !pure {
		return
	}
	r := "1"
	if rhs != nil {
		r = "(" + string(in.f.src[in.off(rhs.Pos()):in.off(rhs.End())]) + ")"
	}
	l := string(in.f.src[in.off(lhs.Pos()):in.off(lhs.End())])
	if op == "" {
		in.f.replace(in.off(s.Pos()), in.off(s.End()), fmt.Sprintf("{ zzp := &(%s); zzv := %s; %s.Y(%s); *zzp = zzv }", l, r, rt, in.site(s.Pos())))
		return
	}
	in.f.replace(in.off(s.Pos()), in.off(s.End()), fmt.Sprintf("{ zzp := &(%s); zzv := *zzp; %s.Y(%s); *zzp = zzv %s %s }", l, rt, in.site(s.Pos()), op, r))
}

// mentions: the expression contains the other one.
func mentions(e, part ast.Expr) bool {
	t := types.ExprString(part)
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if x, ok := n.(ast.Expr); ok && types.ExprString(x) == t {
			found = true
		}
		return !found
	})
	return found
}

func (in *inst) goStmt(x *ast.GoStmt) {
	f := in.f
	c := x.Call
	if tv, ok := in.info.Types[c.Fun]; ok && (tv.IsBuiltin() || tv.IsType()) {
		fatalf("%s: go statement with a builtin", in.fset.Position(x.Pos()))
	}
	name := ".GoCall("
	if c.Ellipsis.IsValid() {
		name = ".GoCallV("
		f.add(in.off(c.Ellipsis), in.off(c.Ellipsis)+3, "")
	}
	f.add(in.off(x.Go), in.off(x.Go)+2, rt+name)
	sep := ""
	if len(c.Args) > 0 {
		sep = ","
	}
	f.add(in.off(c.Lparen), in.off(c.Lparen)+1, sep)
}

func (in *inst) selectStmt(x *ast.SelectStmt) {
	f := in.f
	if len(x.Body.List) == 0 {
		f.replace(in.off(x.Pos()), in.off(x.End()), "{ "+rt+".BlockForever(); panic(\"select\") }")
		return
	}
	in.tmp++
	var names, exprs []string
	hasDefault := false
	k := 0
	type rep struct {
		pos, end int
		text     string
	}
	var reps []rep
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		pos, end := in.off(cc.Case), in.off(cc.Colon)+1
		if cc.Comm == nil {
			hasDefault = true
			continue
		}
		nm := fmt.Sprintf("zzc%d_%d", in.tmp, k)
		names = append(names, nm)
		var t string
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			exprs = append(exprs, fmt.Sprintf("%s.CaseSendTo(%s)(%s)", rt, f.text(in.fset, s.Chan.Pos(), s.Chan.End()), f.text(in.fset, s.Value.Pos(), s.Value.End())))
			t = fmt.Sprintf("case %d: _ = %s;", k, nm)
		case *ast.ExprStmt:
			u := ast.Unparen(s.X).(*ast.UnaryExpr)
			exprs = append(exprs, fmt.Sprintf("%s.CaseRecv(%s)", rt, f.text(in.fset, u.X.Pos(), u.X.End())))
			t = fmt.Sprintf("case %d: _ = %s;", k, nm)
		case *ast.AssignStmt:
			u := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr)
			exprs = append(exprs, fmt.Sprintf("%s.CaseRecv(%s)", rt, f.text(in.fset, u.X.Pos(), u.X.End())))
			var l []string
			for _, e := range s.Lhs {
				l = append(l, f.text(in.fset, e.Pos(), e.End()))
			}
			r := nm + ".Val"
			if len(l) == 2 {
				r += ", " + nm + ".Ok"
			}
			t = fmt.Sprintf("case %d: %s %s %s;", k, strings.Join(l, ", "), s.Tok, r)
		}
		reps = append(reps, rep{pos, end, t})
		k++
	}
	for _, r := range reps {
		f.replace(r.pos, r.end, r.text)
	}
	head := "switch "
	if len(names) > 0 {
		head += strings.Join(names, ", ") + " := " + strings.Join(exprs, ", ") + "; "
	}
	head += fmt.Sprintf("%s.Select(%v", rt, hasDefault)
	for _, n := range names {
		head += ", " + n
	}
	head += ") "
	f.add(in.off(x.Select), in.off(x.Select)+len("select"), head)
	if !hasDefault { // a select without break ends its function; a switch does only with a default
		f.add(in.off(x.Body.Rbrace), in.off(x.Body.Rbrace), ";default: panic(\"select\");")
	}
}

func (in *inst) rangeStmt(x *ast.RangeStmt) {
	f := in.f
	t := in.info.Types[x.X].Type
	if t == nil {
		return
	}
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	tx := f.text(in.fset, x.X.Pos(), x.X.End())
	src := func(e ast.Expr) string { return f.text(in.fset, e.Pos(), e.End()) }
	in.tmp++
	it := fmt.Sprintf("zzit%d", in.tmp)
	var head string
	switch {
	case isChan(t):
		switch {
		case blank(x.Key):
			head = fmt.Sprintf("for %s := %s.ChanIter(%s); %s.Next(nil); ", it, rt, tx, it)
		case x.Tok == token.DEFINE:
			head = fmt.Sprintf("for %s, %s := %s.ChanStart(%s); %s.Next(&%s); ", src(x.Key), it, rt, tx, it, src(x.Key))
		default:
			head = fmt.Sprintf("for %s := %s.ChanIter(%s); %s.Next(&(%s)); ", it, rt, tx, it, src(x.Key))
		}
	case isMap(t):
		ref := func(e ast.Expr) string {
			if blank(e) {
				return "nil"
			}
			return "&(" + src(e) + ")"
		}
		switch {
		case x.Tok != token.DEFINE || blank(x.Key) && blank(x.Value):
			head = fmt.Sprintf("for %s := %s.MapIter(%s); %s.Next(%s, %s); ", it, rt, tx, it, ref(x.Key), ref(x.Value))
		case blank(x.Value):
			head = fmt.Sprintf("for %s, %s := %s.MapStartK(%s); %s.Next(%s, nil); ", src(x.Key), it, rt, tx, it, ref(x.Key))
		case blank(x.Key):
			head = fmt.Sprintf("for %s, %s := %s.MapStartV(%s); %s.Next(nil, %s); ", src(x.Value), it, rt, tx, it, ref(x.Value))
		default:
			head = fmt.Sprintf("for %s, %s, %s := %s.MapStart(%s); %s.Next(%s, %s); ", src(x.Key), src(x.Value), it, rt, tx, it, ref(x.Key), ref(x.Value))
		}
	default:
		return
	}
	f.replace(in.off(x.For), in.off(x.Body.Lbrace), head)
}
