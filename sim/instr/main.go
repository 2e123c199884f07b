// Command verifinstr rewrites the packages of cloudflare/cfrpki, as they are in
// the working tree, so that they run inside the deterministic simulator: every
// statement becomes a scheduling point, goroutines become simulated tasks, map
// iteration follows the seed, package variables can be re-initialised (process
// restart), and imports of os, net/http, sync, time ... go to the simulated
// machine. Nothing is written in the repository: the output is an overlay.
//
//	verifinstr -repo /repo -sim /verif/sim -work DIR -main cmd/octorpki
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const simAlias = "vsim__"

var (
	repo    = flag.String("repo", "/repo", "repository")
	simDir  = flag.String("sim", "/verif/sim", "simulator sources")
	work    = flag.String("work", "", "output directory")
	mainPkg = flag.String("main", "cmd/octorpki", "main package, relative to the repository")
	testSrc = flag.String("test", "", "in-package test file of the main package")
	tags    = flag.String("tags", "", "build tags")
)

type listPkg struct {
	ImportPath   string
	Dir          string
	Name         string
	Export       string
	GoFiles      []string
	TestGoFiles  []string
	XTestGoFiles []string
	Standard     bool
	ImportMap    map[string]string
	Module       *struct{ Path string }
	Error        *struct{ Err string }
}

func golist(args ...string) []*listPkg {
	cmd := exec.Command("go", append([]string{"list", "-json"}, args...)...)
	cmd.Dir = *repo
	var er bytes.Buffer
	cmd.Stderr = &er
	out, err := cmd.Output()
	if err != nil {
		log.Fatalf("go list %v: %v\n%s", args, err, er.String())
	}
	var l []*listPkg
	d := json.NewDecoder(bytes.NewReader(out))
	for {
		p := new(listPkg)
		if err := d.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			log.Fatal(err)
		}
		l = append(l, p)
	}
	return l
}

type edit struct {
	off, end int
	text     string
	seq      int
}

type file struct {
	src   []byte
	edits []edit
	fset  *token.FileSet
	used  bool
}

func (f *file) o(p token.Pos) int { return f.fset.Position(p).Offset }
func (f *file) ins(p token.Pos, s string) {
	f.edits = append(f.edits, edit{f.o(p), f.o(p), s, len(f.edits)})
}
func (f *file) rep(p, e token.Pos, s string) {
	// keep line numbers
	n := bytes.Count(f.src[f.o(p):f.o(e)], []byte("\n"))
	f.edits = append(f.edits, edit{f.o(p), f.o(e), s + strings.Repeat("\n", n), len(f.edits)})
}
func (f *file) apply() []byte {
	sort.SliceStable(f.edits, func(i, j int) bool {
		if f.edits[i].off != f.edits[j].off {
			return f.edits[i].off < f.edits[j].off
		}
		return f.edits[i].seq < f.edits[j].seq
	})
	var b bytes.Buffer
	p := 0
	for _, e := range f.edits {
		if e.off < p {
			log.Fatalf("overlapping edits at %d: %q", e.off, e.text)
		}
		b.Write(f.src[p:e.off])
		b.WriteString(e.text)
		p = e.end
	}
	b.Write(f.src[p:])
	return b.Bytes()
}

var shims = map[string]string{
	"os": "vos", "io/ioutil": "vioutil", "path/filepath": "vfilepath", "os/exec": "vexec",
	"sync": "vsync", "runtime": "vruntime", "net/http": "vhttp", "time": "vtime",
	"math/rand": "vrand", "context": "vcontext", "maps": "vmaps", "net": "vnet",
}

// vendored packages that decide when something happens
var vendored = map[string]bool{
	"github.com/google/certificate-transparency-go/jsonclient": true,
	"github.com/kentik/patricia":                               true,
	"github.com/kentik/patricia/int64_tree":                    true,
}

type instr struct {
	*file
	info  *types.Info
	pkg   *types.Package
	full  bool // yield points and goroutines, not only map ranges
	nsel  int
	cells int

	captured map[types.Object]bool // local variables that function literals share
}

func (in *instr) stmts(l []ast.Stmt) {
	if !in.full {
		return
	}
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		in.ins(s.Pos(), simAlias+".Y(); "+in.accesses(s))
		in.split(s)
	}
}

// findCaptured lists the local variables used by function literals they are not declared in.
func findCaptured(a *ast.File, info *types.Info) map[types.Object]bool {
	out := map[types.Object]bool{}
	ast.Inspect(a, func(n ast.Node) bool {
		fl, ok := n.(*ast.FuncLit)
		if !ok {
			return true
		}
		ast.Inspect(fl.Body, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if v, ok := info.Uses[id].(*types.Var); ok && !v.IsField() && (v.Pos() < fl.Pos() || v.Pos() > fl.End()) {
					out[v] = true
				}
			}
			return true
		})
		return true
	})
	return out
}

// callees outside the program that are known not to synchronise with other tasks
var quiet = map[string]bool{"fmt": true, "strings": true, "strconv": true, "bytes": true, "path": true, "sort": true,
	"encoding/hex": true, "unicode/utf8": true, "errors": true, "math/big": true, "net": true}

// pure tells whether evaluating e involves nothing that could be ordered
// against what other tasks do: no calls into the program, no channels, no
// function literals.
func (in *instr) pure(e ast.Expr) bool {
	if e == nil {
		return true
	}
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		case *ast.CallExpr:
			if tv, k := in.info.Types[n.Fun]; k && (tv.IsType() || tv.IsBuiltin()) {
				return ok
			}
			var id *ast.Ident
			switch f := ast.Unparen(n.Fun).(type) {
			case *ast.SelectorExpr:
				id = f.Sel
			case *ast.Ident:
				id = f
			}
			f, k := in.info.Uses[id].(*types.Func)
			if id == nil || !k || f.Pkg() == nil || f.Type().(*types.Signature).Recv() != nil {
				ok = false
				return false
			}
			if !quiet[f.Pkg().Path()] && !(f.Pkg().Path() == "time" && f.Name() == "Now") {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (in *instr) isMap(e ast.Expr) bool {
	tv, ok := in.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Map)
	return ok
}

// plain tells whether e can be evaluated once more without any effect.
func plain(e ast.Expr) bool {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return plain(e.X)
	case *ast.StarExpr:
		return plain(e.X)
	case *ast.IndexExpr:
		return plain(e.X) && plain(e.Index)
	}
	return false
}

var nsites int // map operations seen so far

// accesses returns the hooks for the map operations of a statement: where two
// tasks are about to use one map at once and one of them writes, nothing orders
// them, and the Go runtime ends the process.
func (in *instr) accesses(s ast.Stmt) string {
	var reads []ast.Expr
	var writes []ast.Expr
	var in1 []ast.Expr // evaluated first, unconditionally
	switch s := s.(type) {
	case *ast.AssignStmt:
		for _, l := range s.Lhs {
			if ix, ok := ast.Unparen(l).(*ast.IndexExpr); ok && in.isMap(ix.X) {
				writes = append(writes, ix.X)
				in1 = append(in1, ix.X, ix.Index)
				continue
			}
			in1 = append(in1, l)
		}
		in1 = append(in1, s.Rhs...)
	case *ast.IncDecStmt:
		if ix, ok := ast.Unparen(s.X).(*ast.IndexExpr); ok && in.isMap(ix.X) {
			writes = append(writes, ix.X)
			in1 = append(in1, ix.X, ix.Index)
		} else {
			in1 = append(in1, s.X)
		}
	case *ast.ExprStmt:
		c, ok := s.X.(*ast.CallExpr)
		if !ok {
			return ""
		}
		tv, ok := in.info.Types[c.Fun]
		if !ok || !tv.IsBuiltin() {
			return ""
		}
		id, _ := ast.Unparen(c.Fun).(*ast.Ident)
		if id != nil && (id.Name == "delete" || id.Name == "clear") && len(c.Args) > 0 && in.isMap(c.Args[0]) {
			writes = append(writes, c.Args[0])
		}
		in1 = append(in1, c.Args...)
	case *ast.ReturnStmt:
		in1 = append(in1, s.Results...)
	case *ast.IfStmt:
		if s.Init != nil {
			as, ok := s.Init.(*ast.AssignStmt)
			if !ok {
				return ""
			}
			in1 = append(in1, as.Rhs...)
		} else {
			in1 = append(in1, s.Cond)
		}
	default:
		return ""
	}
	for _, e := range in1 {
		if !in.pure(e) {
			return ""
		}
	}
	for _, e := range in1 {
		ast.Inspect(e, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BinaryExpr:
				if n.Op == token.LAND || n.Op == token.LOR {
					// only the left operand is always evaluated
					ast.Inspect(n.X, func(m ast.Node) bool {
						if b, ok := m.(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) {
							return false
						}
						if ix, ok := m.(*ast.IndexExpr); ok && in.isMap(ix.X) {
							reads = append(reads, ix.X)
						}
						return true
					})
					return false
				}
			case *ast.IndexExpr:
				if in.isMap(n.X) {
					reads = append(reads, n.X)
				}
			}
			return true
		})
	}
	out := ""
	hook := func(f string, l []ast.Expr) {
		for _, e := range l {
			if plain(e) {
				nsites++
				out += fmt.Sprintf("%s.%s(%s, %d); ", simAlias, f, strings.ReplaceAll(string(in.src[in.o(e.Pos()):in.o(e.End())]), "\n", " "), nsites)
			}
		}
	}
	hook("MR", reads)
	hook("MW", writes)
	return out
}

// shared tells whether other tasks may see the variable.
func (in *instr) shared(e ast.Expr) bool {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		v, ok := in.info.Uses[e].(*types.Var)
		return ok && (in.captured[v] || v.Parent() == in.pkg.Scope())
	case *ast.SelectorExpr, *ast.StarExpr:
		return plain(e)
	case *ast.IndexExpr:
		return plain(e) && !in.isMap(e.X)
	}
	return false
}

// split puts a scheduling point between the reading and the writing half of a
// statement that updates a variable.
func (in *instr) split(s ast.Stmt) {
	text := func(e ast.Expr) string {
		return strings.ReplaceAll(string(in.src[in.o(e.Pos()):in.o(e.End())]), "\n", " ")
	}
	switch s := s.(type) {
	case *ast.IncDecStmt:
		if in.shared(s.X) {
			in.rep(s.TokPos, s.TokPos+2, fmt.Sprintf(" = %s.Id(%s %s 1)", simAlias, text(s.X), s.Tok.String()[:1]))
		}
	case *ast.AssignStmt:
		if len(s.Lhs) != 1 || len(s.Rhs) != 1 || !in.shared(s.Lhs[0]) {
			return
		}
		switch s.Tok {
		case token.ADD_ASSIGN, token.SUB_ASSIGN, token.OR_ASSIGN:
			if in.pure(s.Rhs[0]) {
				in.rep(s.TokPos, s.TokPos+2, fmt.Sprintf("= %s.Id(%s %s (", simAlias, text(s.Lhs[0]), s.Tok.String()[:1]))
				in.ins(s.Rhs[0].End(), "))")
			}
		case token.ASSIGN:
			c, ok := ast.Unparen(s.Rhs[0]).(*ast.CallExpr)
			if !ok || len(c.Args) == 0 {
				return
			}
			if tv, ok := in.info.Types[c.Fun]; !ok || !tv.IsBuiltin() {
				return
			}
			if id, ok := ast.Unparen(c.Fun).(*ast.Ident); !ok || id.Name != "append" || text(c.Args[0]) != text(s.Lhs[0]) {
				return
			}
			in.ins(s.Rhs[0].Pos(), simAlias+".Id(")
			in.ins(s.Rhs[0].End(), ")")
		}
	}
}

func (in *instr) Visit(n ast.Node) ast.Visitor {
	switch n := n.(type) {
	case *ast.FuncDecl:
		if n.Body == nil {
			return nil
		}
	case *ast.BlockStmt:
		in.stmts(n.List)
	case *ast.CaseClause:
		in.stmts(n.Body)
	case *ast.CommClause:
		in.stmts(n.Body)
	case *ast.ForStmt:
		if in.full && len(n.Body.List) == 0 {
			in.ins(n.Body.Lbrace+1, " "+simAlias+".Y() ")
		}
	case *ast.GoStmt:
		in.goStmt(n)
	case *ast.RangeStmt:
		in.rangeStmt(n)
	}
	return in
}

func (in *instr) goStmt(n *ast.GoStmt) {
	if !in.full {
		return
	}
	c := n.Call
	wrap := false
	fun := ast.Unparen(c.Fun)
	if tv, ok := in.info.Types[c.Fun]; ok && tv.IsBuiltin() {
		wrap = true
	}
	switch f := fun.(type) {
	case *ast.Ident:
		if _, ok := in.info.Instances[f]; ok {
			wrap = true
		}
	case *ast.SelectorExpr:
		if _, ok := in.info.Instances[f.Sel]; ok {
			wrap = true
		}
	}
	if len(c.Args) == 1 {
		if tv, ok := in.info.Types[c.Args[0]]; ok {
			if _, ok := tv.Type.(*types.Tuple); ok {
				wrap = true
			}
		}
	}
	if wrap {
		in.rep(n.Go, c.Pos(), simAlias+".GoCall(func() { ")
		in.ins(c.End(), " })")
		return
	}
	name := "GoCall"
	if c.Ellipsis != token.NoPos {
		name = "GoCallSlice"
		in.rep(c.Ellipsis, c.Ellipsis+3, "")
	}
	in.rep(n.Go, c.Pos(), simAlias+"."+name+"(")
	if len(c.Args) == 0 {
		in.rep(c.Lparen, c.Lparen+1, "")
	} else {
		in.rep(c.Lparen, c.Lparen+1, ", ")
	}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (in *instr) rangeStmt(n *ast.RangeStmt) {
	tv, ok := in.info.Types[n.X]
	if !ok {
		return
	}
	m, ok := tv.Type.Underlying().(*types.Map)
	if !ok {
		if in.full && len(n.Body.List) == 0 {
			in.ins(n.Body.Lbrace+1, " "+simAlias+".Y() ")
		}
		return
	}
	it := fmt.Sprintf("vsIt%d", in.nsel)
	in.nsel++
	in.used = true
	start := n.Range
	if n.Key != nil {
		start = n.Key.Pos()
	}
	src := func(e ast.Expr) string { return string(in.src[in.o(e.Pos()):in.o(e.End())]) }
	kb, vb := isBlank(n.Key), isBlank(n.Value)
	if n.Tok == token.DEFINE && (!kb || !vb) {
		switch {
		case !kb && !vb:
			in.rep(start, n.X.Pos(), fmt.Sprintf("%s, %s, %s := %s.IterKV(", it, src(n.Key), src(n.Value), simAlias))
			in.ins(n.X.End(), fmt.Sprintf("); %s.Next(&%s, &%s); ", it, src(n.Key), src(n.Value)))
		case !kb:
			in.rep(start, n.X.Pos(), fmt.Sprintf("%s, %s := %s.IterK(", it, src(n.Key), simAlias))
			in.ins(n.X.End(), fmt.Sprintf("); %s.Next(&%s, nil); ", it, src(n.Key)))
		default:
			in.rep(start, n.X.Pos(), fmt.Sprintf("%s, %s := %s.IterV(", it, src(n.Value), simAlias))
			in.ins(n.X.End(), fmt.Sprintf("); %s.Next(nil, &%s); ", it, src(n.Value)))
		}
		return
	}
	k, v := "nil", "nil"
	chk := func(e ast.Expr, t types.Type) (string, bool) {
		et, ok := in.info.Types[e]
		if !ok || !types.Identical(et.Type, t) {
			if id, isid := e.(*ast.Ident); isid {
				if ob := in.info.ObjectOf(id); ob != nil && types.Identical(ob.Type(), t) {
					return "&" + src(e), true
				}
			}
			return "", false
		}
		switch ast.Unparen(e).(type) {
		case *ast.Ident, *ast.SelectorExpr:
			return "&" + src(e), true
		}
		return "", false
	}
	if !kb {
		s, ok := chk(n.Key, m.Key())
		if !ok {
			return
		}
		k = s
	}
	if !vb {
		s, ok := chk(n.Value, m.Elem())
		if !ok {
			return
		}
		v = s
	}
	in.rep(start, n.X.Pos(), fmt.Sprintf("%s := %s.Iter(", it, simAlias))
	in.ins(n.X.End(), fmt.Sprintf("); %s.Next(%s, %s); ", it, k, v))
}

var skipVar = map[string]bool{"flag": true, "regexp": true, "github.com/prometheus/client_golang/prometheus": true}

// resetCode produces the re-initialisation of the package's variables.
func resetCode(p *listPkg, pkg *types.Package, info *types.Info, fset *token.FileSet, files map[string]*file, asts map[string]*ast.File) map[string][]string {
	out := map[string][]string{}
	inited := map[types.Object]bool{}
	usesSkipped := func(e ast.Expr) bool {
		bad := false
		ast.Inspect(e, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if pn, ok := info.Uses[id].(*types.PkgName); ok && skipVar[pn.Imported().Path()] {
					bad = true
				}
			}
			return true
		})
		return bad
	}
	hasMethod := func(t types.Type, name string) *types.Signature {
		o, _, _ := types.LookupFieldOrMethod(t, true, pkg, name)
		if f, ok := o.(*types.Func); ok {
			return f.Type().(*types.Signature)
		}
		return nil
	}
	for i, it := range info.InitOrder {
		var names []string
		for _, l := range it.Lhs {
			inited[l] = true
			names = append(names, l.Name())
		}
		fn := fset.Position(it.Lhs[0].Pos()).Filename
		if fn == "" || len(names) == 0 {
			continue
		}
		add := func(body string) {
			out[fn] = append(out[fn], fmt.Sprintf("func init() { %s.OnReset(%q, %d, func() { %s }) }", simAlias, p.ImportPath, i+1, body))
		}
		if usesSkipped(it.Rhs) {
			if len(names) == 1 && names[0] != "_" {
				t := it.Lhs[0].Type()
				if s := hasMethod(t, "Reset"); s != nil && s.Params().Len() == 0 {
					add(names[0] + ".Reset()")
				} else if s := hasMethod(t, "Set"); s != nil && s.Params().Len() == 1 {
					if b, ok := s.Params().At(0).Type().(*types.Basic); ok && b.Kind() == types.Float64 {
						add(names[0] + ".Set(0)")
					}
				}
			}
			continue
		}
		if len(names) == 1 && names[0] == "_" {
			continue
		}
		f := files[fn]
		add(strings.Join(names, ", ") + " = " + string(f.src[f.o(it.Rhs.Pos()):f.o(it.Rhs.End())]))
	}
	for fn, a := range asts {
		for _, d := range a.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				for _, id := range s.(*ast.ValueSpec).Names {
					if id.Name == "_" || inited[info.Defs[id]] {
						continue
					}
					out[fn] = append(out[fn], fmt.Sprintf("func init() { %s.OnReset(%q, 0, func() { %s.Zero(&%s) }) }", simAlias, p.ImportPath, simAlias, id.Name))
				}
			}
		}
	}
	return out
}

func main() {
	log.SetFlags(0)
	log.SetPrefix("verifinstr: ")
	flag.Parse()
	if *work == "" {
		log.Fatal("-work is required")
	}
	must(os.MkdirAll(*work, 0755))
	replace := map[string]string{}

	targs := []string{"-export", "-deps"}
	if *tags != "" {
		targs = append(targs, "-tags", *tags)
	}
	shimImports := []string{}
	for k := range shims {
		shimImports = append(shimImports, k)
	}
	sort.Strings(shimImports)
	targs = append(targs, "./"+*mainPkg, "./sync/api", "./ov")
	targs = append(targs, shimImports...)
	pkgs := golist(targs...)
	export := map[string]string{}
	var modPath string
	for _, p := range pkgs {
		if p.Error != nil {
			log.Fatalf("%s: %s", p.ImportPath, p.Error.Err)
		}
		export[p.ImportPath] = p.Export
		if p.Module != nil && strings.HasPrefix(p.Dir, *repo+"/"+*mainPkg) && p.Dir == filepath.Join(*repo, *mainPkg) {
			modPath = p.Module.Path
		}
	}
	if modPath == "" {
		log.Fatal("module path not found")
	}
	fset := token.NewFileSet()
	var importMap map[string]string
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if m, ok := importMap[path]; ok {
			path = m
		}
		f, ok := export[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(f)
	})
	simPath := modPath + "/verifsim"

	n := 0
	emit := func(dst string, data []byte) {
		n++
		f := filepath.Join(*work, fmt.Sprintf("f%03d_%s", n, filepath.Base(dst)))
		must(os.WriteFile(f, data, 0644))
		replace[dst] = f
	}

	for _, p := range pkgs {
		if p.Module == nil {
			continue
		}
		if !vendored[p.ImportPath] && (p.Module.Path != modPath || strings.Contains(p.Dir, "/vendor/")) {
			continue
		}
		importMap = p.ImportMap
		files := map[string]*file{}
		asts := map[string]*ast.File{}
		var list []*ast.File
		for _, g := range p.GoFiles {
			fn := filepath.Join(p.Dir, g)
			src, err := os.ReadFile(fn)
			must(err)
			a, err := parser.ParseFile(fset, fn, src, parser.ParseComments|parser.SkipObjectResolution)
			must(err)
			files[fn] = &file{src: src, fset: fset}
			asts[fn] = a
			list = append(list, a)
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
			Uses: map[*ast.Ident]types.Object{}, Instances: map[*ast.Ident]types.Instance{},
		}
		conf := types.Config{Importer: imp, GoVersion: ""}
		pkg, err := conf.Check(p.ImportPath, fset, list, info)
		if err != nil {
			log.Fatalf("%s: %v", p.ImportPath, err)
		}
		generated := strings.HasSuffix(p.ImportPath, "/api/schemas")
		full := !strings.HasSuffix(p.ImportPath, "/validator/lib") && !generated
		resets := resetCode(p, pkg, info, fset, files, asts)
		for _, fn := range sortedKeys(files) {
			f, a := files[fn], asts[fn]
			if strings.HasSuffix(fn, ".pb.go") {
				continue
			}
			in := &instr{file: f, info: info, pkg: pkg, full: full, captured: findCaptured(a, info)}
			for _, d := range a.Decls {
				if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
					continue
				}
				ast.Walk(in, d)
			}
			for _, im := range a.Imports {
				path, _ := strconv.Unquote(im.Path.Value)
				sh, ok := shims[path]
				if !ok {
					continue
				}
				name := ""
				if im.Name == nil {
					name = path[strings.LastIndex(path, "/")+1:] + " "
				} else if im.Name.Name == "_" || im.Name.Name == "." {
					continue
				}
				f.rep(im.Path.Pos(), im.Path.End(), name+strconv.Quote(simPath+"/shim/"+sh))
			}
			f.ins(a.Name.End(), fmt.Sprintf("; import %s %q", simAlias, simPath))
			out := f.apply()
			if !bytes.HasSuffix(out, []byte("\n")) {
				out = append(out, '\n')
			}
			out = append(out, fmt.Sprintf("\nvar _ = %s.Y\n", simAlias)...)
			for _, r := range resets[fn] {
				out = append(out, r+"\n"...)
			}
			if vendored[p.ImportPath] {
				out = append([]byte("//go:build go1.22\n\n"), out...)
			}
			emit(fn, out)
		}
	}

	// existing tests of the main package are left out
	for _, p := range golist("./" + *mainPkg) {
		for _, t := range append(p.TestGoFiles, p.XTestGoFiles...) {
			replace[filepath.Join(p.Dir, t)] = ""
		}
	}
	if *testSrc != "" {
		replace[filepath.Join(*repo, *mainPkg, "zz_verif_sim_test.go")] = *testSrc
	}

	// simulator, harness and shims
	must(filepath.Walk(filepath.Join(*simDir, "verifsim"), func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !(strings.HasSuffix(path, ".go") || strings.HasSuffix(path, ".s")) {
			return err
		}
		rel, _ := filepath.Rel(*simDir, path)
		replace[filepath.Join(*repo, rel)] = path
		return nil
	}))
	importMap = nil
	for _, path := range shimImports {
		sp, err := imp.Import(path)
		must(err)
		emit(filepath.Join(*repo, "verifsim/shim", shims[path], "auto.go"), forwards(path, sp, filepath.Join(*simDir, "verifsim/shim", shims[path])))
	}

	ov, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	must(os.WriteFile(filepath.Join(*work, "overlay.json"), ov, 0644))
}

// forwards re-exports what the hand-written part of a shim does not define.
func forwards(path string, sp *types.Package, dir string) []byte {
	defined := map[string]bool{}
	fs := token.NewFileSet()
	hand, err := filepath.Glob(filepath.Join(dir, "*.go"))
	must(err)
	for _, h := range hand {
		a, err := parser.ParseFile(fs, h, nil, parser.SkipObjectResolution)
		must(err)
		for _, d := range a.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					defined[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.ValueSpec:
						for _, id := range s.Names {
							defined[id.Name] = true
						}
					case *ast.TypeSpec:
						defined[s.Name.Name] = true
					}
				}
			}
		}
	}
	var b bytes.Buffer
	sc := sp.Scope()
	for _, name := range sc.Names() {
		if !token.IsExported(name) || defined[name] {
			continue
		}
		switch o := sc.Lookup(name).(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real__.%s\n", name, name)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real__.%s\n", name, name)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = real__.%s\n", name, name)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = real__.%s\n", name, name)
		}
	}
	head := fmt.Sprintf("package %s\n\n", shims[path])
	if b.Len() > 0 {
		head += fmt.Sprintf("import real__ %q\n\n", path)
	}
	return append([]byte(head), b.Bytes()...)
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func must(err error) {
	if err != nil {
		log.Fatal(err)
	}
}
