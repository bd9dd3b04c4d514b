// Command instrument writes instrumented copies of Go packages and a build overlay that puts them in place of the
// originals: goroutine starts, channel operations, selects and map ranges go through mcrt, and the types and functions
// of sync, sync/atomic, os/signal, time and os.Exit are replaced by their controlled counterparts.
//
// usage: instrument -out DIR [-reset] PKG...     (run inside the module that will be built)
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	ImportMap  map[string]string
	Module     *struct{ Path, Dir, GoVersion string }
	DepOnly    bool
}

const rt = "verif.local/mc/mcrt"

// what is replaced, per import path: symbol -> package that provides it ("*" = everything)
var table = map[string]map[string]string{
	"sync":        {"*": rt + "/msync"},
	"sync/atomic": {"*": rt + "/matomic"},
	"os/signal":   {"*": rt + "/msignal"},
	"time": {"Now": rt + "/mtime", "Since": rt + "/mtime", "Until": rt + "/mtime", "Sleep": rt + "/mtime", "After": rt + "/mtime",
		"AfterFunc": rt + "/mtime", "NewTimer": rt + "/mtime", "Timer": rt + "/mtime", "NewTicker": rt + "/mtime", "Ticker": rt + "/mtime", "Tick": rt + "/mtime"},
	"os":      {"Exit": rt},
	"runtime": {"Gosched": rt},
}
var rename = map[string]string{"runtime.Gosched": "Yield"}

var out = flag.String("out", "", "output directory")
var noStd = flag.Bool("nostd", false, "leave the standard library alone")

func die(f string, a ...any) { fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...); os.Exit(2) }

func main() {
	flag.Parse()
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,ImportMap,Module,DepOnly"}, flag.Args()...)
	cmd := exec.Command("go", args...)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	pkgs := map[string]*listPkg{}
	var todo []*listPkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		pkgs[p.ImportPath] = p
		if p.Standard {
			continue
		}
		if strings.HasPrefix(p.ImportPath, rt) || strings.HasPrefix(p.ImportPath, "verif.local/mc/lib/") {
			continue
		}
		if p.ImportPath == "github.com/google/uuid" || strings.HasPrefix(p.ImportPath, "golang.org/x/sys") {
			continue
		}
		todo = append(todo, p)
	}
	overlay := map[string]string{}
	_ = os.MkdirAll(filepath.Join(*out, "ov"), 0o755)
	cache := modCache()
	mods := map[string]string{} // modules which are replaced by a copy, as the go command refuses overlays in its cache
	n := 0
	for _, p := range todo {
		cached := p.Module != nil && cache != "" && strings.HasPrefix(p.Dir, cache+string(filepath.Separator))
		if cached {
			mods[p.Module.Path] = p.Module.Dir
			copyPackage(p)
		}
		for file, src := range instrument(p, pkgs) {
			if cached {
				rel, _ := filepath.Rel(p.Module.Dir, file)
				if err := os.WriteFile(filepath.Join(modCopy(p.Module.Path), rel), src, 0o644); err != nil {
					die("%v", err)
				}
				continue
			}
			n++
			dst := filepath.Join(*out, "ov", fmt.Sprintf("%d_%s", n, filepath.Base(file)))
			if err := os.WriteFile(dst, src, 0o644); err != nil {
				die("%v", err)
			}
			overlay[file] = dst
		}
	}
	modFile(mods)
	if !*noStd {
		stdOverlay(overlay)
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644); err != nil {
		die("%v", err)
	}
}

// ---------------------------------------------------------------- modules of the cache

func modCache() string {
	b, err := exec.Command("go", "env", "GOMODCACHE").Output()
	if err != nil {
		die("go env: %v", err)
	}
	return strings.TrimSpace(string(b))
}

func modCopy(path string) string { return filepath.Join(*out, "mod", strings.ReplaceAll(path, "/", "_")) }

func copyFile(dst, src string) {
	b, err := os.ReadFile(src)
	if err == nil {
		err = os.WriteFile(dst, b, 0o644)
	}
	if err != nil {
		die("%v", err)
	}
}

// copyPackage copies a package's directory and its module's go.mod.
func copyPackage(p *listPkg) {
	rel, _ := filepath.Rel(p.Module.Dir, p.Dir)
	to := filepath.Join(modCopy(p.Module.Path), rel)
	if err := os.MkdirAll(to, 0o755); err != nil {
		die("%v", err)
	}
	for _, f := range p.GoFiles {
		copyFile(filepath.Join(to, f), filepath.Join(p.Dir, f))
	}
	copyFile(filepath.Join(modCopy(p.Module.Path), "go.mod"), filepath.Join(p.Module.Dir, "go.mod"))
}

// modFile writes the go.mod (and go.sum) the build uses: the main module's, with the copies in place of the cached modules.
func modFile(mods map[string]string) {
	b, err := exec.Command("go", "env", "GOMOD").Output()
	if err != nil {
		die("go env: %v", err)
	}
	orig := strings.TrimSpace(string(b))
	g, err := os.ReadFile(orig)
	if err != nil {
		die("%v", err)
	}
	var paths []string
	for m := range mods {
		paths = append(paths, m)
	}
	sort.Strings(paths)
	for _, m := range paths {
		abs, err := filepath.Abs(modCopy(m))
		if err != nil {
			die("%v", err)
		}
		g = append(g, fmt.Sprintf("\nreplace %s => %s\n", m, abs)...)
	}
	if err := os.WriteFile(filepath.Join(*out, "go.mod"), g, 0o644); err != nil {
		die("%v", err)
	}
	copyFile(filepath.Join(*out, "go.sum"), strings.TrimSuffix(orig, ".mod")+".sum")
}

// ---------------------------------------------------------------- one package

type inst struct {
	fset     *token.FileSet
	info     *types.Info
	pkg      *types.Package
	need     map[string]string // import path -> local name, for the current file
	tmp      int
	per      bool // per-iteration loop variables
	replaced map[ast.Expr]ast.Expr
}

func instrument(p *listPkg, pkgs map[string]*listPkg) map[string][]byte {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, g := range p.GoFiles {
		f, err := parser.ParseFile(fset, filepath.Join(p.Dir, g), nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, f)
	}
	lookup := func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		q := pkgs[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(q.Export)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	gv := ""
	if p.Module != nil && p.Module.GoVersion != "" {
		gv = "go" + p.Module.GoVersion
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), GoVersion: gv}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("%s: %v", p.ImportPath, err)
	}
	in := &inst{fset: fset, info: info, pkg: tp, per: perIteration(gv), replaced: map[ast.Expr]ast.Expr{}}
	res := map[string][]byte{}
	resetFile := -1
	for i, f := range files {
		if hasDirective(f) {
			continue
		}
		resetFile = i
	}
	// package-level variables are initialised again before every execution
	isMain := files[0].Name.Name == "main"
	inFile := func(o token.Pos) int {
		for i, f := range files {
			if f.FileStart <= o && o <= f.FileEnd {
				return i
			}
		}
		return -1
	}
	if isMain {
		resetFile = -1
	}
	type ini struct {
		lhs  []string
		rhs  ast.Expr
		file int
		name string
	}
	var order []*ini
	hasInit := map[types.Object]bool{}
	for _, it := range info.InitOrder {
		x := &ini{rhs: it.Rhs, file: inFile(it.Rhs.Pos())}
		blankOnly := true
		for _, v := range it.Lhs {
			hasInit[v] = true
			x.lhs = append(x.lhs, v.Name())
			blankOnly = blankOnly && v.Name() == "_"
		}
		if !blankOnly && x.file >= 0 && !hasDirective(files[x.file]) {
			x.name = fmt.Sprintf("mcrtReset%d", len(order))
			order = append(order, x)
		}
	}
	var zero []string
	sc := tp.Scope()
	for _, n := range sc.Names() {
		if v, ok := sc.Lookup(n).(*types.Var); ok && !hasInit[v] && n != "_" {
			if k := inFile(v.Pos()); k >= 0 && !hasDirective(files[k]) {
				zero = append(zero, n)
			}
		}
	}
	inits := 0
	initNames := make([][]string, len(files))
	var allInits []string
	for i, f := range files {
		if hasDirective(f) || isMain {
			continue
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				inits++
				fd.Name = ast.NewIdent(fmt.Sprintf("mcrtInit%d", inits))
				initNames[i] = append(initNames[i], fd.Name.Name)
				allInits = append(allInits, fd.Name.Name)
			}
		}
	}
	needs := make([]map[string]string, len(files))
	for i, f := range files {
		if hasDirective(f) {
			continue
		}
		in.need = map[string]string{}
		in.file(f)
		needs[i] = in.need
	}
	for i, f := range files {
		name := fset.Position(f.Package).Filename
		if hasDirective(f) {
			continue
		}
		in.need = needs[i]
		var extra strings.Builder
		if !isMain {
			for _, x := range order {
				if x.file != i {
					continue
				}
				var e bytes.Buffer
				stripDocs(f)
				if err := printer.Fprint(&e, token.NewFileSet(), rhsOf(f, x.rhs, in)); err != nil {
					die("%v", err)
				}
				fmt.Fprintf(&extra, "\nfunc %s() { %s = %s }\n", x.name, strings.Join(x.lhs, ", "), e.String())
			}
			if i == resetFile {
				in.use(rt)
				extra.WriteString("\nfunc init() { mcrt_mcrt.OnReset(func() {\n")
				for _, z := range zero {
					fmt.Fprintf(&extra, "\tmcrt_mcrt.Zero(&%s)\n", z)
				}
				for _, x := range order {
					fmt.Fprintf(&extra, "\t%s()\n", x.name)
				}
				for _, n := range allInits {
					fmt.Fprintf(&extra, "\t%s()\n", n)
				}
				extra.WriteString("}) }\n")
			}
		}
		res[name] = in.print(f, extra.String(), initNames[i])
	}
	return res
}

// rhsOf finds the instrumented form of an initialiser: expressions are rewritten in place or replaced in their ValueSpec.
func rhsOf(f *ast.File, e ast.Expr, in *inst) ast.Expr {
	if r, ok := in.replaced[e]; ok {
		return r
	}
	return e
}

func perIteration(v string) bool {
	v = strings.TrimPrefix(v, "go1.")
	if i := strings.Index(v, "."); i > 0 {
		v = v[:i]
	}
	n, _ := strconv.Atoi(v)
	return n >= 22
}

func hasDirective(f *ast.File) bool {
	for _, g := range f.Comments {
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:linkname") || strings.HasPrefix(c.Text, "//go:embed") || strings.HasPrefix(c.Text, "//export ") {
				return true
			}
		}
	}
	for _, i := range f.Imports {
		if i.Path.Value == `"C"` {
			return true
		}
	}
	return false
}

func (in *inst) print(f *ast.File, reset string, inits []string) []byte {
	var head strings.Builder
	for _, g := range f.Comments {
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:build") && c.Pos() < f.Package {
				head.WriteString(c.Text + "\n\n")
			}
		}
	}
	f.Comments = nil
	stripDocs(f)
	// imports that are still used keep their place; added ones come in one declaration
	var paths []string
	for p := range in.need {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	var imp strings.Builder
	for _, p := range paths {
		fmt.Fprintf(&imp, "import %s %q\n", in.need[p], p)
	}
	var b bytes.Buffer
	if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&b, token.NewFileSet(), f); err != nil {
		die("%v", err)
	}
	s := b.String()
	// insert the imports after the package clause
	i := strings.Index(s, "package "+f.Name.Name)
	j := i + strings.Index(s[i:], "\n") + 1
	s = s[:j] + "\n" + imp.String() + s[j:]
	// keep imports that lost their last use alive
	s += in.keep(f) + reset
	if len(inits) > 0 {
		s += "\nfunc init() {\n"
		for _, n := range inits {
			s += "\t" + n + "()\n"
		}
		s += "}\n"
	}
	return []byte(head.String() + s)
}

func stripDocs(f *ast.File) {
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
}

var keepSym = map[string]string{"sync": "Mutex", "sync/atomic": "Value", "os/signal": "", "time": "Time", "os": "File", "runtime": "Func"}

func (in *inst) keep(f *ast.File) string {
	s := ""
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if table[path] == nil {
			continue
		}
		name := filepath.Base(path)
		if im.Name != nil {
			name = im.Name.Name
		}
		if name == "_" || name == "." {
			continue
		}
		if path == "os/signal" {
			s += fmt.Sprintf("\nvar _ = %s.Stop\n", name)
		} else {
			s += fmt.Sprintf("\nvar _ %s.%s\n", name, keepSym[path])
		}
	}
	return s
}

func (in *inst) use(path string) string {
	if n, ok := in.need[path]; ok {
		return n
	}
	n := "mcrt_" + filepath.Base(path)
	in.need[path] = n
	return n
}

func (in *inst) rt(sym string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(in.use(rt)), Sel: ast.NewIdent(sym)}
}

func (in *inst) name(p string) *ast.Ident {
	in.tmp++
	return ast.NewIdent(fmt.Sprintf("mc_%s%d", p, in.tmp))
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }
func sel(x ast.Expr, s string) ast.Expr               { return &ast.SelectorExpr{X: x, Sel: ast.NewIdent(s)} }

func (in *inst) isChan(e ast.Expr) bool {
	t := in.info.TypeOf(e)
	if t == nil {
		return false
	}
	return isChanT(t)
}
func isChanT(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Chan:
		return true
	case *types.Interface:
		if tp, ok := t.(*types.TypeParam); ok {
			_ = tp
			for i := 0; i < u.NumEmbeddeds(); i++ {
				if un, ok := u.EmbeddedType(i).(*types.Union); ok {
					for k := 0; k < un.Len(); k++ {
						if isChanT(un.Term(k).Type()) {
							return true
						}
					}
				} else if isChanT(u.EmbeddedType(i)) {
					return true
				}
			}
		}
	}
	return false
}

func (in *inst) isMap(e ast.Expr) bool {
	t := in.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (in *inst) file(f *ast.File) {
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv != nil {
				in.fields(d.Recv)
			}
			in.funcType(d.Type)
			if d.Body != nil {
				in.block(d.Body)
			}
		case *ast.GenDecl:
			in.genDecl(d)
		}
	}
}

func (in *inst) genDecl(d *ast.GenDecl) {
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.ValueSpec:
			s.Type = in.expr(s.Type)
			// v, ok := <-ch needs the two-value form
			if len(s.Names) == 2 && len(s.Values) == 1 {
				if u, ok := unparen(s.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					s.Values[0] = in.recv(u, true)
					continue
				}
			}
			for i := range s.Values {
				o := s.Values[i]
				s.Values[i] = in.expr(o)
				in.replaced[o] = s.Values[i]
			}
		case *ast.TypeSpec:
			if s.TypeParams != nil {
				in.fields(s.TypeParams)
			}
			s.Type = in.expr(s.Type)
		}
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (in *inst) fields(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		f.Type = in.expr(f.Type)
	}
}

func (in *inst) funcType(t *ast.FuncType) {
	in.fields(t.TypeParams)
	in.fields(t.Params)
	in.fields(t.Results)
}

func (in *inst) recv(u *ast.UnaryExpr, two bool) ast.Expr {
	r := call(in.rt("R"), in.expr(u.X))
	if two {
		return call(sel(r, "Recv2"))
	}
	return call(sel(r, "Recv"))
}

func (in *inst) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = in.expr(l[i])
	}
}

func (in *inst) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.BadExpr, *ast.Ident, *ast.BasicLit:
	case *ast.Ellipsis:
		e.Elt = in.expr(e.Elt)
	case *ast.FuncLit:
		in.funcType(e.Type)
		in.block(e.Body)
	case *ast.CompositeLit:
		e.Type = in.expr(e.Type)
		in.exprs(e.Elts)
	case *ast.ParenExpr:
		e.X = in.expr(e.X)
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if pn, ok := in.info.Uses[id].(*types.PkgName); ok {
				path := pn.Imported().Path()
				if t := table[path]; t != nil {
					to := t[e.Sel.Name]
					if to == "" {
						to = t["*"]
					}
					if to != "" {
						name := e.Sel.Name
						if r := rename[path+"."+name]; r != "" {
							name = r
						}
						return &ast.SelectorExpr{X: ast.NewIdent(in.use(to)), Sel: ast.NewIdent(name)}
					}
				}
				return e
			}
		}
		e.X = in.expr(e.X)
	case *ast.IndexExpr:
		e.X, e.Index = in.expr(e.X), in.expr(e.Index)
	case *ast.IndexListExpr:
		e.X = in.expr(e.X)
		in.exprs(e.Indices)
	case *ast.SliceExpr:
		e.X, e.Low, e.High, e.Max = in.expr(e.X), in.expr(e.Low), in.expr(e.High), in.expr(e.Max)
	case *ast.TypeAssertExpr:
		e.X, e.Type = in.expr(e.X), in.expr(e.Type)
	case *ast.CallExpr:
		if id, ok := unparen(e.Fun).(*ast.Ident); ok && id.Name == "close" {
			if _, ok := in.info.Uses[id].(*types.Builtin); ok {
				return call(in.rt("Close"), in.expr(e.Args[0]))
			}
		}
		e.Fun = in.expr(e.Fun)
		in.exprs(e.Args)
	case *ast.StarExpr:
		e.X = in.expr(e.X)
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return in.recv(e, false)
		}
		e.X = in.expr(e.X)
	case *ast.BinaryExpr:
		e.X, e.Y = in.expr(e.X), in.expr(e.Y)
	case *ast.KeyValueExpr:
		e.Key, e.Value = in.expr(e.Key), in.expr(e.Value)
	case *ast.ArrayType:
		e.Len, e.Elt = in.expr(e.Len), in.expr(e.Elt)
	case *ast.StructType:
		in.fields(e.Fields)
	case *ast.FuncType:
		in.funcType(e)
	case *ast.InterfaceType:
		in.fields(e.Methods)
	case *ast.MapType:
		e.Key, e.Value = in.expr(e.Key), in.expr(e.Value)
	case *ast.ChanType:
		e.Value = in.expr(e.Value)
	default:
		die("%s: unhandled expression %T", in.fset.Position(e.Pos()), e)
	}
	return e
}

func (in *inst) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = in.stmts(b.List)
}

func (in *inst) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, in.stmt(s, nil))
	}
	return out
}

func (in *inst) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	return in.stmt(s, nil)
}

func (in *inst) stmt(s ast.Stmt, label *ast.Ident) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.BadStmt, *ast.EmptyStmt, *ast.BranchStmt:
	case *ast.DeclStmt:
		in.genDecl(s.Decl.(*ast.GenDecl))
	case *ast.LabeledStmt:
		n := in.stmt(s.Stmt, s.Label)
		if _, moved := n.(*labelled); moved {
			return n.(*labelled).Stmt
		}
		s.Stmt = n
	case *ast.ExprStmt:
		s.X = in.expr(s.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(sel(call(in.rt("W"), in.expr(s.Chan)), "Send"), in.expr(s.Value))}
	case *ast.IncDecStmt:
		s.X = in.expr(s.X)
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				in.exprs(s.Lhs)
				s.Rhs[0] = in.recv(u, true)
				return s
			}
		}
		in.exprs(s.Lhs)
		in.exprs(s.Rhs)
	case *ast.GoStmt:
		return in.goStmt(s)
	case *ast.DeferStmt:
		c := in.expr(s.Call)
		s.Call = c.(*ast.CallExpr)
	case *ast.ReturnStmt:
		in.exprs(s.Results)
	case *ast.BlockStmt:
		in.block(s)
	case *ast.IfStmt:
		s.Init = in.simple(s.Init)
		s.Cond = in.expr(s.Cond)
		in.block(s.Body)
		s.Else = in.simple(s.Else)
	case *ast.CaseClause:
		in.exprs(s.List)
		s.Body = in.stmts(s.Body)
	case *ast.SwitchStmt:
		s.Init = in.simple(s.Init)
		s.Tag = in.expr(s.Tag)
		in.block(s.Body)
	case *ast.TypeSwitchStmt:
		s.Init = in.simple(s.Init)
		s.Assign = in.simple(s.Assign)
		in.block(s.Body)
	case *ast.SelectStmt:
		return in.selectStmt(s, label)
	case *ast.ForStmt:
		s.Init = in.simple(s.Init)
		s.Cond = in.expr(s.Cond)
		s.Post = in.simple(s.Post)
		in.block(s.Body)
	case *ast.RangeStmt:
		return in.rangeStmt(s, label)
	default:
		die("%s: unhandled statement %T", in.fset.Position(s.Pos()), s)
	}
	return s
}

// labelled wraps a statement that has already placed its label.
type labelled struct{ ast.Stmt }

func withLabel(l *ast.Ident, s ast.Stmt) ast.Stmt {
	if l == nil {
		return s
	}
	return &ast.LabeledStmt{Label: ast.NewIdent(l.Name), Stmt: s}
}

func done(l *ast.Ident, b *ast.BlockStmt) ast.Stmt {
	if l == nil {
		return b
	}
	return &labelled{b}
}

func define(l ...ast.Expr) *ast.AssignStmt { return &ast.AssignStmt{Lhs: l, Tok: token.DEFINE} }

func (in *inst) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && fl.Type.Results == nil {
		return &ast.ExprStmt{X: call(in.rt("Go"), in.expr(fl))}
	}
	// evaluate function and arguments now
	var pre []ast.Stmt
	keep := func(e ast.Expr) ast.Expr {
		tv := in.info.Types[e]
		if tv.Value != nil && tv.Value.Kind() != constant.Unknown || tv.IsNil() {
			return e
		}
		v := in.name("a")
		a := define(v)
		a.Rhs = []ast.Expr{in.expr(e)}
		pre = append(pre, a)
		return ast.NewIdent(v.Name)
	}
	builtin := false
	if id, ok := unparen(c.Fun).(*ast.Ident); ok {
		_, builtin = in.info.Uses[id].(*types.Builtin)
	}
	nc := &ast.CallExpr{Ellipsis: c.Ellipsis}
	if builtin {
		nc.Fun = c.Fun
	} else if id, ok := unparen(c.Fun).(*ast.Ident); ok && isFunc(in.info.Uses[id]) {
		nc.Fun = in.expr(c.Fun)
	} else if _, ok := unparen(c.Fun).(*ast.FuncLit); ok {
		nc.Fun = in.expr(c.Fun)
	} else {
		nc.Fun = keep(c.Fun)
	}
	for _, a := range c.Args {
		nc.Args = append(nc.Args, keep(a))
	}
	var body ast.Expr = nc
	if builtin {
		body = in.expr(nc)
	}
	pre = append(pre, &ast.ExprStmt{X: call(in.rt("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: body}}}})})
	return &ast.BlockStmt{List: pre}
}

func isFunc(o types.Object) bool { _, ok := o.(*types.Func); return ok }

func (in *inst) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	if len(s.Body.List) == 0 {
		return &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(in.rt("BlockForever"))}, &ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}}
	}
	blk := &ast.BlockStmt{}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	sv := in.name("sel")
	hasDef := false
	var caseArgs []ast.Expr
	k := 0
	type cl struct {
		c   *ast.CommClause
		idx int
		pre []ast.Stmt
	}
	var cls []cl
	for _, cs := range s.Body.List {
		c := cs.(*ast.CommClause)
		switch cm := c.Comm.(type) {
		case nil:
			hasDef = true
			cls = append(cls, cl{c: c, idx: -1})
			continue
		case *ast.SendStmt:
			w, cv, pv := in.name("w"), in.name("c"), in.name("p")
			a := define(w)
			a.Rhs = []ast.Expr{call(in.rt("W"), in.expr(cm.Chan))}
			b := define(cv, pv)
			b.Rhs = []ast.Expr{call(sel(ast.NewIdent(w.Name), "Case"), in.expr(cm.Value))}
			blk.List = append(blk.List, a, b)
			caseArgs = append(caseArgs, ast.NewIdent(cv.Name))
			cls = append(cls, cl{c: c, idx: k, pre: []ast.Stmt{&ast.ExprStmt{X: call(sel(ast.NewIdent(w.Name), "Sent"), ast.NewIdent(sv.Name), ast.NewIdent(pv.Name))}}})
		default:
			var u *ast.UnaryExpr
			var as *ast.AssignStmt
			switch cm := cm.(type) {
			case *ast.ExprStmt:
				u = unparen(cm.X).(*ast.UnaryExpr)
			case *ast.AssignStmt:
				as = cm
				u = unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			}
			r := in.name("r")
			a := define(r)
			a.Rhs = []ast.Expr{call(in.rt("R"), in.expr(u.X))}
			blk.List = append(blk.List, a)
			caseArgs = append(caseArgs, call(sel(ast.NewIdent(r.Name), "Case")))
			got := call(sel(ast.NewIdent(r.Name), "Got"), ast.NewIdent(sv.Name))
			var pre []ast.Stmt
			if as == nil {
				pre = append(pre, &ast.ExprStmt{X: got})
			} else {
				lhs := as.Lhs
				in.exprs(lhs)
				tok := as.Tok
				if len(lhs) == 1 {
					lhs = []ast.Expr{lhs[0], ast.NewIdent("_")}
				}
				if tok == token.DEFINE && blank(lhs[0]) && blank(lhs[1]) {
					tok = token.ASSIGN
				}
				pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: tok, Rhs: []ast.Expr{got}})
			}
			cls = append(cls, cl{c: c, idx: k, pre: pre})
		}
		k++
	}
	a := define(sv)
	a.Rhs = []ast.Expr{call(in.rt("Select"), append([]ast.Expr{ast.NewIdent(fmt.Sprint(hasDef))}, caseArgs...)...)}
	blk.List = append(blk.List, a)
	sw.Tag = sel(ast.NewIdent(sv.Name), "I")
	for i, c := range cls {
		cc := &ast.CaseClause{}
		if c.idx >= 0 && (hasDef || i < len(cls)-1) {
			cc.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(c.idx)}}
		}
		cc.Body = append(cc.Body, c.pre...)
		cc.Body = append(cc.Body, in.stmts(c.c.Body)...)
		sw.Body.List = append(sw.Body.List, cc)
	}
	blk.List = append(blk.List, withLabel(label, sw))
	return done(label, blk)
}

func blank(e ast.Expr) bool { id, ok := e.(*ast.Ident); return ok && id.Name == "_" }

func (in *inst) rangeStmt(s *ast.RangeStmt, label *ast.Ident) ast.Stmt {
	switch {
	case in.isChan(s.X):
		r := in.name("r")
		a := define(r)
		a.Rhs = []ast.Expr{call(in.rt("R"), in.expr(s.X))}
		ok := in.name("ok")
		blk := &ast.BlockStmt{List: []ast.Stmt{a}}
		recv := call(sel(ast.NewIdent(r.Name), "Recv2"))
		var key ast.Expr = ast.NewIdent("_")
		if s.Key != nil {
			key = s.Key
		}
		var body []ast.Stmt
		switch {
		case blank(key) || s.Tok == token.DEFINE && in.per:
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{key, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}})
		case s.Tok == token.DEFINE:
			blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{key, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call(sel(ast.NewIdent(r.Name), "Zero"))}})
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{key, ast.NewIdent(ok.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{recv}})
		default:
			v := in.name("v")
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}})
			body = append(body, brk(ok))
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{in.expr(key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v.Name)}})
			in.block(s.Body)
			body = append(body, s.Body)
			blk.List = append(blk.List, withLabel(label, &ast.ForStmt{Body: &ast.BlockStmt{List: body}}))
			return done(label, blk)
		}
		body = append(body, brk(ok))
		in.block(s.Body)
		body = append(body, s.Body.List...)
		blk.List = append(blk.List, withLabel(label, &ast.ForStmt{Body: &ast.BlockStmt{List: body}}))
		return done(label, blk)
	case in.isMap(s.X) && s.Key != nil:
		// for k, v := range m  ->  for _, k := range MapKeys(m) { v, ok := m[k]; if !ok { continue } ... }
		m := in.name("m")
		a := define(m)
		a.Rhs = []ast.Expr{in.expr(s.X)}
		blk := &ast.BlockStmt{List: []ast.Stmt{a}}
		keys := call(in.rt("MapKeys"), ast.NewIdent(m.Name))
		k := in.name("k")
		v, ok := in.name("v"), in.name("ok")
		var body []ast.Stmt
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: ast.NewIdent(m.Name), Index: ast.NewIdent(k.Name)}}})
		body = append(body, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v.Name)}})
		lhs := []ast.Expr{s.Key}
		rhs := []ast.Expr{ast.NewIdent(k.Name)}
		if s.Value != nil {
			lhs = append(lhs, s.Value)
			rhs = append(rhs, ast.NewIdent(v.Name))
		}
		all := true
		for _, l := range lhs {
			all = all && blank(l)
		}
		if !all {
			if s.Tok == token.DEFINE && !in.per {
				// one variable for all iterations
				var decl []ast.Stmt
				var l2, r2 []ast.Expr
				for i, l := range lhs {
					if blank(l) {
						continue
					}
					z := "ZeroKey"
					if i == 1 {
						z = "ZeroVal"
					}
					d := define(ast.NewIdent(l.(*ast.Ident).Name))
					d.Rhs = []ast.Expr{call(in.rt(z), ast.NewIdent(m.Name))}
					decl = append(decl, d)
					l2 = append(l2, l)
					r2 = append(r2, rhs[i])
				}
				blk.List = append(blk.List, decl...)
				body = append(body, &ast.AssignStmt{Lhs: l2, Tok: token.ASSIGN, Rhs: r2})
			} else {
				if s.Tok != token.DEFINE {
					in.exprs(lhs)
				}
				body = append(body, &ast.AssignStmt{Lhs: lhs, Tok: s.Tok, Rhs: rhs})
			}
		}
		in.block(s.Body)
		body = append(body, s.Body.List...)
		blk.List = append(blk.List, withLabel(label, &ast.RangeStmt{Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE, X: keys, Body: &ast.BlockStmt{List: body}}))
		return done(label, blk)
	}
	s.Key, s.Value, s.X = in.expr(s.Key), in.expr(s.Value), in.expr(s.X)
	in.block(s.Body)
	return s
}

func brk(ok *ast.Ident) ast.Stmt {
	return &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
}

// ---------------------------------------------------------------- standard library

// stdOverlay gives package context virtual time and a scheduling point before every cancel and Err, and makes
// sync.Pool (used inside fmt and friends) free of cross-goroutine reuse, which would hide races.
func stdOverlay(overlay map[string]string) {
	root := filepath.Clean(runtime.GOROOT())
	if b, err := exec.Command("go", "env", "GOROOT").Output(); err == nil {
		root = strings.TrimSpace(string(b))
	}
	file := filepath.Join(root, "src/context/context.go")
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	s := string(b)
	sub := func(old, new string, min int) {
		if strings.Count(s, old) < min {
			die("%s: %q not found", file, old)
		}
		s = strings.ReplaceAll(s, old, new)
	}
	sub("go a.f()", "mcGo(a.f)", 1)
	sub("\tgo func() {\n\t\tselect {\n\t\tcase <-parent.Done():\n\t\t\tchild.cancel(false, parent.Err(), Cause(parent))\n\t\tcase <-child.Done():\n\t\t}\n\t}()",
		"\tmcGo(func() {\n\t\tif mcEither(parent.Done(), child.Done()) {\n\t\t\tchild.cancel(false, parent.Err(), Cause(parent))\n\t\t}\n\t})", 1)
	sub("time.AfterFunc(", "mcAfterFunc(", 1)
	sub("timer *time.Timer", "timer interface{ Stop() bool }", 1)
	sub("time.Until(", "mcUntil(", 1)
	sub("time.Now()", "mcNow()", 1)
	sub("func() { c.cancel(", "func() { mcPoint(); c.cancel(", 2)
	sub("func(cause error) { c.cancel(", "func(cause error) { mcPoint(); c.cancel(", 1)
	sub("func (c *cancelCtx) Err() error {\n", "func (c *cancelCtx) Err() error {\n\tmcPoint()\n", 1)
	s += `
// MCHooks is set by the controlled scheduler.
var MCHooks struct {
	On        func() bool
	Point     func()
	Go        func(func())
	Either    func(a, b <-chan struct{}) bool
	AfterFunc func(d time.Duration, f func()) interface{ Stop() bool }
	Now       func() time.Time
}

func mcOn() bool { return MCHooks.On != nil && MCHooks.On() }
func mcPoint() {
	if mcOn() {
		MCHooks.Point()
	}
}
func mcGo(f func()) {
	if mcOn() {
		MCHooks.Go(f)
		return
	}
	go f()
}
func mcEither(a, b <-chan struct{}) bool {
	if mcOn() {
		return MCHooks.Either(a, b)
	}
	select {
	case <-a:
		return true
	case <-b:
		return false
	}
}
func mcAfterFunc(d time.Duration, f func()) interface{ Stop() bool } {
	if mcOn() {
		return MCHooks.AfterFunc(d, f)
	}
	return time.AfterFunc(d, f)
}
func mcNow() time.Time {
	if mcOn() {
		return MCHooks.Now()
	}
	return time.Now()
}
func mcUntil(t time.Time) time.Duration { return t.Sub(mcNow()) }
`
	dst := filepath.Join(*out, "ov", "std_context.go")
	if err := os.WriteFile(dst, []byte(s), 0o644); err != nil {
		die("%v", err)
	}
	overlay[file] = dst

	pool := filepath.Join(root, "src/sync/pool.go")
	if _, err := os.Stat(pool); err != nil {
		die("%v", err)
	}
	dst = filepath.Join(*out, "ov", "std_pool.go")
	if err := os.WriteFile(dst, []byte(poolSrc), 0o644); err != nil {
		die("%v", err)
	}
	overlay[pool] = dst
}

const poolSrc = `package sync

// Pool never reuses anything here: reuse would order otherwise unordered goroutines for the race detector.
type Pool struct {
	noCopy noCopy
	New    func() any
}

func (p *Pool) Put(x any) {}
func (p *Pool) Get() any {
	if p.New != nil {
		return p.New()
	}
	return nil
}
`
