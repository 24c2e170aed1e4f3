// instr writes a copy of the code under test (and of the modules it depends on that use
// goroutines) in which every concurrency construct goes through package vsched.
//
//	instr -repo /repo -mc /verif/mc -out DIR [-procs=false]
//
// DIR/go.mod and DIR/go.sum then serve as -modfile for building the harness.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

type pkg struct {
	ImportPath, Name, Dir, Export string
	GoFiles                       []string
	Standard                      bool
	Module                        *struct{ Path, Version, Dir string }
}

var procs = flag.Bool("procs", true, "make the number of workers variable")
var notes []string

func note(f string, a ...interface{}) { notes = append(notes, fmt.Sprintf(f, a...)) }

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

const mod = "github.com/TopoSimplify/plugin"

func main() {
	repo := flag.String("repo", "/repo", "code under test")
	mc := flag.String("mc", "", "module of the checker")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	cmd := exec.Command("go", "list", "-f", "{{.Name}} {{.ImportPath}}", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	lst, err := cmd.Output()
	die(err)
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,GoFiles,Standard,Module"}
	for _, l := range strings.Fields(strings.ReplaceAll(string(lst), "main "+mod, "main -")) {
		if strings.HasPrefix(l, mod+"/") {
			args = append(args, l)
		}
	}
	cmd = exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	dat, err := cmd.Output()
	die(err)
	var ps []*pkg
	exports := map[string]string{}
	for d := json.NewDecoder(bytes.NewReader(dat)); ; {
		p := &pkg{}
		if err := d.Decode(p); err == io.EOF {
			break
		} else {
			die(err)
		}
		ps = append(ps, p)
		exports[p.ImportPath] = p.Export
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if exports[path] == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(exports[path])
	})
	// modules to copy: the one under test and the ones that use concurrency
	use := map[string]bool{}
	parsed := map[*pkg][]*ast.File{}
	for _, p := range ps {
		if p.Standard || p.Module == nil {
			continue
		}
		for _, f := range p.GoFiles {
			a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, 0)
			die(err)
			parsed[p] = append(parsed[p], a)
			if concurrent(a) {
				use[p.Module.Path] = true
			}
		}
	}
	use[mod] = true
	dirs := map[string]string{}
	for _, p := range ps {
		if p.Module == nil || !use[p.Module.Path] || p.Standard || p.Name == "main" {
			continue
		}
		m := p.Module
		if dirs[m.Path] == "" {
			dirs[m.Path] = filepath.Join(*out, strconv.Itoa(len(dirs)))
			gm, err := os.ReadFile(filepath.Join(m.Dir, "go.mod"))
			if err != nil {
				gm = []byte("module " + m.Path + "\n")
			}
			die(os.MkdirAll(dirs[m.Path], 0o755))
			die(os.WriteFile(filepath.Join(dirs[m.Path], "go.mod"), goVersion(gm), 0o644))
		}
		rel, err := filepath.Rel(m.Dir, p.Dir)
		die(err)
		dst := filepath.Join(dirs[m.Path], rel)
		die(os.MkdirAll(dst, 0o755))
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: imp, FakeImportC: true, Error: func(error) {}}
		if _, err := conf.Check(p.ImportPath, fset, parsed[p], info); err != nil {
			note("%s: %v", p.ImportPath, err)
		}
		for i, f := range parsed[p] {
			r := &rewriter{info: info, fset: fset, file: f}
			r.do()
			var b bytes.Buffer
			die((&printer.Config{Mode: printer.TabIndent | printer.UseSpaces, Tabwidth: 8}).Fprint(&b, token.NewFileSet(), f))
			die(os.WriteFile(filepath.Join(dst, p.GoFiles[i]), b.Bytes(), 0o644))
		}
	}
	gm, err := os.ReadFile(filepath.Join(*mc, "go.mod"))
	die(err)
	var lines []string
	for _, l := range strings.Split(string(gm), "\n") {
		if !strings.HasPrefix(l, "replace ") {
			lines = append(lines, l)
		}
	}
	var names []string
	for m := range dirs {
		names = append(names, m)
	}
	sort.Strings(names)
	for _, m := range names {
		lines = append(lines, fmt.Sprintf("replace %s => %s", m, dirs[m]))
	}
	die(os.WriteFile(filepath.Join(*out, "go.mod"), []byte(strings.Join(lines, "\n")+"\n"), 0o644))
	gs, err := os.ReadFile(filepath.Join(*mc, "go.sum"))
	die(err)
	die(os.WriteFile(filepath.Join(*out, "go.sum"), gs, 0o644))
	die(os.WriteFile(filepath.Join(*out, "notes.txt"), []byte(strings.Join(notes, "\n")), 0o644))
	fmt.Println("instrumented modules:", strings.Join(names, " "))
	for _, n := range notes {
		fmt.Println("note:", n)
	}
}

func goVersion(gm []byte) []byte {
	var r []string
	for _, l := range strings.Split(string(gm), "\n") {
		if strings.HasPrefix(l, "go ") || strings.HasPrefix(l, "toolchain ") {
			continue
		}
		r = append(r, l)
	}
	// 1.21: generics, but one loop variable per loop as in the original
	return []byte(strings.Join(append(r, "go 1.21", ""), "\n"))
}

func concurrent(f *ast.File) bool {
	for _, i := range f.Imports {
		if i.Path.Value == `"sync"` || i.Path.Value == `"sync/atomic"` {
			return true
		}
	}
	found := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.GoStmt, *ast.SelectStmt, *ast.ChanType, *ast.SendStmt:
			found = true
		}
		return !found
	})
	return found
}

// ---------------------------------------------------------------- rewriting

type rewriter struct {
	info *types.Info
	fset *token.FileSet
	file *ast.File
	used bool
	n    int
	skip map[ast.Node]bool
}

func (r *rewriter) name(s string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("zz%s%d", s, r.n))
}
func (r *rewriter) v(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("vsched"), Sel: ast.NewIdent(name)}
}
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }
func method(x ast.Expr, m string, a ...ast.Expr) *ast.CallExpr {
	switch x.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.CallExpr, *ast.IndexExpr, *ast.ParenExpr:
	default:
		x = &ast.ParenExpr{X: x}
	}
	return call(&ast.SelectorExpr{X: x, Sel: ast.NewIdent(m)}, a...)
}

func (r *rewriter) typ(e ast.Expr) types.Type {
	t := r.info.TypeOf(e)
	if t == nil {
		return nil
	}
	return t.Underlying()
}
func (r *rewriter) isChan(e ast.Expr) bool { _, ok := r.typ(e).(*types.Chan); return ok }
func (r *rewriter) isMap(e ast.Expr) bool  { _, ok := r.typ(e).(*types.Map); return ok }
func (r *rewriter) builtin(e ast.Expr) string {
	if id, ok := e.(*ast.Ident); ok {
		if _, ok := r.info.Uses[id].(*types.Builtin); ok {
			return id.Name
		}
	}
	return ""
}
func (r *rewriter) pkgOf(e ast.Expr) (string, string) {
	if s, ok := e.(*ast.SelectorExpr); ok {
		if o := r.info.Uses[s.Sel]; o != nil && o.Pkg() != nil {
			return o.Pkg().Path(), s.Sel.Name
		}
	}
	return "", ""
}

func (r *rewriter) do() {
	r.skip = map[ast.Node]bool{}
	r.walk(reflect.ValueOf(r.file))
	r.imports()
}

var exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
var stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
var nodeT = reflect.TypeOf((*ast.Node)(nil)).Elem()

// walk rewrites the children of a node (pointer to a syntax structure).
func (r *rewriter) walk(p reflect.Value) {
	if p.Kind() != reflect.Ptr || p.IsNil() || p.Elem().Kind() != reflect.Struct {
		return
	}
	r.before(p.Interface())
	st := p.Elem()
	for i := 0; i < st.NumField(); i++ {
		r.field(st.Field(i), p.Interface())
	}
}

func (r *rewriter) field(f reflect.Value, parent interface{}) {
	switch f.Kind() {
	case reflect.Interface:
		if f.IsNil() || !(f.Type() == exprT || f.Type() == stmtT || f.Type().Implements(nodeT)) {
			return
		}
		x := f.Interface()
		if r.skip[x.(ast.Node)] {
			return
		}
		switch f.Type() {
		case exprT:
			f.Set(reflect.ValueOf(r.expr(x.(ast.Expr))))
		case stmtT:
			f.Set(reflect.ValueOf(r.stmt(x.(ast.Stmt))))
		default:
			r.walk(f.Elem())
		}
	case reflect.Slice:
		for i := 0; i < f.Len(); i++ {
			r.field(f.Index(i), parent)
		}
	case reflect.Ptr:
		if f.IsNil() {
			return
		}
		if c, ok := f.Interface().(*ast.CallExpr); ok { // of a defer statement
			if n, ok := r.expr(c).(*ast.CallExpr); ok {
				f.Set(reflect.ValueOf(n))
				return
			}
		}
		if f.Type().Implements(nodeT) {
			r.walk(f)
		}
	}
}

// before: decisions that need the parent.
func (r *rewriter) before(n interface{}) {
	switch x := n.(type) {
	case *ast.GenDecl:
		if x.Tok == token.CONST {
			for _, s := range x.Specs {
				for _, v := range s.(*ast.ValueSpec).Values {
					r.skip[v] = true
				}
			}
		}
	case *ast.ArrayType:
		if x.Len != nil {
			r.skip[x.Len] = true
		}
	case *ast.File:
		for _, i := range x.Imports {
			r.skip[i] = true
		}
	}
}

func recvOf(e ast.Expr) *ast.UnaryExpr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ChanType:
		r.walk(reflect.ValueOf(x))
		return &ast.StarExpr{X: &ast.IndexExpr{X: r.v("Chan"), Index: x.Value}}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return method(r.expr(x.X), "Recv")
		}
	case *ast.Ident:
		if *procs {
			if c, ok := r.info.Uses[x].(*types.Const); ok && c.Name() == "ConcurProcs" && c.Pkg() != nil && c.Parent() == c.Pkg().Scope() {
				return call(r.v("Procs"), x)
			}
		}
		return x
	case *ast.SelectorExpr:
		switch p, n := r.pkgOf(x); p {
		case "sync":
			switch n {
			case "WaitGroup", "Mutex", "RWMutex", "Once", "Cond", "NewCond", "Locker":
				if r.info.Selections[x] == nil {
					return r.v(n)
				}
			default:
				if r.info.Selections[x] == nil {
					note("%s: sync.%s is not modelled", r.fset.Position(x.Pos()), n)
				}
			}
		default:
			if *procs {
				if c, ok := r.info.Uses[x.Sel].(*types.Const); ok && c.Name() == "ConcurProcs" && r.info.Selections[x] == nil {
					return call(r.v("Procs"), x)
				}
			}
		}
		x.X = r.expr(x.X)
		return x
	case *ast.CallExpr:
		switch b := r.builtin(x.Fun); b {
		case "make":
			if len(x.Args) > 0 && r.isChan(x.Args[0]) {
				ct, ok := x.Args[0].(*ast.ChanType)
				if !ok {
					note("%s: make of a named channel type", r.fset.Position(x.Pos()))
					break
				}
				t := r.expr(ct.Value)
				var n []ast.Expr
				for _, a := range x.Args[1:] {
					n = append(n, r.expr(a))
				}
				return call(&ast.IndexExpr{X: r.v("MakeChan"), Index: t}, n...)
			}
		case "close":
			return method(r.expr(x.Args[0]), "Close")
		case "len", "cap":
			if r.isChan(x.Args[0]) {
				return method(r.expr(x.Args[0]), strings.ToUpper(b[:1])+b[1:])
			}
		}
		switch p, n := r.pkgOf(x.Fun); {
		case p == "sync/atomic":
			r.walk(reflect.ValueOf(x))
			x.Fun = call(r.v("P"), x.Fun)
			return x
		case p == "time" && n == "Sleep", p == "runtime" && n == "Gosched":
			return call(r.v("Point"))
		}
	}
	r.walk(reflect.ValueOf(e))
	return e
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.SendStmt:
		return &ast.ExprStmt{X: method(r.expr(x.Chan), "Send", r.expr(x.Value))}
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u := recvOf(x.Rhs[0]); u != nil {
				x.Rhs[0] = method(r.expr(u.X), "Recv2")
				r.skip[x.Rhs[0]] = true
			}
		}
	case *ast.DeclStmt:
		for _, sp := range x.Decl.(*ast.GenDecl).Specs {
			if v, ok := sp.(*ast.ValueSpec); ok && len(v.Names) == 2 && len(v.Values) == 1 {
				if u := recvOf(v.Values[0]); u != nil {
					v.Values[0] = method(r.expr(u.X), "Recv2")
					r.skip[v.Values[0]] = true
				}
			}
		}
	case *ast.GoStmt:
		c := x.Call
		if f, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && len(f.Type.Params.List) == 0 && f.Type.Results == nil {
			return &ast.ExprStmt{X: call(r.v("Go"), r.expr(f))}
		}
		b := &ast.BlockStmt{}
		d := &ast.CallExpr{Ellipsis: c.Ellipsis}
		bind := func(e ast.Expr, s string) ast.Expr {
			tv := r.info.Types[e]
			if tv.Value != nil || tv.IsNil() {
				return r.expr(e)
			}
			if id, ok := e.(*ast.Ident); ok {
				if _, ok := r.info.Uses[id].(*types.Func); ok {
					return e
				}
			}
			n := r.name(s)
			b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{n}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(e)}})
			return n
		}
		if r.builtin(c.Fun) != "" {
			d.Fun = c.Fun
		} else {
			d.Fun = bind(c.Fun, "f")
		}
		for _, a := range c.Args {
			d.Args = append(d.Args, bind(a, "a"))
		}
		var run ast.Expr = d
		if r.builtin(c.Fun) == "close" {
			run = method(d.Args[0], "Close")
		}
		b.List = append(b.List, &ast.ExprStmt{X: call(r.v("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: run}}}})})
		return b
	case *ast.RangeStmt:
		switch {
		case r.isChan(x.X):
			ch, ok, tmp := r.name("c"), r.name("ok"), ast.Expr(r.name("v"))
			body := r.stmt(x.Body).(*ast.BlockStmt)
			init := assign(token.DEFINE, []ast.Expr{ch}, r.expr(x.X))
			var head []ast.Stmt
			if blank(x.Key) {
				tmp = ast.NewIdent("_")
			} else {
				if x.Tok == token.DEFINE {
					// one variable for the whole loop, as in the original
					init = assign(token.DEFINE, []ast.Expr{ch, x.Key}, call(r.v("Begin"), init.Rhs[0]))
				}
				head = append(head, assign(token.ASSIGN, []ast.Expr{r.expr(x.Key)}, tmp))
			}
			head = append([]ast.Stmt{assign(token.DEFINE, []ast.Expr{tmp, ok}, method(ch, "Recv2")), unless(ok, token.BREAK)}, head...)
			body.List = append(head, body.List...)
			return &ast.ForStmt{Init: init, Body: body}
		case r.isMap(x.X):
			l, i, ok, tmp := r.name("l"), r.name("i"), r.name("ok"), ast.Expr(r.name("v"))
			body := r.stmt(x.Body).(*ast.BlockStmt)
			kb, vb := ast.Expr(ast.NewIdent("_")), ast.Expr(ast.NewIdent("_"))
			at := &ast.IndexExpr{X: l, Index: i}
			var head []ast.Stmt
			if !blank(x.Key) {
				kb = x.Key
				head = append(head, assign(token.ASSIGN, []ast.Expr{r.expr(x.Key)}, &ast.SelectorExpr{X: at, Sel: ast.NewIdent("K")}))
			}
			if !blank(x.Value) {
				vb = x.Value
				head = append(head, assign(token.ASSIGN, []ast.Expr{r.expr(x.Value)}, tmp))
			} else {
				tmp = ast.NewIdent("_")
			}
			if x.Tok != token.DEFINE {
				kb, vb = ast.NewIdent("_"), ast.NewIdent("_")
			}
			head = append([]ast.Stmt{assign(token.DEFINE, []ast.Expr{tmp, ok}, method(at, "Get")), unless(ok, token.CONTINUE)}, head...)
			body.List = append(head, body.List...)
			return &ast.ForStmt{Init: assign(token.DEFINE, []ast.Expr{l, i, kb, vb}, call(r.v("Iter"), r.expr(x.X))),
				Cond: &ast.BinaryExpr{X: i, Op: token.LSS, Y: call(ast.NewIdent("len"), l)},
				Post: &ast.IncDecStmt{X: i, Tok: token.INC}, Body: body}
		}
	case *ast.SelectStmt:
		sel := r.name("s")
		dflt := "false"
		args := []ast.Expr{nil}
		sw := &ast.SwitchStmt{Tag: &ast.SelectorExpr{X: sel, Sel: ast.NewIdent("K")}, Body: &ast.BlockStmt{}}
		k := 0
		for _, cc := range x.Body.List {
			c := cc.(*ast.CommClause)
			cl := &ast.CaseClause{}
			var head []ast.Stmt
			if c.Comm == nil {
				dflt = "true"
				cl.List = []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: lit(1)}}
			} else {
				cl.List = []ast.Expr{lit(k)}
				k++
				recv := func(u *ast.UnaryExpr) ast.Expr {
					ch := r.expr(u.X)
					args = append(args, method(ch, "RecvCase"))
					return call(r.v("Value"), sel, ch)
				}
				switch m := c.Comm.(type) {
				case *ast.SendStmt:
					args = append(args, method(r.expr(m.Chan), "SendCase", r.expr(m.Value)))
				case *ast.ExprStmt:
					recv(recvOf(m.X))
				case *ast.AssignStmt:
					v := recv(recvOf(m.Rhs[0]))
					a := &ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: []ast.Expr{v}}
					if len(m.Lhs) == 2 {
						a.Rhs = append(a.Rhs, &ast.SelectorExpr{X: sel, Sel: ast.NewIdent("Ok")})
					}
					head = append(head, a)
				}
			}
			for _, b := range c.Body {
				head = append(head, r.stmt(b))
			}
			cl.Body = head
			sw.Body.List = append(sw.Body.List, cl)
		}
		args[0] = ast.NewIdent(dflt)
		sw.Init = &ast.AssignStmt{Lhs: []ast.Expr{sel}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.v("Select"), args...)}}
		return sw
	}
	r.walk(reflect.ValueOf(s))
	return s
}

func assign(tok token.Token, l []ast.Expr, r ...ast.Expr) *ast.AssignStmt {
	return &ast.AssignStmt{Lhs: l, Tok: tok, Rhs: r}
}
func unless(ok ast.Expr, tok token.Token) ast.Stmt {
	return &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: tok}}}}
}
func blank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return e == nil || ok && id.Name == "_"
}
func lit(i int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)} }

// imports adds vsched and drops imports that are no longer used.
func (r *rewriter) imports() {
	used := map[string]bool{}
	ast.Inspect(r.file, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				used[id.Name] = true
			}
		}
		return true
	})
	for _, i := range r.file.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		if (p == "sync" || p == "time" || p == "runtime") && (i.Name == nil || i.Name.Name != "_" && i.Name.Name != ".") {
			n := p
			if i.Name != nil {
				n = i.Name.Name
			}
			if !used[n] {
				i.Name = ast.NewIdent("_")
			}
		}
	}
	if r.used {
		d := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: `"verifmc/vsched"`}}}}
		r.file.Decls = append([]ast.Decl{d}, r.file.Decls...)
	}
}
