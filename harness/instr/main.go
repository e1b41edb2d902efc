// instr writes instrumented copies of the non-test Go files of a source tree
// and a go build overlay that puts them in place: package sync becomes
// vharness/vsync and sync/atomic becomes vharness/vatomic, and every go
// statement becomes a thread of its scheduler.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func die(f string, a ...any) { fmt.Fprintf(os.Stderr, f+"\n", a...); os.Exit(2) }

func main() {
	src, out := os.Args[1], os.Args[2]
	repl := map[string]string{}
	var paths []string
	_ = filepath.WalkDir(src, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			die("%v", err)
		}
		if d.IsDir() {
			n := d.Name()
			if p != src && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		paths = append(paths, p)
		return nil
	})
	parse(paths)
	for _, p := range paths {
		b, changed := rewrite(p)
		if !changed {
			continue
		}
		rel, _ := filepath.Rel(src, p)
		q := filepath.Join(out, strings.ReplaceAll(rel, string(filepath.Separator), "__"))
		if err := os.WriteFile(q, b, 0o644); err != nil {
			die("%v", err)
		}
		repl[p] = q
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644); err != nil {
		die("%v", err)
	}
	fmt.Println(len(repl), "files instrumented")
}

var (
	fs    = token.NewFileSet()
	files = map[string]*ast.File{}
	info  = types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	chans = true // whether channel operations are rewritten
)

type nowhere struct{}

func (nowhere) Import(string) (*types.Package, error) { return nil, errors.New("not looked at") }

// parse reads the files and finds out which expressions are channels.  Types of
// other packages stay unknown: no channel of theirs is needed.
func parse(paths []string) {
	dirs := map[string][]*ast.File{}
	for _, p := range paths {
		f, err := parser.ParseFile(fs, p, nil, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		files[p] = f
		dirs[filepath.Dir(p)] = append(dirs[filepath.Dir(p)], f)
		for _, im := range f.Imports {
			q, _ := strconv.Unquote(im.Path.Value)
			switch q {
			case "context", "os/signal", "net", "net/http", "os/exec":
				chans = false // channels that others operate on
			}
		}
		ast.Inspect(f, func(x ast.Node) bool {
			if s, ok := x.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok && id.Name == "time" {
					switch s.Sel.Name {
					case "After", "AfterFunc", "NewTimer", "Tick", "NewTicker":
						chans = false
					}
				}
			}
			return true
		})
	}
	conf := types.Config{Importer: nowhere{}, Error: func(error) {}, FakeImportC: true}
	for d, l := range dirs {
		_, _ = conf.Check(d, fs, l, &info)
	}
}

func isChan(x ast.Expr) bool {
	t := info.Types[x].Type
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func vcall(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vsync__"), Sel: ast.NewIdent(name)}, Args: args}
}

// recv is the channel of a receive operation, or nil.
func recv(x ast.Expr) ast.Expr {
	for {
		p, ok := x.(*ast.ParenExpr)
		if !ok {
			break
		}
		x = p.X
	}
	if u, ok := x.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u.X
	}
	return nil
}

func short(names []ast.Expr, tok token.Token, vals ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: names, Tok: tok, Rhs: vals}
}

// commStmt rewrites a channel statement, or returns nil.
func commStmt(st ast.Stmt, label *ast.Ident, n *int) ast.Stmt {
	switch x := st.(type) {
	case *ast.SendStmt:
		*n++
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: vcall("Send", x.Chan), Args: []ast.Expr{x.Value}}}
	case *ast.RangeStmt:
		if !isChan(x.X) {
			return nil
		}
		*n++
		c, ok := ast.NewIdent(fmt.Sprintf("vc%d__", *n)), ast.NewIdent(fmt.Sprintf("vo%d__", *n))
		key := x.Key
		if key == nil {
			key = ast.NewIdent("_")
		}
		var head []ast.Stmt
		if x.Tok == token.ASSIGN {
			head = append(head, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ok}, Type: ast.NewIdent("bool")}}}},
				short([]ast.Expr{key, ok}, token.ASSIGN, vcall("Recv2", c)))
		} else {
			head = append(head, short([]ast.Expr{key, ok}, token.DEFINE, vcall("Recv2", c)))
		}
		head = append(head, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
		return &ast.ForStmt{Init: short([]ast.Expr{c}, token.DEFINE, x.X), Body: &ast.BlockStmt{List: append(head, x.Body.List...)}}
	case *ast.SelectStmt:
		*n++
		var decls []ast.Stmt
		def := "false"
		sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
		args := []ast.Expr{nil}
		for i, cl := range x.Body.List {
			cc := cl.(*ast.CommClause)
			if cc.Comm == nil {
				def = "true"
				sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: cc.Body})
				continue
			}
			v := ast.NewIdent(fmt.Sprintf("vs%d_%d__", *n, i))
			body := cc.Body
			switch s := cc.Comm.(type) {
			case *ast.SendStmt:
				decls = append(decls, short([]ast.Expr{v}, token.DEFINE, &ast.CallExpr{Fun: vcall("SCase", s.Chan), Args: []ast.Expr{s.Value}}))
			case *ast.ExprStmt:
				decls = append(decls, short([]ast.Expr{v}, token.DEFINE, vcall("RCase", recv(s.X))))
			case *ast.AssignStmt:
				decls = append(decls, short([]ast.Expr{v}, token.DEFINE, vcall("RCase", recv(s.Rhs[0]))))
				vals := []ast.Expr{&ast.SelectorExpr{X: v, Sel: ast.NewIdent("V")}, &ast.SelectorExpr{X: v, Sel: ast.NewIdent("OK")}}
				body = append([]ast.Stmt{short(s.Lhs, s.Tok, vals[:len(s.Lhs)]...)}, body...)
			}
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(args) - 1)}}, Body: body})
			args = append(args, v)
		}
		args[0] = ast.NewIdent(def)
		sw.Tag = vcall("Select", args...)
		if def == "false" {
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"),
				Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}}})
		}
		var last ast.Stmt = sw
		if label != nil {
			last = &ast.LabeledStmt{Label: label, Stmt: sw}
		}
		return &ast.BlockStmt{List: append(decls, last)}
	}
	return nil
}

// recvs rewrites the receive operations and close calls that are left.
func recvs(f *ast.File) (n int) {
	ast.Inspect(f, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.ExprStmt:
			if c := recv(x.X); c != nil {
				x.X = vcall("Recv", c)
				n++
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if c := recv(x.Rhs[0]); c != nil {
					x.Rhs[0] = vcall("Recv2", c)
					n++
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if c := recv(x.Values[0]); c != nil {
					x.Values[0] = vcall("Recv2", c)
					n++
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				x.Op, x.X = token.MUL, vcall("RecvP", x.X)
				n++
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && len(x.Args) == 1 {
				if _, ok := info.Uses[id].(*types.Builtin); ok {
					x.Fun = &ast.SelectorExpr{X: ast.NewIdent("vsync__"), Sel: ast.NewIdent("Close")}
					n++
				}
			}
		}
		return true
	})
	return n
}

func rewrite(path string) ([]byte, bool) {
	f := files[path]
	changed := false
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		var to, name string
		switch p {
		case "sync":
			to, name = "vharness/vsync", "sync"
		case "sync/atomic":
			to, name = "vharness/vatomic", "atomic"
		default:
			continue
		}
		im.Path.Value = strconv.Quote(to)
		if im.Name == nil {
			im.Name = ast.NewIdent(name)
		}
		changed = true
	}
	keep := map[string]ast.Expr{}
	n := spins(f, keep)
	var list func(l []ast.Stmt)
	list = func(l []ast.Stmt) {
		for i, st := range l {
			if chans {
				if ls, ok := st.(*ast.LabeledStmt); ok {
					if _, sel := ls.Stmt.(*ast.SelectStmt); sel {
						l[i] = commStmt(ls.Stmt, ls.Label, &n)
						continue
					}
					if r := commStmt(ls.Stmt, nil, &n); r != nil {
						ls.Stmt = r
						continue
					}
				} else if r := commStmt(st, nil, &n); r != nil {
					l[i] = r
					continue
				}
			}
			g, ok := st.(*ast.GoStmt)
			if !ok {
				if ls, ok := st.(*ast.LabeledStmt); ok {
					if g2, ok := ls.Stmt.(*ast.GoStmt); ok {
						ls.Stmt = goBlock(g2, n)
						n++
					}
				}
				continue
			}
			l[i] = goBlock(g, n)
			n++
		}
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch b := x.(type) {
		case *ast.BlockStmt:
			list(b.List)
		case *ast.CaseClause:
			list(b.Body)
		case *ast.CommClause:
			list(b.Body)
		}
		return true
	})
	if chans {
		n += recvs(f)
	}
	if n > 0 {
		changed = true
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
			Name: ast.NewIdent("vsync__"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"vharness/vsync"`}}}}}, f.Decls...)
		for _, x := range keep { // the import stays in use
			f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{x}}}})
		}
	}
	var buf bytes.Buffer
	// comments are dropped: they could be displaced into the rewritten code
	for _, c := range f.Comments {
		for _, l := range c.List {
			if c.Pos() < f.Package && strings.HasPrefix(l.Text, "//go:build") {
				buf.WriteString(l.Text + "\n\n")
			}
		}
	}
	f.Comments = nil
	if err := printer.Fprint(&buf, fs, f); err != nil {
		die("%v", err)
	}
	return buf.Bytes(), changed
}

// spins replaces runtime.Gosched and time.Sleep.
func spins(f *ast.File, keep map[string]ast.Expr) int {
	to := map[string]string{}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		what := map[string]string{"runtime": "Gosched", "time": "Sleep"}[p]
		name := p
		if im.Name != nil {
			name = im.Name.Name
		}
		if what != "" && name != "." && name != "_" {
			to[name] = what
		}
	}
	n := 0
	ast.Inspect(f, func(x ast.Node) bool {
		s, ok := x.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := s.X.(*ast.Ident)
		if ok && id.Obj == nil && to[id.Name] == s.Sel.Name {
			keep[id.Name] = &ast.SelectorExpr{X: ast.NewIdent(id.Name), Sel: ast.NewIdent(s.Sel.Name)}
			s.X = ast.NewIdent("vsync__")
			n++
		}
		return true
	})
	return n
}

// goBlock: { v := func; a := args...; vsync__.Go(func() { v(a...) }) }
func goBlock(g *ast.GoStmt, n int) ast.Stmt {
	call := g.Call
	var stmts []ast.Stmt
	def := func(name string, typ ast.Expr, v ast.Expr) {
		spec := &ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent(name)}, Type: typ, Values: []ast.Expr{v}}
		stmts = append(stmts, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{spec}}})
	}
	var types []ast.Expr
	lit, isLit := call.Fun.(*ast.FuncLit)
	if isLit {
		for _, p := range lit.Type.Params.List {
			k := len(p.Names)
			if k == 0 {
				k = 1
			}
			for i := 0; i < k; i++ {
				types = append(types, p.Type)
			}
		}
	}
	fn := fmt.Sprintf("vf%d__", n)
	def(fn, nil, call.Fun)
	inner := &ast.CallExpr{Fun: ast.NewIdent(fn), Ellipsis: call.Ellipsis}
	for i, a := range call.Args {
		an := fmt.Sprintf("va%d_%d__", n, i)
		var t ast.Expr
		if isLit && i < len(types) {
			if _, variadic := types[i].(*ast.Ellipsis); !variadic {
				t = types[i]
			}
		}
		def(an, t, a)
		inner.Args = append(inner.Args, ast.NewIdent(an))
	}
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
	stmts = append(stmts, &ast.ExprStmt{X: &ast.CallExpr{
		Fun:  &ast.SelectorExpr{X: ast.NewIdent("vsync__"), Sel: ast.NewIdent("Go")},
		Args: []ast.Expr{body}}})
	return &ast.BlockStmt{List: stmts}
}
