// Command rewrite edits every function of a module in a way that keeps what it does. The checks have to stay quiet on
// the result: it tries out whether they judge behaviour or form. No check uses it.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

type rewriter struct {
	info *types.Info
	pkg  *types.Package
	n    int
	file *ast.File
}

func (r *rewriter) name(s string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("%s%d", s, r.n))
}

var transforms = map[string]func(r *rewriter, f *ast.File){
	"condvar": condvar, "invert": invert, "else": elseAfterReturn, "rangeindex": rangeIndex, "rangemap": rangeMap,
	"switchif": switchIf, "caseclosure": caseClosure, "wrap": wrap, "named": named, "defer": deferClosure, "noop": noop,
	"demorgan": deMorgan, "forbreak": forBreak, "literal": literal, "commaok": commaOk, "callvar": callVar,
	"bodyhelper": bodyHelper, "ifinit": ifInit, "varlift": varLift, "deadstore": deadStore, "rangekeys": rangeKeys,
}

func main() {
	dir := flag.String("dir", "", "the module to edit")
	ts := flag.String("t", "", "transformations")
	flag.Parse()
	if *ts == "" {
		var l []string
		for k := range transforms {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, " "))
		return
	}
	for _, t := range strings.Split(*ts, ",") {
		run(*dir, t)
	}
}

func run(dir, t string) {
	fset := token.NewFileSet()
	ps, err := packages.Load(&packages.Config{Mode: packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedFiles | packages.NeedName | packages.NeedImports | packages.NeedDeps,
		Dir: dir, Fset: fset, Env: append(os.Environ(), "GOFLAGS=-mod=mod"),
		ParseFile: func(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
			return parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
		}}, "./...")
	if err != nil {
		panic(err)
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			panic(e)
		}
		for i, f := range p.Syntax {
			name := p.GoFiles[i]
			if strings.HasSuffix(name, "_test.go") || strings.Contains(name, "/tests/") {
				continue
			}
			r := &rewriter{info: p.TypesInfo, pkg: p.Types, file: f}
			transforms[t](r, f)
			var b bytes.Buffer
			if err := format.Node(&b, token.NewFileSet(), f); err != nil {
				panic(err)
			}
			if err := os.WriteFile(name, b.Bytes(), 0o644); err != nil {
				panic(err)
			}
		}
	}
}

func not(x ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x}} }

func define(l []ast.Expr, r ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: r}
}

func set(l []ast.Expr, r ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: l, Tok: token.ASSIGN, Rhs: r}
}

// lists calls f with every list of statements.
func lists(file *ast.File, f func(l []ast.Stmt) []ast.Stmt) {
	ast.Inspect(file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			x.List = f(x.List)
		case *ast.CaseClause:
			x.Body = f(x.Body)
		}
		return true
	})
}

// condvar: the condition of an if statement becomes a variable.
func condvar(r *rewriter, file *ast.File) {
	lists(file, func(l []ast.Stmt) (o []ast.Stmt) {
		for _, s := range l {
			if i, ok := s.(*ast.IfStmt); ok && i.Init == nil {
				v := r.name("cond")
				o = append(o, define([]ast.Expr{v}, i.Cond))
				i.Cond = v
			}
			o = append(o, s)
		}
		return
	})
}

// ifInit: the condition becomes a variable of the if statement.
func ifInit(r *rewriter, file *ast.File) {
	ast.Inspect(file, func(n ast.Node) bool {
		if i, ok := n.(*ast.IfStmt); ok && i.Init == nil {
			v := r.name("holds")
			i.Init = define([]ast.Expr{v}, i.Cond)
			i.Cond = v
		}
		return true
	})
}

// invert: an if with an else has its branches exchanged; one without gets an empty branch.
func invert(r *rewriter, file *ast.File) {
	ast.Inspect(file, func(n ast.Node) bool {
		i, ok := n.(*ast.IfStmt)
		if !ok {
			return true
		}
		var el *ast.BlockStmt
		switch e := i.Else.(type) {
		case nil:
			return true
		case *ast.BlockStmt:
			el = e
		default:
			el = &ast.BlockStmt{List: []ast.Stmt{e}}
		}
		i.Cond = not(i.Cond)
		i.Body, i.Else = el, i.Body
		return true
	})
}

func ends(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch x := l[len(l)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return x.Tok == token.CONTINUE
	}
	return false
}

// elseAfterReturn: what follows an if that returns becomes its else, with the condition turned round.
func elseAfterReturn(r *rewriter, file *ast.File) {
	lists(file, func(l []ast.Stmt) []ast.Stmt {
		for k, s := range l {
			i, ok := s.(*ast.IfStmt)
			if !ok || i.Else != nil || !ends(i.Body.List) || k+1 == len(l) {
				continue
			}
			rest := append([]ast.Stmt(nil), l[k+1:]...)
			i.Cond = not(i.Cond)
			i.Else = i.Body
			i.Body = &ast.BlockStmt{List: rest}
			return append(l[:k:k], i)
		}
		return l
	})
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if t := r.info.TypeOf(e); t != nil {
		return t
	}
	return nil
}

// rangeIndex: a range over a slice becomes a counting loop.
func rangeIndex(r *rewriter, file *ast.File) {
	astutil.Apply(file, nil, func(c *astutil.Cursor) bool {
		x, ok := c.Node().(*ast.RangeStmt)
		if !ok {
			return true
		}
		t := r.typeOf(x.X)
		if t == nil || x.Tok == token.ASSIGN {
			return true
		}
		if _, ok := t.Underlying().(*types.Slice); !ok {
			return true
		}
		i, l := r.name("i"), r.name("list")
		var pre []ast.Stmt
		if id, ok := x.Key.(*ast.Ident); ok && id.Name != "_" {
			pre = append(pre, define([]ast.Expr{id}, i))
		}
		if id, ok := x.Value.(*ast.Ident); ok && id.Name != "_" {
			pre = append(pre, define([]ast.Expr{id}, &ast.IndexExpr{X: l, Index: i}))
		}
		c.Replace(&ast.ForStmt{
			Init: define([]ast.Expr{i, l}, &ast.BasicLit{Kind: token.INT, Value: "0"}, x.X),
			Cond: &ast.BinaryExpr{X: i, Op: token.LSS, Y: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{l}}},
			Post: &ast.IncDecStmt{X: i, Tok: token.INC},
			Body: &ast.BlockStmt{List: append(pre, x.Body.List...)},
		})
		return true
	})
}

// rangeMap: a range over a map looks its values up.
func rangeMap(r *rewriter, file *ast.File) {
	ast.Inspect(file, func(n ast.Node) bool {
		x, ok := n.(*ast.RangeStmt)
		if !ok || x.Value == nil || x.Tok != token.DEFINE {
			return true
		}
		t := r.typeOf(x.X)
		if t == nil {
			return true
		}
		if _, ok := t.Underlying().(*types.Map); !ok {
			return true
		}
		k, _ := x.Key.(*ast.Ident)
		v, _ := x.Value.(*ast.Ident)
		if k == nil || v == nil || v.Name == "_" {
			return true
		}
		switch x.X.(type) {
		case *ast.Ident, *ast.SelectorExpr:
		default:
			return true
		}
		if k.Name == "_" {
			k = r.name("key")
		}
		x.Key, x.Value = k, nil
		x.Body.List = append([]ast.Stmt{define([]ast.Expr{v}, &ast.IndexExpr{X: x.X, Index: k})}, x.Body.List...)
		return true
	})
}

// rangeKeys: the keys of a map are collected before the loop over them (the loop must not add entries).
func rangeKeys(r *rewriter, file *ast.File) {
	var decl *ast.FuncDecl
	astutil.Apply(file, func(c *astutil.Cursor) bool {
		if f, ok := c.Node().(*ast.FuncDecl); ok {
			decl = f
		}
		return true
	}, func(c *astutil.Cursor) bool {
		x, ok := c.Node().(*ast.RangeStmt)
		if !ok || x.Tok != token.DEFINE || decl == nil {
			return true
		}
		t := r.typeOf(x.X)
		if t == nil {
			return true
		}
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			return true
		}
		k, _ := x.Key.(*ast.Ident)
		v, _ := x.Value.(*ast.Ident)
		b, ok := m.Key().(*types.Basic)
		if k == nil || !ok {
			return true
		}
		if k.Name == "_" {
			k = r.name("key")
		}
		src, keys := r.name("source"), r.name("keys")
		body := x.Body.List
		if v != nil && v.Name != "_" {
			body = append([]ast.Stmt{define([]ast.Expr{v}, &ast.IndexExpr{X: src, Index: k})}, body...)
		}
		ki := r.name("k")
		c.Replace(&ast.BlockStmt{List: []ast.Stmt{
			define([]ast.Expr{src}, x.X),
			define([]ast.Expr{keys}, &ast.CallExpr{Fun: ast.NewIdent("make"), Args: []ast.Expr{&ast.ArrayType{Elt: ast.NewIdent(b.Name())}, &ast.BasicLit{Kind: token.INT, Value: "0"}, &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{src}}}}),
			&ast.RangeStmt{Key: ki, Tok: token.DEFINE, X: src, Body: &ast.BlockStmt{List: []ast.Stmt{set([]ast.Expr{keys}, &ast.CallExpr{Fun: ast.NewIdent("append"), Args: []ast.Expr{keys, ki}})}}},
			&ast.RangeStmt{Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE, X: keys, Body: &ast.BlockStmt{List: body}},
		}})
		return true
	})
}

func hasBranch(l []ast.Stmt) bool {
	found := false
	for _, s := range l {
		ast.Inspect(s, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit, *ast.ForStmt, *ast.RangeStmt, *ast.SelectStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
				return false
			case *ast.BranchStmt:
				found = found || x.Tok == token.BREAK || x.Tok == token.FALLTHROUGH
			}
			return true
		})
	}
	return found
}

// switchIf: a switch becomes a chain of ifs.
func switchIf(r *rewriter, file *ast.File) {
	astutil.Apply(file, nil, func(c *astutil.Cursor) bool {
		x, ok := c.Node().(*ast.SwitchStmt)
		if !ok || x.Init != nil {
			return true
		}
		var tag *ast.Ident
		var head ast.Stmt
		if x.Tag != nil {
			tag = r.name("tag")
			head = define([]ast.Expr{tag}, x.Tag)
		}
		var first, last *ast.IfStmt
		var def []ast.Stmt
		hasDef := false
		for _, s := range x.Body.List {
			cc := s.(*ast.CaseClause)
			if hasBranch(cc.Body) {
				return true
			}
			if cc.List == nil {
				def, hasDef = cc.Body, true
				continue
			}
			var cond ast.Expr
			for _, e := range cc.List {
				var one ast.Expr = &ast.ParenExpr{X: e}
				if tag != nil {
					one = &ast.BinaryExpr{X: tag, Op: token.EQL, Y: e}
				}
				if cond == nil {
					cond = one
				} else {
					cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: one}
				}
			}
			i := &ast.IfStmt{Cond: cond, Body: &ast.BlockStmt{List: cc.Body}}
			if first == nil {
				first = i
			} else {
				last.Else = i
			}
			last = i
		}
		if first == nil {
			return true
		}
		if hasDef {
			last.Else = &ast.BlockStmt{List: def}
		}
		if head != nil {
			c.Replace(&ast.BlockStmt{List: []ast.Stmt{head, first}})
		} else {
			c.Replace(first)
		}
		return true
	})
}

// resultTypes gives the result types of a function as written.
func resultTypes(t *ast.FuncType) (l []ast.Expr, named bool) {
	if t.Results == nil {
		return
	}
	for _, f := range t.Results.List {
		n := len(f.Names)
		if n > 0 {
			named = true
		} else {
			n = 1
		}
		for i := 0; i < n; i++ {
			l = append(l, f.Type)
		}
	}
	return
}

// caseClosure: a case that ends with a return runs in a function of its own.
func caseClosure(r *rewriter, file *ast.File) {
	for _, d := range file.Decls {
		f, ok := d.(*ast.FuncDecl)
		if !ok || f.Body == nil {
			continue
		}
		res, nm := resultTypes(f.Type)
		if nm {
			continue
		}
		ast.Inspect(f.Body, func(n ast.Node) bool {
			if _, ok := n.(*ast.FuncLit); ok {
				return false
			}
			cc, ok := n.(*ast.CaseClause)
			if !ok || !endsWithReturn(cc.Body) || outward(cc.Body) || len(res) == 0 {
				return true
			}
			var fl []*ast.Field
			for _, t := range res {
				fl = append(fl, &ast.Field{Type: t})
			}
			fn := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: fl}}, Body: &ast.BlockStmt{List: cc.Body}}
			cc.Body = []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{&ast.CallExpr{Fun: fn}}}}
			return false
		})
	}
}

func endsWithReturn(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	_, ok := l[len(l)-1].(*ast.ReturnStmt)
	return ok
}

func outward(l []ast.Stmt) bool {
	found := false
	for _, s := range l {
		ast.Inspect(s, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit, *ast.ForStmt, *ast.RangeStmt:
				return false
			case *ast.BranchStmt:
				_ = x
				found = true
			}
			return true
		})
	}
	return found
}

func params(f *ast.FuncType) (args []ast.Expr, ok bool, variadic bool) {
	for _, p := range f.Params.List {
		if len(p.Names) == 0 {
			return nil, false, false
		}
		for _, n := range p.Names {
			if n.Name == "_" {
				return nil, false, false
			}
			args = append(args, n)
		}
		if _, v := p.Type.(*ast.Ellipsis); v {
			variadic = true
		}
	}
	return args, true, variadic
}

// wrap: every function is called through one that only calls it.
func wrap(r *rewriter, file *ast.File) {
	var more []ast.Decl
	for _, d := range file.Decls {
		f, ok := d.(*ast.FuncDecl)
		if !ok || f.Body == nil || f.Name.Name == "init" || f.Type.TypeParams != nil {
			continue
		}
		args, ok, v := params(f.Type)
		if !ok || f.Recv != nil && (len(f.Recv.List[0].Names) == 0 || f.Recv.List[0].Names[0].Name == "_") {
			continue
		}
		inner := ast.NewIdent(strings.ToLower(f.Name.Name[:1]) + f.Name.Name[1:] + "Inner")
		var fun ast.Expr = inner
		if f.Recv != nil {
			fun = &ast.SelectorExpr{X: f.Recv.List[0].Names[0], Sel: inner}
		}
		call := &ast.CallExpr{Fun: fun, Args: args}
		if v {
			call.Ellipsis = 1
		}
		var body ast.Stmt = &ast.ExprStmt{X: call}
		if f.Type.Results != nil {
			body = &ast.ReturnStmt{Results: []ast.Expr{call}}
		}
		more = append(more, &ast.FuncDecl{Recv: f.Recv, Name: inner, Type: f.Type, Body: f.Body})
		f.Body = &ast.BlockStmt{List: []ast.Stmt{body}}
	}
	file.Decls = append(file.Decls, more...)
}

// named: results are given names and assigned before they are returned.
func named(r *rewriter, file *ast.File) {
	for _, d := range file.Decls {
		f, ok := d.(*ast.FuncDecl)
		if !ok || f.Body == nil || f.Type.Results == nil {
			continue
		}
		res, nm := resultTypes(f.Type)
		if nm {
			continue
		}
		var names []ast.Expr
		var fl []*ast.Field
		for _, t := range res {
			n := r.name("res")
			names = append(names, n)
			fl = append(fl, &ast.Field{Names: []*ast.Ident{n}, Type: t})
		}
		f.Type.Results = &ast.FieldList{Opening: 1, Closing: 1, List: fl}
		astutil.Apply(f.Body, func(c *astutil.Cursor) bool {
			if _, ok := c.Node().(*ast.FuncLit); ok {
				return false
			}
			if x, ok := c.Node().(*ast.ReturnStmt); ok && c.Index() >= 0 {
				c.InsertBefore(set(names, x.Results...))
				x.Results = nil
			}
			return true
		}, nil)
	}
}

// deferClosure: a deferred call is made by a function.
func deferClosure(r *rewriter, file *ast.File) {
	ast.Inspect(file, func(n ast.Node) bool {
		if x, ok := n.(*ast.DeferStmt); ok && len(x.Call.Args) == 0 {
			if _, ok := x.Call.Fun.(*ast.FuncLit); !ok {
				x.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: x.Call}}}}}
			}
		}
		return true
	})
}

// noop: statements that do nothing.
func noop(r *rewriter, file *ast.File) {
	lists(file, func(l []ast.Stmt) (o []ast.Stmt) {
		if len(l) > 0 {
			switch l[0].(type) {
			case *ast.CaseClause, *ast.CommClause:
				return l
			}
		}
		v := r.name("unused")
		o = append(o, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{v}, Type: ast.NewIdent("int")}}}}, set([]ast.Expr{ast.NewIdent("_")}, v))
		return append(o, l...)
	})
}

// deadStore: a list and a map that are filled and never used.
func deadStore(r *rewriter, file *ast.File) {
	for _, d := range file.Decls {
		f, ok := d.(*ast.FuncDecl)
		if !ok || f.Body == nil {
			continue
		}
		e, err := parser.ParseExpr(`func() {
	scratch := map[string]any{"started": true}
	trace := append([]any(nil), len(scratch))
	for _, item := range trace {
		if item == nil {
			break
		}
	}
	delete(scratch, "started")
}`)
		if err != nil {
			panic(err)
		}
		f.Body.List = append(e.(*ast.FuncLit).Body.List[:len(e.(*ast.FuncLit).Body.List):len(e.(*ast.FuncLit).Body.List)], &ast.BlockStmt{List: f.Body.List})
	}
}

// deMorgan turns conditions round.
func deMorgan(r *rewriter, file *ast.File) {
	astutil.Apply(file, nil, func(c *astutil.Cursor) bool {
		x, ok := c.Node().(*ast.BinaryExpr)
		if !ok || c.Name() == "Value" {
			return true
		}
		if t := r.info.Types[x]; t.Value != nil {
			return true
		}
		switch x.Op {
		case token.LOR:
			c.Replace(not(&ast.BinaryExpr{X: not(x.X), Op: token.LAND, Y: not(x.Y)}))
		case token.LAND:
			c.Replace(not(&ast.BinaryExpr{X: not(x.X), Op: token.LOR, Y: not(x.Y)}))
		case token.NEQ:
			c.Replace(not(&ast.BinaryExpr{X: x.X, Op: token.EQL, Y: x.Y}))
		case token.EQL:
			if t := r.typeOf(x.X); t != nil {
				c.Replace(not(&ast.BinaryExpr{X: x.Y, Op: token.NEQ, Y: x.X}))
			}
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			t := r.typeOf(x.X)
			if t == nil {
				return true
			}
			if b, ok := t.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
				return true
			}
			op := map[token.Token]token.Token{token.LSS: token.LEQ, token.GTR: token.GEQ, token.LEQ: token.LSS, token.GEQ: token.GTR}[x.Op]
			c.Replace(not(&ast.BinaryExpr{X: x.Y, Op: op, Y: x.X}))
		}
		return true
	})
}

// forBreak: the condition of a loop is tested in its body.
func forBreak(r *rewriter, file *ast.File) {
	ast.Inspect(file, func(n ast.Node) bool {
		if x, ok := n.(*ast.ForStmt); ok && x.Cond != nil {
			x.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: not(x.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, x.Body.List...)
			x.Cond = nil
		}
		return true
	})
}

func (r *rewriter) typeExpr(t types.Type) ast.Expr {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == r.pkg {
			return ""
		}
		for _, i := range r.file.Imports {
			if strings.Trim(i.Path.Value, `"`) == p.Path() {
				if i.Name != nil {
					return i.Name.Name
				}
				return p.Name()
			}
		}
		ok = false
		return p.Name()
	})
	e, err := parser.ParseExpr(s)
	if err != nil || !ok {
		return nil
	}
	return e
}

// literal: &T{...} is filled field by field.
func literal(r *rewriter, file *ast.File) {
	depth := 0
	astutil.Apply(file, func(c *astutil.Cursor) bool {
		if _, ok := c.Node().(*ast.FuncDecl); ok {
			depth++
		}
		return true
	}, func(c *astutil.Cursor) bool {
		if _, ok := c.Node().(*ast.FuncDecl); ok {
			depth--
		}
		u, ok := c.Node().(*ast.UnaryExpr)
		if !ok || u.Op != token.AND || depth == 0 {
			return true
		}
		x, ok := u.X.(*ast.CompositeLit)
		if !ok || x.Type == nil || len(x.Elts) == 0 {
			return true
		}
		v := r.name("made")
		l := []ast.Stmt{define([]ast.Expr{v}, &ast.CallExpr{Fun: ast.NewIdent("new"), Args: []ast.Expr{x.Type}})}
		for _, e := range x.Elts {
			kv, ok := e.(*ast.KeyValueExpr)
			if !ok {
				return true
			}
			l = append(l, set([]ast.Expr{&ast.SelectorExpr{X: v, Sel: kv.Key.(*ast.Ident)}}, kv.Value))
		}
		l = append(l, &ast.ReturnStmt{Results: []ast.Expr{v}})
		c.Replace(&ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: &ast.StarExpr{X: x.Type}}}}}, Body: &ast.BlockStmt{List: l}}})
		return true
	})
}

// commaOk: value and presence are looked up separately.
func commaOk(r *rewriter, file *ast.File) {
	lists(file, func(l []ast.Stmt) (o []ast.Stmt) {
		for _, s := range l {
			a, ok := s.(*ast.AssignStmt)
			if !ok || len(a.Lhs) != 2 || len(a.Rhs) != 1 {
				o = append(o, s)
				continue
			}
			x, ok := a.Rhs[0].(*ast.IndexExpr)
			id, ok2 := a.Lhs[0].(*ast.Ident)
			id2, ok3 := a.Lhs[1].(*ast.Ident)
			if !ok || !ok2 || !ok3 || id.Name == "_" || a.Tok == token.DEFINE && (r.info.Defs[id] == nil || r.info.Defs[id2] == nil) {
				o = append(o, s)
				continue
			}
			o = append(o, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: a.Tok, Rhs: []ast.Expr{x}}, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), id2}, Tok: a.Tok, Rhs: []ast.Expr{x}})
		}
		return
	})
}

// callVar: what is returned is kept in variables first.
func callVar(r *rewriter, file *ast.File) {
	for _, d := range file.Decls {
		f, ok := d.(*ast.FuncDecl)
		if !ok || f.Body == nil || f.Type.Results == nil {
			continue
		}
		res, nm := resultTypes(f.Type)
		if nm {
			continue
		}
		astutil.Apply(f.Body, func(c *astutil.Cursor) bool {
			if _, ok := c.Node().(*ast.FuncLit); ok {
				return false
			}
			x, ok := c.Node().(*ast.ReturnStmt)
			if !ok || c.Index() < 0 || len(x.Results) != len(res) {
				return true
			}
			for i, t := range res {
				v := r.name("out")
				c.InsertBefore(&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{v}, Type: t, Values: []ast.Expr{x.Results[i]}}}}})
				x.Results[i] = v
			}
			return true
		}, nil)
	}
}

// bodyHelper: the rest of a function after its first return becomes a function it calls.
func bodyHelper(r *rewriter, file *ast.File) {
	for _, d := range file.Decls {
		f, ok := d.(*ast.FuncDecl)
		if !ok || f.Body == nil {
			continue
		}
		res, nm := resultTypes(f.Type)
		if nm || len(res) == 0 || !endsWithReturn(f.Body.List) {
			continue
		}
		for k := len(f.Body.List) / 2; k > 0 && k+1 < len(f.Body.List); k = len(f.Body.List) {
			var fl []*ast.Field
			for _, t := range res {
				fl = append(fl, &ast.Field{Type: t})
			}
			h := r.name("rest")
			rest := append([]ast.Stmt(nil), f.Body.List[k:]...)
			f.Body.List = append(f.Body.List[:k:k],
				define([]ast.Expr{h}, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: fl}}, Body: &ast.BlockStmt{List: rest}}),
				&ast.ReturnStmt{Results: []ast.Expr{&ast.CallExpr{Fun: h}}})
		}
	}
}

// varLift: variables are declared before they are set.
func varLift(r *rewriter, file *ast.File) {
	lists(file, func(l []ast.Stmt) (o []ast.Stmt) {
		for _, s := range l {
			a, ok := s.(*ast.AssignStmt)
			if !ok || a.Tok != token.DEFINE {
				o = append(o, s)
				continue
			}
			var ds []ast.Stmt
			good := true
			for _, x := range a.Lhs {
				id := x.(*ast.Ident)
				ob := r.info.Defs[id]
				if id.Name == "_" || ob == nil {
					continue
				}
				t := r.typeExpr(ob.Type())
				if t == nil {
					good = false
					break
				}
				ds = append(ds, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent(id.Name)}, Type: t}}}})
			}
			if good {
				for _, x := range a.Rhs { // the new variable hides one that is used
					ast.Inspect(x, func(n ast.Node) bool {
						if id, ok := n.(*ast.Ident); ok {
							for _, y := range a.Lhs {
								if y.(*ast.Ident).Name == id.Name && r.info.Defs[y.(*ast.Ident)] != nil {
									good = false
								}
							}
						}
						return true
					})
				}
			}
			if good {
				a.Tok = token.ASSIGN
				o = append(o, ds...)
			}
			o = append(o, s)
		}
		return
	})
}
