// mutate lists small changes to the sources of a module, as edits of byte ranges, one JSON object per line.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"bytes"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	ID    int    `json:"id"`
	File  string `json:"file"`
	Line  int    `json:"line"`
	Kind  string `json:"kind"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Text  string `json:"text"`
	Old   string `json:"old"`
	Func  string `json:"func"`
}

type lister struct {
	dir  string
	fset *token.FileSet
	info *types.Info
	pkg  *types.Package
	src  []byte
	name string
	fn   string
	out  *[]edit
}

func main() {
	dir := flag.String("dir", "", "the module")
	flag.Parse()
	fset := token.NewFileSet()
	ps, err := packages.Load(&packages.Config{Mode: packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedFiles | packages.NeedName | packages.NeedImports | packages.NeedDeps,
		Dir: *dir, Fset: fset, Env: append(os.Environ(), "GOFLAGS=-mod=mod")}, "./...")
	if err != nil {
		panic(err)
	}
	var all []edit
	for _, p := range ps {
		for i, f := range p.Syntax {
			name := p.GoFiles[i]
			if strings.HasSuffix(name, "_test.go") || strings.Contains(name, "/tests/") {
				continue
			}
			src, _ := os.ReadFile(name)
			l := &lister{dir: *dir, fset: fset, info: p.TypesInfo, pkg: p.Types, src: src, name: name, out: &all}
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
					l.fn = fd.Name.Name
					l.function(fd)
				}
			}
		}
	}
	sort.SliceStable(all, func(i, j int) bool {
		return all[i].File < all[j].File || all[i].File == all[j].File && all[i].Start < all[j].Start
	})
	enc := json.NewEncoder(os.Stdout)
	for i := range all {
		all[i].ID = i
		_ = enc.Encode(all[i])
	}
}

func (l *lister) off(p token.Pos) int { return l.fset.Position(p).Offset }

func (l *lister) text(n ast.Node) string { return string(l.src[l.off(n.Pos()):l.off(n.End())]) }

func (l *lister) add(kind string, n ast.Node, text string) {
	rel, _ := filepath.Rel(l.dir, l.name)
	old := l.text(n)
	if old == text {
		return
	}
	*l.out = append(*l.out, edit{File: rel, Line: l.fset.Position(n.Pos()).Line, Kind: kind, Start: l.off(n.Pos()), End: l.off(n.End()), Text: text, Old: old, Func: l.fn})
}

var _ = format.Node
var _ bytes.Buffer

func (l *lister) function(fd *ast.FuncDecl) {
	ast.Inspect(fd, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BinaryExpr:
			swap := map[token.Token][]token.Token{token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS, token.GTR},
				token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR, token.LSS}, token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.ADD: {token.SUB}, token.SUB: {token.ADD},
				token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.AND: {token.OR}, token.OR: {token.AND}, token.MUL: {token.ADD}, token.REM: {token.QUO}}
			if x.Op == token.ADD {
				if b, ok := l.info.TypeOf(x).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					return true
				}
			}
			for _, o := range swap[x.Op] {
				l.add("op", x, l.text(x.X)+" "+o.String()+" "+l.text(x.Y))
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				l.add("drop-operand", x, l.text(x.X))
				l.add("drop-operand", x, l.text(x.Y))
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				l.add("not", x, l.text(x.X))
			}
		case *ast.IfStmt:
			if _, ok := x.Cond.(*ast.BinaryExpr); !ok {
				l.add("negate", x.Cond, "!("+l.text(x.Cond)+")")
			}
			if x.Init == nil {
				l.add("if-drop", x, l.dropIf(x))
			}
		case *ast.BasicLit:
			tv := l.info.Types[x]
			switch x.Kind {
			case token.INT:
				if v, ok := constant.Int64Val(constant.ToInt(tv.Value)); ok {
					l.add("const", x, fmt.Sprint(v+1))
					if v > 0 {
						l.add("const", x, fmt.Sprint(v-1))
					}
				}
			case token.STRING:
				l.add("string", x, "\"x\" + "+x.Value)
			}
		case *ast.Ident:
			l.ident(x)
		case *ast.SelectorExpr:
			l.selector(x)
		case *ast.CallExpr:
			for i := 0; i < len(x.Args); i++ {
				for j := i + 1; j < len(x.Args); j++ {
					if types.Identical(l.info.TypeOf(x.Args[i]), l.info.TypeOf(x.Args[j])) && l.text(x.Args[i]) != l.text(x.Args[j]) {
						from, to := l.off(x.Args[i].Pos()), l.off(x.Args[j].End())
						t := l.text(x.Args[j]) + string(l.src[l.off(x.Args[i].End()):l.off(x.Args[j].Pos())]) + l.text(x.Args[i])
						rel, _ := filepath.Rel(l.dir, l.name)
						*l.out = append(*l.out, edit{File: rel, Line: l.fset.Position(x.Pos()).Line, Kind: "swap-args", Start: from, End: to, Text: t, Old: string(l.src[from:to]), Func: l.fn})
					}
				}
			}
			for _, a := range x.Args {
				l.nilled(a)
			}
		case *ast.ReturnStmt:
			for _, a := range x.Results {
				l.nilled(a)
			}
		case *ast.BlockStmt:
			for _, s := range x.List {
				l.stmt(s)
			}
		case *ast.CaseClause:
			for _, s := range x.Body {
				l.stmt(s)
			}
			if len(x.List) > 1 {
				l.add("case-drop", x.List[0], l.text(x.List[1]))
			}
		case *ast.BranchStmt:
			if x.Tok == token.BREAK && x.Label == nil {
				l.add("branch", x, "continue")
			}
			if x.Tok == token.CONTINUE && x.Label == nil {
				l.add("branch", x, "break")
			}
		case *ast.KeyValueExpr:
			l.nilled(x.Value)
		case *ast.AssignStmt:
			if len(x.Lhs) == len(x.Rhs) {
				for _, r := range x.Rhs {
					l.nilled(r)
				}
			}
		}
		return true
	})
}

func (l *lister) dropIf(x *ast.IfStmt) string {
	if x.Else != nil {
		return l.text(x.Else)
	}
	return "if " + l.text(x.Cond) + " {}"
}

// nilled replaces an argument by a zero value.
func (l *lister) nilled(a ast.Expr) {
	tv, ok := l.info.Types[a]
	if !ok || tv.Value != nil || tv.IsNil() {
		return
	}
	switch u := tv.Type.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature:
		l.add("zero", a, "nil")
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			l.add("zero", a, `""`)
		case u.Info()&types.IsBoolean != 0:
			l.add("zero", a, "false")
			l.add("zero", a, "true")
		case u.Info()&types.IsNumeric != 0:
			l.add("zero", a, "0")
		}
	}
}

func (l *lister) stmt(s ast.Stmt) {
	switch x := s.(type) {
	case *ast.ExprStmt:
		l.add("stmt-drop", x, "")
	case *ast.DeferStmt:
		l.add("stmt-drop", x, "")
	case *ast.IncDecStmt:
		l.add("stmt-drop", x, "")
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			l.add("stmt-drop", x, "")
		}
	case *ast.ReturnStmt:
		if len(x.Results) == 0 {
			l.add("stmt-drop", x, "")
		}
	}
}

// ident replaces a variable by another one of its type.
func (l *lister) ident(x *ast.Ident) {
	if x.Name == "true" || x.Name == "false" {
		if _, ok := l.info.Uses[x].(*types.Const); ok {
			l.add("bool", x, map[string]string{"true": "false", "false": "true"}[x.Name])
		}
		return
	}
	switch v := l.info.Uses[x].(type) {
	case *types.Var:
		if v.IsField() || v.Parent() == l.pkg.Scope() {
			return
		}
		n := 0
		for sc := l.pkg.Scope().Innermost(x.Pos()); sc != nil && sc != l.pkg.Scope(); sc = sc.Parent() {
			for _, name := range sc.Names() {
				o, ok := sc.Lookup(name).(*types.Var)
				if !ok || o == v || o.Name() == "_" || o.Pos() > x.Pos() || !types.Identical(o.Type(), v.Type()) || n >= 3 {
					continue
				}
				n++
				l.add("var", x, name)
			}
		}
	case *types.Const:
		if v.Parent() != l.pkg.Scope() {
			return
		}
		n := 0
		names := l.pkg.Scope().Names()
		at := sort.SearchStrings(names, v.Name())
		for d := 1; d < 12 && n < 2; d++ {
			for _, k := range []int{at - d, at + d} {
				if k < 0 || k >= len(names) || n >= 2 {
					continue
				}
				if o, ok := l.pkg.Scope().Lookup(names[k]).(*types.Const); ok && types.Identical(o.Type(), v.Type()) && !constant.Compare(o.Val(), token.EQL, v.Val()) {
					n++
					l.add("const-name", x, names[k])
				}
			}
		}
	}
}

// selector replaces a field or method by another one of its type.
func (l *lister) selector(x *ast.SelectorExpr) {
	sel := l.info.Selections[x]
	if sel == nil {
		return
	}
	n := 0
	var others []types.Object
	switch o := sel.Obj().(type) {
	case *types.Var:
		t := sel.Recv()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				others = append(others, st.Field(i))
			}
		}
		_ = o
	case *types.Func:
		ms := types.NewMethodSet(sel.Recv())
		for i := 0; i < ms.Len(); i++ {
			others = append(others, ms.At(i).Obj())
		}
	}
	for _, o := range others {
		if o == sel.Obj() || n >= 3 || !types.Identical(o.Type(), sel.Obj().Type()) || !o.Exported() && o.Pkg() != l.pkg {
			continue
		}
		n++
		l.add("selector", x.Sel, o.Name())
	}
}
