// Command xform rewrites packages of the code under test so that their goroutines, channels, locks, random
// choices and shared memory go through the scheduler of package vsched. It writes the rewritten files to a
// directory together with an overlay file for go build; the sources themselves are not touched.
//
//	xform -repo /repo -out DIR pool rand
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

const base = "verif/mc/vsched"

var replaced = map[string]string{
	"sync":        base + "/vsync",
	"sync/atomic": base + "/vatomic",
	"math/rand":   base + "/vrand",
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	overlay := map[string]string{}
	for _, dir := range flag.Args() {
		if err := pkg(*repo, dir, *out, overlay); err != nil {
			fmt.Fprintf(os.Stderr, "xform: %s: %v\n", dir, err)
			os.Exit(1)
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func pkg(repo, dir, out string, overlay map[string]string) (err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("%v", e)
		}
	}()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles", "./"+dir)
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		return err
	}
	exports := map[string]string{}
	type entry struct {
		ImportPath, Export, Dir string
		GoFiles                 []string
	}
	var last entry
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var e entry
		if err := dec.Decode(&e); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		exports[e.ImportPath] = e.Export
		last = e
	}
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range last.GoFiles {
		a, err := parser.ParseFile(fset, filepath.Join(last.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, a)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{},
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		return os.Open(exports[path])
	})}
	p, err := conf.Check(last.ImportPath, fset, files, info)
	if err != nil {
		return err
	}
	for i, f := range files {
		x := &xf{info: info, pkg: p, fset: fset, shared: map[types.Object]bool{}}
		x.file(f)
		var buf bytes.Buffer
		if err := format.Node(&buf, token.NewFileSet(), f); err != nil {
			return err
		}
		name := filepath.Join(out, dir+"_"+last.GoFiles[i])
		if err := os.WriteFile(name, buf.Bytes(), 0o644); err != nil {
			return err
		}
		overlay[filepath.Join(last.Dir, last.GoFiles[i])] = name
	}
	return nil
}

type xf struct {
	info   *types.Info
	pkg    *types.Package
	fset   *token.FileSet
	shared map[types.Object]bool // local variables used by more than one function
	tmp    int
	names  map[string]string // import path -> local name
	used   map[string]bool
}

func (x *xf) file(f *ast.File) {
	x.names = map[string]string{}
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		name := path[strings.LastIndex(path, "/")+1:]
		if im.Name != nil {
			name = im.Name.Name
		}
		x.names[path] = name
		if n, ok := replaced[path]; ok {
			im.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(n)}
			im.Name = ast.NewIdent(name)
		}
	}
	f.Comments = nil
	x.findShared(f)
	for i, d := range f.Decls {
		f.Decls[i] = x.decl(d)
	}
	// keep the imports whose only uses may have been rewritten
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("vsched__"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(base)}}}}
	decls := []ast.Decl{imp}
	n := 0
	for n < len(f.Decls) {
		if g, ok := f.Decls[n].(*ast.GenDecl); !ok || g.Tok != token.IMPORT {
			break
		}
		n++
	}
	decls = append(decls, f.Decls[:n]...)
	keep := func(e string) {
		decls = append(decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{expr(e)}}}})
	}
	keep("vsched__.Yield")
	if n := x.names["time"]; n != "" && n != "_" && n != "." {
		keep(n + ".Sleep")
	}
	if n := x.names["runtime"]; n != "" && n != "_" && n != "." {
		keep(n + ".Gosched")
	}
	f.Decls = append(decls, f.Decls[n:]...)
	// positions of the original make the printer keep odd line breaks; they are harmless
}

func expr(s string) ast.Expr {
	e, err := parser.ParseExpr(s)
	if err != nil {
		panic(err)
	}
	return strip(e)
}

// strip clears the positions of a parsed snippet.
func strip(e ast.Expr) ast.Expr {
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.Ident:
			n.NamePos = token.NoPos
		case *ast.BasicLit:
			n.ValuePos = token.NoPos
		}
		return true
	})
	return e
}

func vs(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("vsched__"), Sel: ast.NewIdent(name)}
}

func call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: vs(name), Args: args}
}

func addr(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }

func deref(e ast.Expr) ast.Expr { return &ast.ParenExpr{X: &ast.StarExpr{X: e}} }

// findShared finds local variables that a function literal shares with its surroundings.
func (x *xf) findShared(f *ast.File) {
	owner := map[types.Object]ast.Node{}
	var stack []ast.Node
	var visit func(n ast.Node) bool
	fn := func() ast.Node {
		if len(stack) == 0 {
			return nil
		}
		return stack[len(stack)-1]
	}
	visit = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl, *ast.FuncLit:
			stack = append(stack, n)
			var body *ast.BlockStmt
			var typ *ast.FuncType
			if d, ok := n.(*ast.FuncDecl); ok {
				body, typ = d.Body, d.Type
				if d.Recv != nil {
					ast.Inspect(d.Recv, visit)
				}
			} else {
				body, typ = n.(*ast.FuncLit).Body, n.(*ast.FuncLit).Type
			}
			ast.Inspect(typ, visit)
			if body != nil {
				ast.Inspect(body, visit)
			}
			stack = stack[:len(stack)-1]
			return false
		case *ast.Ident:
			if o, ok := x.info.Defs[n].(*types.Var); ok && o != nil && !o.IsField() {
				owner[o] = fn()
			}
			if o, ok := x.info.Uses[n].(*types.Var); ok && !o.IsField() {
				if w, known := owner[o]; known && w != fn() {
					x.shared[o] = true
				}
			}
		}
		return true
	}
	ast.Inspect(f, visit)
}

func (x *xf) decl(d ast.Decl) ast.Decl {
	switch d := d.(type) {
	case *ast.FuncDecl:
		d.Doc = nil
		x.fieldList(d.Recv)
		x.funcType(d.Type)
		if d.Body != nil {
			x.block(d.Body)
		}
	case *ast.GenDecl:
		d.Doc = nil
		for _, s := range d.Specs {
			x.spec(s)
		}
	}
	return d
}

func (x *xf) spec(s ast.Spec) {
	switch s := s.(type) {
	case *ast.TypeSpec:
		s.Doc, s.Comment = nil, nil
		x.fieldList(s.TypeParams)
		s.Type = x.expr(s.Type)
	case *ast.ValueSpec:
		s.Doc, s.Comment = nil, nil
		if s.Type != nil {
			s.Type = x.expr(s.Type)
		}
		for i := range s.Values {
			s.Values[i] = x.expr(s.Values[i])
		}
		if len(s.Names) == 2 && len(s.Values) == 1 {
			s.Values[0] = two(s.Values[0])
		}
	}
}

func (x *xf) funcType(t *ast.FuncType) {
	x.fieldList(t.TypeParams)
	x.fieldList(t.Params)
	x.fieldList(t.Results)
}

func (x *xf) fieldList(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		f.Doc, f.Comment = nil, nil
		f.Type = x.expr(f.Type)
	}
}

func (x *xf) isChan(e ast.Expr) (*types.Chan, bool) {
	t := x.info.TypeOf(e)
	if t == nil {
		return nil, false
	}
	c, ok := t.Underlying().(*types.Chan)
	return c, ok
}

func (x *xf) isMap(e ast.Expr) bool {
	t := x.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// typeExpr writes a type as source of this file, with channels rewritten.
func (x *xf) typeExpr(t types.Type) ast.Expr {
	s := types.TypeString(t, func(p *types.Package) string {
		if p == x.pkg {
			return ""
		}
		if n := x.names[p.Path()]; n != "" && n != "." {
			return n
		}
		return p.Name()
	})
	e := expr(s)
	return chanTypes(e)
}

func chanTypes(e ast.Expr) ast.Expr {
	// only the shapes that element types take here
	switch t := e.(type) {
	case *ast.ChanType:
		return chanType(chanTypes(t.Value))
	case *ast.StarExpr:
		t.X = chanTypes(t.X)
	case *ast.ArrayType:
		t.Elt = chanTypes(t.Elt)
	case *ast.MapType:
		t.Key, t.Value = chanTypes(t.Key), chanTypes(t.Value)
	case *ast.FuncType:
		for _, l := range []*ast.FieldList{t.Params, t.Results} {
			if l != nil {
				for _, f := range l.List {
					f.Type = chanTypes(f.Type)
				}
			}
		}
	case *ast.StructType:
		for _, f := range t.Fields.List {
			f.Type = chanTypes(f.Type)
		}
	case *ast.ParenExpr:
		t.X = chanTypes(t.X)
	}
	return e
}

func chanType(elem ast.Expr) ast.Expr {
	return &ast.StarExpr{X: &ast.IndexExpr{X: vs("Chan"), Index: elem}}
}

// quiet tells whether accesses of a variable of this type are not worth recording: synchronisation objects.
func quiet(t types.Type) bool {
	for {
		if n, ok := t.(*types.Named); ok {
			if p := n.Obj().Pkg(); p != nil && (p.Path() == "sync" || p.Path() == "sync/atomic") {
				if n.Obj().Name() != "Locker" {
					return true
				}
			}
		}
		if a, ok := t.Underlying().(*types.Array); ok {
			t = a.Elem()
			continue
		}
		return false
	}
}

// memory tells whether an expression denotes shared memory whose address can be taken.
func (x *xf) memory(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		o, ok := x.info.Uses[e].(*types.Var)
		if !ok || o.IsField() || quiet(o.Type()) {
			return false
		}
		return x.shared[o] || (o.Pkg() == x.pkg && o.Parent() == x.pkg.Scope())
	case *ast.SelectorExpr:
		s := x.info.Selections[e]
		if s == nil || s.Kind() != types.FieldVal {
			return false
		}
	case *ast.IndexExpr:
		t := x.info.TypeOf(e.X)
		if t == nil {
			return false
		}
		u := t.Underlying()
		if p, ok := u.(*types.Pointer); ok {
			u = p.Elem().Underlying()
		}
		switch u.(type) {
		case *types.Slice, *types.Array:
		default:
			return false
		}
	case *ast.StarExpr:
	default:
		return false
	}
	tv := x.info.Types[e]
	return tv.IsValue() && tv.Addressable() && !quiet(tv.Type)
}

// inner rewrites the operands of an expression that denotes memory, without recording the access itself.
func (x *xf) inner(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.ParenExpr:
		e.X = x.inner(e.X)
		return e
	case *ast.SelectorExpr:
		if s := x.info.Selections[e]; s != nil && s.Kind() == types.FieldVal {
			if _, ptr := x.info.TypeOf(e.X).Underlying().(*types.Pointer); ptr {
				e.X = x.expr(e.X)
			} else {
				e.X = x.inner(e.X) // part of the enclosing variable
			}
			return e
		}
	case *ast.IndexExpr:
		t := x.info.TypeOf(e.X)
		if t != nil {
			if _, arr := t.Underlying().(*types.Array); arr {
				e.X = x.inner(e.X)
				e.Index = x.expr(e.Index)
				return e
			}
			switch t.Underlying().(type) {
			case *types.Slice, *types.Pointer:
				e.X, e.Index = x.expr(e.X), x.expr(e.Index)
				return e
			}
		}
	case *ast.StarExpr:
		if tv := x.info.Types[e]; tv.IsValue() {
			e.X = x.expr(e.X)
			return e
		}
	case *ast.Ident:
		return e
	}
	return x.expr(e)
}

func (x *xf) lhs(e ast.Expr) ast.Expr {
	e = ast.Unparen(e)
	if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
		return e
	}
	if ix, ok := e.(*ast.IndexExpr); ok && x.isMap(ix.X) {
		m := x.expr(ix.X)
		return &ast.IndexExpr{X: call("WM", m), Index: x.expr(ix.Index)}
	}
	if x.memory(e) {
		return deref(call("W", addr(x.inner(e))))
	}
	return x.inner(e)
}

func (x *xf) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = x.expr(l[i])
	}
}

func (x *xf) builtin(e ast.Expr) string {
	if id, ok := ast.Unparen(e).(*ast.Ident); ok {
		if b, ok := x.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

// pkgFunc gives "path.Name" for a call of another package's function.
func (x *xf) pkgFunc(e ast.Expr) string {
	var id *ast.Ident
	switch f := ast.Unparen(e).(type) {
	case *ast.SelectorExpr:
		id = f.Sel
	case *ast.Ident:
		id = f
	default:
		return ""
	}
	if f, ok := x.info.Uses[id].(*types.Func); ok && f.Pkg() != nil && f.Type().(*types.Signature).Recv() == nil {
		return f.Pkg().Path() + "." + f.Name()
	}
	return ""
}

func (x *xf) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if x.memory(e) {
		return deref(call("R", addr(x.inner(e))))
	}
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return e
	case *ast.Ellipsis:
		e.Elt = x.expr(e.Elt)
	case *ast.FuncLit:
		x.funcType(e.Type)
		x.block(e.Body)
	case *ast.CompositeLit:
		e.Type = x.expr(e.Type)
		_, st := x.info.TypeOf(e).Underlying().(*types.Struct)
		if p, ok := x.info.TypeOf(e).Underlying().(*types.Pointer); ok {
			_, st = p.Elem().Underlying().(*types.Struct)
		}
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !st {
					kv.Key = x.expr(kv.Key)
				}
				kv.Value = x.expr(kv.Value)
			} else {
				e.Elts[i] = x.expr(el)
			}
		}
	case *ast.ParenExpr:
		e.X = x.expr(e.X)
	case *ast.SelectorExpr:
		if s := x.info.Selections[e]; s != nil {
			if s.Kind() == types.FieldVal {
				if x.info.Types[e].Addressable() {
					return x.inner(e)
				}
				e.X = x.expr(e.X)
			} else if s.Kind() == types.MethodVal {
				// a method with pointer receiver called on a variable does not read the variable
				if _, ptr := x.info.TypeOf(e.X).Underlying().(*types.Pointer); !ptr && x.info.Types[e.X].Addressable() && ptrRecv(s) {
					e.X = x.inner(e.X)
				} else {
					e.X = x.expr(e.X)
				}
			} else {
				e.X = x.expr(e.X)
			}
		}
	case *ast.IndexExpr:
		if x.isMap(e.X) {
			e.X = call("RM", x.expr(e.X))
			e.Index = x.expr(e.Index)
			return e
		}
		e.X, e.Index = x.expr(e.X), x.expr(e.Index)
	case *ast.IndexListExpr:
		e.X = x.expr(e.X)
		x.exprs(e.Indices)
	case *ast.SliceExpr:
		if _, arr := x.info.TypeOf(e.X).Underlying().(*types.Array); arr {
			e.X = x.inner(e.X)
		} else {
			e.X = x.expr(e.X)
		}
		e.Low, e.High, e.Max = x.expr(e.Low), x.expr(e.High), x.expr(e.Max)
	case *ast.TypeAssertExpr:
		e.X, e.Type = x.expr(e.X), x.expr(e.Type)
	case *ast.CallExpr:
		return x.call(e)
	case *ast.StarExpr:
		e.X = x.expr(e.X)
	case *ast.UnaryExpr:
		switch e.Op {
		case token.AND:
			if _, ok := ast.Unparen(e.X).(*ast.CompositeLit); ok {
				e.X = x.expr(e.X)
			} else {
				e.X = x.inner(ast.Unparen(e.X))
			}
		case token.ARROW:
			return call("Recv", x.expr(e.X))
		default:
			e.X = x.expr(e.X)
		}
	case *ast.BinaryExpr:
		e.X, e.Y = x.expr(e.X), x.expr(e.Y)
	case *ast.KeyValueExpr:
		e.Key, e.Value = x.expr(e.Key), x.expr(e.Value)
	case *ast.ArrayType:
		e.Len, e.Elt = x.expr(e.Len), x.expr(e.Elt)
	case *ast.StructType:
		x.fieldList(e.Fields)
	case *ast.FuncType:
		x.funcType(e)
	case *ast.InterfaceType:
		x.fieldList(e.Methods)
	case *ast.MapType:
		e.Key, e.Value = x.expr(e.Key), x.expr(e.Value)
	case *ast.ChanType:
		return chanType(x.expr(e.Value))
	default:
		panic(fmt.Sprintf("cannot rewrite %T", e))
	}
	return e
}

func ptrRecv(s *types.Selection) bool {
	f, ok := s.Obj().(*types.Func)
	if !ok {
		return false
	}
	_, ptr := f.Type().(*types.Signature).Recv().Type().(*types.Pointer)
	return ptr
}

func (x *xf) call(e *ast.CallExpr) ast.Expr {
	switch x.builtin(e.Fun) {
	case "make":
		if c, ok := x.isChan(e.Args[0]); ok {
			var elem ast.Expr
			conv := x.info.TypeOf(e.Args[0])
			if ct, ok := ast.Unparen(e.Args[0]).(*ast.ChanType); ok {
				elem = x.expr(ct.Value)
				conv = nil
			} else {
				elem = x.typeExpr(c.Elem())
			}
			args := append([]ast.Expr{}, e.Args[1:]...)
			x.exprs(args)
			for i := range args {
				args[i] = &ast.CallExpr{Fun: ast.NewIdent("int"), Args: []ast.Expr{args[i]}}
			}
			var r ast.Expr = &ast.CallExpr{Fun: &ast.IndexExpr{X: vs("MakeChan"), Index: elem}, Args: args}
			if conv != nil {
				r = &ast.CallExpr{Fun: &ast.ParenExpr{X: x.expr(e.Args[0])}, Args: []ast.Expr{r}}
			}
			return r
		}
	case "close":
		return call("Close", x.expr(e.Args[0]))
	case "len", "cap":
		if _, ok := x.isChan(e.Args[0]); ok {
			n := "Len"
			if x.builtin(e.Fun) == "cap" {
				n = "Cap"
			}
			return call(n, x.expr(e.Args[0]))
		}
		if x.isMap(e.Args[0]) {
			e.Args[0] = call("RM", x.expr(e.Args[0]))
			return e
		}
		if x.info.Types[e].Value != nil {
			return e
		}
	case "delete", "clear":
		if x.isMap(e.Args[0]) {
			e.Args[0] = call("WM", x.expr(e.Args[0]))
			x.exprs(e.Args[1:])
			return e
		}
	}
	switch x.pkgFunc(e.Fun) {
	case "time.Sleep":
		x.exprs(e.Args)
		return call("Sleep", e.Args...)
	case "runtime.Gosched":
		return call("Yield")
	}
	e.Fun = x.expr(e.Fun)
	x.exprs(e.Args)
	return e
}

func (x *xf) block(b *ast.BlockStmt) { b.List = x.stmts(b.List) }

func (x *xf) stmts(l []ast.Stmt) []ast.Stmt {
	r := make([]ast.Stmt, 0, len(l))
	for _, s := range l {
		r = append(r, x.stmt(s))
	}
	return r
}

func (x *xf) fresh(p string) *ast.Ident {
	x.tmp++
	return ast.NewIdent(fmt.Sprintf("vs__%s%d", p, x.tmp))
}

func define(name ast.Expr, v ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{name}, Tok: token.DEFINE, Rhs: []ast.Expr{v}}
}

// two turns a single-value receive into its two-value form.
func two(e ast.Expr) ast.Expr {
	if c, ok := ast.Unparen(e).(*ast.CallExpr); ok {
		if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Recv" {
			if p, ok := s.X.(*ast.Ident); ok && p.Name == "vsched__" {
				s.Sel = ast.NewIdent("Recv2")
			}
		}
	}
	return e
}

func (x *xf) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.BadStmt, *ast.EmptyStmt, *ast.BranchStmt:
		return s
	case *ast.DeclStmt:
		s.Decl = x.decl(s.Decl)
	case *ast.LabeledStmt:
		if sel, ok := s.Stmt.(*ast.SelectStmt); ok {
			return x.selectStmt(sel, s.Label)
		}
		s.Stmt = x.stmt(s.Stmt)
	case *ast.ExprStmt:
		s.X = x.expr(s.X)
		for {
			p, ok := s.X.(*ast.ParenExpr)
			if !ok {
				break
			}
			s.X = p.X
		}
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call("Send", x.expr(s.Chan), x.expr(s.Value))}
	case *ast.IncDecStmt:
		s.X = x.lhs(s.X)
	case *ast.AssignStmt:
		x.exprs(s.Rhs)
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			s.Rhs[0] = two(s.Rhs[0])
		}
		if s.Tok != token.DEFINE {
			for i := range s.Lhs {
				s.Lhs[i] = x.lhs(s.Lhs[i])
			}
		}
	case *ast.GoStmt:
		return x.goStmt(s)
	case *ast.DeferStmt:
		if c, ok := x.expr(s.Call).(*ast.CallExpr); ok {
			s.Call = c
		} else {
			panic("deferred call cannot be rewritten")
		}
	case *ast.ReturnStmt:
		x.exprs(s.Results)
	case *ast.BlockStmt:
		x.block(s)
	case *ast.IfStmt:
		s.Init = x.stmt0(s.Init)
		s.Cond = x.expr(s.Cond)
		x.block(s.Body)
		s.Else = x.stmt0(s.Else)
	case *ast.CaseClause:
		x.exprs(s.List)
		s.Body = x.stmts(s.Body)
	case *ast.SwitchStmt:
		s.Init = x.stmt0(s.Init)
		s.Tag = x.expr(s.Tag)
		x.block(s.Body)
	case *ast.TypeSwitchStmt:
		s.Init = x.stmt0(s.Init)
		s.Assign = x.stmt(s.Assign)
		x.block(s.Body)
	case *ast.SelectStmt:
		return x.selectStmt(s, nil)
	case *ast.ForStmt:
		s.Init = x.stmt0(s.Init)
		s.Cond = x.expr(s.Cond)
		s.Post = x.stmt0(s.Post)
		x.block(s.Body)
	case *ast.RangeStmt:
		if _, ok := x.isChan(s.X); ok {
			return x.rangeChan(s)
		}
		if x.isMap(s.X) {
			s.X = call("RM", x.expr(s.X))
		} else {
			s.X = x.expr(s.X)
		}
		if s.Tok == token.ASSIGN {
			if s.Key != nil {
				s.Key = x.lhs(s.Key)
			}
			if s.Value != nil {
				s.Value = x.lhs(s.Value)
			}
		}
		x.block(s.Body)
		if s.Tok == token.DEFINE {
			for _, e := range []ast.Expr{s.Key, s.Value} {
				if id, ok := e.(*ast.Ident); ok && x.info.Defs[id] != nil && x.shared[x.info.Defs[id]] {
					s.Body.List = append([]ast.Stmt{&ast.ExprStmt{X: call("W", addr(ast.NewIdent(id.Name)))}}, s.Body.List...)
				}
			}
		}
	default:
		panic(fmt.Sprintf("cannot rewrite %T", s))
	}
	return s
}

func (x *xf) stmt0(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	return x.stmt(s)
}

func (x *xf) rangeChan(s *ast.RangeStmt) ast.Stmt {
	ch := x.fresh("ch")
	ok := x.fresh("ok")
	key := s.Key
	if key == nil {
		key = ast.NewIdent("_")
	}
	chx := x.expr(s.X)
	x.block(s.Body)
	id, blank := key.(*ast.Ident)
	if blank = blank && id.Name == "_"; blank || s.Tok == token.ASSIGN {
		// for { var ok bool; key, ok = recv; if !ok { break }; body }: continue reaches the next receive
		var k ast.Expr = ast.NewIdent("_")
		if !blank {
			k = x.lhs(key)
		}
		pre := []ast.Stmt{
			&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ok}, Type: ast.NewIdent("bool")}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{k, ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{call("Recv2", ch)}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		}
		return &ast.ForStmt{Body: &ast.BlockStmt{List: append(pre, s.Body)}, Init: define(ch, chx)}
	}
	// The loop variable is declared in the header, so that it is shared by all iterations exactly when the
	// language version of the package says so.
	v := key.(*ast.Ident)
	var lv ast.Expr = v
	if o := x.info.Defs[v]; o != nil && x.shared[o] {
		lv = deref(call("W", addr(v)))
	}
	pre := []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{lv, ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{call("Recv2", ch)}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
	}
	init := &ast.AssignStmt{Lhs: []ast.Expr{ch, v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call("RangeInit", chx)}}
	return &ast.ForStmt{Body: &ast.BlockStmt{List: append(pre, s.Body)}, Init: init}
}

func (x *xf) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	var pre []ast.Stmt
	if b := x.builtin(c.Fun); b != "" && b != "close" && b != "panic" && b != "print" && b != "println" {
		panic("go statement with builtin " + b)
	}
	isBuiltin := x.builtin(c.Fun) != ""
	consts := make([]bool, len(c.Args))
	for i, a := range c.Args {
		tv := x.info.Types[a]
		consts[i] = tv.Value != nil || tv.IsNil()
	}
	r, ok := x.call(c).(*ast.CallExpr)
	if !ok {
		panic("go statement cannot be rewritten")
	}
	if !isBuiltin {
		if _, lit := r.Fun.(*ast.FuncLit); !lit || len(r.Args) > 0 {
			f := x.fresh("f")
			pre = append(pre, define(f, r.Fun))
			r.Fun = f
		}
	}
	for i := range r.Args {
		if !consts[i] {
			a := x.fresh("a")
			pre = append(pre, define(a, r.Args[i]))
			r.Args[i] = a
		}
	}
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r}}}}
	pre = append(pre, &ast.ExprStmt{X: call("Go", body)})
	return &ast.BlockStmt{List: pre}
}

func (x *xf) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	var pre []ast.Stmt
	def := "false"
	var args []ast.Expr
	var clauses []ast.Stmt
	for _, cl := range s.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			def = "true"
			clauses = append(clauses, &ast.CaseClause{Body: x.stmts(cc.Body)}) // default
			continue
		}
		op := x.fresh("op")
		var head []ast.Stmt
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, define(op, call("SendCase", x.expr(c.Chan), x.expr(c.Value))))
		case *ast.ExprStmt:
			pre = append(pre, define(op, call("RecvCase", x.expr(ast.Unparen(c.X).(*ast.UnaryExpr).X))))
		case *ast.AssignStmt:
			pre = append(pre, define(op, call("RecvCase", x.expr(ast.Unparen(c.Rhs[0]).(*ast.UnaryExpr).X))))
			rhs := []ast.Expr{&ast.SelectorExpr{X: op, Sel: ast.NewIdent("V")}}
			if len(c.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: op, Sel: ast.NewIdent("Ok")})
			}
			if c.Tok == token.ASSIGN {
				for i := range c.Lhs {
					c.Lhs[i] = x.lhs(c.Lhs[i])
				}
			}
			c.Rhs = rhs
			head = []ast.Stmt{c}
		}
		clauses = append(clauses, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(args))}},
			Body: append(head, x.stmts(cc.Body)...),
		})
		args = append(args, op)
	}
	if len(clauses) == 0 {
		return &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call("Select", ast.NewIdent("false"))}, &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}}}
	}
	if def == "false" {
		// keeps the statement terminating where a select without default is
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}}})
	}
	var sw ast.Stmt = &ast.SwitchStmt{Tag: call("Select", append([]ast.Expr{ast.NewIdent(def)}, args...)...), Body: &ast.BlockStmt{List: clauses}}
	if label != nil {
		sw = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{List: append(pre, sw)}
}
