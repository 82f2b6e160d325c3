// Command mutate lists small changes of a Go source file, or writes one of them. It is used to look for changes that no
// check notices; the checks do not use it.
//
//	mutate FILE            list: index, line, description
//	mutate FILE INDEX      print the changed file
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strconv"
)

type edit struct {
	from, to int
	text     string
	desc     string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var es []edit
	add := func(a, b token.Pos, s, d string) { es = append(es, edit{off(a), off(b), s, d}) }
	rep := func(n ast.Node, s string) { add(n.Pos(), n.End(), s, text(n)+" -> "+s) }

	fields := map[string][]string{} // type text -> names of fields, per struct
	sibling := map[string][]string{}
	ast.Inspect(f, func(n ast.Node) bool {
		if st, ok := n.(*ast.StructType); ok {
			by := map[string][]string{}
			for _, fl := range st.Fields.List {
				for _, nm := range fl.Names {
					by[text(fl.Type)] = append(by[text(fl.Type)], nm.Name)
				}
			}
			for _, l := range by {
				for _, a := range l {
					for _, b := range l {
						if a != b {
							sibling[a] = append(sibling[a], b)
						}
					}
				}
			}
		}
		return true
	})
	_ = fields
	ops := map[token.Token][]string{
		token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<"}, token.GEQ: {">", "<="},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+", "/"}, token.QUO: {"*"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.REM: {"/"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"&"},
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			if n.Tok == token.IMPORT || n.Tok == token.TYPE {
				return false
			}
		case *ast.BinaryExpr:
			for _, o := range ops[n.Op] {
				add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o, text(n)+" : "+n.Op.String()+" -> "+o)
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
					rep(n, fmt.Sprint(v+1))
					if v > 0 {
						rep(n, fmt.Sprint(v-1))
					}
				}
			}
		case *ast.Ident:
			if n.Name == "true" {
				rep(n, "false")
			}
			if n.Name == "false" {
				rep(n, "true")
			}
		case *ast.SelectorExpr:
			for _, s := range sibling[n.Sel.Name] {
				add(n.Sel.Pos(), n.Sel.End(), s, text(n)+" : ."+n.Sel.Name+" -> ."+s)
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				rep(n, text(n.X))
			}
			if n.Op == token.SUB {
				rep(n, text(n.X))
			}
		case *ast.IfStmt:
			if n.Cond != nil {
				rep(n.Cond, "!("+text(n.Cond)+")")
				add(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "if "+text(n.Cond)+" never")
				add(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true", "if "+text(n.Cond)+" always")
			}
		case *ast.ForStmt:
			if n.Cond != nil {
				add(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "for "+text(n.Cond)+" never")
			}
		case *ast.IncDecStmt:
			o := "--"
			if n.Tok == token.DEC {
				o = "++"
			}
			rep(n, text(n.X)+o)
		case *ast.AssignStmt:
			switch n.Tok {
			case token.ADD_ASSIGN:
				add(n.TokPos, n.TokPos+2, "-=", text(n)+" : -=")
			case token.SUB_ASSIGN:
				add(n.TokPos, n.TokPos+2, "+=", text(n)+" : +=")
			}
		case *ast.BranchStmt:
			if n.Tok == token.BREAK && n.Label == nil {
				rep(n, "continue")
			}
			if n.Tok == token.CONTINUE && n.Label == nil {
				rep(n, "break")
			}
		case *ast.ReturnStmt:
			for _, r := range n.Results {
				t := text(r)
				if t == "nil" || t == "true" || t == "false" {
					continue
				}
				if _, ok := r.(*ast.CallExpr); ok && len(n.Results) == 1 {
					continue
				}
				if len(n.Results) == 1 {
					if _, ok := r.(*ast.BinaryExpr); ok {
						continue
					}
				}
				if len(n.Results) > 1 {
					rep(r, "nil")
				}
			}
		case *ast.CallExpr:
			if len(n.Args) == 2 && text(n.Args[0]) != text(n.Args[1]) {
				add(n.Args[0].Pos(), n.Args[1].End(), text(n.Args[1])+", "+text(n.Args[0]), text(n)+" : arguments swapped")
			}
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) == 2 {
				rep(n, text(n.Args[0]))
			}
		case *ast.SliceExpr:
			if n.Low != nil {
				add(n.Low.Pos(), n.Low.End(), text(n.Low)+"+1", text(n)+" : low+1")
			}
			if n.High != nil {
				add(n.High.Pos(), n.High.End(), text(n.High)+"-1", text(n)+" : high-1")
			}
		case *ast.IndexExpr:
			add(n.Index.Pos(), n.Index.End(), text(n.Index)+"+1", text(n)+" : index+1")
			add(n.Index.Pos(), n.Index.End(), text(n.Index)+"-1", text(n)+" : index-1")
		case *ast.BlockStmt:
			for i, s := range n.List {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.BranchStmt, *ast.SendStmt:
					add(s.Pos(), s.End(), "", "delete "+text(s))
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						d := ""
						for _, r := range s.Rhs {
							d += "_ = " + text(r) + "; "
						}
						add(s.Pos(), s.End(), d, "delete "+text(s))
					}
				case *ast.IfStmt:
					if s.Else != nil {
						add(s.Body.End(), s.Else.End(), "", "delete else of if "+text(s.Cond))
					}
				}
				if i+1 < len(n.List) {
					a, b := n.List[i], n.List[i+1]
					simple := func(s ast.Stmt) bool {
						switch s := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt:
							return true
						case *ast.AssignStmt:
							return s.Tok != token.DEFINE
						}
						return false
					}
					if simple(a) && simple(b) {
						add(a.Pos(), b.End(), text(b)+"; "+text(a), "swap "+text(a)+" / "+text(b))
					}
				}
			}
		}
		return true
	})
	sort.SliceStable(es, func(i, j int) bool { return es[i].from < es[j].from })
	if len(os.Args) == 2 {
		for i, e := range es {
			line := 1
			for _, c := range src[:e.from] {
				if c == '\n' {
					line++
				}
			}
			fmt.Printf("%d\t%d\t%q\n", i, line, e.desc)
		}
		return
	}
	k, _ := strconv.Atoi(os.Args[2])
	e := es[k]
	os.Stdout.Write(src[:e.from])
	fmt.Print(e.text)
	os.Stdout.Write(src[e.to:])
}
