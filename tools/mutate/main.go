// mutate lists small changes of Go files: one JSON object a line with file,
// from, to (byte offsets), new (replacement text) and what.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File     string `json:"file"`
	From, To int
	New      string
	What     string
	Line     int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(a, b token.Pos, s, what string) {
			enc.Encode(mut{file, off(a), off(b), s, what, fs.Position(a).Line})
		}
		cond := func(e ast.Expr) {
			if e == nil {
				return
			}
			emit(e.Pos(), e.End(), "("+text(e)+") || true", "condition true")
			emit(e.Pos(), e.End(), "("+text(e)+") && false", "condition false")
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec, *ast.Field:
				return false
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<"}, token.GEQ: {">", "<="},
					token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.SHL: {">>"}, token.OR: {"^", "&"}, token.AND: {"|"}}
				for _, o := range alt[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o, n.Op.String()+" -> "+o)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), text(n.X), "left operand only")
					emit(n.Pos(), n.End(), text(n.Y), "right operand only")
				}
			case *ast.IfStmt:
				cond(n.Cond)
			case *ast.ForStmt:
				if n.Cond != nil {
					emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "no iteration")
				}
			case *ast.RangeStmt:
				emit(n.Body.Lbrace+1, n.Body.Lbrace+1, "\nbreak\n", "no iteration")
				emit(n.Body.Rbrace, n.Body.Rbrace, "\nbreak\n", "one iteration")
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit(n.Pos(), n.End(), text(n.X), "without !")
				}
			case *ast.BlockStmt:
				for _, s := range n.List {
					del(s, emit)
				}
			case *ast.CaseClause:
				for _, s := range n.Body {
					del(s, emit)
				}
				if len(n.List) > 1 {
					for i := range n.List {
						a, b := n.List[i].Pos(), n.List[i].End()
						if i+1 < len(n.List) {
							b = n.List[i+1].Pos()
						} else {
							a = n.List[i-1].End()
						}
						emit(a, b, "", "case without one value")
					}
				}
				if len(n.List) > 0 {
					emit(n.Pos(), n.End(), "", "without case")
				}
			case *ast.CompositeLit:
				for i, e := range n.Elts {
					a, b := e.Pos(), e.End()
					if i+1 < len(n.Elts) {
						b = n.Elts[i+1].Pos()
					} else if i > 0 {
						a = n.Elts[i-1].End()
					}
					emit(a, b, "", "without element "+text(e))
				}
			case *ast.CallExpr:
				if len(n.Args) == 2 && !n.Ellipsis.IsValid() {
					emit(n.Args[0].Pos(), n.Args[1].End(), text(n.Args[1])+", "+text(n.Args[0]), "arguments swapped")
				}
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) == 2 {
					emit(n.Pos(), n.End(), text(n.Args[0]), "nothing appended")
				}
				if len(n.Args) == 1 {
					emit(n.Pos(), n.End(), text(n.Args[0]), "argument instead of call")
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					emit(n.Low.Pos(), n.Low.End(), "", "without low")
				}
				if n.High != nil && n.Max == nil {
					emit(n.High.Pos(), n.High.End(), "", "without high")
				}
			case *ast.ReturnStmt:
				for _, e := range n.Results {
					switch t := text(e); t {
					case "nil", "true", "false":
					default:
						for _, z := range []string{"nil", `""`, "0", "false", "true"} {
							emit(e.Pos(), e.End(), z, "returns "+z)
						}
					}
				}
			case *ast.Ident:
				if n.Name == "true" {
					emit(n.Pos(), n.End(), "false", "true -> false")
				} else if n.Name == "false" {
					emit(n.Pos(), n.End(), "true", "false -> true")
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit(n.Pos(), n.End(), fmt.Sprint(v+1), "number + 1")
						emit(n.Pos(), n.End(), "("+fmt.Sprint(v-1)+")", "number - 1")
					}
				case token.STRING:
					s, _ := strconv.Unquote(n.Value)
					if s == "" {
						emit(n.Pos(), n.End(), `"zz"`, "string")
					} else {
						emit(n.Pos(), n.End(), strconv.Quote(s[:len(s)-1]), "string shorter")
						emit(n.Pos(), n.End(), strconv.Quote(s[1:]), "string shorter")
					}
				case token.CHAR:
					emit(n.Pos(), n.End(), "'\\x01'", "character")
				}
			}
			return true
		})
	}
}

func del(s ast.Stmt, emit func(a, b token.Pos, s, what string)) {
	switch s := s.(type) {
	case *ast.AssignStmt:
		if s.Tok == token.DEFINE {
			return
		}
	case *ast.DeclStmt, *ast.ReturnStmt:
		return
	}
	emit(s.Pos(), s.End(), "", "statement deleted")
}
