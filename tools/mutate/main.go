// mutate lists small changes of Go files: for each file given, JSON lines
// {"file", "line", "what", "from", "to", "old", "new"} where the bytes from..to are replaced.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type change struct {
	File string `json:"file"`
	Line int    `json:"line"`
	What string `json:"what"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Old  string `json:"old"`
	New  string `json:"new"`
}

var binary = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
	token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"}, token.AND_NOT: {"&"}, token.SHL: {">>"},
}
var names = map[string]string{"Lower": "Upper", "Upper": "Lower", "Start": "End", "End": "Start", "Year": "Month", "Month": "Day", "Day": "Month",
	"Open": "Unknown", "Unknown": "Open", "Uncertain": "Approximate", "Approximate": "Uncertain", "Before": "After", "After": "Before",
	"lower": "upper", "upper": "lower", "start": "end", "end": "start", "HasPrefix": "HasSuffix", "HasSuffix": "HasPrefix", "ANY": "ALL", "ALL": "ANY",
	"OPEN": "UNKNOWN", "UNKNOWN": "OPEN"}

func main() {
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		tree, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		pos := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(what string, from, to token.Pos, text string) {
			a, b := pos(from), pos(to)
			old := string(src[a:b])
			if old == text {
				return
			}
			e, _ := json.Marshal(change{f, fset.Position(from).Line, what, a, b, old, text})
			fmt.Fprintln(w, string(e))
		}
		text := func(n ast.Node) string { return string(src[pos(n.Pos()):pos(n.End())]) }
		ast.Inspect(tree, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, o := range binary[x.Op] {
					emit("operator", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit("left alone", x.Pos(), x.End(), text(x.X))
					emit("right alone", x.Pos(), x.End(), text(x.Y))
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit("negation", x.Pos(), x.End(), text(x.X))
				}
			case *ast.IfStmt:
				emit("condition", x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
				emit("condition", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false")
				emit("condition", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true")
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch y := s.(type) {
					case *ast.ExprStmt:
						emit("no statement", s.Pos(), s.End(), "")
					case *ast.IncDecStmt:
						emit("no statement", s.Pos(), s.End(), "")
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							use := ""
							for _, e := range y.Rhs {
								if id, ok := e.(*ast.Ident); ok && id.Name != "true" && id.Name != "false" && id.Name != "nil" {
									use += "_ = " + id.Name + ";"
								}
							}
							emit("no statement", s.Pos(), s.End(), use)
						}
					}
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					if y, ok := s.(*ast.AssignStmt); ok && y.Tok != token.DEFINE {
						emit("no statement", s.Pos(), s.End(), "")
					}
				}
				if len(x.List) > 1 {
					for i, e := range x.List {
						if i+1 < len(x.List) {
							emit("no case", e.Pos(), x.List[i+1].Pos(), "")
						} else {
							emit("no case", x.List[i-1].End(), e.End(), "")
						}
					}
				}
			case *ast.BranchStmt:
				if x.Label == nil && x.Tok == token.BREAK {
					emit("branch", x.Pos(), x.End(), "continue")
				}
				if x.Label == nil && x.Tok == token.CONTINUE {
					emit("branch", x.Pos(), x.End(), "break")
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.Atoi(x.Value); err == nil {
						emit("number", x.Pos(), x.End(), strconv.Itoa(v+1))
						if v > 0 {
							emit("number", x.Pos(), x.End(), strconv.Itoa(v-1))
						}
					}
				case token.STRING:
					if len(x.Value) > 2 {
						v := x.Value
						emit("text", x.Pos(), x.End(), v[:1]+v[2:])
						emit("text", x.Pos(), x.End(), v[:len(v)-2]+v[len(v)-1:])
						emit("text", x.Pos(), x.End(), v[:1]+v[len(v)-1:])
						for _, r := range [][2]string{{"+", "*"}, {"*", "+"}, {"?", ""}, {"^", ""}, {"$", ""}, {"{2}", "{1,2}"}, {"{4}", "{3,4}"}, {"{4}", "{4,5}"}, {"\\d", "[0-9X]"},
							{"|", ""}, {"(?i)", ""}, {"\\-", "\\-?"}, {"X", ""}, {"%", ""}, {"~", ""}, {"\\-?", ""}, {"2-3", "2-4"}, {"0-9", "1-9"}, {"9]", "8]"}, {"[0", "[1"}} {
							for i := 0; ; {
								j := strings.Index(v[i:], r[0])
								if j < 0 {
									break
								}
								i += j
								emit("pattern", x.Pos(), x.End(), v[:i]+r[1]+v[i+len(r[0]):])
								i += len(r[0])
							}
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit("truth", x.Pos(), x.End(), "false")
				}
				if x.Name == "false" {
					emit("truth", x.Pos(), x.End(), "true")
				}
				if o, ok := names[x.Name]; ok {
					emit("name", x.Pos(), x.End(), o)
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(x.Args); i++ {
					emit("arguments", x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+", "+text(x.Args[i]))
				}
			case *ast.ReturnStmt:
				for _, e := range x.Results {
					if id, ok := e.(*ast.Ident); ok && id.Name == "err" {
						emit("no error", e.Pos(), e.End(), "nil")
					}
				}
			}
			return true
		})
	}
}
