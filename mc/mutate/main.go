// mutate lists small changes of Go files as byte ranges with replacements, one JSON object
// per line. tools/mutate.py applies them one at a time to see which ones no check notices.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type change struct {
	File     string
	Line     int
	Op       string
	From, To int
	New, Old string
}

func main() {
	root := os.Args[1]
	for _, rel := range os.Args[2:] {
		list(root, rel)
	}
}

func list(root, rel string) {
	src, err := os.ReadFile(filepath.Join(root, rel))
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, rel, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	out := json.NewEncoder(os.Stdout)
	put := func(op string, from, to token.Pos, new string) {
		out.Encode(change{rel, fs.Position(from).Line, op, off(from), off(to), new, string(src[off(from):off(to)])})
	}
	rep := func(op string, n ast.Node, new string) { put(op, n.Pos(), n.End(), new) }
	isLog := func(n ast.Node) bool {
		t := text(n)
		return strings.HasPrefix(t, "logger.") || strings.HasPrefix(t, "errors.New") || strings.HasPrefix(t, "fmt.Errorf")
	}
	swap := map[token.Token][]string{
		token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
		token.AND: {"|"}, token.OR: {"&", "^"}, token.XOR: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"},
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.GenDecl:
			if x.Tok == token.IMPORT || x.Tok == token.TYPE {
				return false
			}
		case *ast.CallExpr:
			if isLog(x) {
				return false
			}
			for i := 0; i+1 < len(x.Args); i++ {
				a, b := text(x.Args[i]), text(x.Args[i+1])
				if a != b {
					put("swap args", x.Args[i].Pos(), x.Args[i+1].End(), b+", "+a)
				}
			}
		case *ast.BinaryExpr:
			for _, s := range swap[x.Op] {
				put("operator", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				rep("no not", x, text(x.X))
			}
		case *ast.IncDecStmt:
			if x.Tok == token.INC {
				put("incdec", x.TokPos, x.End(), "--")
			} else {
				put("incdec", x.TokPos, x.End(), "++")
			}
		case *ast.IfStmt:
			rep("never", x.Cond, "("+text(x.Cond)+") && false")
			rep("always", x.Cond, "("+text(x.Cond)+") || true")
		case *ast.ExprStmt:
			if isLog(x.X) {
				return false
			}
			rep("no call", x, "")
		case *ast.DeferStmt:
			rep("no call", x, "")
		case *ast.GoStmt:
			rep("no go", x, text(x.Call))
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				rep("no assignment", x, "")
			}
			if x.Tok == token.ASSIGN && len(x.Lhs) == 1 {
				rep("no assignment", x, "_ = "+text(x.Rhs[0]))
			}
		case *ast.ReturnStmt:
			if len(x.Results) > 0 {
				l := x.Results[len(x.Results)-1]
				if t := text(l); t == "err" || strings.HasSuffix(t, "Err") || isLog(l) {
					rep("no error", l, "nil")
				}
				for _, r := range x.Results {
					switch text(r) {
					case "true":
						rep("bool", r, "false")
					case "false":
						rep("bool", r, "true")
					}
				}
			}
		case *ast.BranchStmt:
			switch x.Tok {
			case token.BREAK:
				rep("branch", x, "continue")
			case token.CONTINUE:
				rep("branch", x, "break")
			}
		case *ast.ForStmt:
			put("loop once", x.Body.Rbrace, x.Body.Rbrace, "\nbreak\n")
			put("no loop", x.Body.Lbrace+1, x.Body.Lbrace+1, "\nbreak\n")
		case *ast.RangeStmt:
			put("loop once", x.Body.Rbrace, x.Body.Rbrace, "\nbreak\n")
			put("no loop", x.Body.Lbrace+1, x.Body.Lbrace+1, "\nbreak\n")
			if x.Value != nil {
				put("skip first", x.X.End(), x.X.End(), "[1:]")
			}
		case *ast.KeyValueExpr:
			if id, ok := x.Key.(*ast.Ident); ok && id.Name != "" {
				rep("no field", x, "")
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					rep("number", x, fmt.Sprint(v+1))
					if v > 0 {
						rep("number", x, fmt.Sprint(v-1))
					}
				}
			case token.STRING:
				if len(x.Value) > 2 {
					rep("string", x, x.Value[:len(x.Value)-1]+"x"+x.Value[len(x.Value)-1:])
				}
			}
		case *ast.SliceExpr:
			if x.High != nil {
				rep("slice", x.High, "("+text(x.High)+")-1")
			}
			if x.Low != nil {
				rep("slice", x.Low, "("+text(x.Low)+")+1")
			}
		}
		return true
	})
}
