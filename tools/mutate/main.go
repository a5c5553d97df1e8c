package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"regexp"
	"strconv"
	"strings"
)

type M struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
	Desc string `json:"desc"`
	A    int    `json:"a"`
	B    int    `json:"b"`
	New  string `json:"new"`
}

var out []M

func main() {
	repo := os.Args[1]
	for _, f := range os.Args[2:] {
		b, err := os.ReadFile(repo + "/" + f)
		if err != nil {
			panic(err)
		}
		if strings.HasSuffix(f, ".s") {
			asm(f, b)
		} else {
			gofile(f, b)
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.XOR: {"&"},
	token.ADD_ASSIGN: {"-="}, token.SUB_ASSIGN: {"+="}, token.MUL_ASSIGN: {"/="}, token.SHL_ASSIGN: {">>="}, token.SHR_ASSIGN: {"<<="}, token.OR_ASSIGN: {"&="}, token.XOR_ASSIGN: {"|="}, token.AND_ASSIGN: {"|="},
}

func gofile(f string, src []byte) {
	fs := token.NewFileSet()
	a, err := parser.ParseFile(fs, f, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	for _, d := range a.Decls {
		name := "decl"
		var root ast.Node = d
		if fd, ok := d.(*ast.FuncDecl); ok {
			name = fd.Name.Name
			if fd.Recv != nil {
				name = txt(fd.Recv.List[0].Type) + "." + name
			}
		} else if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			continue
		}
		add := func(p, e token.Pos, desc, nw string) {
			out = append(out, M{f, fs.Position(p).Line, name, desc, off(p), off(e), nw})
		}
		islog := func(n ast.Node) bool {
			t := txt(n)
			return strings.HasPrefix(t, "log.") || strings.HasPrefix(t, "fmt.Print") || strings.HasPrefix(t, "panic(") || strings.HasPrefix(t, "fmt.Fprint")
		}
		block := func(l []ast.Stmt) {
			for i := 0; i+1 < len(l); i++ {
				x, y := l[i], l[i+1]
				if islog(x) || islog(y) {
					continue
				}
				add(x.Pos(), y.End(), "swap statements: "+short(txt(x))+" <-> "+short(txt(y)), txt(y)+"\n"+txt(x))
			}
			for _, s := range l {
				switch v := s.(type) {
				case *ast.ExprStmt:
					if !islog(v) {
						add(s.Pos(), s.End(), "delete "+short(txt(s)), "")
					}
				case *ast.AssignStmt:
					if v.Tok != token.DEFINE {
						add(s.Pos(), s.End(), "delete "+short(txt(s)), "")
					}
				case *ast.IncDecStmt, *ast.SendStmt, *ast.BranchStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt:
					add(s.Pos(), s.End(), "delete "+short(txt(s)), "")
				case *ast.GoStmt:
					add(s.Pos(), s.End(), "delete "+short(txt(s)), "")
					add(s.Pos(), s.End(), "go->call "+short(txt(s)), txt(v.Call))
				case *ast.DeferStmt:
					add(s.Pos(), s.End(), "delete "+short(txt(s)), "")
					add(s.Pos(), s.End(), "defer->call "+short(txt(s)), txt(v.Call))
				case *ast.ReturnStmt:
					if len(v.Results) == 0 {
						add(s.Pos(), s.End(), "delete return", "")
					}
				}
			}
		}
		ast.Inspect(root, func(n ast.Node) bool {
			switch v := n.(type) {
			case *ast.CallExpr:
				if islog(v) {
					return false
				}
			case *ast.BinaryExpr:
				for _, s := range swaps[v.Op] {
					e := v.OpPos + token.Pos(len(v.Op.String()))
					add(v.OpPos, e, v.Op.String()+" -> "+s+" in "+short(txt(v)), s)
				}
			case *ast.AssignStmt:
				for _, s := range swaps[v.Tok] {
					add(v.TokPos, v.TokPos+token.Pos(len(v.Tok.String())), v.Tok.String()+" -> "+s+" in "+short(txt(v)), s)
				}
				if v.Tok == token.ASSIGN && len(v.Rhs) == 1 {
					if id, ok := v.Rhs[0].(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
						add(id.Pos(), id.End(), "negate "+short(txt(v)), map[string]string{"true": "false", "false": "true"}[id.Name])
					}
				}
			case *ast.IncDecStmt:
				s := "--"
				if v.Tok == token.DEC {
					s = "++"
				}
				add(v.TokPos, v.TokPos+2, "flip "+txt(v), s)
			case *ast.UnaryExpr:
				if v.Op == token.NOT || v.Op == token.SUB {
					add(v.OpPos, v.OpPos+1, "drop "+v.Op.String()+" in "+short(txt(v)), "")
				}
			case *ast.IfStmt:
				add(v.Cond.Pos(), v.Cond.End(), "if true: "+short(txt(v.Cond)), "("+txt(v.Cond)+") || true")
				add(v.Cond.Pos(), v.Cond.End(), "if false: "+short(txt(v.Cond)), "("+txt(v.Cond)+") && false")
			case *ast.BasicLit:
				switch v.Kind {
				case token.INT:
					x, err := strconv.ParseInt(v.Value, 0, 64)
					if err == nil {
						add(v.Pos(), v.End(), v.Value+" +1", fmt.Sprint(x+1))
						if x > 0 {
							add(v.Pos(), v.End(), v.Value+" -1", fmt.Sprint(x-1))
						}
						if x > 8 {
							add(v.Pos(), v.End(), v.Value+" *2", fmt.Sprint(x*2))
						}
					}
				case token.FLOAT:
					x, err := strconv.ParseFloat(v.Value, 64)
					if err == nil {
						add(v.Pos(), v.End(), v.Value+" *1.001", fmt.Sprint(x*1.001))
						add(v.Pos(), v.End(), v.Value+" +1", fmt.Sprint(x+1))
					}
				case token.STRING:
					if len(v.Value) > 2 {
						add(v.Pos(), v.End(), "string "+short(v.Value), v.Value[:len(v.Value)-1]+"x"+v.Value[len(v.Value)-1:])
					}
				case token.CHAR:
					add(v.Pos(), v.End(), "char "+v.Value, "'~'")
				}
			case *ast.ReturnStmt:
				for i, r := range v.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						add(r.Pos(), r.End(), "return nil error", "nil")
					}
					if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
						add(id.Pos(), id.End(), "negate "+short(txt(v)), map[string]string{"true": "false", "false": "true"}[id.Name])
					}
					_ = i
				}
			case *ast.BlockStmt:
				block(v.List)
			case *ast.CaseClause:
				block(v.Body)
				if len(v.Body) > 0 {
					add(v.Body[0].Pos(), v.Body[len(v.Body)-1].End(), "empty case", "")
				}
			case *ast.CommClause:
				block(v.Body)
			case *ast.SliceExpr:
				if v.High != nil {
					add(v.High.Pos(), v.High.End(), "slice high -1 "+short(txt(v)), "("+txt(v.High)+")-1")
				}
				if v.Low != nil {
					add(v.Low.Pos(), v.Low.End(), "slice low +1 "+short(txt(v)), "("+txt(v.Low)+")+1")
				}
			}
			return true
		})
	}
}

func short(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 60 {
		s = s[:60] + "…"
	}
	return s
}

var pairs = []string{"JLT JLE", "JLE JLT", "JGE JGT", "JGT JGE", "JL JLE", "JG JGE", "JNE JMP", "JEQ JNE", "JZ JNZ", "ADDPS SUBPS", "ADDSS SUBSS", "MULPS ADDPS", "MULSS ADDSS", "MAXPS MINPS", "MINPS MAXPS", "MAXSS MINSS", "MINSS MAXSS", "MOVAPS MOVSS", "ADDQ SUBQ", "SUBQ ADDQ", "JB JBE", "JAE JA", "JBE JB", "JA JAE", "SUBPS ADDPS", "SUBSS ADDSS", "PADDW PSUBW", "CMPQ TESTQ", "MOVUPS MOVSS", "MOVUPD MOVSD", "ADDPD SUBPD", "SUBPD ADDPD", "MULPD ADDPD", "ADDSD SUBSD", "SUBSD ADDSD", "PMOVSXWD PMOVZXWD", "PMOVSXBD PMOVZXBD", "PMOVZXBD PMOVSXBD", "MOVWLSX MOVWLZX", "MOVBLSX MOVBLZX", "MOVBLZX MOVBLSX", "MOVWQSX MOVWQZX", "MOVBQZX MOVBQSX", "MOVBQSX MOVBQZX", "SHRQ SARQ", "SARQ SHRQ",
	"BLT BLE", "BLE BLT", "BGE BGT", "BGT BGE", "BNE B", "BEQ BNE", "BEQ B", "BHS BHI", "BLO BLS", "ADD SUB", "SUB ADD", "ADDF SUBF", "SUBF ADDF", "MULF ADDF", "MOVH MOVHU", "MOVHS MOVHU", "MOVB MOVBU", "MOVBS MOVBU", "FADDS FSUBS", "FSUBS FADDS", "FMULS FADDS", "FADDD FSUBD", "FMULD FADDD", "CMP CMN", "ADDS SUBS", "SUBS ADDS", "RSB SUB", "CBZ CBNZ", "SRA SRL", "ASR LSR"}

func asm(f string, src []byte) {
	pos := 0
	fn := ""
	imm := regexp.MustCompile(`\$(0x[0-9a-fA-F]+|\d+)`)
	disp := regexp.MustCompile(`\b(\d+|0x[0-9a-fA-F]+)\(`)
	for i, l := range strings.Split(string(src), "\n") {
		start := pos
		pos += len(l) + 1
		code := l
		if k := strings.Index(code, "//"); k >= 0 {
			code = code[:k]
		}
		t := strings.TrimSpace(code)
		if strings.HasPrefix(t, "TEXT") {
			fn = strings.Fields(t)[1]
			continue
		}
		if t == "" || strings.HasPrefix(t, "#") || strings.HasSuffix(t, ":") || strings.HasPrefix(t, "GLOBL") {
			continue
		}
		add := func(a, b int, d, nw string) {
			out = append(out, M{f, i + 1, fn, d + " in " + t, start + a, start + b, nw})
		}
		if !strings.HasPrefix(t, "DATA") && t != "RET" {
			add(0, len(code), "delete", "")
		}
		op := strings.Fields(t)[0]
		for _, p := range pairs {
			q := strings.Fields(p)
			if q[0] == op {
				k := strings.Index(code, op)
				add(k, k+len(op), q[0]+"->"+q[1], q[1])
			}
		}
		for _, re := range []*regexp.Regexp{imm, disp} {
			for _, m := range re.FindAllStringSubmatchIndex(code, -1) {
				x, err := strconv.ParseInt(code[m[2]:m[3]], 0, 64)
				if err != nil {
					continue
				}
				add(m[2], m[3], "+1", fmt.Sprint(x+1))
				if x > 0 {
					add(m[2], m[3], "-1", fmt.Sprint(x-1))
				}
				if x >= 4 {
					add(m[2], m[3], "+4", fmt.Sprint(x+4))
				}
			}
		}
	}
}
