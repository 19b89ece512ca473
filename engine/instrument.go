package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// instrument returns the sources of the repository and harness packages with
// their synchronisation operations going through the replay's gates. Line
// numbers stay as they are.
func instrument(pkgs []*packages.Package, overlay map[string]string, gates bool) (map[string][]byte, error) {
	out := make(map[string][]byte)
	env := make(map[string]bool) // environment functions the harness replaces
	for _, f := range overlay {
		b, _ := os.ReadFile(f)
		for _, m := range envRe.FindAllSubmatch(b, -1) {
			env[string(m[1])] = true
		}
	}
	var err error
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		dep := timedDeps[p.PkgPath]
		if dep == "" && p.PkgPath != repoPath && !strings.HasPrefix(p.PkgPath, repoPath+"/") || strings.HasPrefix(p.PkgPath, repoPath+"/zzvf") {
			return
		}
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			src := name
			if o, ok := overlay[name]; ok {
				src = o
			}
			b, e := os.ReadFile(src)
			if e != nil {
				err = e
				return
			}
			harness := strings.HasPrefix(filepath.Base(name), "zz_verif_")
			ins := &instrumenter{p: p, src: b, imports: make(map[string]string)}
			if !harness {
				ins.env = env
			}
			n := b
			if gates {
				n = ins.file(f)
			}
			if dep != "" {
				name = filepath.Join(repoDir, "zzvf", "dep", dep, filepath.Base(name))
			}
			out[name] = rewriteImports(n, harness)
		}
	})
	return out, err
}

type edit struct {
	pos, end int // replaced text
	text     string
	seq      int
}

var envRe = regexp.MustCompile(`zzvf\.Env\("([^"]+)"`)

type instrumenter struct {
	p       *packages.Package
	src     []byte
	edits   []edit
	env     map[string]bool
	imports map[string]string
}

// replaced is the full name of the function that e denotes if the harness
// replaces it.
func (x *instrumenter) replaced(e ast.Expr) (string, *types.Func) {
	var id *ast.Ident
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		id = e
	case *ast.SelectorExpr:
		id = e.Sel
	default:
		return "", nil
	}
	f, ok := x.p.TypesInfo.Uses[id].(*types.Func)
	if !ok || !x.env[f.FullName()] {
		return "", nil
	}
	return f.FullName(), f
}

func (x *instrumenter) alias(path string) string {
	if x.imports[path] == "" {
		x.imports[path] = fmt.Sprintf("zzenv%d", len(x.imports))
	}
	return x.imports[path]
}

// environment redirects calls of functions the harness replaces.
func (x *instrumenter) environment(c *ast.CallExpr) {
	if sig, ok := x.p.TypesInfo.TypeOf(c.Fun).(*types.Signature); ok && x.env["(*os.File).Write"] {
		for i, a := range c.Args {
			if i >= sig.Params().Len() {
				break
			}
			it, ok := sig.Params().At(i).Type().Underlying().(*types.Interface)
			if t := x.p.TypesInfo.TypeOf(a); ok && t != nil && t.String() == "*os.File" && it.NumMethods() > 0 {
				x.ins(a.Pos(), "zzvf.FileIO(")
				x.ins(a.End(), ")")
			}
		}
	}
	name, f := x.replaced(c.Fun)
	if f == nil {
		return
	}
	recv := f.Type().(*types.Signature).Recv()
	if recv == nil {
		x.ins(c.Fun.Pos(), fmt.Sprintf("zzvf.Call(%q, ", name))
		x.ins(c.Fun.End(), ")")
		return
	}
	sel, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr)
	if !ok {
		return
	}
	pt, ok := recv.Type().(*types.Pointer)
	if !ok {
		return
	}
	obj := pt.Elem().(*types.Named).Obj()
	// the receiver may be an embedded field
	at, path := x.p.TypesInfo.TypeOf(sel.X), ""
	if s, ok := x.p.TypesInfo.Selections[sel]; ok {
		for _, i := range s.Index()[:len(s.Index())-1] {
			if p, ok := at.Underlying().(*types.Pointer); ok {
				at = p.Elem()
			}
			st, ok := at.Underlying().(*types.Struct)
			if !ok {
				return
			}
			path += "." + st.Field(i).Name()
			at = st.Field(i).Type()
		}
	}
	amp := "&"
	if _, ok := at.Underlying().(*types.Pointer); ok {
		amp = ""
	}
	x.ins(sel.X.Pos(), fmt.Sprintf("zzvf.Call(%q, (*%s.%s).%s)(%s", name, x.alias(obj.Pkg().Path()), obj.Name(), f.Name(), amp))
	sep := ", "
	if len(c.Args) == 0 {
		sep = ""
	}
	x.repl(sel.X.End(), c.Lparen+1, path+sep)
}

func (x *instrumenter) off(p token.Pos) int { return x.p.Fset.Position(p).Offset }

func (x *instrumenter) ins(p token.Pos, text string) {
	o := x.off(p)
	x.edits = append(x.edits, edit{o, o, text, len(x.edits)})
}

func (x *instrumenter) repl(p, e token.Pos, text string) {
	x.edits = append(x.edits, edit{x.off(p), x.off(e), text, len(x.edits)})
}

func (x *instrumenter) isChan(e ast.Expr) bool {
	t := x.p.TypesInfo.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (x *instrumenter) file(f *ast.File) []byte {
	skip := make(map[ast.Node]bool) // operations of select clauses
	two := make(map[ast.Expr]bool)  // receives with two results
	label := make(map[ast.Stmt]token.Pos)
	stmtOK := make(map[ast.Stmt]bool) // statements others can be put next to
	ast.Inspect(f, func(n ast.Node) bool {
		var list []ast.Stmt
		switch s := n.(type) {
		case *ast.BlockStmt:
			list = s.List
		case *ast.CaseClause:
			list = s.Body
		case *ast.CommClause:
			list = s.Body
			switch c := s.Comm.(type) {
			case *ast.SendStmt:
				skip[c] = true
			case *ast.ExprStmt:
				skip[ast.Unparen(c.X)] = true
			case *ast.AssignStmt:
				skip[ast.Unparen(c.Rhs[0])] = true
			}
		case *ast.AssignStmt:
			if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
				two[ast.Unparen(s.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(s.Names) == 2 && len(s.Values) == 1 {
				two[ast.Unparen(s.Values[0])] = true
			}
		case *ast.LabeledStmt:
			label[s.Stmt] = s.Pos()
		}
		for _, s := range list {
			stmtOK[s] = true
			if l, ok := s.(*ast.LabeledStmt); ok {
				stmtOK[l.Stmt] = true
			}
		}
		return true
	})
	ast.Inspect(f, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.UnaryExpr:
			if s.Op == token.ARROW && !skip[s] {
				fn := "zzvf.Recv("
				if two[s] {
					fn = "zzvf.Recv2("
				}
				x.repl(s.OpPos, s.OpPos+2, fn)
				x.ins(s.End(), ")")
			}
		case *ast.SendStmt:
			if !skip[s] {
				x.ins(s.Pos(), "zzvf.SendTo(")
				x.repl(s.Arrow, s.Arrow+2, ")(")
				x.ins(s.End(), ")")
			}
		case *ast.CallExpr:
			x.environment(s)
			if id, ok := s.Fun.(*ast.Ident); ok && id.Name == "close" {
				if _, b := x.p.TypesInfo.Uses[id].(*types.Builtin); b {
					x.repl(id.Pos(), id.End(), "zzvf.Close")
				}
			}
		case *ast.RangeStmt:
			if x.isChan(s.X) {
				x.ins(s.X.Pos(), "zzvf.Range(")
				x.ins(s.X.End(), ")")
			}
		case *ast.GoStmt:
			if !stmtOK[s] {
				break
			}
			if id, ok := s.Call.Fun.(*ast.Ident); ok {
				if _, b := x.p.TypesInfo.Uses[id].(*types.Builtin); b {
					break
				}
			}
			x.ins(s.Call.Fun.Pos(), "zzvf.Wrap(")
			inst := ""
			if id, ok := ast.Unparen(s.Call.Fun).(*ast.Ident); ok {
				if t, ok := x.p.TypesInfo.Instances[id]; ok {
					var args []string
					for i := 0; i < t.TypeArgs.Len(); i++ {
						args = append(args, types.TypeString(t.TypeArgs.At(i), func(p *types.Package) string {
							if p == x.p.Types {
								return ""
							}
							return p.Name()
						}))
					}
					inst = "[" + strings.Join(args, ", ") + "]"
				}
			}
			x.ins(s.Call.Fun.End(), inst+")")
			x.ins(s.End(), "; zzvf.Gate(\"go\")")
		case *ast.SelectStmt:
			if !stmtOK[s] || len(s.Body.List) == 0 {
				break
			}
			at := s.Pos()
			if p, ok := label[s]; ok {
				at = p
			}
			cl := s.Body.List
			op := "select"
			if c := cl[0].(*ast.CommClause); len(cl) == 1 && c.Comm != nil {
				op = "recv"
				if _, ok := c.Comm.(*ast.SendStmt); ok {
					op = "send"
				}
			}
			x.ins(at, fmt.Sprintf("zzvf.Gate(%q); ", op))
			k := 0
			for _, b := range cl {
				c := b.(*ast.CommClause)
				name := op + "+"
				if op == "select" {
					which := -1
					if c.Comm != nil {
						which = k
						k++
					}
					name = fmt.Sprintf("select+%d", which)
				}
				x.ins(c.Colon+1, fmt.Sprintf(" zzvf.Gate(%q); ", name))
			}
		}
		return true
	})
	if len(x.edits) == 0 {
		return x.src
	}
	// the harness already imports the package by this name
	has := false
	for _, im := range f.Imports {
		if strings.Trim(im.Path.Value, `"`) == repoPath+"/zzvf" {
			has = true
		}
	}
	if !has {
		x.ins(f.Name.End(), fmt.Sprintf("; import zzvf %q", repoPath+"/zzvf"))
	}
	for p, a := range x.imports {
		x.ins(f.Name.End(), fmt.Sprintf("; import %s %q", a, p))
	}
	sort.SliceStable(x.edits, func(i, j int) bool {
		a, b := x.edits[i], x.edits[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		// text that ends something goes before text that begins something
		if ea, eb := closing(a.text), closing(b.text); ea != eb {
			return ea
		} else if ea {
			return a.seq > b.seq
		}
		return a.seq < b.seq
	})
	var out []byte
	at := 0
	for _, e := range x.edits {
		out = append(out, x.src[at:e.pos]...)
		out = append(out, e.text...)
		at = e.end
	}
	return append(out, x.src[at:]...)
}

func closing(s string) bool { return strings.HasPrefix(s, ")") || strings.HasPrefix(s, ";") }
