// Command instrument rewrites the concurrent parts of the packages under test
// for the controlled scheduler (see shim) and writes a go build overlay. It
// works on byte positions of the syntax tree and leaves anything it does not
// understand as it is: that loses schedules, never soundness.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

var (
	repo = flag.String("repo", "/repo", "")
	out  = flag.String("out", "", "")
	lite = flag.Bool("lite", false, "no statement is rewritten, only added to")
	pkgs = []string{".", "tevm"}
)

// types whose fields are shared between goroutines, besides those with
// channels or locks of their own
var sharedNames = map[string]bool{
	"Client": true, "RPCTransport": true, "pending": true, "Filter": true,
	"BlockIterator": true, "Chain": true, "filter": true, "State": true,
}

func main() {
	flag.Parse()
	ov := map[string]string{}
	for _, p := range pkgs {
		dir := filepath.Join(*repo, p)
		names, err := filepath.Glob(filepath.Join(dir, "*.go"))
		check(err)
		var files []*file
		fset := token.NewFileSet()
		for _, n := range names {
			if strings.HasSuffix(n, "_test.go") || strings.HasSuffix(n, "_gen.go") {
				continue
			}
			src, err := os.ReadFile(n)
			check(err)
			f, err := parser.ParseFile(fset, n, src, parser.ParseComments)
			check(err)
			files = append(files, &file{name: n, src: string(src), ast: f, fset: fset})
		}
		shared := sharedTypes(files)
		for i, f := range files {
			f.shared = shared
			f.maps = mapFields(files)
			s, ok := f.rewrite()
			if !ok {
				continue
			}
			dst := filepath.Join(*out, fmt.Sprintf("%s_%d_%s", strings.ReplaceAll(p, ".", "root"), i, filepath.Base(f.name)))
			check(os.MkdirAll(*out, 0755))
			check(os.WriteFile(dst, []byte(s), 0644))
			ov[f.name] = dst
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": ov}, "", " ")
	check(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(1)
	}
}

type file struct {
	name   string
	src    string
	ast    *ast.File
	fset   *token.FileSet
	shared map[string]bool
	maps   map[string]bool // names of fields that are maps

	all   bool // no statement is private to its goroutine
	edits []edit
	n     int
}

type edit struct {
	at, end int // replaces src[at:end]
	text    string
	seq     int
}

func sharedTypes(files []*file) map[string]bool {
	shared := map[string]bool{}
	for {
		grew := false
		for _, f := range files {
			ast.Inspect(f.ast, func(n ast.Node) bool {
				ts, ok := n.(*ast.TypeSpec)
				if !ok || shared[ts.Name.Name] {
					return true
				}
				yes := sharedNames[ts.Name.Name]
				switch t := ts.Type.(type) {
				case *ast.Ident:
					yes = yes || shared[t.Name]
				case *ast.StructType:
					for _, fl := range t.Fields.List {
						ast.Inspect(fl.Type, func(n ast.Node) bool {
							switch n := n.(type) {
							case *ast.ChanType:
								yes = true
							case *ast.SelectorExpr:
								if id, ok := n.X.(*ast.Ident); ok && (id.Name == "sync" || id.Name == "atomic") {
									yes = true
								}
							}
							return true
						})
					}
				}
				if yes {
					shared[ts.Name.Name] = true
					grew = true
				}
				return true
			})
		}
		if !grew {
			return shared
		}
	}
}

func mapFields(files []*file) map[string]bool {
	maps, other := map[string]bool{}, map[string]bool{}
	for _, f := range files {
		ast.Inspect(f.ast, func(n ast.Node) bool {
			if st, ok := n.(*ast.StructType); ok {
				for _, fl := range st.Fields.List {
					for _, name := range fl.Names {
						if _, ok := fl.Type.(*ast.MapType); ok {
							maps[name.Name] = true
						} else {
							other[name.Name] = true
						}
					}
				}
			}
			return true
		})
	}
	for n := range other {
		delete(maps, n)
	}
	return maps
}

func (f *file) off(p token.Pos) int { return f.fset.Position(p).Offset }

func (f *file) text(n ast.Node) string { return f.src[f.off(n.Pos()):f.off(n.End())] }

func (f *file) loc(n ast.Node) string {
	p := f.fset.Position(n.Pos())
	return fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line)
}

func (f *file) insert(at int, s string) {
	f.edits = append(f.edits, edit{at, at, s, len(f.edits)})
}

func (f *file) replace(at, end int, s string) {
	f.edits = append(f.edits, edit{at, end, s, len(f.edits)})
}

// render applies the edits made within [at,end) and takes them off the list.
func (f *file) render(at, end int) string {
	var mine, rest []edit
	for _, e := range f.edits {
		if e.at >= at && e.end <= end {
			mine = append(mine, e)
		} else {
			rest = append(rest, e)
		}
	}
	f.edits = rest
	sort.SliceStable(mine, func(i, j int) bool {
		if mine[i].at != mine[j].at {
			return mine[i].at < mine[j].at
		}
		if (mine[i].end == mine[i].at) != (mine[j].end == mine[j].at) {
			return mine[i].end == mine[i].at // insertions before a replacement
		}
		return mine[i].seq < mine[j].seq
	})
	var b strings.Builder
	for _, e := range mine {
		if e.at < at {
			continue
		}
		b.WriteString(f.src[at:e.at])
		b.WriteString(e.text)
		at = e.end
	}
	b.WriteString(f.src[at:end])
	return b.String()
}

var constraint = regexp.MustCompile(`(?m)^//go:build|^// \+build`)

func (f *file) rewrite() (string, bool) {
	if constraint.MatchString(f.src[:f.off(f.ast.Package)]) {
		return "", false
	}
	touched := false
	for _, im := range f.ast.Imports {
		if im.Path.Value == `"sync"` {
			touched = true
			s := `"verif.local/mc/shim"`
			if im.Name == nil {
				s = "sync " + s
			}
			f.replace(f.off(im.Path.Pos()), f.off(im.Path.End()), s)
		}
	}
	for _, d := range f.ast.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		if f.interesting(fd) {
			touched = true
			f.all = hasFuncLit(fd.Body)
			f.block(fd.Body)
		}
	}
	if !touched {
		return "", false
	}
	f.insert(f.off(f.ast.Name.End()), `; import shim_ "verif.local/mc/shim"`)
	s := f.render(0, len(f.src))
	return "//go:build go1.21\n\n" + s + "\nvar _ = shim_.Point\n", true
}

// interesting tells whether a function communicates or touches shared fields.
func (f *file) interesting(fd *ast.FuncDecl) bool {
	names := map[string]bool{}
	add := func(fl *ast.FieldList) {
		if fl == nil {
			return
		}
		for _, x := range fl.List {
			t := x.Type
			if s, ok := t.(*ast.StarExpr); ok {
				t = s.X
			}
			if id, ok := t.(*ast.Ident); ok && f.shared[id.Name] {
				for _, n := range x.Names {
					names[n.Name] = true
				}
			}
		}
	}
	add(fd.Recv)
	add(fd.Type.Params)
	yes := false
	calls := map[ast.Expr]bool{}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt, *ast.ChanType:
			yes = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				yes = true
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" {
				yes = true
			}
			calls[n.Fun] = true
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok {
				if names[id.Name] && !calls[n] {
					yes = true
				}
				if id.Name == "sync" || id.Name == "atomic" {
					yes = true
				}
			}
		}
		return true
	})
	return yes
}

func (f *file) point(s ast.Stmt) {
	if !f.all && local(s) {
		return
	}
	f.insert(f.off(s.Pos()), fmt.Sprintf("shim_.Point(%q); ", f.loc(s)))
}

// local tells whether a statement, not counting those inside it, only touches
// variables of its own function.
func local(s ast.Stmt) bool {
	var parts []ast.Node
	add := func(ns ...ast.Node) {
		for _, n := range ns {
			if n != nil && !isNil(n) {
				parts = append(parts, n)
			}
		}
	}
	switch s := s.(type) {
	case *ast.IfStmt:
		if s.Init != nil {
			add(s.Init)
		}
		add(s.Cond)
		if e, ok := s.Else.(*ast.IfStmt); ok && !local(e) {
			return false
		}
	case *ast.ForStmt:
		if s.Init != nil {
			add(s.Init)
		}
		if s.Cond != nil {
			add(s.Cond)
		}
	case *ast.SwitchStmt:
		if s.Init != nil {
			add(s.Init)
		}
		if s.Tag != nil {
			add(s.Tag)
		}
		for _, c := range s.Body.List {
			for _, e := range c.(*ast.CaseClause).List {
				add(e)
			}
		}
	case *ast.RangeStmt:
		add(s.X)
	case *ast.LabeledStmt:
		return local(s.Stmt)
	case *ast.BranchStmt:
		return true
	case *ast.AssignStmt, *ast.ReturnStmt, *ast.DeclStmt, *ast.IncDecStmt:
		add(s)
	default:
		return false
	}
	yes := true
	for _, p := range parts {
		ast.Inspect(p, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.CallExpr, *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr, *ast.FuncLit, *ast.SliceExpr:
				yes = false
			case *ast.UnaryExpr:
				yes = yes && n.Op != token.ARROW
			}
			return yes
		})
	}
	return yes
}

func (f *file) block(b *ast.BlockStmt) {
	if b != nil {
		f.list(b.List)
	}
}

func (f *file) list(l []ast.Stmt) {
	for _, s := range l {
		f.stmt(s)
	}
}

// stmt instruments a statement of a list.
func (f *file) stmt(s ast.Stmt) {
	switch s := s.(type) {
	case *ast.EmptyStmt:
		return
	case *ast.LabeledStmt:
		f.point(s)
		switch in := s.Stmt.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
			f.inner(in)
		case *ast.SelectStmt:
			f.sel(in, true)
		case *ast.EmptyStmt:
		default:
			f.stmt(in)
		}
		return
	case *ast.BlockStmt:
		f.block(s)
		return
	}
	f.point(s)
	f.inner(s)
}

func (f *file) inner(s ast.Stmt) {
	switch s := s.(type) {
	case *ast.IfStmt:
		f.exprs(s.Init, s.Cond)
		f.block(s.Body)
		switch e := s.Else.(type) {
		case *ast.BlockStmt:
			f.block(e)
		case *ast.IfStmt:
			f.inner(e)
		}
	case *ast.ForStmt:
		f.exprs(s.Init, s.Cond, s.Post)
		f.block(s.Body)
	case *ast.RangeStmt:
		f.exprs(s.X)
		if se, ok := s.X.(*ast.SelectorExpr); ok && f.maps[se.Sel.Name] && s.Tok == token.DEFINE && !*lite {
			// a fixed iteration order
			name := func(e ast.Expr, def string) string {
				if id, ok := e.(*ast.Ident); ok && id.Name != "_" {
					return id.Name
				}
				return def
			}
			k, v := name(s.Key, "k_"), name(s.Value, "v_")
			f.replace(f.off(s.Key.Pos()), f.off(s.X.End()), fmt.Sprintf("it_, %s, %s := shim_.Iter(%s); it_.Next(&%s, &%s); ", k, v, f.text(s.X), k, v))
		}
		f.block(s.Body)
	case *ast.SwitchStmt:
		f.exprs(s.Init, s.Tag)
		f.clauses(s.Body)
	case *ast.TypeSwitchStmt:
		f.clauses(s.Body)
	case *ast.SelectStmt:
		f.sel(s, false)
	case *ast.GoStmt:
		f.gostmt(s)
	case *ast.IncDecStmt:
		f.rmw(s, s.X, map[token.Token]string{token.INC: "+", token.DEC: "-"}[s.Tok], "1")
	case *ast.AssignStmt:
		f.exprs(s)
		if len(s.Lhs) == 1 && s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
			op := strings.TrimSuffix(s.Tok.String(), "=")
			if !hasFuncLit(s) {
				f.rmw(s, s.Lhs[0], op, "("+f.text(s.Rhs[0])+")")
			}
		}
	case *ast.BlockStmt:
		f.block(s)
	default:
		f.exprs(s)
	}
}

func hasFuncLit(n ast.Node) (yes bool) {
	ast.Inspect(n, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			yes = true
		}
		return !yes
	})
	return
}

func hasCall(n ast.Node) (yes bool) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			yes = true
		case *ast.UnaryExpr:
			yes = yes || n.Op == token.ARROW
		}
		return !yes
	})
	return
}

// rmw splits a read-modify-write of a field in two.
func (f *file) rmw(s ast.Stmt, x ast.Expr, op, e string) {
	if _, ok := x.(*ast.SelectorExpr); !ok || *lite || hasCall(s) {
		return
	}
	v := f.text(x)
	f.replace(f.off(s.Pos()), f.off(s.End()),
		fmt.Sprintf("{ old_ := %s; shim_.Point(%q); %s = old_ %s %s }", v, f.loc(s)+" (store)", v, op, e))
}

// exprs instruments function literals inside expressions.
func (f *file) exprs(ns ...ast.Node) {
	for _, n := range ns {
		if n == nil || isNil(n) {
			continue
		}
		ast.Inspect(n, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				f.block(n.Body)
				return false
			case *ast.CallExpr:
				if len(n.Args) == 2 && f.text(n.Fun) == "time.AfterFunc" {
					f.insert(f.off(n.Args[1].Pos()), "shim_.Wrap(")
					f.insert(f.off(n.Args[1].End()), fmt.Sprintf(", %q)", "timer@"+f.loc(n)))
				}
			}
			return true
		})
	}
}

func isNil(n ast.Node) bool {
	switch n := n.(type) {
	case ast.Stmt:
		return n == nil
	case ast.Expr:
		return n == nil
	}
	return false
}

func (f *file) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		if cc, ok := c.(*ast.CaseClause); ok {
			f.list(cc.Body)
		}
	}
}

var builtins = map[string]bool{"close": true, "panic": true, "print": true, "println": true, "delete": true, "copy": true, "recover": true}

func (f *file) gostmt(s *ast.GoStmt) {
	if id, ok := s.Call.Fun.(*ast.Ident); ok && builtins[id.Name] {
		return
	}
	f.exprs(s.Call)
	f.insert(f.off(s.Call.Fun.Pos()), "shim_.Wrap(")
	f.insert(f.off(s.Call.Fun.End()), fmt.Sprintf(", %q)", "go@"+f.loc(s)))
}

// sel makes the choice among the ready cases of a select an explicit one.
func (f *file) sel(s *ast.SelectStmt, labeled bool) {
	type clause struct {
		head, body string // "case x:" and its statements
	}
	var comm []clause
	var def *clause
	var hoist strings.Builder
	for _, c := range s.Body.List {
		cc, ok := c.(*ast.CommClause)
		if !ok {
			return
		}
		f.list(cc.Body)
	}
	n := 0
	for _, c := range s.Body.List {
		if c.(*ast.CommClause).Comm != nil {
			n++
		}
	}
	if n < 2 || *lite {
		return
	}
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm != nil {
			// channel operands (and sent values that call) are evaluated once
			var ch, val ast.Expr
			switch m := cc.Comm.(type) {
			case *ast.SendStmt:
				ch, val = m.Chan, m.Value
			case *ast.ExprStmt:
				ch = recvChan(m.X)
			case *ast.AssignStmt:
				if len(m.Rhs) == 1 {
					ch = recvChan(m.Rhs[0])
				}
			}
			if ch == nil {
				continue
			}
			for _, e := range []ast.Expr{ch, val} {
				if e == nil || !hasCall(e) {
					continue
				}
				f.n++
				v := fmt.Sprintf("hoist_%d", f.n)
				f.exprs(e)
				a, b := f.off(e.Pos()), f.off(e.End())
				fmt.Fprintf(&hoist, "%s := %s; ", v, f.render(a, b))
				f.replace(a, b, v)
			}
		}
	}
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		head := f.render(f.off(cc.Pos()), f.off(cc.Colon)+1)
		body := ""
		if len(cc.Body) > 0 {
			end := f.off(cc.Body[len(cc.Body)-1].End())
			body = f.render(f.off(cc.Colon)+1, end)
		}
		if cc.Comm == nil {
			def = &clause{head, body}
		} else {
			comm = append(comm, clause{head, body})
		}
	}
	var b strings.Builder
	b.WriteString("{ " + hoist.String())
	if labeled {
		b.Reset()
		b.WriteString("switch { default: " + hoist.String())
	}
	fmt.Fprintf(&b, "switch shim_.Pref(%s) {\n", strconv.Itoa(len(comm)))
	for i := 1; i < len(comm); i++ {
		fmt.Fprintf(&b, "case %d:\nselect {\n%s %s\ndefault: shim_.Miss(); panic(0)\n}\n", i, comm[i].head, comm[i].body)
	}
	b.WriteString("default:\n")
	for i := range comm {
		fmt.Fprintf(&b, "select {\n%s %s\ndefault:\n", comm[i].head, comm[i].body)
	}
	if def != nil {
		b.WriteString(def.body + "\n")
	} else {
		b.WriteString("select {\n")
		for i := range comm {
			b.WriteString(comm[i].head + " " + comm[i].body + "\n")
		}
		b.WriteString("}\n")
	}
	b.WriteString(strings.Repeat("}\n", len(comm)))
	b.WriteString("} }")
	f.replace(f.off(s.Pos()), f.off(s.End()), b.String())
}

func recvChan(e ast.Expr) ast.Expr {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
			continue
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				return x.X
			}
		}
		return nil
	}
}
