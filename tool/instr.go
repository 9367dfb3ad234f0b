package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// instrument adds a scheduling point before every statement of every non-test
// Go file below repo (in the overlay; the files themselves are not touched) and
// splits read-modify-write statements so that the scheduler can come between.
type instr struct {
	sites []string // site number -> file:line
	norw  bool     // leave read-modify-write statements whole
}

type edit struct {
	off  int // insert before this offset
	end  int // replace up to here (== off: pure insertion)
	text string
	prio int
}

func (in *instr) site(fset *token.FileSet, pos token.Pos, rel string) int {
	in.sites = append(in.sites, fmt.Sprintf("%s:%d", rel, fset.Position(pos).Line))
	return len(in.sites)
}

const simImport = "zsimrt_"

func (in *instr) file(path, rel string) ([]byte, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	// byte offsets: Position uses //line directives; use PositionFor
	off = func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	y := func(p token.Pos) string {
		return fmt.Sprintf("%s.SimYield(%d); ", simImport, in.site(fset, p, rel))
	}
	used := false
	rmw := func(s ast.Stmt) (string, bool) {
		switch s := s.(type) {
		case *ast.IncDecStmt:
			if !purePath(s.X) {
				return "", false
			}
			op := "+"
			if s.Tok == token.DEC {
				op = "-"
			}
			x := text(s.X)
			return fmt.Sprintf("{ zsimv_ := %s; %s%s = zsimv_ %s 1 }", x, y(s.Pos()), x, op), true
		case *ast.AssignStmt:
			if len(s.Lhs) != 1 || len(s.Rhs) != 1 || !purePath(s.Lhs[0]) || hasCall(s.Rhs[0]) {
				return "", false
			}
			x := text(s.Lhs[0])
			switch s.Tok {
			case token.ADD_ASSIGN, token.SUB_ASSIGN, token.OR_ASSIGN, token.AND_ASSIGN, token.XOR_ASSIGN, token.MUL_ASSIGN:
				op := strings.TrimSuffix(s.Tok.String(), "=")
				return fmt.Sprintf("{ zsimv_ := %s; %s%s = zsimv_ %s (%s) }", x, y(s.Pos()), x, op, text(s.Rhs[0])), true
			}
		}
		return "", false
	}
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			used = true
			edits = append(edits, edit{off(s.Pos()), off(s.Pos()), y(s.Pos()), 0})
			if t, ok := rmw(s); ok && !in.norw {
				edits = append(edits, edit{off(s.Pos()), off(s.End()), t, 1})
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			if n.Doc != nil {
				for _, c := range n.Doc.List {
					if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:norace") {
						return false
					}
				}
			}
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				used = true
				edits = append(edits, edit{off(n.Body.Lbrace) + 1, off(n.Body.Lbrace) + 1, " " + y(n.Body.Lbrace), 0})
			}
		}
		return true
	})
	if !used {
		return nil, nil
	}
	edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), "; import " + simImport + " \"runtime\"", 0})
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].prio < edits[j].prio
	})
	var out strings.Builder
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			return nil, fmt.Errorf("%s: overlapping edits", path)
		}
		out.Write(src[pos:e.off])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(src[pos:])
	return []byte(out.String()), nil
}

func purePath(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return e.Name != "_"
	case *ast.SelectorExpr:
		return purePath(e.X)
	case *ast.ParenExpr:
		return purePath(e.X)
	case *ast.StarExpr:
		return purePath(e.X)
	}
	return false
}

func hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.UnaryExpr:
			found = true
		}
		return !found
	})
	return found
}

// tree instruments all of repo and registers the results in the overlay.
func (in *instr) tree(b *builder, repo string) error {
	var files []string
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") && p != repo {
				return filepath.SkipDir
			}
			if rel == "examples" {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") && !strings.HasSuffix(p, ".pb.go") {
			files = append(files, p)
		}
		return nil
	})
	if err != nil {
		return err
	}
	sort.Strings(files)
	for _, p := range files {
		rel, _ := filepath.Rel(repo, p)
		out, err := in.file(p, rel)
		if err != nil {
			return err
		}
		if out == nil {
			continue
		}
		if err := b.put(p, out); err != nil {
			return err
		}
	}
	return nil
}

// demo makes the program of the MMO demo a package the harness can import:
// its main is called Main, and it hands its server to Running instead of
// waiting for a signal.
func (in *instr) demo(b *builder, level int) error {
	dir := filepath.Join(repoDir, "zinx_app_demo/mmo_game")
	files, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return err
	}
	for _, p := range files {
		if strings.HasSuffix(p, "_test.go") {
			continue
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if f, ok := b.ov.Replace[p]; ok && level > 0 { // the instrumented one
			if src, err = os.ReadFile(f); err != nil {
				return err
			}
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			return err
		}
		if f.Name.Name != "main" {
			continue
		}
		type edit struct {
			from, to int
			text     string
		}
		at := func(p token.Pos) int { return fset.Position(p).Offset }
		es := []edit{{at(f.Name.Pos()), at(f.Name.End()), "mmo"}}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				if n.Recv == nil && n.Name.Name == "main" {
					es = append(es, edit{at(n.Name.Pos()), at(n.Name.End()), "Main"})
				}
			case *ast.CallExpr:
				if s, ok := n.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Serve" && len(n.Args) == 0 {
					es = append(es, edit{at(n.Pos()), at(n.End()), "Running(" + string(src[at(s.X.Pos()):at(s.X.End())]) + ")"})
				}
			}
			return true
		})
		sort.Slice(es, func(i, j int) bool { return es[i].from > es[j].from })
		t := string(src)
		for _, e := range es {
			t = t[:e.from] + e.text + t[e.to:]
		}
		if err := b.put(filepath.Join(verifDir, "harness/mmo/", "repo_"+filepath.Base(p)), []byte(t)); err != nil {
			return err
		}
	}
	return nil
}
