// Command vprep copies the sources of the repository, without its tests, and redirects what the code takes from its
// surroundings (network, locks, logging, goroutine creation, process exit) to the simulated versions in
// harness/shim.  The code itself is not changed: edits are made at the places where those names are used, so that
// the copy has the behaviour of the tree it was made from.
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var (
	repo    = flag.String("repo", "/repo", "repository")
	harness = flag.String("harness", "", "harness directory")
	out     = flag.String("out", "", "output directory")
	plain   = flag.Bool("plain", false, "leave go statements with arguments as they are")
)

// shims maps an import path to the shim package that stands in for those of its names that the shim exports.
var shims = map[string]string{"net": "vnet", "sync": "vsync", "log": "vlog", "os": "vos", "fmt": "vfmt"}

const vprefix = "zverif"

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "vprep: "+f+"\n", a...)
	os.Exit(2)
}

// exported returns the names a shim package exports.
func exported(dir string) map[string]bool {
	names := map[string]bool{}
	pkgs, err := parser.ParseDir(token.NewFileSet(), dir, nil, 0)
	if err != nil {
		die("%v", err)
	}
	for _, p := range pkgs {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						names[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							names[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								names[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	for n := range names {
		if !ast.IsExported(n) || strings.HasPrefix(n, "Sim") {
			delete(names, n)
		}
	}
	return names
}

type edit struct {
	at, end int
	text    string
	prio    int // among edits at the same place, lower first
}

func apply(src []byte, edits []edit) []byte {
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].at != edits[j].at {
			return edits[i].at < edits[j].at
		}
		return edits[i].prio < edits[j].prio
	})
	b := []byte{}
	pos := 0
	for _, e := range edits {
		if e.at < pos {
			die("overlapping edits")
		}
		b = append(b, src[pos:e.at]...)
		b = append(b, e.text...)
		pos = e.end
	}
	return append(b, src[pos:]...)
}

type pkgInfo struct {
	fields map[string]bool // fields of the structs with shared state
	vars   map[string]bool // variables of the package
	all    map[string]bool // the same, with those that seem never to change
}

// shared collects the names of state that goroutines may share.
func shared(files []*ast.File) pkgInfo {
	p := pkgInfo{map[string]bool{}, map[string]bool{}, map[string]bool{}}
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range g.Specs {
				if v, ok := s.(*ast.ValueSpec); ok && g.Tok == token.VAR {
					for i, n := range v.Names {
						p.vars[n.Name] = true
						if i >= len(v.Values) || !constant(v.Values[i]) {
							p.all[n.Name] = true
						}
					}
				}
				t, ok := s.(*ast.TypeSpec)
				if !ok {
					continue
				}
				st, ok := t.Type.(*ast.StructType)
				if !ok {
					continue
				}
				use := t.Name.Name == "Session" || t.Name.Name == "Digest" || t.Name.Name == "Conn"
				for _, fl := range st.Fields.List {
					if se, ok := fl.Type.(*ast.SelectorExpr); ok {
						if id, ok := se.X.(*ast.Ident); ok && id.Name == "sync" {
							use = true
						}
					}
				}
				if !use {
					continue
				}
				for _, fl := range st.Fields.List {
					for _, n := range fl.Names {
						p.fields[n.Name] = true
					}
				}
			}
		}
	}
	// constants in disguise: variables never assigned and never addressed are not shared state
	assigned := map[string]bool{}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			mark := func(e ast.Expr) {
				for {
					switch x := e.(type) {
					case *ast.IndexExpr:
						e = x.X
						continue
					case *ast.SelectorExpr:
						e = x.X
						continue
					case *ast.Ident:
						assigned[x.Name] = true
					}
					return
				}
			}
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(n.X)
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					mark(n.X)
				}
			}
			return true
		})
	}
	for v := range p.vars {
		if !assigned[v] {
			delete(p.vars, v)
		}
	}
	return p
}

// constant tells whether a variable is made by errors.New or is a name of another package.
func constant(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.CallExpr:
		se, ok := e.Fun.(*ast.SelectorExpr)
		return ok && se.Sel.Name == "New" && fmt.Sprint(se.X) == "errors"
	case *ast.SelectorExpr:
		_, ok := e.X.(*ast.Ident)
		return ok
	}
	return false
}

func main() {
	flag.Parse()
	gm, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	module := ""
	for _, l := range strings.Split(string(gm), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			module = f[1]
		}
	}
	if module == "" {
		die("no module path in go.mod")
	}
	put(filepath.Join(*out, "go.mod"), gm)
	if b, err := os.ReadFile(filepath.Join(*repo, "go.sum")); err == nil {
		put(filepath.Join(*out, "go.sum"), b)
	}
	names := map[string]map[string]bool{}
	for imp, s := range shims {
		names[imp] = exported(filepath.Join(*harness, "shim", s))
	}
	dirs := map[string][]string{}
	err = filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*repo, p)
		if fi.IsDir() {
			if b := fi.Name(); rel != "." && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			dirs[filepath.Dir(rel)] = append(dirs[filepath.Dir(rel)], rel)
		}
		return nil
	})
	if err != nil {
		die("%v", err)
	}
	for dir, files := range dirs {
		fset := token.NewFileSet()
		asts := []*ast.File{}
		srcs := [][]byte{}
		for _, rel := range files {
			b, err := os.ReadFile(filepath.Join(*repo, rel))
			if err != nil {
				die("%v", err)
			}
			f, err := parser.ParseFile(fset, rel, b, parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			asts, srcs = append(asts, f), append(srcs, b)
		}
		info := shared(asts)
		points := filepath.ToSlash(dir) == "net/rtsp"
		for i, f := range asts {
			put(filepath.Join(*out, files[i]), rewrite(fset, f, srcs[i], module, names, info, points))
		}
		if t := registry(*repo, files, asts, module); t != "" && !*plain {
			put(filepath.Join(*out, dir, "zzz_zverif.go"), []byte(t))
		}
	}
	// the harness, under the module of the repository
	for _, sub := range []string{"mc", "auth", "sess", "shim"} {
		root := filepath.Join(*harness, sub)
		err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
				return err
			}
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			s := strings.ReplaceAll(string(b), `"verif.local/harness/`, `"`+module+`/`+vprefix+`/`)
			s = strings.ReplaceAll(s, `"github.com/aboukirev/ouro/`, `"`+module+`/`)
			rel, _ := filepath.Rel(*harness, p)
			if l := strings.SplitN(s, "\n", 2); strings.HasPrefix(l[0], "//go:build ") {
				s = "//go:build go1.26 && (" + strings.TrimPrefix(l[0], "//go:build ") + ")\n" + l[1]
			} else {
				s = "//go:build go1.26\n\n" + s
			}
			put(filepath.Join(*out, vprefix, rel), []byte(s))
			return nil
		})
		if err != nil {
			die("%v", err)
		}
	}
}

// registry is a file that tells the shim where the variables of a package are, so that every execution begins with what
// a new process begins with.
func registry(repo string, files []string, asts []*ast.File, module string) string {
	vars := []string{}
	for i, f := range asts {
		if f.Name.Name == "main" {
			return ""
		}
		if ok, err := build.Default.MatchFile(filepath.Join(repo, filepath.Dir(files[i])), filepath.Base(files[i])); !ok || err != nil {
			continue
		}
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				for _, n := range s.(*ast.ValueSpec).Names {
					if n.Name != "_" {
						vars = append(vars, "&"+n.Name)
					}
				}
			}
		}
	}
	if len(vars) == 0 {
		return ""
	}
	return fmt.Sprintf("package %s\n\nimport zverifvrt %q\n\nfunc init() { zverifvrt.SimVars(%s) }\n", asts[0].Name.Name, module+"/"+vprefix+"/shim/vrt", strings.Join(vars, ", "))
}

func put(path string, b []byte) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		die("%v", err)
	}
}

func rewrite(fset *token.FileSet, f *ast.File, src []byte, module string, names map[string]map[string]bool, info pkgInfo, points bool) []byte {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	edits := []edit{}
	needed := map[string]bool{}
	local := map[string]string{} // local import name -> path
	remaining := map[string]int{}
	specs := map[string]*ast.ImportSpec{}
	for _, is := range f.Imports {
		p, _ := strconv.Unquote(is.Path.Value)
		if _, ok := shims[p]; !ok {
			continue
		}
		n := p
		if is.Name != nil {
			n = is.Name.Name
		}
		if n == "_" || n == "." {
			continue
		}
		local[n] = p
		specs[p] = is
	}
	// In the text of a go statement the redirected names have to be replaced as well, so expressions are rendered
	// with their edits applied.
	var sel func(n ast.Node) []edit
	sel = func(root ast.Node) []edit {
		es := []edit{}
		ast.Inspect(root, func(n ast.Node) bool {
			se, ok := n.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			id, ok := se.X.(*ast.Ident)
			if !ok || id.Obj != nil {
				return true
			}
			p, ok := local[id.Name]
			if !ok {
				return true
			}
			if names[p][se.Sel.Name] {
				needed[shims[p]] = true
				es = append(es, edit{at: off(id.Pos()), end: off(id.End()), text: shims[p]})
			} else {
				remaining[p]++
			}
			return true
		})
		return es
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		edits = append(edits, sel(d)...)
	}
	// scheduling points
	touches := func(n ast.Node, fields, vars map[string]bool) bool {
		hit := false
		ast.Inspect(n, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.BlockStmt:
				return false
			case *ast.SelectorExpr:
				if fields[n.Sel.Name] {
					hit = true
				}
			case *ast.Ident:
				if vars[n.Name] && (n.Obj == nil || n.Obj.Kind == ast.Var && f.Scope.Lookup(n.Name) == n.Obj) {
					hit = true
				}
			}
			return !hit
		})
		return hit
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.LabeledStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			point := ""
			if points && touches(s, info.fields, info.vars) {
				point = fmt.Sprintf("vrt.S(%d); ", number())
			} else if touches(s, nil, info.all) {
				point = fmt.Sprintf("vrt.T(%d); ", number())
			}
			if point != "" {
				needed["vrt"] = true
				edits = append(edits, edit{at: off(s.Pos()), end: off(s.Pos()), text: point, prio: -1})
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.GoStmt:
			call := n.Call
			if *plain && len(call.Args) > 0 {
				return true
			}
			needed["vrt"] = true
			// go F(a, b)  =>  vrt.Go(func() func() { vf := F; va0, va1 := a, b; return func() { vf(va0, va1) } }())
			// the texts of F and the arguments stay where they are, so that edits inside them remain valid
			edits = append(edits, edit{at: off(n.Pos()), end: off(call.Fun.Pos()), text: "vrt.Go(func() func() { vf := "})
			args := []string{}
			prev := off(call.Fun.End())
			for i, a := range call.Args {
				if l, ok := a.(*ast.BasicLit); ok {
					args = append(args, l.Value)
					edits = append(edits, edit{at: prev, end: off(a.End())})
					prev = off(a.End())
					continue
				}
				v := fmt.Sprintf("va%d", i)
				edits = append(edits, edit{at: prev, end: off(a.Pos()), text: "; " + v + " := ", prio: -2})
				prev = off(a.End())
				args = append(args, v)
			}
			t := "; return func() { vf(" + strings.Join(args, ", ")
			if call.Ellipsis != token.NoPos {
				t += "..."
			}
			edits = append(edits, edit{at: prev, end: off(n.End()), text: t + ") } }())"})
		}
		return true
	})
	// package main becomes importable
	if f.Name.Name == "main" {
		edits = append(edits, edit{at: off(f.Name.Pos()), end: off(f.Name.End()), text: "ouromain"})
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				edits = append(edits, edit{at: off(fd.Pos()), end: off(fd.Pos()), text: "func Main() { main() }\n\n", prio: -3})
			}
		}
	}
	for p, is := range specs {
		if remaining[p] == 0 {
			at, end := off(is.Path.Pos()), off(is.Path.End())
			if is.Name != nil {
				at = off(is.Name.Pos())
			}
			edits = append(edits, edit{at: at, end: end, text: "_ " + is.Path.Value})
		}
	}
	if len(needed) > 0 {
		// a statement on the line of the package clause keeps the line numbers
		ns := []string{}
		for n := range needed {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		t := ""
		for _, n := range ns {
			t += fmt.Sprintf("; import %q", module+"/"+vprefix+"/shim/"+n)
		}
		edits = append(edits, edit{at: off(f.Name.End()), end: off(f.Name.End()), text: t, prio: 5})
	}
	_ = text
	return apply(src, edits)
}

var numbered int

// number gives every scheduling point one.
func number() int { numbered++; return numbered }
