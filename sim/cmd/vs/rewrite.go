package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath, Dir, Export, Name string
	Standard                      bool
	GoFiles                       []string
	Imports                       []string
	Module                        *struct{ Path, Dir string }
}

// edits of one source file, as text so that lines keep their numbers
type edit struct {
	at, end int
	text    string
	prio    int
}

type rewriter struct {
	fset *token.FileSet
	std  map[string]string // export data files
	imp  types.Importer
	done map[string]*types.Package
	opts rwOpts
}

type rwOpts struct {
	yields  bool // insert simrt.Y() before statements
	sync    bool // package sync and go statements go to the simulator
	atExit  bool // totals are written at the end of main
	sites   string
	goVer   string
	astLog  bool // bodies of the functions of package .../ast record their call
	astPkgs map[string]bool
}

func (r *rewriter) Import(p string) (*types.Package, error) {
	if t := r.done[p]; t != nil {
		return t, nil
	}
	return r.imp.Import(p)
}

func newRewriter(std map[string]string, opts rwOpts) *rewriter {
	r := &rewriter{fset: token.NewFileSet(), std: std, done: map[string]*types.Package{}, opts: opts}
	r.imp = importer.ForCompiler(r.fset, "gc", func(p string) (io.ReadCloser, error) {
		f := std[p]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", p)
		}
		return os.Open(f)
	})
	return r
}

func goList(dir string, args ...string) []listPkg {
	ps, err := tryGoList(dir, args...)
	if err != nil {
		fatal("go list in %s: %v", dir, err)
	}
	return ps
}

func tryGoList(dir string, args ...string) ([]listPkg, error) {
	cmd := exec.Command("go", append([]string{"list", "-deps", "-export", "-json=ImportPath,Dir,Export,Name,Standard,GoFiles,Imports,Module"}, args...)...)
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	var ps []listPkg
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		ps = append(ps, p)
	}
	return ps, nil
}

// rewriteModule rewrites the main package in src and everything it imports that
// is not in the standard library; returns overlay entries.
//
// Dependencies live in the module cache, which overlays may not touch: they are
// copied, rewritten and put in their place by a go.mod of the build's own.
func rewriteModule(src, out string, replace map[string]string) (map[string]string, string, error) {
	pkgs := goList(src, ".")
	std := map[string]string{}
	for _, p := range pkgs {
		if p.Standard {
			std[p.ImportPath] = p.Export
		}
	}
	r := newRewriter(std, rwOpts{yields: true, sync: true, atExit: true, goVer: "go1.21"})
	ov := map[string]string{}
	moved := map[string]string{}
	deps := func(mod, dir string) string {
		d := filepath.Join(out, "mod", strings.ReplaceAll(mod, "/", "_"))
		if moved[mod] == "" {
			moved[mod] = d
			b, err := os.ReadFile(filepath.Join(dir, "go.mod"))
			if err != nil {
				b = []byte("module " + mod + "\n")
			}
			writeFile(filepath.Join(d, "go.mod"), b)
		}
		return d
	}
	for _, p := range pkgs {
		if p.Standard {
			continue
		}
		files := map[string][]byte{}
		for _, f := range p.GoFiles {
			full := filepath.Join(p.Dir, f)
			read := full
			if rel, err := filepath.Rel(src, full); err == nil && replace[rel] != "" {
				read = replace[rel]
			}
			b, err := os.ReadFile(read)
			must(err)
			files[full] = b
		}
		if rel, err := filepath.Rel(src, p.Dir); err == nil {
			for f, o := range replace { // new files
				if full := filepath.Join(src, f); filepath.Dir(f) == rel && files[full] == nil && strings.HasSuffix(f, ".go") {
					b, err := os.ReadFile(o)
					must(err)
					files[full] = b
				}
			}
		}
		res, err := r.pkg(p.ImportPath, files)
		if err != nil {
			return nil, "", fmt.Errorf("rewriting %s: %v", p.ImportPath, err)
		}
		local := strings.HasPrefix(p.Dir+"/", src+"/")
		for f, b := range res {
			if !local {
				rel, err := filepath.Rel(p.Module.Dir, f)
				must(err)
				writeFile(filepath.Join(deps(p.Module.Path, p.Module.Dir), rel), b)
				continue
			}
			o := filepath.Join(out, strings.ReplaceAll(p.ImportPath, "/", "_"), filepath.Base(f))
			writeFile(o, b)
			ov[f] = o
		}
	}
	gm, err := os.ReadFile(filepath.Join(src, "go.mod"))
	must(err)
	for mod, d := range moved {
		gm = append(gm, fmt.Sprintf("\nreplace %s => %s\n", mod, d)...)
	}
	writeFile(filepath.Join(out, "go.mod"), gm)
	if b, err := os.ReadFile(filepath.Join(src, "go.sum")); err == nil {
		writeFile(filepath.Join(out, "go.sum"), b)
	}
	return ov, filepath.Join(out, "go.mod"), nil
}

// pkg type-checks and rewrites one package.
func (r *rewriter) pkg(path string, files map[string][]byte) (map[string][]byte, error) {
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	var fs []*ast.File
	for _, n := range names {
		f, err := parser.ParseFile(r.fset, n, files[n], parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		fs = append(fs, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: r, GoVersion: r.opts.goVer}
	tp, err := conf.Check(path, r.fset, fs, info)
	if err != nil {
		return nil, err
	}
	r.done[path] = tp
	chans := false
	for _, f := range fs {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.ChanType, *ast.SelectStmt:
				chans = true
			}
			return true
		})
	}
	res := map[string][]byte{}
	for i, f := range fs {
		res[names[i]] = r.file(path, f, files[names[i]], info, chans)
	}
	return res, nil
}

func (r *rewriter) file(pkg string, f *ast.File, src []byte, info *types.Info, chans bool) []byte {
	var es []edit
	pos := func(p token.Pos) int { return r.fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[pos(n.Pos()):pos(n.End())]) }
	short := pkg[strings.LastIndex(pkg, "/")+1:]
	used := false
	n := 0
	yield := func(at token.Pos) {
		if r.opts.yields {
			used = true
			es = append(es, edit{pos(at), pos(at), "simrtX.Y();", 1})
		}
	}
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			yield(s.Pos())
		}
	}
	virt := r.opts.sync && !chans
	kept := map[string]bool{} // imports still used where bodies are replaced
	if r.opts.astPkgs[pkg] {
		ast.Inspect(f, func(nd ast.Node) bool {
			switch x := nd.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil && x.Body != nil {
					ast.Inspect(x.Type, func(nd ast.Node) bool { r.keep(nd, info, kept); return true })
					return false
				}
			}
			r.keep(nd, info, kept)
			return true
		})
	}
	ast.Inspect(f, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				yield(x.Body.Lbrace + 1)
			}
		case *ast.GoStmt:
			if virt {
				used = true
				pre, call := "", x.Call
				if len(call.Args) > 0 { // arguments are evaluated by the go statement itself
					var ns []string
					for i := range call.Args {
						ns = append(ns, fmt.Sprintf("simA%d", i))
					}
					pre = strings.Join(ns, ", ") + " := "
					es = append(es, edit{pos(x.Pos()), pos(call.Args[0].Pos()), "{ " + pre, 2})
					tail := strings.Join(ns, ", ")
					if call.Ellipsis.IsValid() {
						tail += "..."
					}
					last := call.Args[len(call.Args)-1].End()
					es = append(es, edit{pos(last), pos(x.End()), "; simrtX.Go(func() { " + text(call.Fun) + "(" + tail + ") }) }", 2})
					if _, lit := call.Fun.(*ast.FuncLit); lit {
						return false // its body was copied as it is
					}
				} else {
					es = append(es, edit{pos(x.Pos()), pos(x.Call.Pos()), "simrtX.Go(func() {", 2})
					es = append(es, edit{pos(x.End()), pos(x.End()), "})", 2})
				}
			}
		case *ast.RangeStmt:
			t := info.Types[x.X].Type
			if t == nil {
				break
			}
			if _, ok := t.Underlying().(*types.Map); !ok {
				break
			}
			if x.Key == nil {
				break
			}
			blank := func(e ast.Expr) bool {
				if e == nil {
					return true
				}
				id, ok := e.(*ast.Ident)
				return ok && id.Name == "_"
			}
			if blank(x.Key) && blank(x.Value) {
				break
			}
			n++
			used = true
			it := fmt.Sprintf("simIt%d", n)
			p := r.fset.Position(x.Pos())
			site := fmt.Sprintf("%s/%s:%d", short, filepath.Base(p.Filename), p.Line)
			ref := func(e ast.Expr) string {
				if blank(e) {
					return "nil"
				}
				return "&" + text(e)
			}
			name := func(e ast.Expr) string {
				if blank(e) {
					return "_"
				}
				return text(e)
			}
			hdr := ""
			if x.Tok == token.DEFINE {
				hdr = fmt.Sprintf("for %s, %s, %s := simrtX.Begin(%q, ", it, name(x.Key), name(x.Value), site)
			} else {
				hdr = fmt.Sprintf("for %s := simrtX.BeginOnly(%q, ", it, site)
			}
			// keep x.X in place so that edits inside it survive
			es = append(es, edit{pos(x.Pos()), pos(x.X.Pos()), hdr, 2})
			es = append(es, edit{pos(x.X.End()), pos(x.Body.Pos()), fmt.Sprintf("); %s.Next(%s, %s); ", it, ref(x.Key), ref(x.Value)), 2})
		case *ast.FuncDecl:
			if r.opts.atExit && f.Name.Name == "main" && x.Recv == nil && x.Name.Name == "main" && x.Body != nil {
				used = true
				at := pos(x.Body.Lbrace) + 1
				es = append(es, edit{at, at, "defer simrtX.AtExit();", 0})
			}
			if r.opts.astPkgs[pkg] && x.Recv == nil && x.Body != nil {
				es = append(es, r.astBody(x, src, pos)...)
				used = true
				return false
			}
		case *ast.ImportSpec:
			if r.opts.astPkgs[pkg] && x.Name == nil && !kept[x.Path.Value] {
				es = append(es, edit{pos(x.Path.Pos()), pos(x.Path.Pos()), "_ ", 2})
				break
			}
			if virt && x.Path.Value == `"sync"` {
				t := `"simsync"`
				if x.Name == nil {
					t = `sync "simsync"`
				}
				es = append(es, edit{pos(x.Path.Pos()), pos(x.Path.End()), t, 2})
			}
		}
		return true
	})
	if used {
		at := pos(f.Name.End())
		es = append(es, edit{at, at, `; import simrtX "simrt"`, 0})
	}
	return applyEdits(src, es)
}

func applyEdits(src []byte, es []edit) []byte {
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].at != es[j].at {
			return es[i].at < es[j].at
		}
		return es[i].prio < es[j].prio
	})
	var b bytes.Buffer
	at := 0
	for _, e := range es {
		if e.at < at {
			continue // inside a replaced region
		}
		b.Write(src[at:e.at])
		b.WriteString(e.text)
		at = e.end
	}
	b.Write(src[at:])
	return b.Bytes()
}

func (r *rewriter) keep(nd ast.Node, info *types.Info, kept map[string]bool) {
	if id, ok := nd.(*ast.Ident); ok {
		if p, ok := info.Uses[id].(*types.PkgName); ok {
			kept[strconv.Quote(p.Imported().Path())] = true
		}
	}
}

// astBody makes a function of a generated LR(1) ast package record its call.
func (r *rewriter) astBody(x *ast.FuncDecl, src []byte, pos func(token.Pos) int) []edit {
	var args []string
	if x.Type.Params != nil {
		for _, f := range x.Type.Params.List {
			for _, n := range f.Names {
				args = append(args, n.Name)
			}
		}
	}
	body := fmt.Sprintf("{ return simrtX.Action(%q, []interface{}{%s}) }", x.Name.Name, strings.Join(args, ", "))
	return []edit{{pos(x.Body.Pos()), pos(x.Body.End()), body, 3}}
}
