// Command instr prepares the simulation build of /repo.
//
// It reads the non-test Go sources of /repo (pkg/**, internal/** and cmd/*) and of the
// binutils module, and writes transformed copies into a work directory:
//   - imports of os, time, sync, io/ioutil, path/filepath, runtime/debug and
//     math/rand are redirected to the simulator's packages of the same name;
//   - a scheduling point is put before every statement;
//   - make() sizes pass through the allocation meter;
//   - go statements start simulated tasks;
//   - map iteration order is taken from the simulator;
//   - package-level variables are set again for every run and simulated process.
//
// The result is described by an overlay file and a minimal go.mod, so /repo is
// never touched.  Line numbers are preserved.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var redirect = map[string]string{
	"fmt":           "verif.local/simrt/fmt",
	"flag":          "verif.local/simrt/flag",
	"os":            "verif.local/simrt/os",
	"time":          "verif.local/simrt/time",
	"sync":          "verif.local/simrt/sync",
	"io/ioutil":     "verif.local/simrt/io/ioutil",
	"path/filepath": "verif.local/simrt/path/filepath",
	"runtime/debug": "verif.local/simrt/runtime/debug",
	"math/rand":     "verif.local/simrt/math/rand",
	"math/rand/v2":  "verif.local/simrt/math/rand",
}

type edit struct {
	off, end int // replace [off,end) by text
	text     string
	seq      int
}

type siteInfo struct {
	File string `json:"f"`
	Line int    `json:"l"`
}

var sites = []siteInfo{{"", 0}}

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", a...)
	os.Exit(2)
}

type inst struct {
	fset  *token.FileSet
	file  *token.File
	src   []byte
	edits []edit
	label string
	info  *types.Info
	used  bool
	skip  map[ast.Node]bool // statements whose channel operation is already transformed
	two   map[ast.Expr]bool // receives with two results
}

func (in *inst) off(p token.Pos) int { return in.file.Offset(p) }

func (in *inst) insert(p token.Pos, text string) {
	in.edits = append(in.edits, edit{in.off(p), in.off(p), text, len(in.edits)})
	in.used = true
}

func (in *inst) site(p token.Pos) int {
	pos := in.fset.Position(p)
	sites = append(sites, siteInfo{in.label, pos.Line})
	return len(sites) - 1
}

func (in *inst) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		in.insert(s.Pos(), fmt.Sprintf("simrtY.Y(%d); ", in.site(s.Pos())))
	}
}

func (in *inst) walk(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		if e, ok := n.(ast.Expr); ok && in.skip[e] {
			return false
		}
		switch x := n.(type) {
		case *ast.BlockStmt:
			in.stmts(x.List)
		case *ast.CaseClause:
			in.stmts(x.Body)
		case *ast.CommClause:
			in.stmts(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				in.insert(x.Body.Rbrace, fmt.Sprintf("simrtY.Y(%d); ", in.site(x.Body.Lbrace)))
			}
		case *ast.RangeStmt:
			if len(x.Body.List) == 0 {
				in.insert(x.Body.Rbrace, fmt.Sprintf("simrtY.Y(%d); ", in.site(x.Body.Lbrace)))
			}
			in.rangeMap(x)
			in.rangeChan(x)
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && id.Obj == nil && len(x.Args) == 1 {
				in.replace(id.Pos(), id.End(), "simrtY.Close")
			}
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" && id.Obj == nil && len(x.Args) >= 2 {
				for _, a := range x.Args[1:] {
					if _, lit := a.(*ast.BasicLit); lit {
						continue
					}
					in.insert(a.Pos(), "simrtY.N(")
					in.insert(a.End(), ")")
				}
			}
		case *ast.GoStmt:
			in.goStmt(x)
		case *ast.SelectStmt:
			in.selectStmt(x)
		case *ast.SendStmt:
			if in.skip[x] {
				return false
			}
			in.insert(x.Chan.Pos(), "simrtY.SendTo(")
			in.replace(x.Chan.End(), x.Value.Pos(), ")(")
			in.insert(x.Value.End(), ")")
		case *ast.AssignStmt:
			if in.skip[x] {
				return false
			}
			if u := receive(x.Rhs); u != nil && len(x.Lhs) == 2 {
				in.two[u] = true
			}
		case *ast.ValueSpec:
			if u := receive(x.Values); u != nil && len(x.Names) == 2 {
				in.two[u] = true
			}
		case *ast.ExprStmt:
			if in.skip[x] {
				return false
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				f := "simrtY.Recv("
				if in.two[x] {
					f = "simrtY.Recv2("
				}
				in.replace(x.OpPos, x.X.Pos(), f)
				in.insert(x.X.End(), ")")
			}
		}
		return true
	})
}

func (in *inst) replace(lo, hi token.Pos, text string) {
	in.edits = append(in.edits, edit{in.off(lo), in.off(hi), text, len(in.edits)})
	in.used = true
}

func (in *inst) text(n ast.Node) string { return string(in.src[in.off(n.Pos()):in.off(n.End())]) }

// receive is the receive operation a list consists of.
func receive(list []ast.Expr) ast.Expr {
	if len(list) != 1 {
		return nil
	}
	e := list[0]
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

// selectStmt turns a select into a switch over the alternative the simulator takes.
func (in *inst) selectStmt(s *ast.SelectStmt) {
	var names, vals []string
	def := "false"
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			def = "true"
			continue
		}
		i := len(names)
		name := fmt.Sprintf("simrtC%d", i)
		in.skip[cc.Comm] = true
		val, bind := "", ""
		recv := func(e ast.Expr) {
			val = "simrtY.CaseRecv(" + in.text(e.(*ast.UnaryExpr).X) + ")"
		}
		switch x := cc.Comm.(type) {
		case *ast.SendStmt:
			val = "simrtY.CaseSend(" + in.text(x.Chan) + ")(" + in.text(x.Value) + ")"
		case *ast.ExprStmt:
			recv(receive([]ast.Expr{x.X}))
		case *ast.AssignStmt:
			recv(receive(x.Rhs))
			bind = in.text(x.Lhs[0])
			if len(x.Lhs) == 2 {
				bind += ", " + in.text(x.Lhs[1]) + " " + x.Tok.String() + " " + name + ".V, " + name + ".OK; "
			} else {
				bind += " " + x.Tok.String() + " " + name + ".V; "
			}
		}
		names, vals = append(names, name), append(vals, val)
		in.replace(cc.Case, cc.Colon+1, fmt.Sprintf("case %d: %s", i, bind)+strings.Repeat("\n", strings.Count(string(in.src[in.off(cc.Case):in.off(cc.Colon)]), "\n")))
	}
	head := "switch "
	if len(names) > 0 {
		head += strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
	}
	head += "simrtY.Select(" + strings.Join(append([]string{def}, names...), ", ") + ") {"
	in.replace(s.Select, s.Body.Lbrace+1, head)
}

// rangeChan makes a loop over a channel receive through the simulator.
func (in *inst) rangeChan(r *ast.RangeStmt) {
	if in.info == nil {
		return
	}
	t := in.info.TypeOf(r.X)
	if t == nil {
		return
	}
	if _, ok := t.Underlying().(*types.Chan); !ok {
		return
	}
	in.replace(r.For+token.Pos(len("for")), r.X.Pos(), " simrtCR := simrtY.CaseRecv(")
	in.insert(r.X.End(), "); simrtCR.Next();")
	if r.Key != nil {
		lb := in.off(r.Body.Lbrace) + 1
		in.edits = append(in.edits, edit{lb, lb, " " + in.text(r.Key) + " " + r.Tok.String() + " simrtCR.V; ", -1})
	}
}

// goStmt turns "go f(args)" into "simrtY.Go(func-value, args...)".
func (in *inst) goStmt(g *ast.GoStmt) {
	call := g.Call
	if len(call.Args) > 4 || call.Ellipsis.IsValid() {
		// arguments are evaluated now, the call happens later
		var names, vals []string
		for i, a := range call.Args {
			if in.info != nil {
				if tv := in.info.Types[a]; tv.Value != nil || tv.IsNil() {
					continue
				}
			}
			n := fmt.Sprintf("simrtA%d", i)
			names, vals = append(names, n), append(vals, in.text(a))
			in.replace(a.Pos(), a.End(), n)
			in.skip[a] = true
		}
		bind := ""
		if len(names) > 0 {
			bind = strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
		}
		in.replace(g.Go, call.Pos(), "simrtY.Go0(func() func() { "+bind+"return func() { ")
		in.insert(call.End(), " } }())")
		return
	}
	// replace "go " by "simrtY.GoN(" and "(" by ", " or ")"
	start, fun := in.off(g.Pos()), in.off(call.Fun.Pos())
	in.edits = append(in.edits, edit{start, fun, fmt.Sprintf("simrtY.Go%d(", len(call.Args)), len(in.edits)})
	sep := ", "
	if len(call.Args) == 0 {
		sep = ""
	}
	lp := in.off(call.Lparen)
	in.edits = append(in.edits, edit{lp, lp + 1, sep, len(in.edits)})
	in.used = true
}

// rangeMap makes map iteration order a simulator decision.  The loop
//
//	for k, v := range m { body }
//
// becomes a loop over the entries in simulator order, skipping entries deleted
// meanwhile, as the language defines:
//
//	for _, simrtKV := range simrtY.Entries(m) { if !simrtKV.Live() { continue }; k, v := simrtKV.K, simrtKV.Val(); body }
func (in *inst) rangeMap(r *ast.RangeStmt) {
	if in.info == nil {
		return
	}
	t := in.info.TypeOf(r.X)
	if t == nil {
		return
	}
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return
	}
	b, ok := m.Key().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsOrdered == 0 {
		return
	}
	name := func(e ast.Expr) string {
		if e == nil {
			return ""
		}
		s := string(in.src[in.off(e.Pos()):in.off(e.End())])
		if s == "_" {
			return ""
		}
		return s
	}
	k, v := name(r.Key), name(r.Value)
	op := r.Tok.String()
	bind := "if !simrtKV.Live() { continue }; "
	switch {
	case k != "" && v != "":
		bind += k + ", " + v + " " + op + " simrtKV.K, simrtKV.Val(); "
	case k != "":
		bind += k + " " + op + " simrtKV.K; "
	case v != "":
		bind += v + " " + op + " simrtKV.Val(); "
	}
	start := in.off(r.For) + len("for")
	in.edits = append(in.edits, edit{start, in.off(r.X.Pos()), " _, simrtKV := range simrtY.Entries(", len(in.edits)})
	in.insert(r.X.End(), ")")
	lb := in.off(r.Body.Lbrace) + 1
	in.edits = append(in.edits, edit{lb, lb, " " + bind, -1})
}

func (in *inst) apply() []byte {
	return in.applyRange(0, len(in.src))
}

// applyRange gives the transformed text of a part of the file.
func (in *inst) applyRange(lo, hi int) []byte {
	sort.SliceStable(in.edits, func(i, j int) bool {
		a, b := in.edits[i], in.edits[j]
		if a.off != b.off {
			return a.off < b.off
		}
		// insertions before replacements at the same offset; closing parens first
		ca, cb := a.text == ")", b.text == ")"
		if ca != cb {
			return ca
		}
		ia, ib := a.off == a.end, b.off == b.end
		if ia != ib {
			return ia
		}
		return a.seq < b.seq
	})
	var out []byte
	pos := lo
	for _, e := range in.edits {
		if e.off < lo || e.end > hi {
			continue
		}
		if e.off < pos {
			die("overlapping edits in %s at %d", in.label, e.off)
		}
		out = append(out, in.src[pos:e.off]...)
		out = append(out, e.text...)
		pos = e.end
	}
	return append(out, in.src[pos:hi]...)
}

// globals makes package-level variables start anew with every simulated run and process: each
// file gets functions that set its variables again, called in the order of initialization.
type globals struct {
	n     int
	zero  []string // calls, in any order
	order map[ast.Expr]string
	inits []string
}

func isError(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// collect names the reset functions of one file and gives their text.
func (g *globals) collect(in *inst, f *ast.File) string {
	var text strings.Builder
	text.WriteString("\n")
	fn := func(body string) string {
		g.n++
		name := fmt.Sprintf("simrtR%d", g.n)
		fmt.Fprintf(&text, "\nfunc %s() { %s }\n", name, body)
		return name
	}
	src := func(n ast.Node) string { return string(in.applyRange(in.off(n.Pos()), in.off(n.End()))) }
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
				g.n++
				name := fmt.Sprintf("simrtI%d", g.n)
				in.edits = append(in.edits, edit{in.off(d.Name.Pos()), in.off(d.Name.End()), name, len(in.edits)})
				g.inits = append(g.inits, name)
			}
		case *ast.GenDecl:
			if d.Tok != token.VAR || strings.Contains(string(in.src[in.lineBefore(d.Pos()):in.off(d.End())]), "//go:embed") {
				continue
			}
			for _, sp := range d.Specs {
				v := sp.(*ast.ValueSpec)
				if len(v.Values) == 0 {
					for _, n := range v.Names {
						if n.Name != "_" {
							g.zero = append(g.zero, fn("var simrtZ "+src(v.Type)+"; "+n.Name+" = simrtZ"))
						}
					}
					continue
				}
				if len(v.Values) == len(v.Names) {
					for i, n := range v.Names {
						if n.Name == "_" || in.info == nil || isError(in.info.TypeOf(n)) {
							continue
						}
						g.order[v.Values[i]] = fn(n.Name + " = " + src(v.Values[i]))
					}
					continue
				}
				var names []string
				for _, n := range v.Names {
					names = append(names, n.Name)
				}
				g.order[v.Values[0]] = fn(strings.Join(names, ", ") + " = " + src(v.Values[0]))
			}
		}
	}
	return text.String()
}

// lineBefore is the offset of the start of the line before p.
func (in *inst) lineBefore(p token.Pos) int {
	o := in.off(p)
	for n := 0; o > 0; o-- {
		if in.src[o-1] == '\n' {
			if n++; n == 2 {
				break
			}
		}
	}
	return o
}

// finish gives the text that registers the reset of a package.
func (g *globals) finish(info *types.Info) string {
	var b strings.Builder
	b.WriteString("\nfunc init() {\n")
	for _, n := range g.inits {
		b.WriteString(n + "(); ")
	}
	b.WriteString("simrtY.OnReset(func() {\n")
	for _, n := range g.zero {
		b.WriteString(n + "(); ")
	}
	for _, i := range info.InitOrder {
		if n := g.order[i.Rhs]; n != "" {
			b.WriteString(n + "(); ")
		}
	}
	for _, n := range g.inits {
		b.WriteString(n + "(); ")
	}
	b.WriteString("\n})\n}\n")
	return b.String()
}

func transform(fset *token.FileSet, f *ast.File, src []byte, label string, info *types.Info, program bool, g *globals, last bool) []byte {
	in := &inst{skip: map[ast.Node]bool{}, two: map[ast.Expr]bool{}, fset: fset, file: fset.File(f.Pos()), src: src, label: label, info: info}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		to, ok := redirect[p]
		if !ok {
			continue
		}
		in.edits = append(in.edits, edit{in.off(im.Path.Pos()), in.off(im.Path.End()), strconv.Quote(to), len(in.edits)})
	}
	if program {
		in.edits = append(in.edits, edit{in.off(f.Name.Pos()), in.off(f.Name.End()), "prog", len(in.edits)})
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			if program && fd.Recv == nil && fd.Name.Name == "main" {
				in.edits = append(in.edits, edit{in.off(fd.Name.Pos()), in.off(fd.Name.End()), "Main", len(in.edits)})
			}
			in.walk(fd.Body)
		} else if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
			in.walk(gd)
		}
	}
	tail := g.collect(in, f)
	if last {
		tail += g.finish(info)
	}
	if in.used || last {
		// the import goes on the package line: line numbers stay
		in.edits = append(in.edits, edit{in.off(f.Name.End()), in.off(f.Name.End()), `; import simrtY "verif.local/simrt/rt"`, -1})
	}
	return append(in.apply(), tail...)
}

func pkgFiles(dir string) []string {
	ents, err := os.ReadDir(dir)
	if err != nil {
		die("%v", err)
	}
	var res []string
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := build.Default.MatchFile(dir, n); err == nil && !ok {
			continue // another system or build tag
		}
		res = append(res, filepath.Join(dir, n))
	}
	return res
}

type chain struct {
	fset  *token.FileSet
	cache map[string]*types.Package
	std   types.Importer
	repo  string
	bin   string
}

func (c *chain) Import(path string) (*types.Package, error) {
	if p, ok := c.cache[path]; ok && p != nil {
		return p, nil
	}
	dir := ""
	switch {
	case strings.HasPrefix(path, "github.com/amarin/gomorphy/"):
		dir = filepath.Join(c.repo, strings.TrimPrefix(path, "github.com/amarin/gomorphy/"))
	case path == "github.com/amarin/binutils":
		dir = c.bin
	case strings.Contains(path, "."):
		p := types.NewPackage(path, filepath.Base(path))
		p.MarkComplete()
		c.cache[path] = p
		return p, nil
	default:
		p, err := c.std.Import(path)
		if err != nil {
			p = types.NewPackage(path, filepath.Base(path))
			p.MarkComplete()
		}
		c.cache[path] = p
		return p, nil
	}
	p, _, _, _ := c.load(path, dir)
	return p, nil
}

func (c *chain) load(path, dir string) (*types.Package, []*ast.File, map[*ast.File]string, *types.Info) {
	var files []*ast.File
	names := map[*ast.File]string{}
	for _, fn := range pkgFiles(dir) {
		f, err := parser.ParseFile(c.fset, fn, nil, parser.ParseComments)
		if err != nil {
			die("parse %s: %v", fn, err)
		}
		if f.Name.Name == "main" && path != "main" && !strings.Contains(path, "/cmd/") {
			continue
		}
		files = append(files, f)
		names[f] = fn
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: c, Error: func(error) {}, FakeImportC: true}
	p, _ := conf.Check(path, c.fset, files, info)
	c.cache[path] = p
	return p, files, names, info
}

func main() {
	if len(os.Args) != 5 {
		die("usage: instr REPO BINUTILS VERIF OUT")
	}
	repo, binutils, verif, out := os.Args[1], os.Args[2], os.Args[3], os.Args[4]
	overlay := map[string]string{}
	fset := token.NewFileSet()
	c := &chain{fset: fset, cache: map[string]*types.Package{}, repo: repo, bin: binutils, std: importer.ForCompiler(fset, "source", nil)}

	n := 0
	write := func(dst string, data []byte) {
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			die("%v", err)
		}
		if err := os.WriteFile(dst, data, 0o644); err != nil {
			die("%v", err)
		}
	}
	do := func(path, dir string, program bool, place func(orig string) string) {
		_, files, names, info := c.load(path, dir)
		g := &globals{order: map[ast.Expr]string{}}
		for i, f := range files {
			src, err := os.ReadFile(names[f])
			if err != nil {
				die("%v", err)
			}
			rel := strings.TrimPrefix(strings.TrimPrefix(names[f], repo+"/"), filepath.Dir(binutils)+"/")
			write(place(names[f]), transform(fset, f, src, rel, info, program, g, i == len(files)-1))
			n++
		}
	}
	for _, top := range []string{"pkg", "internal"} {
		_ = filepath.Walk(filepath.Join(repo, top), func(p string, fi os.FileInfo, err error) error {
			if err != nil || !fi.IsDir() {
				return nil
			}
			if fi.Name() == "testdata" {
				return filepath.SkipDir
			}
			if len(pkgFiles(p)) == 0 {
				return nil
			}
			rel, _ := filepath.Rel(repo, p)
			do("github.com/amarin/gomorphy/"+rel, p, false, func(orig string) string {
				dst := filepath.Join(out, "repo", rel, filepath.Base(orig))
				overlay[orig] = dst
				return dst
			})
			return nil
		})
	}
	// commands: packages whose main is called Main, importable by the harness
	cmds, _ := os.ReadDir(filepath.Join(repo, "cmd"))
	for _, d := range cmds {
		dir := filepath.Join(repo, "cmd", d.Name())
		if !d.IsDir() || len(pkgFiles(dir)) == 0 {
			continue
		}
		do("github.com/amarin/gomorphy/cmd/"+d.Name(), dir, true, func(orig string) string {
			dst := filepath.Join(out, "cmd", d.Name(), filepath.Base(orig))
			overlay[filepath.Join(repo, "internal", "zzcmd", d.Name(), filepath.Base(orig))] = dst
			return dst
		})
	}

	// binutils: a transformed copy used through a replace directive
	do("github.com/amarin/binutils", binutils, false, func(orig string) string {
		return filepath.Join(out, "binutils", filepath.Base(orig))
	})
	write(filepath.Join(out, "binutils", "go.mod"), []byte("module github.com/amarin/binutils\n\ngo 1.18\n\nrequire verif.local/simrt v0.0.0\n"))

	// harness: virtual packages below /repo/internal
	_ = filepath.Walk(filepath.Join(verif, "harness"), func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(filepath.Join(verif, "harness"), p)
			overlay[filepath.Join(repo, "internal", "zzverif", rel)] = p
			// the binary that also runs the commands shares the rest with full
			if name := strings.TrimPrefix(rel, "full/"); name != rel && name != "main.go" {
				overlay[filepath.Join(repo, "internal", "zzverif", "cmds", name)] = p
			}
		}
		return nil
	})
	mod := fmt.Sprintf(`module github.com/amarin/gomorphy

go 1.18

require (
	github.com/amarin/binutils v0.6.0
	github.com/amarin/libxml v0.1.2
	github.com/amarin/logging v0.1.0
	github.com/chzyer/readline v1.5.1
	verif.local/simrt v0.0.0
)

replace (
	github.com/amarin/binutils => %s/binutils
	github.com/amarin/libxml => %s/stubs/libxml
	github.com/amarin/logging => %s/stubs/logging
	github.com/chzyer/readline => %s/stubs/readline
	verif.local/simrt => %s/simrt
)
`, out, verif, verif, verif, verif)
	write(filepath.Join(out, "mod", "go.mod"), []byte(mod))
	write(filepath.Join(out, "mod", "go.sum"), nil)
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	write(filepath.Join(out, "overlay.json"), j)
	sj, _ := json.Marshal(sites)
	write(filepath.Join(out, "sites.json"), sj)
	fmt.Printf("instr: %d files, %d scheduling points\n", n, len(sites)-1)
}
