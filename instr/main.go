// Command instr copies the non-test Go sources of a package into a new module
// in which every synchronisation operation, plain access to possibly shared
// memory, heap allocation and loop is announced to the scheduler verif.local/mc/vs.
//
//	instr -src DIR -dst DIR [-level full|sync]
//
// -level sync leaves plain accesses, allocations alone (imports and loops only).
// The rewriting is textual and position based; nothing depends on the names or
// the structure of the code.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/scanner"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const shim = "verif.local/mc/shim/"

var replaceImport = map[string]string{
	"sync":                               "sync",
	"sync/atomic":                        "atomic",
	"github.com/zhangyunhao116/fastrand": "fastrand",
	"math/rand":                          "rand",
	"math/rand/v2":                       "rand",
}

type edit struct {
	pos, end int
	text     string
	seq      int
}

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	src   []byte
	edits []edit
	sites *[]string
	full  bool
	gotos map[string]bool
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *rewriter) ins(p token.Pos, text string) {
	o := r.off(p)
	r.edits = append(r.edits, edit{o, o, text, len(r.edits)})
}

func (r *rewriter) repl(p, e token.Pos, text string) {
	r.edits = append(r.edits, edit{r.off(p), r.off(e), text, len(r.edits)})
}

func (r *rewriter) site(p token.Pos) string {
	ps := r.fset.Position(p)
	*r.sites = append(*r.sites, fmt.Sprintf("%s:%d:%d", filepath.Base(ps.Filename), ps.Line, ps.Column))
	return strconv.Itoa(len(*r.sites))
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func core(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isPtr(t types.Type) bool { _, ok := core(t).(*types.Pointer); return ok }

// shared tells whether e denotes a variable that other goroutines may reach:
// it lies behind a pointer or slice, or in a package-level variable.
func (r *rewriter) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.shared(e.X)
	case *ast.Ident:
		v, ok := r.info.ObjectOf(e).(*types.Var)
		return ok && v.Parent() == r.pkg.Scope()
	case *ast.SelectorExpr:
		sel := r.info.Selections[e]
		if sel == nil { // qualified identifier of another package
			return false
		}
		if sel.Kind() != types.FieldVal {
			return false
		}
		if sel.Indirect() || isPtr(r.typeOf(e.X)) {
			return true
		}
		return r.shared(e.X)
	case *ast.IndexExpr:
		t := core(r.typeOf(e.X))
		switch t := t.(type) {
		case *types.Pointer:
			_, ok := t.Elem().Underlying().(*types.Array)
			return ok
		case *types.Slice:
			return true
		case *types.Array:
			return r.shared(e.X)
		}
		return false
	case *ast.StarExpr:
		if tv, ok := r.info.Types[e]; ok && tv.IsValue() {
			return true
		}
	}
	return false
}

func (r *rewriter) isConstOrType(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && (tv.IsType() || tv.Value != nil || tv.IsBuiltin())
}

// value visits e evaluated for its value.
func (r *rewriter) value(e ast.Expr) {
	if e == nil {
		return
	}
	if r.isConstOrType(e) {
		return
	}
	if r.full && r.shared(e) {
		t := r.typeOf(e)
		if t != nil && addressableOK(t) {
			r.ins(e.Pos(), "(*vs__.R(&")
			r.addr(e)
			r.ins(e.End(), ","+r.site(e.Pos())+"))")
			return
		}
	}
	r.addr(e)
}

func addressableOK(t types.Type) bool {
	_, tuple := t.(*types.Tuple)
	return !tuple
}

// addr visits e whose own variable is not read (its address is taken, or it is not shared).
func (r *rewriter) addr(e ast.Expr) {
	switch e := e.(type) {
	case nil:
	case *ast.ParenExpr:
		r.addr(e.X)
	case *ast.Ident, *ast.BasicLit:
	case *ast.SelectorExpr:
		sel := r.info.Selections[e]
		if sel == nil {
			return
		}
		if sel.Kind() == types.MethodExpr {
			return
		}
		if isPtr(r.typeOf(e.X)) {
			r.value(e.X)
			return
		}
		if sel.Kind() == types.MethodVal {
			if f, ok := sel.Obj().(*types.Func); ok {
				if rec := f.Type().(*types.Signature).Recv(); rec != nil && isPtr(rec.Type()) {
					r.addr(e.X)
					return
				}
			}
			r.value(e.X)
			return
		}
		r.addrOrValue(e.X)
	case *ast.IndexExpr:
		if tv, ok := r.info.Types[e.Index]; ok && tv.IsType() { // instantiation
			return
		}
		if _, ok := core(r.typeOf(e.X)).(*types.Array); ok {
			r.addrOrValue(e.X)
		} else {
			r.value(e.X)
		}
		r.value(e.Index)
	case *ast.IndexListExpr:
	case *ast.SliceExpr:
		if _, ok := core(r.typeOf(e.X)).(*types.Array); ok {
			r.addr(e.X)
		} else {
			r.value(e.X)
		}
		r.value(e.Low)
		r.value(e.High)
		r.value(e.Max)
	case *ast.StarExpr:
		r.value(e.X)
	case *ast.UnaryExpr:
		if e.Op == token.AND {
			if cl, ok := e.X.(*ast.CompositeLit); ok {
				if r.full {
					r.ins(e.Pos(), "vs__.Alloc(")
				}
				r.addr(cl)
				if r.full {
					r.ins(e.End(), ")")
				}
				return
			}
			r.addr(e.X)
			return
		}
		r.value(e.X)
	case *ast.BinaryExpr:
		r.value(e.X)
		r.value(e.Y)
	case *ast.KeyValueExpr:
		r.value(e.Value)
	case *ast.CompositeLit:
		_, isStruct := core(r.typeOf(e)).(*types.Struct)
		for _, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					r.value(kv.Key)
				}
				r.value(kv.Value)
			} else {
				r.value(el)
			}
		}
	case *ast.FuncLit:
		r.block(e.Body)
	case *ast.TypeAssertExpr:
		r.value(e.X)
	case *ast.CallExpr:
		r.call(e)
	}
}

// addrOrValue: e is the struct or array operand of a selector or index; if e is
// itself addressable its address is used, otherwise it is a value.
func (r *rewriter) addrOrValue(e ast.Expr) {
	if tv, ok := r.info.Types[e]; ok && tv.Addressable() {
		r.addr(e)
		return
	}
	r.value(e)
}

func (r *rewriter) call(e *ast.CallExpr) {
	if tv, ok := r.info.Types[e.Fun]; ok && tv.IsType() { // conversion
		for _, a := range e.Args {
			r.value(a)
		}
		return
	}
	if id, ok := unparen(e.Fun).(*ast.Ident); ok {
		if b, ok := r.info.ObjectOf(id).(*types.Builtin); ok {
			switch b.Name() {
			case "new":
				if r.full {
					r.ins(e.Pos(), "vs__.Alloc(")
					r.ins(e.End(), ")")
				}
				return
			case "make":
				for _, a := range e.Args[1:] {
					r.value(a)
				}
				return
			}
			for _, a := range e.Args {
				r.value(a)
			}
			return
		}
	}
	if sel, ok := unparen(e.Fun).(*ast.SelectorExpr); ok {
		if id, ok := sel.X.(*ast.Ident); ok {
			if pn, ok := r.info.ObjectOf(id).(*types.PkgName); ok {
				path := pn.Imported().Path()
				if path == "unsafe" {
					if sel.Sel.Name == "Pointer" || sel.Sel.Name == "Add" {
						for _, a := range e.Args {
							r.value(a)
						}
					}
					return
				}
				if path == "time" && sel.Sel.Name == "Sleep" {
					r.repl(e.Pos(), e.End(), "vs__.Yield()")
					return
				}
			}
		}
	}
	r.value(e.Fun)
	for _, a := range e.Args {
		r.value(a)
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// pure: evaluating e twice has no effect besides reads.
func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.CompositeLit:
			ok = false
		}
		return ok
	})
	return ok
}

func (r *rewriter) text(n ast.Node) string { return string(r.src[r.off(n.Pos()):r.off(n.End())]) }

func (r *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	for _, s := range b.List {
		r.stmt(s, true)
	}
}

func (r *rewriter) lhs(e ast.Expr) {
	// written, not read
	if r.full && r.shared(e) {
		r.ins(e.Pos(), "*vs__.WP(&")
		r.addr(e)
		r.ins(e.End(), ","+r.site(e.Pos())+")")
		return
	}
	r.addr(e)
}

// stmt visits s; inList tells that text may be inserted before it.
func (r *rewriter) stmt(s ast.Stmt, inList bool) {
	switch s := s.(type) {
	case nil:
	case *ast.ExprStmt:
		r.value(s.X)
	case *ast.SendStmt:
		r.value(s.Chan)
		r.value(s.Value)
	case *ast.IncDecStmt:
		if r.full && r.shared(s.X) && pure(s.X) {
			op := "+"
			if s.Tok == token.DEC {
				op = "-"
			}
			t := r.text(s.X)
			st := r.site(s.Pos())
			r.repl(s.Pos(), s.End(), fmt.Sprintf("vs__.W(&%s, (*vs__.R(&%s,%s))%s1,%s)", t, t, st, op, st))
			return
		}
		r.lhs(s.X)
	case *ast.AssignStmt:
		r.assign(s, inList)
	case *ast.GoStmt:
		r.call(s.Call)
	case *ast.DeferStmt:
		r.call(s.Call)
	case *ast.ReturnStmt:
		for _, e := range s.Results {
			r.value(e)
		}
	case *ast.BlockStmt:
		r.block(s)
	case *ast.IfStmt:
		r.stmt(s.Init, false)
		r.value(s.Cond)
		r.block(s.Body)
		r.stmt(s.Else, false)
	case *ast.CaseClause:
		for _, e := range s.List {
			r.value(e)
		}
		for _, b := range s.Body {
			r.stmt(b, true)
		}
	case *ast.SwitchStmt:
		r.stmt(s.Init, false)
		r.value(s.Tag)
		for _, c := range s.Body.List {
			r.stmt(c, false)
		}
	case *ast.TypeSwitchStmt:
		r.stmt(s.Init, false)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for _, b := range cc.Body {
				r.stmt(b, true)
			}
		}
	case *ast.SelectStmt:
		for _, c := range s.Body.List {
			cc := c.(*ast.CommClause)
			for _, b := range cc.Body {
				r.stmt(b, true)
			}
		}
	case *ast.ForStmt:
		site := r.site(s.Pos())
		if inList {
			r.ins(s.Pos(), "vs__.LoopEnter("+site+"); ")
		}
		r.stmt(s.Init, false)
		r.value(s.Cond)
		r.stmt(s.Post, false)
		r.insAfter(s.Body.Lbrace, " vs__.Loop("+site+"); ")
		r.block(s.Body)
	case *ast.RangeStmt:
		r.value(s.X)
		site := r.site(s.Pos())
		if inList {
			r.ins(s.Pos(), "vs__.LoopEnter("+site+"); ")
		}
		r.insAfter(s.Body.Lbrace, " vs__.Loop("+site+"); ")
		r.block(s.Body)
	case *ast.LabeledStmt:
		switch s.Stmt.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.SelectStmt, *ast.TypeSwitchStmt:
			if inList {
				if r.gotos[s.Label.Name] {
					// keep the label on the loop; count the jumps inside the loop only
				} else {
					switch f := s.Stmt.(type) {
					case *ast.ForStmt, *ast.RangeStmt:
						_ = f
						// the site number used by the loop is the next one
						r.ins(s.Pos(), "vs__.LoopEnter("+strconv.Itoa(len(*r.sites)+1)+"); ")
					}
				}
			}
			r.stmt(s.Stmt, false)
		default:
			if r.gotos[s.Label.Name] {
				site := r.site(s.Pos())
				r.insAfter(s.Colon, " vs__.Loop("+site+"); ")
			}
			r.stmt(s.Stmt, true)
		}
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				for _, v := range sp.(*ast.ValueSpec).Values {
					r.value(v)
				}
			}
		}
	}
}

func (r *rewriter) insAfter(p token.Pos, text string) {
	o := r.off(p) + 1
	r.edits = append(r.edits, edit{o, o, text, len(r.edits)})
}

var binop = map[token.Token]string{
	token.ADD_ASSIGN: "+", token.SUB_ASSIGN: "-", token.MUL_ASSIGN: "*", token.QUO_ASSIGN: "/", token.REM_ASSIGN: "%",
	token.AND_ASSIGN: "&", token.OR_ASSIGN: "|", token.XOR_ASSIGN: "^", token.SHL_ASSIGN: "<<", token.SHR_ASSIGN: ">>", token.AND_NOT_ASSIGN: "&^",
}

func (r *rewriter) assign(s *ast.AssignStmt, inList bool) {
	if s.Tok == token.DEFINE {
		for _, e := range s.Rhs {
			r.value(e)
		}
		return
	}
	if len(s.Lhs) == 1 && len(s.Rhs) == 1 && r.full && r.shared(s.Lhs[0]) {
		l, x := s.Lhs[0], s.Rhs[0]
		if s.Tok == token.ASSIGN {
			r.ins(l.Pos(), "vs__.W(&")
			r.addr(l)
			r.repl(s.TokPos, s.TokPos+1, ",")
			r.value(x)
			r.ins(s.End(), ","+r.site(s.Pos())+")")
			return
		}
		if op, ok := binop[s.Tok]; ok && pure(l) {
			t := r.text(l)
			st := r.site(s.Pos())
			r.repl(l.Pos(), s.TokPos+token.Pos(len(s.Tok.String())), fmt.Sprintf("vs__.W(&%s, (*vs__.R(&%s,%s)) %s (", t, t, st, op))
			r.value(x)
			r.ins(s.End(), "),"+st+")")
			return
		}
	}
	for _, e := range s.Lhs {
		r.lhs(e)
	}
	for _, e := range s.Rhs {
		r.value(e)
	}
}

func (r *rewriter) apply() []byte {
	sort.SliceStable(r.edits, func(i, j int) bool {
		a, b := r.edits[i], r.edits[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		return a.seq < b.seq
	})
	var out bytes.Buffer
	last := 0
	for _, e := range r.edits {
		if e.pos < last {
			continue // inside replaced text
		}
		out.Write(r.src[last:e.pos])
		out.WriteString(e.text)
		last = e.end
	}
	out.Write(r.src[last:])
	return out.Bytes()
}

func main() {
	src := flag.String("src", "", "package directory")
	dst := flag.String("dst", "", "output module directory")
	level := flag.String("level", "full", "full or sync")
	flag.Parse()
	if err := run(*src, *dst, *level == "full"); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(3)
	}
}

func run(src, dst string, full bool) error {
	ents, err := os.ReadDir(src)
	if err != nil {
		return err
	}
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	var srcs [][]byte
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := build.Default.MatchFile(src, n); err != nil || !ok {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, n))
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, filepath.Join(src, n), b, parser.ParseComments)
		if err != nil {
			return err
		}
		files = append(files, f)
		names = append(names, n)
		srcs = append(srcs, b)
	}
	if len(files) == 0 {
		return fmt.Errorf("no Go files in %s", src)
	}
	exports, err := exportData(src)
	if err != nil {
		return err
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", build.Default.GOARCH)}
	pkg, err := conf.Check("github.com/zhangyunhao116/skipset", fset, files, info)
	if err != nil {
		return fmt.Errorf("type check: %w", err)
	}
	if err := os.MkdirAll(dst, 0o755); err != nil {
		return err
	}
	var sites []string
	for i, f := range files {
		r := &rewriter{fset: fset, info: info, pkg: pkg, src: srcs[i], sites: &sites, full: full, gotos: map[string]bool{}}
		ast.Inspect(f, func(n ast.Node) bool {
			if b, ok := n.(*ast.BranchStmt); ok && b.Tok == token.GOTO {
				r.gotos[b.Label.Name] = true
			}
			return true
		})
		r.ins(f.Name.End(), "; import vs__ \"verif.local/mc/vs\"; var _ = vs__.E")
		// The blank variable must follow all imports: put it at the end instead.
		r.edits[len(r.edits)-1].text = "; import vs__ \"verif.local/mc/vs\""
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if s, ok := replaceImport[p]; ok {
				r.repl(im.Path.Pos(), im.Path.End(), strconv.Quote(shim+s))
			}
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				r.block(d.Body)
			case *ast.GenDecl:
				if d.Tok == token.VAR {
					for _, sp := range d.Specs {
						for _, v := range sp.(*ast.ValueSpec).Values {
							r.value(v)
						}
					}
				}
			}
		}
		out := r.apply()
		tail := "\nvar _ = vs__.E\n"
		for _, im := range f.Imports {
			if p, _ := strconv.Unquote(im.Path.Value); p == "time" && im.Name == nil {
				tail += "var _ = time.Now\n"
			}
		}
		if full {
			for _, d := range f.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok || g.Tok != token.VAR {
					continue
				}
				for _, sp := range g.Specs {
					for _, n := range sp.(*ast.ValueSpec).Names {
						if n.Name != "_" {
							tail += fmt.Sprintf("func init() { vs__.Global(%q, &%s) }\n", n.Name, n.Name)
						}
					}
				}
			}
		}
		out = append(out, tail...)
		if err := os.WriteFile(filepath.Join(dst, names[i]), out, 0o644); err != nil {
			return err
		}
	}
	gover := "1.18"
	if b, err := os.ReadFile(filepath.Join(src, "go.mod")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if v, ok := strings.CutPrefix(strings.TrimSpace(l), "go "); ok {
				gover = strings.TrimSpace(v)
			}
		}
	}
	os.WriteFile(filepath.Join(dst, "go.mod"), []byte("module github.com/zhangyunhao116/skipset\n\ngo "+gover+"\n"), 0o644)
	cl, _ := json.Marshal(classes(fset, info, files, srcs))
	if err := os.WriteFile(filepath.Join(dst, "classes.json"), cl, 0o644); err != nil {
		return err
	}
	j, _ := json.Marshal(sites)
	return os.WriteFile(filepath.Join(dst, "sites.json"), j, 0o644)
}

// exportData maps import paths to export files of everything the package imports.
func exportData(src string) (map[string]string, error) {
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-f", "{{.ImportPath}}={{.Export}}", ".")
	cmd.Dir = src
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, errb.String())
	}
	m := map[string]string{}
	for _, l := range strings.Split(string(out), "\n") {
		if k, v, ok := strings.Cut(l, "="); ok && v != "" {
			m[k] = v
		}
	}
	return m, nil
}

// classes maps every set type (a type with an Add method) to a fingerprint of
// its file in which the names declared there, the element type and the
// direction of comparisons are abstracted. Types with equal fingerprints run
// the same algorithm; the deepest explorations are spent on one type of each
// fingerprint (all types get the others).
func classes(fset *token.FileSet, info *types.Info, files []*ast.File, srcs [][]byte) map[string]string {
	res := map[string]string{}
	for i, f := range files {
		names := map[string]string{}
		decl := func(n string) {
			if _, ok := names[n]; !ok {
				names[n] = fmt.Sprintf("D%d", len(names))
			}
		}
		var sets []string
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					decl(d.Name.Name)
					continue
				}
				if d.Name.Name == "Add" && len(d.Type.Params.List) == 1 {
					t := d.Recv.List[0].Type
					if st, ok := t.(*ast.StarExpr); ok {
						t = st.X
					}
					if ix, ok := t.(*ast.IndexExpr); ok {
						t = ix.X
					}
					if id, ok := t.(*ast.Ident); ok {
						sets = append(sets, id.Name)
					}
				}
			case *ast.GenDecl:
				for _, sp := range d.Specs {
					switch sp := sp.(type) {
					case *ast.TypeSpec:
						decl(sp.Name.Name)
					case *ast.ValueSpec:
						for _, n := range sp.Names {
							decl(n.Name)
						}
					}
				}
			}
		}
		if len(sets) == 0 {
			continue
		}
		cmp := map[int]bool{}
		base := fset.File(f.Pos())
		isVal := func(e ast.Expr) bool {
			s, ok := e.(*ast.SelectorExpr)
			return ok && s.Sel.Name == "value"
		}
		elem := map[int]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			if fl, ok := n.(*ast.Field); ok && len(fl.Names) == 1 && (fl.Names[0].Name == "value" || fl.Names[0].Name == "start") {
				if id, ok := fl.Type.(*ast.Ident); ok {
					elem[base.Offset(id.Pos())] = true
				}
			}
			if b, ok := n.(*ast.BinaryExpr); ok && (b.Op == token.LSS || b.Op == token.GTR) && (isVal(b.X) || isVal(b.Y)) {
				cmp[base.Offset(b.OpPos)] = true
			}
			return true
		})
		var sc scanner.Scanner
		nf := token.NewFileSet()
		tf := nf.AddFile("x", -1, len(srcs[i]))
		sc.Init(tf, srcs[i], nil, 0)
		h := sha256.New()
		for {
			pos, tok, lit := sc.Scan()
			if tok == token.EOF {
				break
			}
			if tok == token.IDENT {
				if elem[tf.Offset(pos)] {
					lit = "ELEM"
				} else if n, ok := names[lit]; ok {
					lit = n
				}
			}
			t := tok.String()
			if cmp[tf.Offset(pos)] {
				t = "CMP"
			}
			fmt.Fprintf(h, "%s %s\n", t, lit)
		}
		fp := fmt.Sprintf("%x", h.Sum(nil)[:8])
		for _, n := range sets {
			res[n] = fp
		}
	}
	return res
}
