// Command instrument rewrites the packages of a Go module so that every source
// of nondeterminism goes through the simulator, and writes an overlay file for
// "go build -overlay". It inserts and deletes text only, never a newline, so
// line numbers in panics and stack traces stay those of the real sources.
//
// What is rewritten:
//   - imports of sync, sync/atomic, os, io/ioutil, path/filepath, runtime, time,
//     math/rand, crypto/rand, fmt, log, context  -> drop-in packages of this module
//   - go statements, channel sends, receives, range, close, select
//   - range over maps (seeded order)
//   - a yield before every statement and at the top of every loop body
//   - uses of a few tuning constants (values may be overridden per run)
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var (
	repo     = flag.String("repo", "/repo", "module to instrument")
	out      = flag.String("out", "", "output directory")
	tags     = flag.String("tags", "cppbtree", "build tags")
	race     = flag.Bool("race", false, "race build: also tell the race detector what the C++ tree does")
	cgotrace = flag.String("cgotrace", "", "directory of the recorder for C++ code")
	pkgsArg  = flag.String("pkgs", ".,./datatree,./indextree,./indextree/b,./metadb,./types,./store,./store/types,./store/rabbit", "packages")
)

const base = "verif.local/ds/"

var subst = map[string]string{
	"sync":          base + "simsync",
	"sync/atomic":   base + "simatomic",
	"os":            base + "simos",
	"io/ioutil":     base + "simioutil",
	"path/filepath": base + "simfilepath",
	"runtime":       base + "simruntime",
	"time":          base + "simtime",
	"math/rand":     base + "simrand",
	"fmt":           base + "simfmt",
	"log":           base + "simlog",
}

// Extra substitutions for single packages (import-path suffix -> imports).
var substPkg = map[string]map[string]string{
	"/store/rabbit": {
		"github.com/minio/sha256-simd": base + "simsha",
		"crypto/sha256":                base + "simsha",
	},
}

// Tuning constants that a run may override; the number is the knob index.
var knobs = map[string]int{
	"DefaultHPFileSize":  0,
	"StartReapThres":     1,
	"HPFileBufferSize":   2,
	"RootCacheSizeLimit": 3,
	"MinKeptTwigs":       4,
	"JobChanSize":        5,
	"PreReadBufSize":     6,
	"EvictTryDist":       7,
	"MinDeactiveEntries": 8,
}

type edit struct {
	off, end int // replace [off,end) with text
	text     string
	seq      int
}

type pkgInfo struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Module     *struct{ Path string }
}

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+format+"\n", a...)
	os.Exit(2)
}

func goList(args ...string) []pkgInfo {
	cmd := exec.Command("go", append([]string{"list", "-e", "-tags", *tags}, args...)...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(strings.NewReader(string(b)))
	var res []pkgInfo
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		res = append(res, p)
	}
	return res
}

func main() {
	flag.Parse()
	if *out == "" {
		die("-out is required")
	}
	os.MkdirAll(*out, 0755)
	targets := strings.Split(*pkgsArg, ",")
	deps := goList(append([]string{"-deps", "-export", "-json=ImportPath,Dir,GoFiles,CgoFiles,Export,Module"}, targets...)...)
	exports := map[string]string{}
	byPath := map[string]pkgInfo{}
	modPath := ""
	for _, p := range deps {
		exports[p.ImportPath] = p.Export
		byPath[p.ImportPath] = p
	}
	roots := goList(append([]string{"-json=ImportPath,Dir,GoFiles,CgoFiles,Module"}, targets...)...)
	for _, r := range roots {
		if r.Module != nil {
			modPath = r.Module.Path
		}
	}
	// Also instrument any further package of the module that the targets import
	// (a package a change has split off), except cgo packages.
	var list []pkgInfo
	for _, p := range deps {
		if p.ImportPath == modPath || strings.HasPrefix(p.ImportPath, modPath+"/") {
			list = append(list, p)
		}
	}
	overlay := map[string]string{}
	var stats = map[string]int{}
	for _, p := range list {
		if len(p.CgoFiles) > 0 {
			if *race {
				raceCgo(p, overlay)
				if *cgotrace != "" {
					traceCgo(p, overlay)
				}
			}
			continue
		}
		instrumentPkg(p, exports, overlay, stats)
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0644); err != nil {
		die("%v", err)
	}
	b, _ = json.MarshalIndent(stats, "", " ")
	os.WriteFile(filepath.Join(*out, "stats.json"), b, 0644)
}

// traceCgo adds the recorder of the C++ code's loads and stores to a cgo package with C++ files.
func traceCgo(p pkgInfo, overlay map[string]string) {
	if cc, _ := filepath.Glob(filepath.Join(p.Dir, "*.cpp")); len(cc) == 0 {
		return
	}
	src, err := os.ReadFile(filepath.Join(p.Dir, p.CgoFiles[0]))
	if err != nil {
		die("%v", err)
	}
	af, err := parser.ParseFile(token.NewFileSet(), "", src, parser.PackageClauseOnly)
	if err != nil {
		die("%v", err)
	}
	for _, f := range []string{"simtrace.cpp", "simtrace.go"} {
		b, err := os.ReadFile(filepath.Join(*cgotrace, f+".txt"))
		if err != nil {
			die("%v", err)
		}
		outPath := filepath.Join(*out, "zz_"+f)
		b = []byte(strings.Replace(string(b), "package PKG", "package "+af.Name.Name, 1))
		if err := os.WriteFile(outPath, b, 0644); err != nil {
			die("%v", err)
		}
		overlay[filepath.Join(p.Dir, "zz_"+f)] = outPath
	}
}

// raceCgo makes the methods of a cgo package report their use of the object to the
// race detector, which cannot see C++ code, and keeps cgo calls from counting as
// synchronisation (the Go runtime orders them all).
func raceCgo(p pkgInfo, overlay map[string]string) {
	for _, f := range p.CgoFiles {
		path := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(path)
		if err != nil {
			die("%v", err)
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		at := map[int]string{fset.Position(af.Name.End()).Offset: "; import simrt \"" + base + "simrt\"; import simunsafe \"unsafe\""}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || !fd.Name.IsExported() {
				continue
			}
			mode, recv, key := 0, "nil", "0"
			if ps := fd.Type.Params.List; len(ps) > 0 && len(ps[0].Names) > 0 {
				if id, ok := ps[0].Type.(*ast.Ident); ok && id.Name == "uint64" && ps[0].Names[0].Name != "_" {
					key = ps[0].Names[0].Name
				}
			}
			if fd.Recv != nil && len(fd.Recv.List) == 1 && len(fd.Recv.List[0].Names) == 1 {
				if st, ok := fd.Recv.List[0].Type.(*ast.StarExpr); ok {
					if id, ok := st.X.(*ast.Ident); ok && id.Name == "Tree" {
						recv = fd.Recv.List[0].Names[0].Name
						switch n := fd.Name.Name; {
						case strings.HasPrefix(n, "Get"):
							mode = 1
						case strings.HasPrefix(n, "Seek"):
							mode = 3
						case strings.HasPrefix(n, "Set"), strings.HasPrefix(n, "Put"), strings.HasPrefix(n, "Delete"):
							mode = 2
						case n == "Close":
							mode = 4
						}
					}
				}
			}
			at[fset.Position(fd.Body.Lbrace).Offset+1] = fmt.Sprintf(" defer simrt.CgoCall(simunsafe.Pointer(%s), %d, %s)();", recv, mode, key)
		}
		var sb strings.Builder
		for i := 0; i <= len(src); i++ {
			sb.WriteString(at[i])
			if i < len(src) {
				sb.WriteByte(src[i])
			}
		}
		outPath := filepath.Join(*out, strings.ReplaceAll(strings.TrimPrefix(path, "/"), "/", "__"))
		if err := os.WriteFile(outPath, []byte(sb.String()), 0644); err != nil {
			die("%v", err)
		}
		overlay[path] = outPath
	}
}

func instrumentPkg(p pkgInfo, exports map[string]string, overlay map[string]string, stats map[string]int) {
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	for _, f := range p.GoFiles {
		path := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(path)
		if err != nil {
			die("%v", err)
		}
		af, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
		srcs = append(srcs, src)
	}
	lookup := func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{
		Importer: importer.ForCompiler(fset, "gc", lookup),
		Error:    func(err error) { fmt.Fprintln(os.Stderr, err) },
	}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		die("type check of %s failed: %v", p.ImportPath, err)
	}
	for i, af := range files {
		r := &rewriter{fset: fset, info: info, src: srcs[i], file: af, pkg: p, stats: stats}
		res := r.run()
		name := strings.ReplaceAll(strings.TrimPrefix(filepath.Join(p.Dir, p.GoFiles[i]), "/"), "/", "__")
		outPath := filepath.Join(*out, name)
		if err := os.WriteFile(outPath, res, 0644); err != nil {
			die("%v", err)
		}
		overlay[filepath.Join(p.Dir, p.GoFiles[i])] = outPath
	}
}

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	src   []byte
	file  *ast.File
	pkg   pkgInfo
	edits []edit
	stats map[string]int
	n     int
	par   []ast.Node
	rt    bool // simrt used
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *rewriter) ins(p token.Pos, text string) { r.rep(p, p, text) }
func (r *rewriter) rep(a, b token.Pos, text string) {
	r.edits = append(r.edits, edit{r.off(a), r.off(b), text, len(r.edits)})
}
func (r *rewriter) repOff(a, b int, text string) {
	r.edits = append(r.edits, edit{a, b, text, len(r.edits)})
}
func (r *rewriter) id() string { r.n++; return "sim" + strconv.Itoa(r.n) }

func (r *rewriter) run() []byte {
	keep := []string{}
	for _, im := range r.file.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		np, ok := subst[path]
		for suf, m := range substPkg {
			if strings.HasSuffix(r.pkg.ImportPath, suf) {
				if x, ok2 := m[path]; ok2 {
					np, ok = x, true
				}
			}
		}
		if !ok {
			continue
		}
		name := path[strings.LastIndex(path, "/")+1:]
		if name == "sha256-simd" {
			name = "sha256"
		}
		if im.Name != nil {
			if im.Name.Name == "_" || im.Name.Name == "." {
				continue
			}
			r.rep(im.Path.Pos(), im.Path.End(), strconv.Quote(np))
		} else {
			r.rep(im.Path.Pos(), im.Path.End(), name+" "+strconv.Quote(np))
		}
		_ = keep
	}
	for _, d := range r.file.Decls {
		r.walk(d)
	}
	// package clause: import simrt, always used
	r.ins(r.file.Name.End(), "; import simrt \""+base+"simrt\"; import simknob \""+base+"simknob\"; var _ = simrt.Y; var _ = simknob.Get")
	// An "import" may not follow a "var": put the vars at the end instead.
	r.edits[len(r.edits)-1].text = "; import simrt \"" + base + "simrt\"; import simknob \"" + base + "simknob\""
	r.repOff(len(r.src), len(r.src), "\nvar _ = simrt.Y\nvar _ = simknob.Get\n")
	return r.apply()
}

func (r *rewriter) apply() []byte {
	sort.SliceStable(r.edits, func(i, j int) bool {
		a, b := r.edits[i], r.edits[j]
		if a.off != b.off {
			return a.off < b.off
		}
		return a.seq < b.seq
	})
	var sb strings.Builder
	pos := 0
	for _, e := range r.edits {
		if e.off < pos {
			if e.off == e.end { // insertion inside a deleted range
				sb.WriteString(e.text)
				continue
			}
			die("%s: overlapping edits at %d", r.fset.Position(r.file.Pos()).Filename, e.off)
		}
		sb.Write(r.src[pos:e.off])
		// keep the newlines of what is replaced
		sb.WriteString(e.text)
		if n := strings.Count(string(r.src[e.off:e.end]), "\n"); n > 0 && strings.Count(e.text, "\n") == 0 {
			sb.WriteString(strings.Repeat("\n", n))
		}
		pos = e.end
	}
	sb.Write(r.src[pos:])
	return []byte(sb.String())
}

func (r *rewriter) parent(i int) ast.Node {
	if len(r.par) > i {
		return r.par[len(r.par)-1-i]
	}
	return nil
}

func (r *rewriter) walkAll(ns ...ast.Node) {
	for _, n := range ns {
		if n != nil {
			r.walk(n)
		}
	}
}

func (r *rewriter) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
		case *ast.LabeledStmt:
			r.ins(s.Pos(), "simrt.Y(); ")
		default:
			r.ins(s.Pos(), "simrt.Y(); ")
		}
		r.walk(s)
	}
}

func (r *rewriter) walk(n ast.Node) {
	r.par = append(r.par, n)
	defer func() { r.par = r.par[:len(r.par)-1] }()
	switch x := n.(type) {
	case *ast.BlockStmt:
		r.stmts(x.List)
		return
	case *ast.CaseClause:
		for _, e := range x.List {
			r.walk(e)
		}
		r.stmts(x.Body)
		return
	case *ast.GoStmt:
		r.goStmt(x)
		return
	case *ast.SendStmt:
		r.stats["send"]++
		r.ins(x.Pos(), "simrt.Snd(")
		r.rep(x.Arrow, x.Arrow+2, ")(")
		r.walk(x.Chan)
		r.walk(x.Value)
		r.ins(x.End(), ")")
		return
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			r.stats["recv"]++
			fn := "simrt.Recv("
			if r.isCommaOk(x) {
				fn = "simrt.Recv2("
			}
			r.rep(x.OpPos, x.OpPos+2, fn)
			r.walk(x.X)
			r.ins(x.End(), ")")
			return
		}
	case *ast.CallExpr:
		if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok && id.Name == "close" {
			if _, isB := r.info.Uses[id].(*types.Builtin); isB {
				r.stats["close"]++
				r.rep(id.Pos(), id.End(), "simrt.Close")
			}
		}
	case *ast.RangeStmt:
		r.rangeStmt(x)
		return
	case *ast.ForStmt:
		r.walkAllStmt(x.Init)
		if x.Cond != nil {
			r.walk(x.Cond)
		}
		r.walkAllStmt(x.Post)
		if len(x.Body.List) == 0 {
			r.ins(x.Body.Lbrace+1, " simrt.Y(); ")
		}
		r.walk(x.Body)
		return
	case *ast.FuncDecl:
		if x.Body != nil {
			r.walk(x.Body)
		}
		return
	case *ast.FuncLit:
		r.walk(x.Body)
		return
	case *ast.SelectStmt:
		r.selectStmt(x)
		return
	case *ast.Ident:
		r.knob(x, x)
		return
	case *ast.SelectorExpr:
		if !r.knob(x.Sel, x) {
			r.walk(x.X)
		}
		return
	case *ast.GenDecl:
		if x.Tok == token.CONST || x.Tok == token.IMPORT || x.Tok == token.TYPE {
			return
		}
	case *ast.ArrayType:
		return
	case *ast.KeyValueExpr:
		// a struct key is an identifier but not a use of a constant
		if id, ok := x.Key.(*ast.Ident); ok {
			if v, ok := r.info.Uses[id].(*types.Var); ok && v.IsField() {
				r.walk(x.Value)
				return
			}
		}
	}
	// generic children
	first := true
	ast.Inspect(n, func(c ast.Node) bool {
		if first {
			first = false
			return true
		}
		if c != nil {
			r.walk(c)
		}
		return false
	})
}

func (r *rewriter) walkAllStmt(s ast.Stmt) {
	if s != nil {
		r.walk(s)
	}
}

func (r *rewriter) knob(id *ast.Ident, e ast.Expr) bool {
	c, ok := r.info.Uses[id].(*types.Const)
	if !ok || c.Pkg() == nil || !strings.Contains(c.Pkg().Path(), "moeingads") || c.Parent() != c.Pkg().Scope() {
		return false
	}
	k, ok := knobs[id.Name]
	if !ok {
		return false
	}
	tv, ok := r.info.Types[e]
	if !ok {
		return false
	}
	b, ok := tv.Type.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	tn := tv.Type.String()
	if _, named := tv.Type.(*types.Named); named {
		return false
	}
	if b.Info()&types.IsUntyped != 0 {
		tn = r.untypedTarget()
	}
	// inside an array length or a case label? (array types are not walked; labels may not be constant anyway)
	r.stats["knob:"+id.Name]++
	r.ins(e.Pos(), fmt.Sprintf("%s(simknob.Get(%d, int64(", tn, k))
	r.ins(e.End(), ")))")
	return true
}

// untypedTarget is the type that the constant expression around an untyped constant is converted to.
func (r *rewriter) untypedTarget() string {
	for i := 1; ; i++ {
		e, ok := r.parent(i).(ast.Expr)
		if !ok {
			return "int"
		}
		switch e.(type) {
		case *ast.BinaryExpr, *ast.ParenExpr, *ast.UnaryExpr:
		default:
			return "int"
		}
		b, ok := r.info.Types[e].Type.(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			return "int"
		}
		if b.Info()&types.IsUntyped == 0 {
			return b.String()
		}
	}
}

func (r *rewriter) isCommaOk(x *ast.UnaryExpr) bool {
	i := 1
	for {
		if _, ok := r.parent(i).(*ast.ParenExpr); ok {
			i++
			continue
		}
		break
	}
	switch p := r.parent(i).(type) {
	case *ast.AssignStmt:
		return len(p.Lhs) == 2 && len(p.Rhs) == 1
	case *ast.ValueSpec:
		return len(p.Names) == 2 && len(p.Values) == 1
	}
	return false
}

func (r *rewriter) goStmt(x *ast.GoStmt) {
	r.stats["go"]++
	call := x.Call
	fun := ast.Unparen(call.Fun)
	if id, ok := fun.(*ast.Ident); ok {
		if _, isB := r.info.Uses[id].(*types.Builtin); isB {
			r.rep(x.Go, x.Go+2, "simrt.Go(func() {")
			r.walk(call)
			r.ins(x.End(), "})")
			return
		}
	}
	f := r.id()
	r.rep(x.Go, x.Go+2, "{ "+f+" :=")
	r.walk(call.Fun)
	sig, _ := r.info.Types[call.Fun].Type.Underlying().(*types.Signature)
	multi := false
	if len(call.Args) == 1 {
		if _, ok := r.info.Types[call.Args[0]].Type.(*types.Tuple); ok {
			multi = true
		}
	}
	if len(call.Args) == 0 {
		r.rep(call.Lparen, call.Rparen+1, "; simrt.Go(func() { "+f+"() }) }")
		return
	}
	if multi {
		n := r.info.Types[call.Args[0]].Type.(*types.Tuple).Len()
		var names []string
		for i := 0; i < n; i++ {
			names = append(names, r.id())
		}
		r.rep(call.Lparen, call.Lparen+1, "; "+strings.Join(names, ", ")+" := ")
		r.walk(call.Args[0])
		r.rep(call.Args[0].End(), call.Rparen+1, "; simrt.Go(func() { "+f+"("+strings.Join(names, ", ")+") }) }")
		return
	}
	// one statement per argument keeps conversions simple
	var inner []string
	prevEnd := call.Lparen
	for i, a := range call.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() { // constants and nil: inline
			inner = append(inner, string(r.src[r.off(a.Pos()):r.off(a.End())]))
			r.rep(prevEnd, a.End(), "")
		} else {
			nm := r.id()
			r.rep(prevEnd, a.Pos(), "; "+nm+" := ")
			r.walk(a)
			inner = append(inner, nm)
		}
		prevEnd = a.End()
		_ = i
	}
	_ = sig
	ell := ""
	if call.Ellipsis.IsValid() {
		ell = "..."
	}
	r.rep(prevEnd, call.Rparen+1, "; simrt.Go(func() { "+f+"("+strings.Join(inner, ", ")+ell+") }) }")
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rewriter) text(e ast.Expr) string { return string(r.src[r.off(e.Pos()):r.off(e.End())]) }

func (r *rewriter) rangeStmt(x *ast.RangeStmt) {
	t := r.info.Types[x.X].Type
	if t == nil {
		die("no type for range expression")
	}
	body := func() {
		if len(x.Body.List) == 0 {
			r.ins(x.Body.Lbrace+1, " simrt.Y(); ")
		}
		r.walk(x.Body)
	}
	switch t.Underlying().(type) {
	case *types.Chan:
		r.stats["rangechan"]++
		it := r.id()
		if isBlank(x.Key) {
			r.rep(x.For+3, x.X.Pos(), " "+it+" := simrt.RangeChan0(")
			r.walk(x.X)
			r.ins(x.X.End(), "); "+it+".Next0(); ")
		} else if x.Tok == token.DEFINE {
			v := r.text(x.Key)
			r.rep(x.For+3, x.X.Pos(), " "+it+", "+v+" := simrt.RangeChan(")
			r.walk(x.X)
			r.ins(x.X.End(), "); "+it+".Next(&"+v+"); ")
		} else {
			v := r.text(x.Key)
			r.rep(x.For+3, x.X.Pos(), " "+it+" := simrt.RangeChan0(")
			r.walk(x.X)
			r.ins(x.X.End(), "); "+it+".Next(&("+v+")); ")
		}
		body()
	case *types.Map:
		r.stats["rangemap"]++
		it := r.id()
		bk, bv := isBlank(x.Key), isBlank(x.Value)
		pre, arg := " "+it, ""
		k, v := "nil", "nil"
		fn := "RangeMap0"
		if x.Tok == token.DEFINE {
			if !bk {
				k = "&" + r.text(x.Key)
				arg += ", " + r.text(x.Key)
			}
			if !bv {
				v = "&" + r.text(x.Value)
				arg += ", " + r.text(x.Value)
			}
			switch {
			case !bk && !bv:
				fn = "RangeMapKV"
			case !bk:
				fn = "RangeMapK"
			case !bv:
				fn = "RangeMapV"
			}
		} else {
			if !bk {
				k = "&(" + r.text(x.Key) + ")"
			}
			if !bv {
				v = "&(" + r.text(x.Value) + ")"
			}
		}
		r.rep(x.For+3, x.X.Pos(), pre+arg+" := simrt."+fn+"(")
		r.walk(x.X)
		r.ins(x.X.End(), "); "+it+".Next("+k+", "+v+"); ")
		body()
	default:
		if x.Key != nil && x.Tok == token.ASSIGN {
			r.walk(x.Key)
		}
		if x.Value != nil && x.Tok == token.ASSIGN {
			r.walk(x.Value)
		}
		r.walk(x.X)
		body()
	}
}

// select { case v := <-a: ... case b <- x: ... default: ... }
// becomes { c1 := simrt.CaseRecv(a); c2 := simrt.CaseSend(b)(x); switch simrt.Select(hasDefault, c1, c2) { case 0: v := c1.V; ... } }
func (r *rewriter) selectStmt(x *ast.SelectStmt) {
	r.stats["select"]++
	if _, ok := r.parent(1).(*ast.LabeledStmt); ok {
		die("%s: labeled select is not supported", r.fset.Position(x.Pos()))
	}
	var pre, names []string
	hasDef := "false"
	idx := 0
	type cc struct {
		c    *ast.CommClause
		head string
	}
	var ccs []cc
	for _, s := range x.Body.List {
		c := s.(*ast.CommClause)
		if c.Comm == nil {
			hasDef = "true"
			ccs = append(ccs, cc{c, "default:"})
			continue
		}
		nm := r.id()
		names = append(names, nm)
		head := fmt.Sprintf("case %d:", idx)
		idx++
		recv := func(e ast.Expr) *ast.UnaryExpr {
			u, ok := ast.Unparen(e).(*ast.UnaryExpr)
			if !ok {
				die("%s: unexpected select clause", r.fset.Position(c.Pos()))
			}
			return u
		}
		switch k := c.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, nm+" := simrt.CaseSend("+r.text(k.Chan)+")("+r.text(k.Value)+")")
		case *ast.ExprStmt:
			pre = append(pre, nm+" := simrt.CaseRecv("+r.text(recv(k.X).X)+")")
		case *ast.AssignStmt:
			pre = append(pre, nm+" := simrt.CaseRecv("+r.text(recv(k.Rhs[0]).X)+")")
			rhs := nm + ".V"
			lhs := r.text(k.Lhs[0])
			if len(k.Lhs) == 2 {
				lhs += ", " + r.text(k.Lhs[1])
				rhs += ", " + nm + ".OK"
			}
			head += " " + lhs + " " + k.Tok.String() + " " + rhs + ";"
		}
		ccs = append(ccs, cc{c, head})
	}
	args := append([]string{hasDef}, names...)
	r.rep(x.Select, x.Body.Lbrace, "{ "+strings.Join(pre, "; ")+"; switch simrt.Select("+strings.Join(args, ", ")+") ")
	for _, c := range ccs {
		r.rep(c.c.Case, c.c.Colon+1, c.head)
		r.stmts(c.c.Body)
	}
	r.ins(x.End(), " }")
}
