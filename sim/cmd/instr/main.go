// Command instr instruments the current sources of /repo for the simulator.
//
// It reads every non-test Go file of the packages of the repository, inserts a
// yield point before every statement and routes the sources of nondeterminism
// (sync, goroutines, clock, map iteration) and allocation sizes to the
// simulator.  The result is an overlay for `go build -overlay`; the repository
// itself is never written.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const (
	rtPath   = "verif.local/sim/simrt"
	syncPath = "verif.local/sim/simsync"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct{ Path string }
}

type edit struct {
	off, del int
	ins      string
	prio     int // smaller first at the same offset
}

type site struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
}

func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", args...)
	os.Exit(2)
}

// modfile selects another copy of the repository.
func modfile() []string {
	if f := os.Getenv("SIM_MODFILE"); f != "" {
		return []string{"-modfile", f}
	}
	return nil
}

func main() {
	out := flag.String("out", "", "output directory")
	race := flag.Bool("race", false, "remove the pool of package fmt, which orders goroutines")
	mod := flag.String("module", "github.com/dpeckett/archivefs", "module to instrument")
	flag.Parse()
	if *out == "" {
		die("-out is required")
	}

	// Packages of the module that exist in the working tree.
	find := exec.Command("go", append(append([]string{"list"}, modfile()...), "-find", "-f", "{{.ImportPath}}", *mod+"/...")...)
	find.Stderr = os.Stderr
	list, err := find.Output()
	if err != nil {
		die("go list: %v", err)
	}
	args := append([]string{"list"}, modfile()...)
	args = append(args, "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Export,Standard,Module")
	for _, p := range strings.Fields(string(list)) {
		if !strings.HasSuffix(p, "/internal/testutil") { // test helper with test-only dependencies
			args = append(args, p)
		}
	}
	cmd := exec.Command("go", args...)
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var targets []pkgInfo
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Path == *mod && !strings.Contains(p.ImportPath, "/internal/testutil") {
			targets = append(targets, p)
		}
	}
	if len(targets) == 0 {
		die("no packages found in %s", *mod)
	}

	overlay := map[string]string{}
	var sites []site
	nextSite := 1
	for _, p := range targets {
		fset := token.NewFileSet()
		var files []*ast.File
		var srcs [][]byte
		var names []string
		for _, f := range p.GoFiles {
			full := filepath.Join(p.Dir, f)
			src, err := os.ReadFile(full)
			if err != nil {
				die("%v", err)
			}
			af, err := parser.ParseFile(fset, full, src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files = append(files, af)
			srcs = append(srcs, src)
			names = append(names, full)
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{},
			Uses:  map[*ast.Ident]types.Object{},
			Defs:  map[*ast.Ident]types.Object{},
		}
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		})
		conf := types.Config{Importer: imp, Error: func(error) {}, Sizes: types.SizesFor("gc", "amd64")}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			fmt.Fprintf(os.Stderr, "instr: type check of %s: %v (continuing)\n", p.ImportPath, err)
		}
		for i, af := range files {
			ins := &instrumenter{fset: fset, src: srcs[i], info: info, sizes: conf.Sizes, nextSite: nextSite, file: names[i]}
			res := ins.run(af)
			nextSite = ins.nextSite
			sites = append(sites, ins.sites...)
			dst := filepath.Join(*out, strings.ReplaceAll(strings.TrimPrefix(names[i], "/"), "/", "__"))
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				die("%v", err)
			}
			overlay[names[i]] = dst
		}
	}
	if *race {
		unpool(*out, overlay)
	}
	b, _ := json.Marshal(map[string]any{"Replace": overlay})
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		die("%v", err)
	}
	b, _ = json.Marshal(sites)
	if err := os.WriteFile(filepath.Join(*out, "sites.json"), b, 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("instrumented %d packages, %d files, %d statement sites\n", len(targets), len(overlay), len(sites))
}

// unpool stops package fmt from recycling its buffers: a recycled buffer orders the
// goroutine that used it before with the one that uses it next, which hides data
// races from the race detector.
func unpool(out string, overlay map[string]string) {
	root, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		die("go env GOROOT: %v", err)
	}
	file := filepath.Join(strings.TrimSpace(string(root)), "src/fmt/print.go")
	src, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	s := strings.Replace(string(src), "p := ppFree.Get().(*pp)", "p := new(pp)", 1)
	s = strings.Replace(s, "\tppFree.Put(p)\n", "\t_ = &ppFree\n", 1)
	if strings.Contains(s, "ppFree.Get") || strings.Contains(s, "ppFree.Put") {
		fmt.Fprintln(os.Stderr, "instr: package fmt looks different, its pool stays")
		return
	}
	dst := filepath.Join(out, "std__fmt__print.go")
	if err := os.WriteFile(dst, []byte(s), 0o644); err != nil {
		die("%v", err)
	}
	overlay[file] = dst
}

type instrumenter struct {
	fset     *token.FileSet
	src      []byte
	info     *types.Info
	sizes    types.Sizes
	edits    []edit
	nextSite int
	sites    []site
	file     string
	uniq     int
	usesRT   bool
	keep     map[string]string // import local name -> keep-alive declaration
	two      map[ast.Expr]bool // receives in a comma-ok assignment
}

func (in *instrumenter) off(p token.Pos) int { return in.fset.Position(p).Offset }

func (in *instrumenter) ins(p token.Pos, prio int, text string) {
	in.edits = append(in.edits, edit{off: in.off(p), ins: text, prio: prio})
}

func (in *instrumenter) replace(from, to token.Pos, text string) {
	o := in.off(from)
	in.edits = append(in.edits, edit{off: o, del: in.off(to) - o, ins: text, prio: 50})
}

func (in *instrumenter) text(n ast.Node) string {
	return string(in.src[in.off(n.Pos()):in.off(n.End())])
}

// pkgOf returns the import path when id names an imported package.
func (in *instrumenter) pkgOf(e ast.Expr) string {
	id, ok := e.(*ast.Ident)
	if !ok {
		return ""
	}
	if pn, ok := in.info.Uses[id].(*types.PkgName); ok {
		return pn.Imported().Path()
	}
	return ""
}

func (in *instrumenter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = in.info.Uses[id].(*types.Builtin)
	return ok
}

func (in *instrumenter) stmts(list []ast.Stmt) {
	for _, s := range list {
		if e, ok := s.(*ast.EmptyStmt); ok && e.Implicit {
			continue
		}
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			continue // the body of a switch or select
		}
		id := in.nextSite
		in.nextSite++
		pos := in.fset.Position(s.Pos())
		in.sites = append(in.sites, site{ID: id, File: in.file, Line: pos.Line})
		in.ins(s.Pos(), 10, fmt.Sprintf("simrt.Y(%d); ", id))
		in.usesRT = true
	}
}

var rtFuncs = map[string]map[string]string{
	"time":    {"Now": "Now", "Sleep": "Sleep", "Since": "Since", "Until": "Until", "After": "After"},
	"runtime": {"Gosched": "Gosched"},
	"io":      {"Pipe": "Pipe", "PipeReader": "PipeReader", "PipeWriter": "PipeWriter"},
	"maps":    {"Keys": "MapKeys", "Values": "MapValues", "All": "MapAll"},
}

// goStmt starts a simulated task; it reports whether the nodes below still need
// a visit.
func (in *instrumenter) goStmt(n *ast.GoStmt) bool {
	call := n.Call
	fl, isLit := call.Fun.(*ast.FuncLit)
	if isLit && len(call.Args) == 0 {
		in.replace(n.Pos(), fl.Pos(), "simrt.Go(")
		// drop the call parentheses "()" after the literal
		in.replace(fl.End(), call.End(), ")")
		return true
	}
	in.uniq++
	var names, vals, args []string
	fun := in.text(call.Fun)
	if !isLit && !in.isFunc(call.Fun) {
		names, vals = append(names, fmt.Sprintf("simF%d", in.uniq)), append(vals, fun)
		fun = names[0]
	}
	for i, a := range call.Args {
		tv := in.info.Types[a]
		if _, tuple := tv.Type.(*types.Tuple); tuple || tv.Value != nil || tv.IsNil() || tv.IsType() {
			args = append(args, in.text(a))
			continue
		}
		nm := fmt.Sprintf("simA%d_%d", in.uniq, i)
		names, vals, args = append(names, nm), append(vals, in.text(a)), append(args, nm)
	}
	if call.Ellipsis.IsValid() && len(args) > 0 {
		args[len(args)-1] += "..."
	}
	if isLit { // its body is instrumented where it stands
		f := fmt.Sprintf("simF%d", in.uniq)
		in.replace(n.Pos(), fl.Pos(), fmt.Sprintf("{ %s := ", strings.Join(append([]string{f}, names...), ", ")))
		rest := ""
		for _, v := range vals {
			rest += ", " + v
		}
		in.replace(fl.End(), call.End(), fmt.Sprintf("%s; simrt.Go(func() { %s(%s) }) }", rest, f, strings.Join(args, ", ")))
		return true
	}
	let := ""
	if len(names) > 0 {
		let = fmt.Sprintf("%s := %s; ", strings.Join(names, ", "), strings.Join(vals, ", "))
	}
	in.replace(n.Pos(), n.End(), fmt.Sprintf("{ %ssimrt.Go(func() { %s(%s) }) }", let, fun, strings.Join(args, ", ")))
	return false
}

// isFunc reports whether e names a declared function or a builtin.
func (in *instrumenter) isFunc(e ast.Expr) bool {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident:
		switch o := in.info.Uses[x].(type) {
		case *types.Func:
			return true
		case *types.Builtin:
			_ = o
			return true
		}
	case *ast.SelectorExpr:
		return in.pkgOf(x.X) != ""
	case *ast.IndexExpr:
		return in.isFunc(x.X)
	}
	return false
}

func (in *instrumenter) isChan(e ast.Expr) bool {
	tv, ok := in.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

// selectStmt turns a select into a switch over the case the simulator chose.
func (in *instrumenter) selectStmt(n *ast.SelectStmt) {
	in.usesRT = true
	in.uniq++
	u := in.uniq
	if len(n.Body.List) == 0 {
		in.replace(n.Select, n.Body.Rbrace+1, "for { simrt.Forever() }")
		return
	}
	var names, vals, cases []string
	def := false
	for i, st := range n.Body.List {
		cc := st.(*ast.CommClause)
		c := fmt.Sprintf("simC%d_%d", u, i)
		head := fmt.Sprintf("case %d: ", i-btoi(def))
		switch s := cc.Comm.(type) {
		case nil:
			def = true
			continue
		case *ast.SendStmt:
			v := fmt.Sprintf("simV%d_%d", u, i)
			names = append(names, c, v)
			vals = append(vals, in.text(s.Chan), fmt.Sprintf("simrt.Elem(%s)(%s)", in.text(s.Chan), in.text(s.Value)))
			cases = append(cases, "simrt.WrCase("+c+")")
			head += fmt.Sprintf("simrt.Put(%s, %s); ", c, v)
		case *ast.ExprStmt:
			x := ast.Unparen(s.X).(*ast.UnaryExpr)
			names, vals = append(names, c), append(vals, in.text(x.X))
			cases = append(cases, "simrt.RdCase("+c+")")
			head += fmt.Sprintf("simrt.Take(%s); ", c)
		case *ast.AssignStmt:
			x := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr)
			names, vals = append(names, c), append(vals, in.text(x.X))
			cases = append(cases, "simrt.RdCase("+c+")")
			take := "Take"
			if len(s.Lhs) == 2 {
				take = "Take2"
			}
			head += fmt.Sprintf("%s %s simrt.%s(%s); ", string(in.src[in.off(s.Lhs[0].Pos()):in.off(s.Lhs[len(s.Lhs)-1].End())]), s.Tok, take, c)
		}
		in.replace(cc.Case, cc.Colon+1, head)
	}
	let := ""
	if len(names) > 0 {
		let = fmt.Sprintf("%s := %s; ", strings.Join(names, ", "), strings.Join(vals, ", "))
	}
	in.replace(n.Select, n.Body.Lbrace+1, fmt.Sprintf("switch %ssimrt.Sel(%s) {", let, strings.Join(append([]string{fmt.Sprint(def)}, cases...), ", ")))
	if !def {
		in.ins(n.Body.Rbrace, 5, `default: panic("sim: select without a case"); `)
	}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (in *instrumenter) run(f *ast.File) []byte {
	in.keep = map[string]string{}
	in.two = map[ast.Expr]bool{}
	for _, spec := range f.Imports {
		if spec.Path.Value == `"sync"` {
			if spec.Name != nil {
				in.replace(spec.Path.Pos(), spec.Path.End(), `"`+syncPath+`"`)
			} else {
				in.replace(spec.Path.Pos(), spec.Path.End(), `sync "`+syncPath+`"`)
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			in.stmts(n.List)
		case *ast.CaseClause:
			in.stmts(n.Body)
		case *ast.CommClause:
			in.stmts(n.Body)
		case *ast.SelectorExpr:
			p := in.pkgOf(n.X)
			if m, ok := rtFuncs[p]; ok {
				if r, ok := m[n.Sel.Name]; ok {
					in.replace(n.Pos(), n.End(), "simrt."+r)
					in.usesRT = true
					in.keep[n.X.(*ast.Ident).Name] = n.Sel.Name
					return false
				}
			}
		case *ast.GoStmt:
			in.usesRT = true
			return in.goStmt(n)
		case *ast.SendStmt:
			in.usesRT = true
			in.ins(n.Chan.Pos(), 40, "simrt.Send(")
			in.replace(n.Arrow, n.Arrow+2, ")(")
			in.ins(n.Value.End(), 4, ")")
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				in.two[ast.Unparen(n.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				in.two[ast.Unparen(n.Values[0])] = true
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				in.usesRT = true
				fn := "simrt.Recv("
				if in.two[n] {
					fn = "simrt.Recv2("
				}
				in.replace(n.OpPos, n.OpPos+2, fn)
				in.ins(n.End(), 4, ")")
			}
		case *ast.SelectStmt:
			in.selectStmt(n)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				in.usesRT = true
				in.ins(n.Body.Lbrace+1, 1, " simrt.Y(0) ")
			}
		case *ast.CallExpr:
			if in.isBuiltin(n.Fun, "close") && len(n.Args) == 1 {
				in.usesRT = true
				in.replace(n.Fun.Pos(), n.Fun.End(), "simrt.Close")
			}
			if in.isBuiltin(n.Fun, "make") && in.isChan(n.Args[0]) {
				in.usesRT = true
				in.ins(n.Pos(), 40, "simrt.Chan(")
				if len(n.Args) == 1 {
					in.ins(n.Rparen, 3, ", simrt.ChanCap(0)")
					in.ins(n.End(), 4, ", 0)")
				} else {
					in.ins(n.Args[1].Pos(), 40, "simrt.ChanCap(")
					in.ins(n.Args[1].End(), 4, ")")
					in.ins(n.End(), 4, ", "+in.text(n.Args[1])+")")
				}
				break
			}
			if in.isBuiltin(n.Fun, "make") && len(n.Args) >= 2 {
				tv, ok := in.info.Types[n.Args[0]]
				if ok && tv.Type != nil {
					size := int64(0)
					switch u := tv.Type.Underlying().(type) {
					case *types.Slice:
						size = in.sizes.Sizeof(u.Elem())
					case *types.Map:
						size = in.sizes.Sizeof(u.Key()) + in.sizes.Sizeof(u.Elem())
					}
					if size > 0 {
						for _, a := range n.Args[1:] {
							if av, ok := in.info.Types[a]; ok && av.Value != nil {
								continue // constant
							}
							in.ins(a.Pos(), 40, "simrt.Mk(")
							in.ins(a.End(), 5, fmt.Sprintf(", %d)", size))
							in.usesRT = true
						}
					}
				}
			}
		case *ast.RangeStmt:
			tv, ok := in.info.Types[n.X]
			if !ok || tv.Type == nil {
				break
			}
			if _, ok := tv.Type.Underlying().(*types.Chan); ok {
				in.usesRT = true
				in.uniq++
				c, v, more := fmt.Sprintf("simC%d", in.uniq), fmt.Sprintf("simV%d", in.uniq), fmt.Sprintf("simM%d", in.uniq)
				in.replace(n.For, n.X.Pos(), fmt.Sprintf("for %s := ", c))
				in.ins(n.X.End(), 5, "; ; ")
				body := fmt.Sprintf(" %s, %s := simrt.Recv2(%s); if !%s { break }; _ = %s; ", v, more, c, more, v)
				if n.Key != nil && in.text(n.Key) != "_" {
					body += fmt.Sprintf("%s %s %s; ", in.text(n.Key), n.Tok, v)
				}
				in.ins(n.Body.Lbrace+1, 1, body)
				break
			}
			if _, ok := tv.Type.Underlying().(*types.Map); !ok {
				break
			}
			in.usesRT = true
			in.uniq++
			ev := fmt.Sprintf("simE%d", in.uniq)
			hasKey := n.Key != nil && in.text(n.Key) != "_"
			hasVal := n.Value != nil && in.text(n.Value) != "_"
			in.replace(n.For, n.X.Pos(), fmt.Sprintf("for _, %s := range simrt.Entries(", ev))
			in.ins(n.X.End(), 5, ")")
			body := fmt.Sprintf(" if !%s.Live() { continue }; ", ev)
			tok := n.Tok.String()
			if hasKey {
				body += fmt.Sprintf("%s %s %s.K; ", in.text(n.Key), tok, ev)
			}
			if hasVal {
				body += fmt.Sprintf("%s %s %s.V(); ", in.text(n.Value), tok, ev)
			}
			in.ins(n.Body.Lbrace+1, 1, body)
		}
		return true
	})
	if in.usesRT {
		in.ins(f.Name.End(), 1, `; import simrt "`+rtPath+`"`)
	}
	sort.SliceStable(in.edits, func(i, j int) bool {
		if in.edits[i].off != in.edits[j].off {
			return in.edits[i].off < in.edits[j].off
		}
		return in.edits[i].prio < in.edits[j].prio
	})
	var buf bytes.Buffer
	last := 0
	for _, e := range in.edits {
		if e.off < last {
			// An edit inside a replaced region: the replacement carries the
			// original text, so the inner edit is dropped.
			continue
		}
		buf.Write(in.src[last:e.off])
		buf.WriteString(e.ins)
		last = e.off + e.del
	}
	buf.Write(in.src[last:])
	for name, fn := range in.keep {
		gen := map[string]string{"Keys": "[map[int]int]", "Values": "[map[int]int]", "All": "[map[int]int]"}[fn]
		eq := "="
		if strings.HasPrefix(fn, "Pipe") && fn != "Pipe" {
			eq = ""
		}
		fmt.Fprintf(&buf, "\nvar _ %s %s.%s%s\n", eq, name, fn, gen)
	}
	return buf.Bytes()
}
