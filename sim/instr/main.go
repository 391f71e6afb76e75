// Command instr reads the Go packages of /repo's working tree and writes
// instrumented copies plus an overlay file for "go build -overlay".
//
// It only inserts text (line numbers stay what they are in /repo):
//   - a scheduling point before every statement,
//   - imports of "sync" become the simulated one,
//   - go statements, channel operations and select go through the simulator,
//   - ranges over maps run in an order the simulator chooses,
//   - selected library functions (clock, exit, environment, signals, the HTTP
//     listener) are replaced by simulated ones,
//   - package main becomes an importable package with Main() for main().
//
// It judges nothing: every property is decided by running the result.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listed struct {
	Dir, ImportPath, Name, Export string
	GoFiles, CgoFiles             []string
	Standard                      bool
	Module                        *struct{ Path string }
}

const modulePath = "github.com/moov-io/dukpt"

// selector rewrites: import path + name -> replacement, and whether it is a type
type repl struct {
	to     string
	isType bool
}

var selRepl = map[string]repl{
	"os.Exit":                              {"__sim.Exit", false},
	"os.Getenv":                            {"__sim.Getenv", false},
	"os.LookupEnv":                         {"__sim.LookupEnv", false},
	"time.Now":                             {"__sim.TimeNow", false},
	"time.Since":                           {"__sim.TimeSince", false},
	"time.Until":                           {"__sim.TimeUntil", false},
	"time.Sleep":                           {"__sim.TimeSleep", false},
	"time.After":                           {"__sim.TimeAfter", false},
	"time.Tick":                            {"__sim.TimeTick", false},
	"time.AfterFunc":                       {"__sim.TimeAfterFunc", false},
	"time.NewTimer":                        {"__sim.TimeNewTimer", false},
	"time.NewTicker":                       {"__sim.TimeNewTicker", false},
	"time.Timer":                           {"__sim.Timer", true},
	"time.Ticker":                          {"__sim.Ticker", true},
	"context.WithTimeout":                  {"__sim.CtxWithTimeout", false},
	"context.WithDeadline":                 {"__sim.CtxWithDeadline", false},
	"context.AfterFunc":                    {"__sim.CtxAfterFunc", false},
	"runtime.Gosched":                      {"__sim.Gosched", false},
	"os/signal.Notify":                     {"__sim.SignalNotify", false},
	"os/signal.Stop":                       {"__sim.SignalStop", false},
	"os/signal.NotifyContext":              {"__sim.SignalNotifyContext", false},
	"net/http.Server":                      {"__simnet.Server", true},
	"net/http.ListenAndServe":              {"__simnet.ListenAndServe", false},
	"net/http.ListenAndServeTLS":           {"__simnet.ListenAndServeTLS", false},
	"net.Listen":                           {"__simnet.Listen", false},
	"net.ListenConfig":                     {"__simnet.ListenConfig", true},
	"crypto/tls.NewListener":               {"__simnet.NewTLSListener", false},
	"crypto/tls.Listen":                    {"__simnet.ListenTLS", false},
	"crypto/tls.LoadX509KeyPair":           {"__simnet.LoadX509KeyPair", false},
	"net/http.TimeoutHandler":              {"__simnet.TimeoutHandler", false},
	"github.com/moov-io/base/admin.New":    {"__simnet.AdminNew", false},
	"github.com/moov-io/base/admin.Server": {"__simnet.AdminServer", true},
}

type edit struct {
	off, end int // replace [off,end)
	text     string
	seq      int
	tail     bool
}

type fileCtx struct {
	src   []byte
	fset  *token.FileSet
	tf    *token.File
	edits []edit

	noCopies bool // copies of structs stay one step (the race detector has to see them where they are)
}

func (f *fileCtx) off(p token.Pos) int { return f.tf.Offset(p) }
func (f *fileCtx) ins(p token.Pos, s string) {
	f.edits = append(f.edits, edit{f.off(p), f.off(p), s, len(f.edits), false})
}
func (f *fileCtx) rep(a, b token.Pos, s string) {
	f.edits = append(f.edits, edit{f.off(a), f.off(b), s, len(f.edits), false})
}
func (f *fileCtx) text(n ast.Node) string { return string(f.src[f.off(n.Pos()):f.off(n.End())]) }

func (f *fileCtx) apply() []byte { return f.applyRange(0, len(f.src)) }

// applyRange is the text of [from,to) with the edits inside it applied.
func (f *fileCtx) applyRange(from, to int) []byte {
	sort.SliceStable(f.edits, func(i, j int) bool {
		if f.edits[i].off != f.edits[j].off {
			return f.edits[i].off < f.edits[j].off
		}
		// pure insertions before replacements at the same offset
		ii, jj := f.edits[i].end == f.edits[i].off, f.edits[j].end == f.edits[j].off
		if ii != jj {
			return ii
		}
		return f.edits[i].seq < f.edits[j].seq
	})
	var out bytes.Buffer
	pos := from
	for _, e := range f.edits {
		if e.off < from || e.end > to || (from > 0 && e.off == to && e.end == to && e.tail) {
			continue
		}
		if e.off < pos {
			if e.end == e.off { // insertion inside replaced text: drop
				continue
			}
			fatal("overlapping edits")
		}
		out.Write(f.src[pos:e.off])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(f.src[pos:to])
	return out.Bytes()
}

// take is applyRange of a node, whose edits are then no longer pending.
func (f *fileCtx) take(n ast.Node) string {
	a, b := f.off(n.Pos()), f.off(n.End())
	t := string(f.applyRange(a, b))
	var keep []edit
	for _, e := range f.edits {
		if e.off < a || e.end > b {
			keep = append(keep, e)
		}
	}
	f.edits = keep
	return t
}

func fatal(args ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"instr:"}, args...)...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	simrtDir := flag.String("simrt", "", "directory of package simrt (receives the site table)")
	poolSrc := flag.String("pool", "", "replacement for sync/pool.go")
	flag.Parse()
	if *out == "" || *simrtDir == "" {
		fatal("need -out and -simrt")
	}
	os.MkdirAll(*out, 0o755)

	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=Dir,ImportPath,Name,Export,GoFiles,CgoFiles,Standard,Module", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	js, err := cmd.Output()
	if err != nil {
		fatal("go list:", err)
	}
	exports := map[string]string{}
	var mine []listed
	dec := json.NewDecoder(bytes.NewReader(js))
	for {
		var l listed
		if err := dec.Decode(&l); err == io.EOF {
			break
		} else if err != nil {
			fatal(err)
		}
		exports[l.ImportPath] = l.Export
		if !l.Standard && l.Module != nil && l.Module.Path == modulePath {
			mine = append(mine, l)
		}
	}
	sort.Slice(mine, func(i, j int) bool { return mine[i].ImportPath < mine[j].ImportPath })

	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})

	overlay := map[string]string{}
	var sites []string // id -> file:line func
	var pkgNames []string
	for _, l := range mine {
		if len(l.GoFiles) == 0 {
			continue
		}
		pi := len(pkgNames)
		pkgNames = append(pkgNames, strings.TrimPrefix(l.ImportPath, modulePath))
		var files []*ast.File
		var srcs [][]byte
		var paths []string
		for _, g := range l.GoFiles {
			p := filepath.Join(l.Dir, g)
			src, err := os.ReadFile(p)
			if err != nil {
				fatal(err)
			}
			af, err := parser.ParseFile(fset, p, src, parser.ParseComments)
			if err != nil {
				fatal(err)
			}
			files, srcs, paths = append(files, af), append(srcs, src), append(paths, p)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		conf.Check(l.ImportPath, fset, files, info)
		isMain := l.Name == "main"
		newName := ""
		if isMain {
			newName = filepath.Base(l.Dir)
			if newName == "server" {
				newName = "servermain"
			}
		}
		var ctxs []*fileCtx
		inits := 0
		for i, af := range files {
			f := &fileCtx{src: srcs[i], fset: fset, tf: fset.File(af.Pos()), noCopies: *poolSrc != ""}
			rel, _ := filepath.Rel(*repo, paths[i])
			instrument(f, af, info, rel, pi, newName, &sites, &inits)
			ctxs = append(ctxs, f)
		}
		resets(l.ImportPath, ctxs, files, info, inits)
		for i, f := range ctxs {
			dst := filepath.Join(*out, fmt.Sprintf("f%d_%s", len(overlay), filepath.Base(paths[i])))
			if err := os.WriteFile(dst, f.apply(), 0o644); err != nil {
				fatal(err)
			}
			overlay[paths[i]] = dst
		}
	}
	// site table
	var b bytes.Buffer
	b.WriteString("package simrt\n\nfunc init() {\n\tSites = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&b, "\t\t%q,\n", s)
	}
	b.WriteString("\t}\n\tPkgs = []string{\n")
	for _, s := range pkgNames {
		fmt.Fprintf(&b, "\t\t%q,\n", s)
	}
	b.WriteString("\t}\n}\n")
	st := filepath.Join(*out, "sites_gen.go")
	os.WriteFile(st, b.Bytes(), 0o644)
	overlay[filepath.Join(*simrtDir, "sites_gen.go")] = st
	if *poolSrc != "" {
		gr, err := exec.Command("go", "env", "GOROOT").Output()
		if err != nil {
			fatal(err)
		}
		overlay[filepath.Join(strings.TrimSpace(string(gr)), "src/sync/pool.go")] = *poolSrc
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644); err != nil {
		fatal(err)
	}
}

// resets adds to a package the functions that initialise its package-level
// variables again, in the order of their initialisation, followed by its init
// functions.
func resets(path string, ctxs []*fileCtx, files []*ast.File, info *types.Info, inits int) {
	fileOf := func(p token.Pos) *fileCtx {
		for i, f := range files {
			if f.FileStart <= p && p <= f.FileEnd {
				return ctxs[i]
			}
		}
		return nil
	}
	src := func(n ast.Node) string {
		f := fileOf(n.Pos())
		return string(f.applyRange(f.off(n.Pos()), f.off(n.End())))
	}
	n := 0
	var names []string
	body := map[*fileCtx]string{}
	add := func(p token.Pos, stmt string) {
		name := fmt.Sprintf("simReset%d", n)
		n++
		names = append(names, name)
		body[fileOf(p)] += "func " + name + "() { " + stmt + " }\n"
	}
	for _, af := range files {
		for _, d := range af.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR || embeds(g.Doc) {
				continue
			}
			for _, sp := range g.Specs {
				v := sp.(*ast.ValueSpec)
				if v.Type == nil || len(v.Values) > 0 || embeds(v.Doc) {
					continue
				}
				for _, id := range v.Names {
					if id.Name != "_" {
						add(id.Pos(), id.Name+" = *new("+src(v.Type)+")")
					}
				}
			}
		}
	}
	for _, in := range info.InitOrder {
		var lhs []string
		named := false
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
			named = named || v.Name() != "_"
		}
		if named {
			add(in.Lhs[0].Pos(), strings.Join(lhs, ", ")+" = "+src(in.Rhs))
		}
	}
	for i := 0; i < inits; i++ {
		names = append(names, fmt.Sprintf("simInit%d", i))
	}
	reg := "func init() {"
	for i := 0; i < inits; i++ {
		reg += fmt.Sprintf(" simInit%d();", i)
	}
	reg += fmt.Sprintf(" __sim.RegisterPkg(%q", path)
	for _, x := range names {
		reg += ", " + x
	}
	body[ctxs[0]] += reg + ") }\n"
	for f, t := range body {
		f.edits = append(f.edits, edit{len(f.src), len(f.src), t, len(f.edits), true})
	}
}

func embeds(c *ast.CommentGroup) bool {
	if c == nil {
		return false
	}
	for _, l := range c.List {
		if strings.HasPrefix(l.Text, "//go:embed") {
			return true
		}
	}
	return false
}

func pathOf(is *ast.ImportSpec) string { s, _ := strconv.Unquote(is.Path.Value); return s }

func instrument(f *fileCtx, af *ast.File, info *types.Info, rel string, pi int, newName string, sites *[]string, inits *int) {
	usedNet := false
	blanks := map[string]bool{}

	if newName != "" {
		f.rep(af.Name.Pos(), af.Name.End(), newName)
	}
	names := map[string]string{} // local name -> import path
	for _, is := range af.Imports {
		p := pathOf(is)
		name := p[strings.LastIndex(p, "/")+1:]
		if is.Name != nil {
			name = is.Name.Name
		}
		names[name] = p
		if p == "sync" {
			if is.Name == nil {
				f.ins(is.Path.Pos(), "sync ")
			}
			f.rep(is.Path.Pos(), is.Path.End(), `"verif/simsync"`)
		}
	}

	curFunc := ""
	y := func(p token.Pos) {
		pos := f.fset.Position(p)
		id := pi<<16 | len(*sites)
		*sites = append(*sites, fmt.Sprintf("%s:%d %s", rel, pos.Line, curFunc))
		f.ins(p, fmt.Sprintf("__sim.Y(%d);", id))
	}
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			y(s.Pos())
		}
	}
	// a copy of a struct of the module is not one step
	wide := func(e ast.Expr) bool {
		tv, ok := info.Types[e]
		if !ok || !tv.IsValue() || tv.Type == nil {
			return false
		}
		if nt, ok := types.Unalias(tv.Type).(*types.Named); ok && (nt.Obj().Pkg() == nil || !strings.HasPrefix(nt.Obj().Pkg().Path(), modulePath)) {
			return false
		}
		st, ok := tv.Type.Underlying().(*types.Struct)
		return ok && st.NumFields() > 1
	}
	load := func(es ...ast.Expr) {
		for _, e := range es {
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				e = kv.Value
			}
			if f.noCopies || !wide(e) {
				continue
			}
			switch x := ast.Unparen(e).(type) {
			case *ast.StarExpr:
			case *ast.IndexExpr, *ast.SelectorExpr:
				if !info.Types[x].Addressable() {
					continue
				}
			case *ast.Ident:
				v, ok := info.Uses[x].(*types.Var)
				if !ok || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() {
					continue
				}
			default:
				continue
			}
			id := pi<<16 | len(*sites)
			*sites = append(*sites, fmt.Sprintf("%s:%d %s (copying)", rel, f.fset.Position(e.Pos()).Line, curFunc))
			f.ins(e.Pos(), fmt.Sprintf("__sim.Load(%d, &", id))
			f.ins(e.End(), ")")
		}
	}
	selRecv := map[ast.Node]bool{} // receive/send expressions handled by a select rewrite
	nsel := 0

	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			curFunc = n.Name.Name
			if n.Recv == nil && n.Name.Name == "main" && newName != "" {
				f.rep(n.Name.Pos(), n.Name.End(), "Main")
			}
			if n.Recv == nil && n.Name.Name == "init" {
				f.rep(n.Name.Pos(), n.Name.End(), fmt.Sprintf("simInit%d", *inits))
				*inits++
			}
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.GoStmt:
			if id, ok := n.Call.Fun.(*ast.Ident); ok {
				if _, isB := info.Uses[id].(*types.Builtin); isB {
					break
				}
			}
			f.rep(n.Go, n.Call.Fun.Pos(), "__sim.BeforeGo(); go __sim.Wrap(")
			f.ins(n.Call.Fun.End(), ")")
			f.ins(n.End(), "; __sim.AfterGo()")
		case *ast.AssignStmt:
			load(n.Rhs...)
			if len(n.Lhs) == 1 && n.Tok == token.ASSIGN && !f.noCopies && wide(n.Lhs[0]) {
				if st, ok := n.Lhs[0].(*ast.StarExpr); ok {
					id := pi<<16 | len(*sites)
					*sites = append(*sites, fmt.Sprintf("%s:%d %s (copying)", rel, f.fset.Position(n.Pos()).Line, curFunc))
					f.rep(st.Star, st.Star+1, fmt.Sprintf("__sim.Store(%d, ", id))
					f.rep(n.TokPos, n.TokPos+1, ",")
					f.ins(n.End(), ")")
				}
			}
		case *ast.ValueSpec:
			if curFunc != "" {
				load(n.Values...)
			}
		case *ast.ReturnStmt:
			load(n.Results...)
		case *ast.CallExpr:
			if tv := info.Types[n.Fun]; !tv.IsType() {
				load(n.Args...)
			}
		case *ast.CompositeLit:
			if curFunc != "" {
				load(n.Elts...)
			}
		case *ast.SendStmt:
			if selRecv[n] {
				break
			}
			f.ins(n.Pos(), "__sim.Send(")
			f.rep(n.Arrow, n.Arrow+2, ",")
			f.ins(n.End(), ")")
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !selRecv[n] {
				fn := "__sim.Recv("
				if tv, ok := info.Types[n]; ok {
					if t, ok := tv.Type.(*types.Tuple); ok && t.Len() == 2 {
						fn = "__sim.Recv2("
					}
				}
				f.rep(n.OpPos, n.OpPos+2, fn)
				f.ins(n.End(), ")")
			}
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				y(n.Body.Lbrace + 1)
			}
		case *ast.RangeStmt:
			if len(n.Body.List) == 0 {
				y(n.Body.Lbrace + 1)
			}
			if tv, ok := info.Types[n.X]; ok && tv.Type != nil {
				switch tv.Type.Underlying().(type) {
				case *types.Map:
					f.ins(n.X.Pos(), "__sim.MapIter(")
					f.ins(n.X.End(), ")")
				case *types.Chan:
					f.ins(n.X.Pos(), "__sim.ChanIter(")
					f.ins(n.X.End(), ")")
				}
			}
		case *ast.SelectStmt:
			if len(n.Body.List) == 0 {
				f.rep(n.Pos(), n.End(), "__sim.BlockForever()")
				return false
			}
			nsel++
			me := nsel
			sub := func(e ast.Expr) string {
				ast.Inspect(e, visit)
				return f.take(e)
			}
			var mk, vs []string
			def := false
			for i, c := range n.Body.List {
				cc := c.(*ast.CommClause)
				v := fmt.Sprintf("__c%d_%d", me, i)
				switch cm := cc.Comm.(type) {
				case nil:
					def = true
					continue
				case *ast.SendStmt:
					selRecv[cm] = true
					mk = append(mk, fmt.Sprintf("__sim.CS(%s, %s)", sub(cm.Chan), sub(cm.Value)))
					f.rep(cc.Pos(), cc.Colon, fmt.Sprintf("case %d", len(vs)))
				case *ast.ExprStmt:
					u := ast.Unparen(cm.X).(*ast.UnaryExpr)
					selRecv[u] = true
					mk = append(mk, fmt.Sprintf("__sim.CR(%s)", sub(u.X)))
					f.rep(cc.Pos(), cc.Colon, fmt.Sprintf("case %d", len(vs)))
				case *ast.AssignStmt:
					u := ast.Unparen(cm.Rhs[0]).(*ast.UnaryExpr)
					selRecv[u] = true
					mk = append(mk, fmt.Sprintf("__sim.CR(%s)", sub(u.X)))
					lhs := sub(cm.Lhs[0])
					rhs := v + ".V"
					if len(cm.Lhs) == 2 {
						lhs += ", " + sub(cm.Lhs[1])
						rhs += ", " + v + ".OK"
					}
					f.rep(cc.Pos(), cc.Colon+1, fmt.Sprintf("case %d: %s %s %s;", len(vs), lhs, cm.Tok, rhs))
				}
				vs = append(vs, v)
			}
			head := fmt.Sprintf("switch __sim.Select(%v); ", def)
			if len(vs) > 0 {
				head = fmt.Sprintf("switch %s := %s; __sim.Select(%v, %s) ", strings.Join(vs, ", "), strings.Join(mk, ", "), def, strings.Join(vs, ", "))
			} else {
				head = "switch -1 "
			}
			f.rep(n.Pos(), n.Body.Lbrace, head)
			for _, c := range n.Body.List {
				cc := c.(*ast.CommClause)
				stmts(cc.Body)
				for _, b := range cc.Body {
					ast.Inspect(b, visit)
				}
			}
			return false
		case *ast.SelectorExpr:
			id, ok := n.X.(*ast.Ident)
			if !ok {
				break
			}
			pn, ok := info.Uses[id].(*types.PkgName)
			if !ok {
				break
			}
			key := pn.Imported().Path() + "." + n.Sel.Name
			if r, ok := selRepl[key]; ok {
				f.rep(n.Pos(), n.End(), r.to)
				if strings.HasPrefix(r.to, "__simnet.") {
					usedNet = true
				}
				if r.isType {
					blanks["var _ *"+id.Name+"."+n.Sel.Name] = true
				} else {
					blanks["var _ = "+id.Name+"."+n.Sel.Name] = true
				}
				return false
			}
		}
		return true
	}
	ast.Inspect(af, visit)

	imports := `; import __sim "verif/simrt"`
	if usedNet {
		imports += `; import __simnet "verif/simnet"`
	}
	f.ins(af.Name.End(), imports)
	tail := "\nvar _ = __sim.Y\n"
	var bs []string
	for b := range blanks {
		bs = append(bs, b)
	}
	sort.Strings(bs)
	for _, b := range bs {
		tail += b + "\n"
	}
	f.edits = append(f.edits, edit{len(f.src), len(f.src), tail, len(f.edits), true})
}
