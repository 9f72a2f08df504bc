// Command instr instruments the Go packages of /repo for controlled scheduling.
//
//	instr [-plain] -out DIR [-http] pkg...
//
// For every non-test file of the repository's packages among the dependencies
// of the given packages it writes a copy in which
//
//   - vsched.P(n) precedes every statement with a channel operation, follows
//     every go statement and starts the body of every go'd function literal and
//     of every loop over a channel,
//   - vsched.Q(n) precedes every other statement, and x op= y is split into a
//     load, a scheduling point and a store,
//   - sync, sync/atomic and the CPU count come from verif/vsync, vatomic, vsched,
//
// and an overlay file for go build. With -http, http.Server hands its handler to
// the harness instead of listening (net/http, hook variable VerifServe).
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkg struct {
	Dir, ImportPath, Export, Name string
	GoFiles                       []string
	Standard                      bool
	Module                        *struct{ Path string }
	ImportMap                     map[string]string
}

var (
	out     = flag.String("out", "", "output directory")
	httpH   = flag.Bool("http", false, "hook net/http")
	fine    = flag.String("fine", "/tracer,/texture,/api", "comma-separated parts of import paths of packages that get Q gates")
	onlyH   = flag.Bool("only-http", false, "do not instrument anything")
	rmw     = flag.Bool("rmw", true, "split read-modify-write statements")
	replace = map[string]string{}
	site    int
	sites   []string
)

func main() {
	flag.Parse()
	os.MkdirAll(*out, 0755)
	var pkgs []*pkg
	if !*onlyH {
		pkgs = list(flag.Args())
	}
	exports := map[string]string{}
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
	}
	for _, p := range pkgs {
		if p.Standard || p.Module == nil || p.Module.Path != "github.com/barnex/bruteray" {
			continue
		}
		instrument(p, exports)
	}
	if *httpH {
		hookHTTP()
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	check(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0644))
	check(os.WriteFile(filepath.Join(*out, "sites.txt"), []byte(strings.Join(sites, "\n")), 0644))
}

func list(args []string) []*pkg {
	cmd := exec.Command("go", append([]string{"list", "-export", "-deps", "-json=Dir,ImportPath,Export,Name,GoFiles,Standard,Module,ImportMap"}, args...)...)
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	check(err)
	d := json.NewDecoder(bytes.NewReader(o))
	var l []*pkg
	for {
		p := new(pkg)
		if err := d.Decode(p); err == io.EOF {
			return l
		} else {
			check(err)
		}
		l = append(l, p)
	}
}

type edit struct {
	off  int
	prio int
	del  int
	text string
}

type inst struct {
	fset  *token.FileSet
	info  *types.Info
	src   []byte
	edits []edit
	q     bool
	name  string
	n     int
}

func instrument(p *pkg, exports map[string]string) {
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	for _, f := range p.GoFiles {
		path := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(path)
		check(err)
		a, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		check(err)
		files = append(files, a)
		srcs = append(srcs, src)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{
		Error: func(error) {},
		Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			if m, ok := p.ImportMap[path]; ok {
				path = m
			}
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		}),
	}
	conf.Check(p.ImportPath, fset, files, info)
	q := false
	for _, s := range strings.Split(*fine, ",") {
		if s != "" && strings.Contains(p.ImportPath+"/", s+"/") {
			q = true
		}
	}
	for i, f := range files {
		in := &inst{fset: fset, info: info, src: srcs[i], q: q, name: p.ImportPath + "/" + p.GoFiles[i]}
		if bytes.Contains(srcs[i], []byte(`import "C"`)) {
			continue
		}
		in.file(f)
		dst := filepath.Join(*out, strings.ReplaceAll(in.name, "/", "__"))
		check(os.WriteFile(dst, in.result(), 0644))
		// The result must parse; otherwise leave the file alone.
		if _, err := parser.ParseFile(token.NewFileSet(), dst, nil, 0); err != nil {
			fmt.Fprintln(os.Stderr, "instr: not instrumented:", err)
			continue
		}
		replace[filepath.Join(p.Dir, p.GoFiles[i])] = dst
	}
}

func (in *inst) off(p token.Pos) int { return in.fset.Position(p).Offset }

func (in *inst) insert(p token.Pos, text string) {
	in.n++
	in.edits = append(in.edits, edit{in.off(p), in.n, 0, text})
}

func (in *inst) replace(from, to token.Pos, text string) {
	in.n++
	in.edits = append(in.edits, edit{in.off(from), in.n, in.off(to) - in.off(from), text})
}

func (in *inst) result() []byte {
	sort.SliceStable(in.edits, func(i, j int) bool {
		if in.edits[i].off != in.edits[j].off {
			return in.edits[i].off < in.edits[j].off
		}
		return in.edits[i].prio < in.edits[j].prio
	})
	var b bytes.Buffer
	pos := 0
	for _, e := range in.edits {
		if e.off < pos {
			continue // overlaps a replaced piece
		}
		b.Write(in.src[pos:e.off])
		b.WriteString(e.text)
		pos = e.off + e.del
	}
	b.Write(in.src[pos:])
	return b.Bytes()
}

var known = map[string]map[string]string{
	"sync": {"Mutex": "__vsync", "RWMutex": "__vsync", "Once": "__vsync", "OnceFunc": "__vsync", "OnceValue": "__vsync", "OnceValues": "__vsync", "WaitGroup": "__vsync", "Pool": "__vsync", "Map": "__vsync"},
	"sync/atomic": func() map[string]string {
		m := map[string]string{"Bool": "__va", "Value": "__va", "Pointer": "__va"}
		for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
			m[t] = "__va"
			for _, f := range []string{"Add", "Load", "Store", "Swap", "CompareAndSwap"} {
				m[f+t] = "__va"
			}
		}
		return m
	}(),
	"runtime": {"NumCPU": "__vs", "GOMAXPROCS": "__vs", "Gosched": "__vs"},
}

func (in *inst) file(f *ast.File) {
	imp := map[string]string{} // local name -> path
	keep := map[string]string{}
	for _, s := range f.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		if known[path] == nil {
			continue
		}
		n := path[strings.LastIndex(path, "/")+1:]
		if s.Name != nil {
			n = s.Name.Name
		}
		if n == "_" || n == "." {
			continue
		}
		imp[n] = path
	}
	usesSync := false
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := s.X.(*ast.Ident)
		if !ok || id.Obj != nil { // a local object of that name
			return true
		}
		path, ok := imp[id.Name]
		if !ok {
			return true
		}
		if to, ok := known[path][s.Sel.Name]; ok {
			in.replace(id.Pos(), id.End(), to)
			usesSync = true
			switch path {
			case "sync":
				keep[id.Name] = "var _ " + id.Name + ".Locker"
			case "sync/atomic":
				keep[id.Name] = "var _ = " + id.Name + ".LoadInt32"
			case "runtime":
				keep[id.Name] = "var _ = " + id.Name + ".NumCPU"
			}
		}
		return true
	})
	_ = usesSync
	in.insert(f.Name.End(), `;import __vs "verif/vsched";import __vsync "verif/vsync";import __va "verif/vatomic";`)
	tail := "\nvar _ = __vs.P\nvar _ __vsync.Locker\nvar _ __va.Bool\n"
	for _, k := range keep {
		tail += k + "\n"
	}
	in.edits = append(in.edits, edit{len(in.src), 1 << 30, 0, tail})

	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			if n != nil {
				in.stmts(n.List)
			}
		case *ast.CaseClause:
			in.stmts(n.Body)
		case *ast.CommClause:
			in.stmts(n.Body)
		case *ast.GoStmt:
			if fl, ok := n.Call.Fun.(*ast.FuncLit); ok {
				in.insert(fl.Body.Lbrace+1, in.gate("P", fl.Pos()))
			}
		case *ast.RangeStmt:
			if in.isChan(n.X) {
				in.insert(n.Body.Lbrace+1, in.gate("P", n.Pos()))
			}
		}
		return true
	})
}

func (in *inst) isChan(x ast.Expr) bool {
	t, ok := in.info.Types[x]
	if !ok || t.Type == nil || t.Type == types.Typ[types.Invalid] {
		return true // do not know
	}
	_, ok = t.Type.Underlying().(*types.Chan)
	return ok
}

func (in *inst) gate(kind string, p token.Pos) string {
	site++
	pos := in.fset.Position(p)
	sites = append(sites, fmt.Sprintf("%d %s:%d", site, pos.Filename, pos.Line))
	return fmt.Sprintf("__vs.%s(%d);", kind, site)
}

func (in *inst) stmts(l []ast.Stmt) {
	for _, s := range l {
		inner := s
		for {
			if ls, ok := inner.(*ast.LabeledStmt); ok {
				inner = ls.Stmt
				continue
			}
			break
		}
		switch d := inner.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		case *ast.DeclStmt:
			if g, ok := d.Decl.(*ast.GenDecl); ok && g.Tok != token.VAR {
				continue
			}
		}
		if hasChanOp(inner) {
			in.insert(s.Pos(), in.gate("P", s.Pos()))
		} else if in.q {
			in.insert(s.Pos(), in.gate("Q", s.Pos()))
		}
		if g, ok := inner.(*ast.GoStmt); ok {
			in.insert(g.End(), ";"+strings.TrimSuffix(in.gate("P", g.Pos()), ";"))
		}
		if in.q && *rmw {
			in.split(inner)
		}
	}
}

// split turns x op= y and x++ into a load, a scheduling point and a store, if
// evaluating x's address twice is harmless.
func (in *inst) split(s ast.Stmt) {
	switch s := s.(type) {
	case *ast.IncDecStmt:
		if !shared(s.X) || !pure(s.X) {
			return
		}
		x := in.text(s.X)
		op := "+"
		if s.Tok == token.DEC {
			op = "-"
		}
		in.replace(s.Pos(), s.End(), fmt.Sprintf("{__t := %s; %s %s = __t %s 1}", x, in.gate("Q", s.Pos()), x, op))
	case *ast.AssignStmt:
		if len(s.Lhs) != 1 || len(s.Rhs) != 1 || !shared(s.Lhs[0]) || !pure(s.Lhs[0]) || !pure(s.Rhs[0]) {
			return
		}
		ops := map[token.Token]string{token.ADD_ASSIGN: "+", token.SUB_ASSIGN: "-", token.MUL_ASSIGN: "*", token.QUO_ASSIGN: "/"}
		op, ok := ops[s.Tok]
		if !ok {
			return
		}
		x := in.text(s.Lhs[0])
		in.replace(s.Pos(), s.End(), fmt.Sprintf("{__t := %s; %s %s = __t %s (%s)}", x, in.gate("Q", s.Pos()), x, op, in.text(s.Rhs[0])))
	}
}

func (in *inst) text(x ast.Expr) string { return string(in.src[in.off(x.Pos()):in.off(x.End())]) }

func shared(x ast.Expr) bool {
	switch x := x.(type) {
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return true
	case *ast.ParenExpr:
		return shared(x.X)
	}
	return false
}

func pure(x ast.Expr) bool {
	ok := true
	ast.Inspect(x, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.CompositeLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// hasChanOp tells if s itself (not the statements nested in its blocks)
// contains a channel operation.
func hasChanOp(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause:
			return false
		case *ast.CommClause:
			return false
		case *ast.SendStmt, *ast.SelectStmt:
			found = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" {
				found = true
			}
		}
		return true
	})
	return found
}

func hookHTTP() {
	o, err := exec.Command("go", "list", "-f", "{{.Dir}}", "net/http").Output()
	check(err)
	path := filepath.Join(strings.TrimSpace(string(o)), "server.go")
	src, err := os.ReadFile(path)
	check(err)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, 0)
	check(err)
	in := &inst{fset: fset, src: src}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv == nil || fd.Body == nil {
			continue
		}
		if st, ok := fd.Recv.List[0].Type.(*ast.StarExpr); !ok || in.text(st.X) != "Server" {
			continue
		}
		switch fd.Name.Name {
		case "ListenAndServe", "Serve", "ListenAndServeTLS", "ServeTLS":
			r := fd.Recv.List[0].Names[0].Name
			in.insert(fd.Body.Lbrace+1, fmt.Sprintf("if VerifServe != nil {return VerifServe(%s)};", r))
		}
	}
	in.edits = append(in.edits, edit{len(src), 1 << 30, 0, "\n// VerifServe is a hook of the verification harness.\nvar VerifServe func(*Server) error\n"})
	dst := filepath.Join(*out, "net_http_server.go")
	check(os.WriteFile(dst, in.result(), 0644))
	replace[path] = dst
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}
