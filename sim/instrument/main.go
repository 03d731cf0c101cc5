// Command instrument rewrites the Go sources of the tree under test into a build overlay in which every
// source of nondeterminism goes through gozwavesim/rt. The tree itself is not touched.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"gozwavesim/instrument/astutil"
)

const rtName = "vrt_"

// subst maps package symbols to their stand-ins.
var subst = map[string]map[string]string{
	"time": {"Now": "Now", "After": "After", "Sleep": "Sleep", "NewTimer": "NewTimer", "AfterFunc": "AfterFunc", "Tick": "Tick",
		"NewTicker": "NewTicker", "Since": "Since", "Until": "Until", "Timer": "Timer", "Ticker": "Ticker"},
	"sync": {"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once", "Cond": "Cond", "NewCond": "NewCond",
		"Map": "Map", "Pool": "Pool", "Locker": "Locker", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues"},
	"os": {"Open": "OsOpen", "Create": "OsCreate", "OpenFile": "OsOpenFile", "ReadFile": "OsReadFile", "WriteFile": "OsWriteFile",
		"Rename": "OsRename", "Remove": "OsRemove", "RemoveAll": "OsRemoveAll", "Stat": "OsStat", "Lstat": "OsLstat", "Mkdir": "OsMkdir",
		"MkdirAll": "OsMkdirAll", "CreateTemp": "OsCreateTemp", "ReadDir": "OsReadDir", "Chmod": "OsChmod", "Truncate": "OsTruncate",
		"Link": "OsLink", "TempDir": "OsTempDir", "Args": "OsArgs", "Exit": "OsExit", "File": "File", "Stdout": "Stdout", "Stderr": "Stderr", "Stdin": "Stdin"},
	"io/ioutil":     {"ReadFile": "OsReadFile", "WriteFile": "OsWriteFile", "TempFile": "OsCreateTemp"},
	"encoding/json": {"Marshal": "JSONMarshal", "MarshalIndent": "JSONMarshalIndent", "NewEncoder": "JSONNewEncoder", "Encoder": "JSONEncoder"},
	"maps":          {"Clone": "MapsClone", "Copy": "MapsCopy", "Equal": "MapsEqual", "DeleteFunc": "MapsDeleteFunc", "Keys": "MapsKeys", "Values": "MapsValues"},
	"reflect":       {"DeepEqual": "DeepEqual"},
	"math/rand": {"Int": "RandInt", "Intn": "RandIntn", "Int63": "RandInt63", "Int63n": "RandInt63n", "Int31": "RandInt31", "Int31n": "RandInt31n",
		"Uint32": "RandUint32", "Uint64": "RandUint64", "Float64": "RandFloat64", "Seed": "RandSeed", "Perm": "RandPerm", "Shuffle": "RandShuffle", "Read": "RandRead"},
	"math/rand/v2":           {"Int": "RandInt", "IntN": "RandIntn", "Int64": "RandInt63", "Int64N": "RandInt63n", "Uint32": "RandUint32", "Uint64": "RandUint64", "Float64": "RandFloat64", "Perm": "RandPerm", "Shuffle": "RandShuffle"},
	"crypto/rand":            {"Read": "RandRead", "Reader": "RandReader"},
	"context":                {"WithCancel": "CtxWithCancel", "WithTimeout": "CtxWithTimeout", "WithDeadline": "CtxWithDeadline"},
	"github.com/tarm/serial": {"OpenPort": "SerialOpenPort", "Port": "SerialPort"},
	"runtime":                {"Gosched": "Gosched", "NumGoroutine": "NumGoroutine"},
	"fmt":                    {"Printf": "FmtPrintf", "Println": "FmtPrintln", "Print": "FmtPrint"},
	"flag": {"StringVar": "FlagStringVar", "BoolVar": "FlagBoolVar", "IntVar": "FlagIntVar", "DurationVar": "FlagDurationVar", "String": "FlagString", "Bool": "FlagBool",
		"Int": "FlagInt", "Duration": "FlagDuration", "Args": "FlagArgs", "Arg": "FlagArg", "NArg": "FlagNArg", "Parsed": "FlagParsed", "Parse": "FlagParse",
		"Usage": "FlagUsage", "PrintDefaults": "FlagPrintDefaults"},
	"log": {"Fatal": "LogFatal", "Fatalln": "LogFatal", "Fatalf": "LogFatalf"},
}

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	DepOnly    bool
	Imports    []string
	Error      *struct{ Err string }
}

var sites = []string{""}

func site(fset *token.FileSet, p token.Pos, root string) int {
	ps := fset.Position(p)
	f, err := filepath.Rel(root, ps.Filename)
	if err != nil {
		f = ps.Filename
	}
	sites = append(sites, fmt.Sprintf("%s:%d", f, ps.Line))
	return len(sites) - 1
}

func fail(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "tree under test")
	out := flag.String("out", "", "output directory")
	tools := flag.String("tools", "", "directory of packages that take the commands of the tree")
	flag.Parse()
	root, _ := filepath.Abs(*repo)
	os.MkdirAll(*out, 0755)
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,GoFiles,Standard,DepOnly,Imports,Error", ".", "./commands/...", "./database", "./events", "./interfaces", "./nodes", "./protocol", "./serialapi", "./serialrecorder", "./cmd/...")
	cmd.Dir = root
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fail("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	exports := map[string]string{}
	var pkgs []*listPkg
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fail("%v", err)
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if !p.Standard && (p.Dir == root || strings.HasPrefix(p.Dir, root+"/")) {
			if p.Export == "" {
				fail("package %s does not compile", p.ImportPath)
			}
			pkgs = append(pkgs, p)
		}
	}
	overlay := map[string]string{}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	for _, p := range pkgs {
		instrumentPkg(fset, imp, p, root, *out, *tools, overlay)
	}
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0644); err != nil {
		fail("%v", err)
	}
	var sb bytes.Buffer
	sb.WriteString("package main\n\nfunc init() { siteTable = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&sb, "%q,\n", s)
	}
	sb.WriteString("} }\n")
	if err := os.WriteFile(filepath.Join(*out, "zz_sites.go"), sb.Bytes(), 0644); err != nil {
		fail("%v", err)
	}
}

type rewriter struct {
	fset *token.FileSet
	info *types.Info
	root string
	pkg  *types.Package

	comm      map[ast.Node]bool // nodes inside a select's communication clauses
	recv2     map[ast.Node]bool
	mapRead   map[ast.Node]bool
	mapWrite  map[ast.Node]bool
	fieldRead map[*ast.SelectorExpr]string // reads of fields that goroutines may share
	fieldSet  map[ast.Stmt][]fieldWrite    // assignments to them
	rangeMap  map[ast.Node]bool
	rangeCh   map[ast.Node]bool
	builtin   map[ast.Node]string // call -> close,delete,clear,lenmap,lench
	atomicV   map[ast.Node]bool
	atomicSt  map[ast.Node]bool
	inlineArg map[ast.Expr]bool
	inlineFun map[ast.Node]bool
	pkgSel    map[ast.Node]string // selector -> rt name
	pos       map[ast.Node]token.Pos
	selBlock  map[ast.Node]bool
	used      bool
	n         int
}

func (r *rewriter) rt(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent(rtName), Sel: ast.NewIdent(name)}
}
func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.rt(name), Args: args}
}
func (r *rewriter) tmp(p string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("%s_%d_", p, r.n))
}
func lit(n int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)} }

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) under(e ast.Expr) types.Type {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return nil
	}
	return coreType(tv.Type)
}

func coreType(t types.Type) types.Type {
	u := t.Underlying()
	if i, ok := u.(*types.Interface); ok {
		if _, tp := t.(*types.TypeParam); tp && i.NumEmbeddeds() == 1 {
			if un, ok := i.EmbeddedType(0).(*types.Union); ok && un.Len() == 1 {
				return un.Term(0).Type().Underlying()
			}
			return i.EmbeddedType(0).Underlying()
		}
	}
	return u
}

func (r *rewriter) isMap(e ast.Expr) bool  { _, ok := r.under(e).(*types.Map); return ok }
func (r *rewriter) isChan(e ast.Expr) bool { _, ok := r.under(e).(*types.Chan); return ok }

func (r *rewriter) builtinName(c *ast.CallExpr) string {
	id, ok := unparen(c.Fun).(*ast.Ident)
	if !ok {
		return ""
	}
	if _, ok := r.info.Uses[id].(*types.Builtin); ok {
		return id.Name
	}
	return ""
}

func (r *rewriter) isAtomicCall(c *ast.CallExpr) bool {
	f := unparen(c.Fun)
	if ix, ok := f.(*ast.IndexExpr); ok {
		f = ix.X
	}
	s, ok := f.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	o := r.info.Uses[s.Sel]
	return o != nil && o.Pkg() != nil && o.Pkg().Path() == "sync/atomic"
}

type fieldWrite struct {
	x    ast.Expr
	name string
}

// field tells the name of a field that goroutines may share, "" for other expressions. Structs and arrays
// are left out: locks and the like are among them.
func (r *rewriter) field(e ast.Expr) string {
	n, ok := unparen(e).(*ast.SelectorExpr)
	if !ok {
		return ""
	}
	sel := r.info.Selections[n]
	tv, ok := r.info.Types[n]
	if !ok || sel == nil || sel.Kind() != types.FieldVal || !tv.Addressable() {
		return ""
	}
	if v, ok := sel.Obj().(*types.Var); !ok || v.Pkg() == nil || r.pkg == nil || (!v.Exported() && v.Pkg() != r.pkg) {
		return ""
	}
	switch coreType(tv.Type).(type) {
	case *types.Slice, *types.Interface, *types.Basic, *types.Pointer, *types.Chan, *types.Map, *types.Signature:
	default:
		return ""
	}
	t := sel.Recv()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if nt, ok := t.(*types.Named); ok {
		return nt.Obj().Name() + "." + n.Sel.Name
	}
	return n.Sel.Name
}

// plain expressions can be evaluated once more without any effect.
func plain(e ast.Expr) bool {
	switch n := unparen(e).(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return plain(n.X)
	case *ast.StarExpr:
		return plain(n.X)
	}
	return false
}

// copyExpr copies a plain expression.
func copyExpr(e ast.Expr) ast.Expr {
	switch n := unparen(e).(type) {
	case *ast.Ident:
		return ast.NewIdent(n.Name)
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: copyExpr(n.X), Sel: ast.NewIdent(n.Sel.Name)}
	case *ast.StarExpr:
		return &ast.ParenExpr{X: &ast.StarExpr{X: copyExpr(n.X)}}
	}
	return e
}

// analyse takes all decisions that need type information, on the untouched tree.
func (r *rewriter) analyse(f *ast.File) {
	var stmts []ast.Stmt
	noRead := map[ast.Expr]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			return false
		}
		switch n := n.(type) {
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				noRead[unparen(n.X)] = true
			}
		case *ast.SelectorExpr:
			if nm := r.field(n); nm != "" && !noRead[n] {
				r.fieldRead[n] = nm
			}
			if id, ok := n.X.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
					if m := subst[pn.Imported().Path()]; m != nil && m[n.Sel.Name] != "" {
						r.pkgSel[n] = m[n.Sel.Name]
					}
				}
			}
		case *ast.CommClause:
			switch c := n.Comm.(type) {
			case *ast.SendStmt:
				r.comm[c] = true
			case *ast.ExprStmt:
				r.comm[unparen(c.X)] = true
				r.comm[c] = true
			case *ast.AssignStmt:
				r.comm[unparen(c.Rhs[0])] = true
				r.comm[c] = true
			}
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u, ok := unparen(n.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					r.recv2[u] = true
				}
			}
			if n.Tok != token.DEFINE {
				for _, l := range n.Lhs {
					if nm := r.field(l); nm != "" {
						noRead[unparen(l)] = true
						if plain(l) {
							r.fieldSet[n] = append(r.fieldSet[n], fieldWrite{copyExpr(l), nm})
						}
					}
					if ix, ok := unparen(l).(*ast.IndexExpr); ok && r.isMap(ix.X) {
						r.mapWrite[ix] = true
					}
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u, ok := unparen(n.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					r.recv2[u] = true
				}
			}
		case *ast.IncDecStmt:
			if ix, ok := unparen(n.X).(*ast.IndexExpr); ok && r.isMap(ix.X) {
				r.mapWrite[ix] = true
			}
		case *ast.IndexExpr:
			if r.isMap(n.X) && !r.mapWrite[n] {
				r.mapRead[n] = true
			}
		case *ast.RangeStmt:
			for _, l := range []ast.Expr{n.Key, n.Value} {
				if l != nil {
					noRead[unparen(l)] = true
				}
			}
			if r.isMap(n.X) {
				r.rangeMap[n] = true
			}
			if r.isChan(n.X) {
				r.rangeCh[n] = true
			}
		case *ast.CallExpr:
			switch b := r.builtinName(n); b {
			case "close":
				r.builtin[n] = b
			case "delete":
				r.builtin[n] = b
			case "clear":
				if r.isMap(n.Args[0]) {
					r.builtin[n] = b
				}
			case "len":
				if r.isMap(n.Args[0]) {
					r.builtin[n] = "lenmap"
				} else if r.isChan(n.Args[0]) {
					r.builtin[n] = "lench"
				}
			}
			if r.isAtomicCall(n) {
				if tv, ok := r.info.Types[n]; ok && !tv.IsVoid() && tv.IsValue() {
					r.atomicV[n] = true
				}
				if len(stmts) > 0 {
					// marked below through the enclosing statement walk
				}
			}
		case *ast.GoStmt:
			for _, a := range n.Call.Args {
				tv := r.info.Types[a]
				if tv.Value != nil || tv.IsNil() {
					r.inlineArg[a] = true
				}
			}
			if tv, ok := r.info.Types[n.Call.Fun]; ok {
				if sg, ok := tv.Type.(*types.Signature); ok && sg.TypeParams().Len() > 0 {
					r.inlineFun[n] = true
				}
			}
			if r.builtinName(n.Call) != "" {
				r.inlineFun[n] = true
				for _, a := range n.Call.Args {
					r.inlineArg[a] = true
				}
			}
		}
		return true
	})
	// statements that contain atomic calls (not counting nested statement lists)
	var markStmts func(list []ast.Stmt)
	markStmts = func(list []ast.Stmt) {
		for _, s := range list {
			has := false
			ast.Inspect(s, func(n ast.Node) bool {
				if c, ok := n.(*ast.CallExpr); ok && r.isAtomicCall(c) {
					has = true
				}
				return true
			})
			if has {
				r.atomicSt[s] = true
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			markStmts(n.List)
		case *ast.CaseClause:
			markStmts(n.Body)
		case *ast.CommClause:
			markStmts(n.Body)
		}
		return true
	})
}

func (r *rewriter) at(n ast.Node) token.Pos {
	if p, ok := r.pos[n]; ok {
		return p
	}
	return n.Pos()
}

func (r *rewriter) yields(list []ast.Stmt, end token.Pos, loopBody bool) []ast.Stmt {
	out := make([]ast.Stmt, 0, 2*len(list))
	for _, s := range list {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		p := r.at(s)
		id := site(r.fset, p, r.root)
		out = append(out, &ast.ExprStmt{X: r.call("Y", lit(id))})
		if r.atomicSt[s] {
			out = append(out, &ast.ExprStmt{X: r.call("AtomicSync")})
		}
		out = append(out, s)
		for _, w := range r.fieldSet[s] {
			out = append(out, &ast.ExprStmt{X: r.call("FW", &ast.UnaryExpr{Op: token.AND, X: w.x}, &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(w.name)})})
		}
	}
	if len(out) == 0 && loopBody {
		out = append(out, &ast.ExprStmt{X: r.call("Y", lit(site(r.fset, end, r.root)))})
	}
	return out
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}
func orBlank(e ast.Expr) ast.Expr {
	if e == nil {
		return ast.NewIdent("_")
	}
	return e
}

func (r *rewriter) post(c *astutil.Cursor) bool {
	rep := func(old, n ast.Node) {
		r.pos[n] = r.at(old)
		if r.atomicSt[old] {
			r.atomicSt[n] = true
		}
		c.Replace(n)
	}
	switch n := c.Node().(type) {
	case *ast.SelectorExpr:
		if nm := r.pkgSel[n]; nm != "" {
			rep(n, r.rt(nm))
		} else if nm := r.fieldRead[n]; nm != "" {
			rep(n, &ast.ParenExpr{X: &ast.StarExpr{X: r.call("FR", &ast.UnaryExpr{Op: token.AND, X: n}, &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(nm)})}})
		}
	case *ast.UnaryExpr:
		if n.Op == token.ARROW && !r.comm[n] {
			if r.recv2[n] {
				rep(n, r.call("Recv2", n.X))
			} else {
				rep(n, r.call("Recv", n.X))
			}
		}
	case *ast.IndexExpr:
		if r.mapWrite[n] {
			n.X = r.call("MW", n.X)
		} else if r.mapRead[n] {
			n.X = r.call("MR", n.X)
		}
	case *ast.CallExpr:
		switch r.builtin[n] {
		case "close":
			rep(n, r.call("Close", n.Args[0]))
		case "delete", "clear":
			n.Args[0] = r.call("MW", n.Args[0])
		case "lenmap":
			n.Args[0] = r.call("MR", n.Args[0])
		case "lench":
			rep(n, r.call("Len", n.Args[0]))
		default:
			if r.atomicV[n] {
				if _, isStmt := c.Parent().(*ast.ExprStmt); !isStmt {
					if _, isGo := c.Parent().(*ast.GoStmt); !isGo {
						if _, isD := c.Parent().(*ast.DeferStmt); !isD {
							rep(n, r.call("AtomicV", n))
						}
					}
				}
			}
		}
	case *ast.SendStmt:
		if !r.comm[n] {
			rep(n, &ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("SendTo", n.Chan), Args: []ast.Expr{n.Value}}})
		}
	case *ast.GoStmt:
		rep(n, r.goStmt(n))
	case *ast.RangeStmt:
		if r.rangeMap[n] {
			rep(n, r.rangeLoop(n, "RangeMap"))
		} else if r.rangeCh[n] {
			rep(n, r.rangeLoop(n, "RangeChan"))
		}
	case *ast.SelectStmt:
		nn := r.selectStmt(n)
		rep(n, nn)
	case *ast.LabeledStmt:
		if b, ok := n.Stmt.(*ast.BlockStmt); ok && r.selBlock[b] {
			last := len(b.List) - 1
			b.List[last] = &ast.LabeledStmt{Label: n.Label, Stmt: b.List[last]}
			rep(n, b)
		}
	case *ast.BlockStmt:
		loop := false
		switch c.Parent().(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			loop = true
		case *ast.SelectStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
			return true
		}
		n.List = r.yields(n.List, n.Lbrace, loop)
	case *ast.CaseClause:
		n.Body = r.yields(n.Body, n.Colon, false)
	case *ast.CommClause:
		n.Body = r.yields(n.Body, n.Colon, false)
	}
	return true
}

func (r *rewriter) goStmt(n *ast.GoStmt) ast.Stmt {
	id := site(r.fset, n.Pos(), r.root)
	call := n.Call
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: r.call("Go", lit(id), fl)}
	}
	var list []ast.Stmt
	nc := &ast.CallExpr{Ellipsis: call.Ellipsis}
	if r.inlineFun[n] {
		nc.Fun = call.Fun
		if len(call.Args) > 0 {
			if cl, ok := r.builtin[call]; ok && cl == "close" {
				_ = cl
			}
		}
	} else {
		t := r.tmp("f")
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{call.Fun}})
		nc.Fun = t
	}
	for _, a := range call.Args {
		if r.inlineArg[a] {
			nc.Args = append(nc.Args, a)
			continue
		}
		t := r.tmp("a")
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		nc.Args = append(nc.Args, t)
	}
	fn := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}}
	list = append(list, &ast.ExprStmt{X: r.call("Go", lit(id), fn)})
	if len(list) == 1 {
		return list[0]
	}
	return &ast.BlockStmt{List: list}
}

func (r *rewriter) rangeLoop(n *ast.RangeStmt, kind string) ast.Stmt {
	it := r.tmp("it")
	sel := func(f string) ast.Expr { return &ast.SelectorExpr{X: it, Sel: ast.NewIdent(f)} }
	val := n.Value
	key := n.Key
	if n.Tok == token.DEFINE && (!isBlank(key) || !isBlank(val)) {
		var lhs, nx []ast.Expr
		if kind == "RangeMap" {
			lhs = []ast.Expr{it, orBlank(key), orBlank(val)}
			nx = []ast.Expr{orBlank(key), orBlank(val)}
			kind = "RangeMap3"
		} else {
			lhs = []ast.Expr{it, orBlank(key)}
			nx = []ast.Expr{orBlank(key)}
			kind = "RangeChan2"
		}
		return &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{r.call(kind, n.X)}},
			Cond: &ast.CallExpr{Fun: sel("Valid")},
			Post: &ast.AssignStmt{Lhs: nx, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.CallExpr{Fun: sel("Next")}}},
			Body: n.Body,
		}
	}
	f := &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{it}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call(kind, n.X)}},
		Cond: &ast.CallExpr{Fun: sel("Step")},
		Body: n.Body,
	}
	var pre []ast.Stmt
	if !isBlank(key) {
		if kind == "RangeMap" {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{key}, Tok: token.ASSIGN, Rhs: []ast.Expr{sel("K")}})
		} else {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{key}, Tok: token.ASSIGN, Rhs: []ast.Expr{sel("V")}})
		}
	}
	if !isBlank(val) {
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{val}, Tok: token.ASSIGN, Rhs: []ast.Expr{sel("V")}})
	}
	n.Body.List = append(pre, n.Body.List...)
	return f
}

func (r *rewriter) selectStmt(n *ast.SelectStmt) ast.Stmt {
	b := &ast.BlockStmt{}
	if len(n.Body.List) == 0 {
		b.List = []ast.Stmt{&ast.ExprStmt{X: r.call("BlockForever")}, &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}}
		return b
	}
	hasDef := false
	idx := 0
	args := []ast.Expr{ast.NewIdent("false")}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	for _, cs := range n.Body.List {
		cc := cs.(*ast.CommClause)
		cl := &ast.CaseClause{Body: cc.Body}
		if cc.Comm == nil {
			hasDef = true
			sw.Body.List = append(sw.Body.List, cl)
			continue
		}
		v := r.tmp("c")
		var init ast.Expr
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			init = &ast.CallExpr{Fun: r.call("SelSend", m.Chan), Args: []ast.Expr{m.Value}}
		case *ast.ExprStmt:
			init = r.call("SelRecv", unparen(m.X).(*ast.UnaryExpr).X)
		case *ast.AssignStmt:
			init = r.call("SelRecv", unparen(m.Rhs[0]).(*ast.UnaryExpr).X)
			as := &ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: []ast.Expr{&ast.SelectorExpr{X: v, Sel: ast.NewIdent("V")}}}
			if len(m.Lhs) == 2 {
				as.Rhs = append(as.Rhs, &ast.SelectorExpr{X: v, Sel: ast.NewIdent("OK")})
			}
			allBlank := true
			for _, l := range m.Lhs {
				if !isBlank(l) {
					allBlank = false
				}
			}
			if allBlank {
				as.Tok = token.ASSIGN
			}
			cl.Body = append([]ast.Stmt{as}, cl.Body...)
		}
		b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{init}})
		args = append(args, v)
		cl.List = []ast.Expr{lit(idx)}
		idx++
		sw.Body.List = append(sw.Body.List, cl)
	}
	if hasDef {
		args[0] = ast.NewIdent("true")
	} else {
		sw.Body.List[len(sw.Body.List)-1].(*ast.CaseClause).List = nil
	}
	sw.Tag = r.call("Select", args...)
	b.List = append(b.List, sw)
	r.selBlock[b] = true
	return b
}

func instrumentPkg(fset *token.FileSet, imp types.Importer, p *listPkg, root, out, tools string, overlay map[string]string) {
	var files []*ast.File
	var names []string
	for _, f := range p.GoFiles {
		path := filepath.Join(p.Dir, f)
		if st, err := os.Stat(path); err == nil && st.Size() > 1<<20 {
			continue // generated tables: nothing to simulate in them
		}
		a, err := parser.ParseFile(fset, path, nil, parser.SkipObjectResolution)
		if err != nil {
			fail("%v", err)
		}
		files = append(files, a)
		names = append(names, path)
	}
	skipped := len(files) != len(p.GoFiles)
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: imp, GoVersion: "go1.21", Error: func(err error) {
		if !skipped {
			fail("type checking %s: %v", p.ImportPath, err)
		}
	}}
	pkg, _ := conf.Check(p.ImportPath, fset, files, info)
	order := map[types.Object]int{}
	for i, in := range info.InitOrder {
		for _, v := range in.Lhs {
			order[v] = i + 1
		}
	}
	for i, f := range files {
		r := &rewriter{fset: fset, info: info, root: root, pkg: pkg, comm: map[ast.Node]bool{}, recv2: map[ast.Node]bool{}, mapRead: map[ast.Node]bool{}, mapWrite: map[ast.Node]bool{},
			fieldRead: map[*ast.SelectorExpr]string{}, fieldSet: map[ast.Stmt][]fieldWrite{},
			rangeMap: map[ast.Node]bool{}, rangeCh: map[ast.Node]bool{}, builtin: map[ast.Node]string{}, atomicV: map[ast.Node]bool{}, atomicSt: map[ast.Node]bool{}, inlineArg: map[ast.Expr]bool{},
			inlineFun: map[ast.Node]bool{}, pkgSel: map[ast.Node]string{}, pos: map[ast.Node]token.Pos{}, selBlock: map[ast.Node]bool{}}
		r.analyse(f)
		// objects of imports, to see afterwards which are still needed
		astutil.Apply(f, nil, r.post)
		extra := r.globals(f, i, p.ImportPath, order)
		f.Decls = append(f.Decls, extra...)
		program := ""
		if p.Name == "main" {
			program = filepath.Base(p.Dir)
			if st, err := os.Stat(filepath.Join(tools, program)); tools == "" || err != nil || !st.IsDir() {
				return // a command that takes no part
			}
			f.Name = ast.NewIdent(program)
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
					fd.Name = ast.NewIdent("vrtMain")
					f.Decls = append(f.Decls, &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}},
						Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.call("Program", &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(program)}, ast.NewIdent("vrtMain"))}}}})
					break
				}
			}
		}
		if !r.used && program == "" {
			continue
		}
		if r.used {
			r.fixImports(f)
		}
		var buf bytes.Buffer
		cfg := printer.Config{Mode: printer.UseSpaces, Tabwidth: 1}
		if err := cfg.Fprint(&buf, token.NewFileSet(), f); err != nil {
			fail("printing %s: %v", names[i], err)
		}
		rel, _ := filepath.Rel(root, names[i])
		dst := filepath.Join(out, "src", strings.ReplaceAll(rel, "/", "__"))
		os.MkdirAll(filepath.Dir(dst), 0755)
		if err := os.WriteFile(dst, buf.Bytes(), 0644); err != nil {
			fail("%v", err)
		}
		if program != "" {
			overlay[filepath.Join(tools, program, "zz_"+filepath.Base(names[i]))] = dst
			continue
		}
		overlay[names[i]] = dst
	}
}

// globals emits code that re-runs the initialisation of package-level variables for each simulated
// process.
func (r *rewriter) globals(f *ast.File, fi int, pkg string, order map[types.Object]int) []ast.Decl {
	var out []ast.Decl
	initN := 0
	reg := func(n int, body ...ast.Stmt) {
		fn := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
		out = append(out, &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.call("OnGlobal", &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(pkg)}, lit(n), fn)}}}})
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			for _, sp := range d.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Values) == 0 {
					for _, nm := range vs.Names {
						if nm.Name != "_" {
							reg(0, &ast.ExprStmt{X: r.call("Zero", &ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(nm.Name)})})
						}
					}
					continue
				}
				if len(vs.Values) == len(vs.Names) {
					for k, nm := range vs.Names {
						if nm.Name == "_" {
							continue
						}
						reg(order[r.info.Defs[nm]], &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(nm.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{vs.Values[k]}})
					}
					continue
				}
				var lhs []ast.Expr
				o := 0
				for _, nm := range vs.Names {
					lhs = append(lhs, ast.NewIdent(nm.Name))
					if nm.Name != "_" {
						o = order[r.info.Defs[nm]]
					}
				}
				reg(o, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{vs.Values[0]}})
			}
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" {
				initN++
				nm := fmt.Sprintf("vrtInit_%d_%d", fi, initN)
				d.Name = ast.NewIdent(nm)
				reg(1_000_000+fi*100+initN, &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(nm)}})
			}
		}
	}
	return out
}

func (r *rewriter) fixImports(f *ast.File) {
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
					used[pn.Imported().Path()] = true
				}
			}
		}
		return true
	})
	var decls []ast.Decl
	decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent(rtName), Path: &ast.BasicLit{Kind: token.STRING, Value: `"gozwavesim/rt"`}}}})
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			if is.Name != nil && (is.Name.Name == "_" || is.Name.Name == ".") || used[path] {
				decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: is.Name, Path: &ast.BasicLit{Kind: token.STRING, Value: is.Path.Value}}}})
			}
		}
	}
	f.Decls = decls
	f.Imports = nil
}

var _ = sort.Strings
