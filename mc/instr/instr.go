// Package instr writes instrumented copies of the parser and of the modules it is built on, and a modfile for
// "go build -modfile" that uses them: step counters at function entries and loop iterations, scheduling points before statements
// that touch shared variables, shims for sync and sync/atomic, and chosen iteration orders for maps.
// It works on the type-checked syntax tree of whatever the source is.
package instr

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type listPkg struct {
	ImportPath, Dir, Export string
	Standard                bool
	GoFiles                 []string
	Module                  *struct{ Path, Dir, GoMod string }
}

type edit struct {
	at, end int
	text    string
	prio    int
}

type Stats struct {
	Packages, Files, Functions, Loops, Points, Maps, Shims, Goroutines, Clocks, Channels int
}

// Write instruments the dependencies of pkg that are not part of the standard library and not below skip.
// plain: only step counters and scheduling points are inserted. moduleDir is the directory "go" runs in. It writes the copies to out and returns the name of the modfile.
func Write(moduleDir, pkg, out string, skip string, plain bool) (string, Stats, error) {
	var st Stats
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,Standard,GoFiles,Module", pkg)
	cmd.Dir = moduleDir
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	b, err := cmd.Output()
	if err != nil {
		return "", st, fmt.Errorf("go list: %v: %s", err, stderr.String())
	}
	exports := map[string]string{}
	var mine []listPkg
	for dec := json.NewDecoder(bytes.NewReader(b)); ; {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return "", st, err
		}
		exports[p.ImportPath] = p.Export
		if !p.Standard && !strings.HasPrefix(p.ImportPath, skip) {
			mine = append(mine, p)
		}
	}
	ids := map[string]int{}
	modules := map[string]string{} // path -> copy
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	for _, p := range mine {
		st.Packages++
		var files []*ast.File
		var srcs [][]byte
		for _, f := range p.GoFiles {
			name := filepath.Join(p.Dir, f)
			src, err := os.ReadFile(name)
			if err != nil {
				return "", st, err
			}
			a, err := parser.ParseFile(fset, name, src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return "", st, err
			}
			files = append(files, a)
			srcs = append(srcs, src)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			return "", st, fmt.Errorf("%s: %v", p.ImportPath, err)
		}
		in := &inst{fset: fset, info: info, pkg: tp, st: &st, own: map[string]bool{}, ids: ids, plain: plain}
		for _, q := range mine {
			in.own[q.ImportPath] = true
		}
		in.written(files)
		in.timers = usesTimers(files)
		if p.Module == nil || p.Module.Dir == "" {
			return "", st, fmt.Errorf("%s has no module", p.ImportPath)
		}
		root := modules[p.Module.Path]
		if root == "" {
			root = filepath.Join(out, fmt.Sprintf("m%d", len(modules)))
			modules[p.Module.Path] = root
			if err := os.MkdirAll(root, 0o755); err != nil {
				return "", st, err
			}
			mod, err := os.ReadFile(p.Module.GoMod)
			if err != nil {
				return "", st, err
			}
			if err := os.WriteFile(filepath.Join(root, "go.mod"), mod, 0o644); err != nil {
				return "", st, err
			}
		}
		rel, err := filepath.Rel(p.Module.Dir, p.Dir)
		if err != nil {
			return "", st, err
		}
		if err := os.MkdirAll(filepath.Join(root, rel), 0o755); err != nil {
			return "", st, err
		}
		for i, f := range p.GoFiles {
			st.Files++
			text, changed := in.file(files[i], srcs[i])
			if !changed {
				text = srcs[i]
			}
			if err := os.WriteFile(filepath.Join(root, rel, f), text, 0o644); err != nil {
				return "", st, err
			}
		}
	}
	// the modfile: that of moduleDir with other replacements
	mod, err := os.ReadFile(filepath.Join(moduleDir, "go.mod"))
	if err != nil {
		return "", st, err
	}
	var text strings.Builder
	for _, l := range strings.Split(string(mod), "\n") {
		if !strings.HasPrefix(l, "replace ") {
			text.WriteString(l + "\n")
		}
	}
	for path, root := range modules {
		fmt.Fprintf(&text, "replace %s => %s\n", path, root)
	}
	name := filepath.Join(out, "instrumented.mod")
	if err := os.WriteFile(name, []byte(text.String()), 0o644); err != nil {
		return "", st, err
	}
	sum, err := os.ReadFile(filepath.Join(moduleDir, "go.sum"))
	if err != nil {
		return "", st, err
	}
	return name, st, os.WriteFile(filepath.Join(out, "instrumented.sum"), sum, 0o644)
}

type inst struct {
	fset   *token.FileSet
	info   *types.Info
	pkg    *types.Package
	st     *Stats
	own    map[string]bool
	ids    map[string]int
	plain  bool
	timers bool                  // channels that others send to
	comm   map[ast.Node]bool     // operations of select cases
	two    map[ast.Node]bool     // receive operations with two results
	dirty  map[types.Object]bool // variables that are written after their declaration, or whose contents may be
	edits  []edit
	src    []byte
	decl   map[types.Object]ast.Node // innermost function of the declaration of a local variable
}

func (in *inst) off(p token.Pos) int { return in.fset.Position(p).Offset }

func (in *inst) obj(e ast.Expr) types.Object {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			if o := in.info.Uses[x]; o != nil {
				return o
			}
			return in.info.Defs[x]
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			if _, ok := in.info.Selections[x]; !ok { // pkg.Name
				return in.info.Uses[x.Sel]
			}
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.TypeAssertExpr:
			e = x.X
		default:
			return nil
		}
	}
}

// written collects the variables that change after their declaration.
func (in *inst) written(files []*ast.File) {
	in.dirty = map[types.Object]bool{}
	in.decl = map[types.Object]ast.Node{}
	// the declaring functions first
	for _, f := range files {
		var fns []ast.Node
		var visit func(n ast.Node) bool
		visit = func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl, *ast.FuncLit:
				fns = append(fns, x)
				switch x := x.(type) {
				case *ast.FuncDecl:
					if x.Recv != nil {
						ast.Inspect(x.Recv, visit)
					}
					ast.Inspect(x.Type, visit)
					if x.Body != nil {
						ast.Inspect(x.Body, visit)
					}
				case *ast.FuncLit:
					ast.Inspect(x.Type, visit)
					ast.Inspect(x.Body, visit)
				}
				fns = fns[:len(fns)-1]
				return false
			case *ast.Ident:
				if o := in.info.Defs[x]; o != nil && len(fns) > 0 {
					in.decl[o] = fns[len(fns)-1]
				}
			}
			return true
		}
		ast.Inspect(f, visit)
	}
	var inner ast.Node
	mark := func(e ast.Expr) {
		if o := in.obj(e); o != nil && in.decl[o] != inner {
			in.dirty[o] = true
		}
	}
	for _, f := range files {
		var fns []ast.Node
		var visit func(n ast.Node) bool
		visit = func(n ast.Node) bool {
			inner = nil
			if len(fns) > 0 {
				inner = fns[len(fns)-1]
			}
			switch x := n.(type) {
			case *ast.FuncDecl:
				if x.Body == nil {
					return false
				}
				fns = append(fns, x)
				if x.Recv != nil {
					ast.Inspect(x.Recv, visit)
				}
				ast.Inspect(x.Type, visit)
				ast.Inspect(x.Body, visit)
				fns = fns[:len(fns)-1]
				return false
			case *ast.FuncLit:
				fns = append(fns, x)
				ast.Inspect(x.Type, visit)
				ast.Inspect(x.Body, visit)
				fns = fns[:len(fns)-1]
				return false
			}
			in.marks(n, mark)
			return true
		}
		ast.Inspect(f, visit)
	}
}

// marks calls mark for the variables that the node n itself (not its children) writes, or whose contents it may change.
func (in *inst) marks(n ast.Node, mark func(ast.Expr)) {
	switch x := n.(type) {
	case *ast.AssignStmt:
		for _, l := range x.Lhs {
			if id, ok := l.(*ast.Ident); ok && in.info.Defs[id] != nil {
				continue
			}
			mark(l)
		}
	case *ast.IncDecStmt:
		mark(x.X)
	case *ast.RangeStmt:
		if x.Tok == token.ASSIGN {
			if x.Key != nil {
				mark(x.Key)
			}
			if x.Value != nil {
				mark(x.Value)
			}
		}
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			mark(x.X)
		}
	case *ast.CallExpr:
		switch f := x.Fun.(type) {
		case *ast.Ident:
			if b, ok := in.info.Uses[f].(*types.Builtin); ok && (b.Name() == "delete" || b.Name() == "append" || b.Name() == "copy" || b.Name() == "clear") && len(x.Args) > 0 {
				mark(x.Args[0])
			}
		case *ast.SelectorExpr:
			// a method that may change its receiver
			if s, ok := in.info.Selections[f]; ok && s.Kind() == types.MethodVal {
				if sig, ok := s.Obj().Type().(*types.Signature); ok && sig.Recv() != nil {
					if _, ptr := sig.Recv().Type().(*types.Pointer); ptr {
						mark(f.X)
					}
				}
			}
		}
		// a map or pointer that is handed on may be changed there
		for _, a := range x.Args {
			if t := in.info.TypeOf(a); t != nil {
				switch u := t.Underlying().(type) {
				case *types.Map, *types.Pointer, *types.Chan:
					mark(a)
				case *types.Slice:
					if _, fn := u.Elem().Underlying().(*types.Signature); !fn {
						mark(a)
					}
				}
			}
		}
	}
}

// shared reports whether an identifier, used in the innermost function fn, is a variable that other calls may share.
func (in *inst) shared(id *ast.Ident, fn ast.Node) bool {
	v, ok := in.info.Uses[id].(*types.Var)
	if !ok || v.IsField() {
		return false
	}
	if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
		if !in.own[v.Pkg().Path()] {
			return false
		}
		if v.Pkg() != in.pkg {
			return true
		}
		return in.dirty[v] || mutable(v.Type())
	}
	d := in.decl[v]
	return d != nil && d != fn && in.dirty[v]
}

func mutable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Map, *types.Pointer, *types.Chan, *types.Slice:
		return true
	}
	return false
}

// touches lists the calls for the shared variables that a statement itself (not the blocks and functions in it) uses.
func (in *inst) touches(n ast.Node, fn ast.Node) string {
	write := map[types.Object]bool{}
	var vars []types.Object
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.BlockStmt:
			return false
		case *ast.Ident:
			if in.shared(x, fn) {
				o := in.info.Uses[x]
				if _, ok := write[o]; !ok {
					vars = append(vars, o)
					write[o] = false
				}
			}
		}
		return true
	})
	if vars == nil {
		return ""
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.BlockStmt:
			return false
		}
		if n != nil {
			in.marks(n, func(e ast.Expr) {
				if o := in.obj(e); o != nil {
					write[o] = true
				}
			})
		}
		return true
	})
	text := ""
	for _, o := range vars {
		in.st.Points++
		call := "R"
		if write[o] {
			call = "W"
		}
		text += fmt.Sprintf("vrt__.%s(%d); ", call, in.id(o))
	}
	return text
}

// id numbers the shared variables.
func (in *inst) id(o types.Object) int {
	k := fmt.Sprintf("%s.%s", o.Pkg().Path(), o.Name())
	if o.Parent() != o.Pkg().Scope() {
		k += "@" + in.fset.Position(o.Pos()).String()
	}
	n, ok := in.ids[k]
	if !ok {
		n = len(in.ids)
		in.ids[k] = n
	}
	return n
}

func (in *inst) insert(p token.Pos, text string, prio int) {
	o := in.off(p)
	in.edits = append(in.edits, edit{o, o, text, prio})
}

func (in *inst) replace(from, to token.Pos, text string) {
	in.edits = append(in.edits, edit{in.off(from), in.off(to), text, 10})
}

func (in *inst) text(n ast.Node) string { return string(in.src[in.off(n.Pos()):in.off(n.End())]) }

func (in *inst) file(f *ast.File, src []byte) ([]byte, bool) {
	in.edits, in.src = nil, src
	used, timeName := false, ""
	for _, i := range f.Imports {
		name := ""
		switch i.Path.Value {
		case `"sync"`:
			name = "sync"
		case `"sync/atomic"`:
			name = "atomic"
		default:
			continue
		}
		in.st.Shims++
		shim := `"verif/mc/vrt/v` + name + `"`
		if i.Name == nil {
			shim = name + " " + shim
		}
		in.replace(i.Path.Pos(), i.Path.End(), shim)
	}
	in.comm, in.two = map[ast.Node]bool{}, map[ast.Node]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				in.two[ast.Unparen(x.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				in.two[ast.Unparen(x.Values[0])] = true
			}
		}
		return true
	})
	chans := !in.plain && !in.timers
	var walk func(n ast.Node, fn ast.Node)
	block := func(list []ast.Stmt, fn ast.Node) {
		for _, s := range list {
			inner := s
			for {
				l, ok := inner.(*ast.LabeledStmt)
				if !ok {
					break
				}
				inner = l.Stmt
			}
			switch inner.(type) {
			case *ast.BlockStmt, *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			default:
				if t := in.touches(inner, fn); t != "" {
					used = true
					in.insert(s.Pos(), t, 1)
				}
			}
			walk(s, fn)
		}
	}
	walk = func(n ast.Node, fn ast.Node) {
		if n == nil {
			return
		}
		ast.Inspect(n, func(m ast.Node) bool {
			if m == n {
				// fallthrough to the kinds below
			}
			switch x := m.(type) {
			case *ast.FuncDecl:
				if x.Body != nil {
					in.st.Functions++
					used = true
					in.insert(x.Body.Lbrace+1, " vrt__.F(); ", 0)
					block(x.Body.List, x)
				}
				return false
			case *ast.FuncLit:
				in.st.Functions++
				used = true
				in.insert(x.Body.Lbrace+1, " vrt__.F(); ", 0)
				block(x.Body.List, x)
				return false
			case *ast.SelectorExpr:
				if id, ok := x.X.(*ast.Ident); ok && !in.plain {
					if p, ok := in.info.Uses[id].(*types.PkgName); ok && p.Imported().Path() == "time" && x.Sel.Name == "Now" {
						in.st.Clocks++
						used = true
						in.replace(x.Pos(), x.End(), "vrt__.Now")
						timeName = id.Name
					}
				}
			case *ast.GoStmt:
				in.st.Goroutines++
				if !in.plain {
					used = true
					in.goStmt(x)
				}
			case *ast.SendStmt:
				if chans && !in.comm[x] {
					in.st.Channels++
					used = true
					in.insert(x.Pos(), "vrt__.To(", 2)
					in.replace(x.Arrow, x.Arrow+2, ").Send(")
					in.insert(x.End(), ")", -1)
				}
			case *ast.UnaryExpr:
				if x.Op == token.ARROW && chans && !in.comm[x] {
					in.st.Channels++
					used = true
					if in.two[x] {
						in.replace(x.OpPos, x.OpPos+2, "vrt__.Recv2(")
					} else {
						in.replace(x.OpPos, x.OpPos+2, "vrt__.Recv(")
					}
					in.insert(x.End(), ")", -1)
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && chans {
					if b, ok := in.info.Uses[id].(*types.Builtin); ok && b.Name() == "close" {
						in.st.Channels++
						used = true
						in.replace(id.Pos(), id.End(), "vrt__.Close")
					}
				}
			case *ast.SelectStmt:
				if chans {
					in.st.Channels++
					used = true
					in.selectStmt(x)
				}
			case *ast.BlockStmt:
				block(x.List, fn)
				return false
			case *ast.CaseClause:
				for _, e := range x.List {
					walk(e, fn)
				}
				block(x.Body, fn)
				return false
			case *ast.CommClause:
				block(x.Body, fn)
				return false
			case *ast.ForStmt:
				in.st.Loops++
				used = true
				in.insert(x.Body.Lbrace+1, " vrt__.L(); ", 0)
				if x.Cond != nil {
					in.insert(x.Body.Lbrace+1, in.touches(x.Cond, fn), 1)
				}
				if x.Post != nil {
					in.insert(x.Body.Lbrace+1, in.touches(x.Post, fn), 1)
				}
			case *ast.RangeStmt:
				in.st.Loops++
				used = true
				head := " vrt__.L(); "
				if t := in.info.TypeOf(x.X); t != nil {
					if _, ok := t.Underlying().(*types.Chan); ok && chans {
						head += in.chanRange(x)
					}
					if _, ok := t.Underlying().(*types.Map); ok && !in.plain {
						if h, ok := in.mapRange(x); ok {
							in.st.Maps++
							head = h + head
						}
					}
				}
				in.insert(x.Body.Lbrace+1, head, 0)
			}
			return true
		})
	}
	for _, d := range f.Decls {
		walk(d, nil)
	}
	if used {
		in.insert(f.Name.End(), "; import vrt__ \"verif/mc/vrt\"", 0)
	}
	if len(in.edits) == 0 {
		return nil, false
	}
	sort.SliceStable(in.edits, func(i, j int) bool {
		if in.edits[i].at != in.edits[j].at {
			return in.edits[i].at < in.edits[j].at
		}
		return in.edits[i].prio < in.edits[j].prio
	})
	var b bytes.Buffer
	at := 0
	for _, e := range in.edits {
		if e.at < at {
			continue // inside a replaced part
		}
		b.Write(src[at:e.at])
		b.WriteString(e.text)
		at = e.end
	}
	b.Write(src[at:])
	if timeName != "" {
		b.WriteString("\nvar _ = " + timeName + ".Now\n")
	}
	return b.Bytes(), true
}

// mapRange turns "range m" over a map into a loop over its keys in a chosen order. An entry that is deleted before
// it is reached is skipped, one that is added during the loop is not visited.
func (in *inst) mapRange(x *ast.RangeStmt) (string, bool) {
	name := func(e ast.Expr) string {
		if e == nil {
			return "_"
		}
		return in.text(e)
	}
	k, v := name(x.Key), name(x.Value)
	m := in.text(x.X)
	simple := func(e ast.Expr) bool {
		for {
			switch y := e.(type) {
			case *ast.Ident:
				return true
			case *ast.SelectorExpr:
				e = y.X
			case *ast.ParenExpr:
				e = y.X
			case *ast.StarExpr:
				e = y.X
			default:
				return false
			}
		}
	}
	from, to := x.X.Pos(), x.X.End()
	keys := "vrt__.Keys(" + m + ")"
	if !simple(x.X) {
		// evaluated once: entries are read up front
		if x.Tok == token.ASSIGN || v == "_" {
			return "", false
		}
		in.replace(x.Key.Pos(), to, "_, vrt__e := range vrt__.Entries("+m+")")
		return fmt.Sprintf(" %s, %s := vrt__e.K, vrt__e.V; _, _ = vrt__e, vrt__e; ", k, v), true
	}
	_ = from
	start := x.X.Pos()
	if x.Key != nil {
		start = x.Key.Pos()
	} else {
		// "for range m"
		in.replace(x.X.Pos(), to, keys)
		return "", true
	}
	in.replace(start, to, "_, vrt__k := range "+keys)
	h := fmt.Sprintf(" vrt__v, vrt__ok := %s[vrt__k]; if !vrt__ok { continue }; _ = vrt__v; ", m)
	op := ":="
	if x.Tok == token.ASSIGN {
		op = "="
	}
	if k != "_" {
		h += fmt.Sprintf("%s %s vrt__k; ", k, op)
	}
	if v != "_" {
		h += fmt.Sprintf("%s %s vrt__v; ", v, op)
	}
	return h, true
}

// goStmt starts the goroutine under the scheduler: the function and its arguments are evaluated first, as in Go.
func (in *inst) goStmt(x *ast.GoStmt) {
	// go f(a, b) -> vrt__.Go(func() { f(a, b) }) with f, a, b evaluated before
	var names, values []string
	args := make([]string, len(x.Call.Args))
	for i, a := range x.Call.Args {
		if tv, ok := in.info.Types[a]; ok && (tv.Value != nil || tv.IsNil()) {
			args[i] = in.text(a)
			continue
		}
		args[i] = fmt.Sprintf("vrt__a%d", i)
		names = append(names, args[i])
		values = append(values, in.text(a))
	}
	if len(names) > 0 {
		dots := ""
		if x.Call.Ellipsis != token.NoPos {
			dots = "..."
		}
		// only the text before the call's function and around the arguments changes
		in.replace(x.Go, x.Call.Fun.Pos(), fmt.Sprintf("{ %s := %s; vrt__.Go(func() { ", strings.Join(names, ", "), strings.Join(values, ", ")))
		in.replace(x.Call.Lparen, x.Call.Rparen+1, "("+strings.Join(args, ", ")+dots+") }) }")
		return
	}
	in.replace(x.Go, x.Call.Fun.Pos(), "vrt__.Go(func() { ")
	in.insert(x.Call.End(), " })", 5)
}

// selectStmt turns a select statement into a switch on the case that vrt chooses.
func (in *inst) selectStmt(x *ast.SelectStmt) {
	var names, values []string
	def := false
	k := 0
	for _, s := range x.Body.List {
		c := s.(*ast.CommClause)
		name := fmt.Sprintf("vrt__c%d", k)
		switch y := c.Comm.(type) {
		case nil:
			def = true
			in.replace(c.Case, c.Colon+1, "default:")
			continue
		case *ast.SendStmt:
			in.comm[y] = true
			values = append(values, "vrt__.To("+in.text(y.Chan)+").Case("+in.text(y.Value)+")")
			in.replace(c.Case, c.Colon+1, fmt.Sprintf("case %d: _ = %s;", k, name))
		case *ast.ExprStmt:
			u := ast.Unparen(y.X).(*ast.UnaryExpr)
			in.comm[u] = true
			values = append(values, "vrt__.RecvCase("+in.text(u.X)+")")
			in.replace(c.Case, c.Colon+1, fmt.Sprintf("case %d: _ = %s;", k, name))
		case *ast.AssignStmt:
			u := ast.Unparen(y.Rhs[0]).(*ast.UnaryExpr)
			in.comm[u] = true
			values = append(values, "vrt__.RecvCase("+in.text(u.X)+")")
			var l []string
			for _, e := range y.Lhs {
				l = append(l, in.text(e))
			}
			v := name + ".Val"
			if len(l) == 2 {
				v += ", " + name + ".Ok"
			}
			in.replace(c.Case, c.Colon+1, fmt.Sprintf("case %d: %s %s %s;", k, strings.Join(l, ", "), y.Tok, v))
		}
		names = append(names, name)
		k++
	}
	call := fmt.Sprintf("vrt__.Select(%v%s)", def, strings.Join(append([]string{""}, names...), ", "))
	head := "switch " + call + " {"
	if k > 0 {
		head = "switch " + strings.Join(names, ", ") + " := " + strings.Join(values, ", ") + "; " + call + " {"
	}
	in.replace(x.Select, x.Body.Lbrace+1, head)
}

// chanRange turns "range ch" into a loop that receives.
func (in *inst) chanRange(x *ast.RangeStmt) string {
	ch := in.text(x.X)
	in.st.Channels++
	in.replace(x.For, x.Body.Lbrace, fmt.Sprintf("for vrt__v, vrt__ok := vrt__.Recv2(%s); vrt__ok; vrt__v, vrt__ok = vrt__.Recv2(%s) ", ch, ch))
	if x.Key == nil {
		return " _ = vrt__v; "
	}
	return fmt.Sprintf(" %s %s vrt__v; ", in.text(x.Key), x.Tok)
}

// usesTimers reports whether channels may be used by the standard library.
func usesTimers(files []*ast.File) bool {
	found := false
	for _, f := range files {
		for _, i := range f.Imports {
			if i.Path.Value == `"context"` || i.Path.Value == `"os/signal"` {
				found = true
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok && id.Name == "time" {
					switch s.Sel.Name {
					case "After", "AfterFunc", "Tick", "NewTimer", "NewTicker":
						found = true
					}
				}
			}
			return true
		})
	}
	return found
}
