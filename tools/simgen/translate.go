package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type translator struct {
	outPath    string
	c          *checked
	repoRel    string
	translated map[string]bool

	file      *ast.File
	fileName  string
	addImp    map[string]string // path -> alias
	tmp       int
	noYield   bool
	captured  map[types.Object]bool // captured by a closure and written more than once
	initFns   []string
	initN     int
	resetZero []string
	resetInit map[string]string
	labels    []map[string]*labelUse
}

type labelUse struct{ brk, gto, cont bool }

type mode int

const (
	rval mode = iota // plain value use: may be wrapped in a load
	base             // addressable use (selector base, & operand, array base)
	lhs              // assignment target
)

func (t *translator) run(dir string) {
	t.analyseCaptures()
	for i, f := range t.c.files {
		t.file = f
		t.fileName = filepath.Join(t.repoRel, t.c.names[i])
		if t.repoRel == "" {
			t.fileName = t.c.names[i]
		}
		t.noYield = noYieldFile[t.fileName]
		t.addImp = map[string]string{}
		for _, d := range f.Decls {
			t.decl(d)
		}
		t.emit(f, filepath.Join(dir, t.c.names[i]))
	}
	t.emitReset(dir)
}

func (t *translator) site(p token.Pos) string {
	pos := t.c.fset.Position(p)
	sites = append(sites, fmt.Sprintf("%s:%d", t.fileName, pos.Line))
	siteNo++
	return strconv.Itoa(siteNo - 1)
}

// ---------------------------------------------------------------- emission

func (t *translator) emit(f *ast.File, path string) {
	// drop comments: positions no longer match
	f.Comments = nil
	f.Doc = nil
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				used[id.Name] = true
			}
		}
		return true
	})
	var specs []ast.Spec
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		real := p
		if m, ok := t.c.info.ImportMap[p]; ok {
			real = m
		}
		name := ""
		if im.Name != nil {
			name = im.Name.Name
		} else if pn, ok := t.c.ti.Implicits[im].(*types.PkgName); ok {
			name = pn.Imported().Name()
		}
		np := p
		if r, ok := pkgReplace[real]; ok {
			np = r
		} else if r, ok := depTranslate[real]; ok {
			np = r
		}
		if name != "_" && name != "." && !used[name] {
			continue
		}
		sp := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(np)}}
		if name == "." {
			// keep a dot import only when something still needs it; a blank
			// import is harmless otherwise
			if t.dotStillUsed(f, real) {
				sp.Name = ast.NewIdent(".")
			} else {
				sp.Name = ast.NewIdent("_")
			}
		} else if name != "" {
			sp.Name = ast.NewIdent(name)
		}
		specs = append(specs, sp)
	}
	var extra []string
	for p := range t.addImp {
		extra = append(extra, p)
	}
	sortStrings(extra)
	for _, p := range extra {
		if !used[t.addImp[p]] {
			continue
		}
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(t.addImp[p]), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(p)}})
	}
	var decls []ast.Decl
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		decls = append(decls, d)
	}
	// print without positions: declare imports textually
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\n", f.Name.Name)
	for _, s := range specs {
		is := s.(*ast.ImportSpec)
		if is.Name != nil {
			fmt.Fprintf(&b, "import %s %s\n", is.Name.Name, is.Path.Value)
		} else {
			fmt.Fprintf(&b, "import %s\n", is.Path.Value)
		}
	}
	for _, d := range decls {
		stripDocs(d)
		b.WriteString("\n")
		if err := format.Node(&b, t.c.fset, d); err != nil {
			fatal("print", t.fileName, err)
		}
		b.WriteString("\n")
	}
	if err := os.WriteFile(path, b.Bytes(), 0644); err != nil {
		fatal(err)
	}
}

func stripDocs(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
}

func (t *translator) dotStillUsed(f *ast.File, path string) bool {
	found := false
	ast.Inspect(f, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if o := t.c.ti.Uses[id]; o != nil && o.Pkg() != nil && o.Pkg().Path() == path && o.Parent() == o.Pkg().Scope() {
				found = true
			}
		}
		return !found
	})
	return found
}

func (t *translator) emitReset(dir string) {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\n", t.c.pkg.Name())
	b.WriteString("func " + resetName(t.outPath) + "() {\n")
	// variables without initialiser first, then initialisers in order
	for _, line := range t.resetZero {
		b.WriteString("\t" + line + "\n")
	}
	for _, in := range t.c.ti.InitOrder {
		key := initKey(in)
		if fn, ok := t.resetInit[key]; ok {
			b.WriteString("\t" + fn + "()\n")
		}
	}
	for _, f := range t.initFns {
		b.WriteString("\t" + f + "()\n")
	}
	b.WriteString("}\n")
	if err := os.WriteFile(filepath.Join(dir, "zz_simreset.go"), []byte(b.String()), 0644); err != nil {
		fatal(err)
	}
}

func initKey(in *types.Initializer) string {
	var s []string
	for _, v := range in.Lhs {
		s = append(s, v.Name())
	}
	return strings.Join(s, ",")
}

// ---------------------------------------------------------------- captures

func (t *translator) analyseCaptures() {
	t.captured = map[types.Object]bool{}
	for _, f := range t.c.files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			var root ast.Node = d
			if ok {
				if fd.Body == nil {
					continue
				}
				root = fd
			}
			t.captureIn(root)
		}
	}
}

func (t *translator) captureIn(root ast.Node) {
	declFn := map[types.Object]ast.Node{}
	cap := map[types.Object]bool{}
	writes := map[types.Object]int{}
	var stack []ast.Node // function nodes
	var walk func(n ast.Node)
	note := func(e ast.Expr) {
		for {
			if p, ok := e.(*ast.ParenExpr); ok {
				e = p.X
				continue
			}
			break
		}
		// writes to fields/elements of a captured value variable count as well
		for {
			switch x := e.(type) {
			case *ast.SelectorExpr:
				e = x.X
				continue
			case *ast.IndexExpr:
				if _, ok := under(t.typeOf(x.X)).(*types.Array); ok {
					e = x.X
					continue
				}
			case *ast.ParenExpr:
				e = x.X
				continue
			}
			break
		}
		if id, ok := e.(*ast.Ident); ok {
			if o := t.c.ti.Uses[id]; o != nil {
				writes[o]++
			}
		}
	}
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch m := m.(type) {
			case *ast.FuncLit:
				if m == n {
					return true
				}
				stack = append(stack, m)
				walk(m)
				stack = stack[:len(stack)-1]
				return false
			case *ast.Ident:
				var cur ast.Node
				if len(stack) > 0 {
					cur = stack[len(stack)-1]
				}
				if o, ok := t.c.ti.Defs[m].(*types.Var); ok && !o.IsField() {
					declFn[o] = cur
				}
				if o, ok := t.c.ti.Uses[m].(*types.Var); ok && !o.IsField() {
					if d, ok := declFn[o]; ok && d != cur {
						cap[o] = true
					}
				}
			case *ast.AssignStmt:
				for _, l := range m.Lhs {
					note(l)
				}
			case *ast.IncDecStmt:
				note(m.X)
			case *ast.UnaryExpr:
				if m.Op == token.AND {
					note(m.X)
				}
			case *ast.RangeStmt:
				if m.Tok == token.ASSIGN {
					if m.Key != nil {
						note(m.Key)
					}
					if m.Value != nil {
						note(m.Value)
					}
				}
			}
			return true
		})
	}
	walk(root)
	for o := range cap {
		if writes[o] > 0 {
			t.captured[o] = true
		}
	}
}

// ---------------------------------------------------------------- helpers

func under(ty types.Type) types.Type {
	if ty == nil {
		return nil
	}
	return ty.Underlying()
}

// core returns the core type of ty, also for type parameters.
func core(ty types.Type) types.Type {
	if ty == nil {
		return nil
	}
	if tp, ok := types.Unalias(ty).(*types.TypeParam); ok {
		iface, ok := tp.Constraint().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		var c types.Type
		for i := 0; i < iface.NumEmbeddeds(); i++ {
			switch u := types.Unalias(iface.EmbeddedType(i)).(type) {
			case *types.Union:
				for j := 0; j < u.Len(); j++ {
					x := core(u.Term(j).Type())
					if c == nil {
						c = x
					} else if x == nil || !types.Identical(c, x) {
						return nil
					}
				}
			default:
				x := core(u)
				if _, isI := x.(*types.Interface); isI || x == nil {
					continue
				}
				if c == nil {
					c = x
				} else if !types.Identical(c, x) {
					return nil
				}
			}
		}
		return c
	}
	return ty.Underlying()
}

func (t *translator) typeOf(e ast.Expr) types.Type {
	if tv, ok := t.c.ti.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := t.c.ti.Uses[id]; o != nil {
			return o.Type()
		}
		if o := t.c.ti.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func (t *translator) alias(path string) string {
	a := "sim_" + path[strings.LastIndex(path, "/")+1:]
	if path == simPath+"/sim" {
		a = "sim__"
	}
	t.addImp[path] = a
	return a
}

func (t *translator) sim(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(t.alias(simPath + "/sim")), Sel: ast.NewIdent(name)}
}

func (t *translator) simCall(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: t.sim(name), Args: args}
}

func lit(s string) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: s} }

func (t *translator) yieldStmt(p token.Pos) ast.Stmt {
	return &ast.ExprStmt{X: t.simCall("Y", lit(t.site(p)))}
}

func (t *translator) newTmp() string {
	t.tmp++
	return "sim__t" + strconv.Itoa(t.tmp)
}

func isConst(tv types.TypeAndValue) bool { return tv.Value != nil }

// loadable types: anything but structs and arrays
func loadable(ty types.Type) bool {
	if ty == nil {
		return false
	}
	if _, ok := types.Unalias(ty).(*types.TypeParam); ok {
		return true
	}
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.Invalid && u.Info()&types.IsUntyped == 0
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

// shared reports whether an addressable expression denotes memory another
// task may reach: through a pointer, a package variable or a captured variable.
func (t *translator) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return t.shared(e.X)
	case *ast.Ident:
		o := t.c.ti.Uses[e]
		v, ok := o.(*types.Var)
		if !ok || v.IsField() {
			return false
		}
		if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
			return t.translated[v.Pkg().Path()]
		}
		return t.captured[v]
	case *ast.SelectorExpr:
		if sel, ok := t.c.ti.Selections[e]; ok {
			if sel.Kind() != types.FieldVal {
				return false
			}
			if _, ok := under(t.typeOf(e.X)).(*types.Pointer); ok {
				return true
			}
			if sel.Indirect() {
				return true
			}
			return t.shared(e.X)
		}
		if v, ok := t.c.ti.Uses[e.Sel].(*types.Var); ok && v.Pkg() != nil {
			return t.translated[v.Pkg().Path()]
		}
		return false
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		switch u := core(t.typeOf(e.X)).(type) {
		case *types.Slice:
			return t.shared(e.X)
		case *types.Array:
			return t.shared(e.X)
		case *types.Pointer:
			if _, ok := u.Elem().Underlying().(*types.Array); ok {
				return true
			}
		case *types.Map:
			return false
		}
		return false
	case *ast.SliceExpr:
		return t.shared(e.X)
	}
	return false
}

func (t *translator) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = t.expr(l[i], rval)
	}
}

// ---------------------------------------------------------------- expressions

func (t *translator) load(orig ast.Expr, now ast.Expr, m mode, isShared bool) ast.Expr {
	if m != rval || t.noYield || !isShared {
		return now
	}
	tv, ok := t.c.ti.Types[orig]
	var ty types.Type
	if ok {
		if isConst(tv) || !tv.Addressable() {
			return now
		}
		ty = tv.Type
	} else {
		ty = t.typeOf(orig)
	}
	if !loadable(ty) {
		return now
	}
	return t.simCall("Ld", lit(t.site(orig.Pos())), &ast.UnaryExpr{Op: token.AND, X: now})
}

func (t *translator) shadowed(path, name string) (string, bool) {
	if s, ok := shadowSyms[path]; ok && s[name] {
		return shadows[path], true
	}
	return "", false
}

func (t *translator) expr(e ast.Expr, m mode) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.BadExpr, *ast.BasicLit:
		return e
	case *ast.Ident:
		o := t.c.ti.Uses[x]
		if o == nil {
			return e
		}
		if o.Pkg() != nil && o.Pkg() != t.c.pkg && o.Parent() == o.Pkg().Scope() {
			// dot-imported
			if sp, ok := t.shadowed(o.Pkg().Path(), o.Name()); ok {
				return &ast.SelectorExpr{X: ast.NewIdent(t.alias(sp)), Sel: ast.NewIdent(x.Name)}
			}
		}
		if _, ok := o.(*types.Var); ok {
			return t.load(e, e, m, t.shared(x))
		}
		return e
	case *ast.ParenExpr:
		x.X = t.expr(x.X, m)
		return x
	case *ast.SelectorExpr:
		if sel, ok := t.c.ti.Selections[x]; ok {
			sh := t.shared(x)
			switch sel.Kind() {
			case types.FieldVal:
				if _, ok := under(t.typeOf(x.X)).(*types.Pointer); ok {
					r := t.expr(x.X, rval)
					n := &ast.SelectorExpr{X: r, Sel: x.Sel}
					return t.load(x, n, m, sh)
				}
				n := &ast.SelectorExpr{X: t.expr(x.X, base), Sel: x.Sel}
				return t.load(x, n, m, sh)
			case types.MethodVal:
				xt := t.typeOf(x.X)
				bm := rval
				if _, isPtr := under(xt).(*types.Pointer); !isPtr {
					if _, isIface := under(xt).(*types.Interface); !isIface {
						if tv, ok := t.c.ti.Types[x.X]; ok && tv.Addressable() {
							bm = base
						}
					}
				}
				return &ast.SelectorExpr{X: t.expr(x.X, bm), Sel: x.Sel}
			default: // method expression
				return &ast.SelectorExpr{X: t.expr(x.X, base), Sel: x.Sel}
			}
		}
		// qualified identifier
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := t.c.ti.Uses[id].(*types.PkgName); ok {
				if sp, ok := t.shadowed(pn.Imported().Path(), x.Sel.Name); ok {
					return &ast.SelectorExpr{X: ast.NewIdent(t.alias(sp)), Sel: ast.NewIdent(x.Sel.Name)}
				}
				if _, ok := t.c.ti.Uses[x.Sel].(*types.Var); ok {
					return t.load(x, x, m, t.shared(x))
				}
			}
		}
		return x
	case *ast.StarExpr:
		if tv, ok := t.c.ti.Types[x]; ok && tv.IsType() {
			x.X = t.expr(x.X, base)
			return x
		}
		if m == rval && !t.noYield && loadable(t.typeOf(x)) {
			return t.simCall("Ld", lit(t.site(x.Pos())), t.expr(x.X, rval))
		}
		x.X = t.expr(x.X, rval)
		return x
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			x.X = t.expr(x.X, base)
			return x
		case token.ARROW:
			return t.simCall("Recv", t.expr(x.X, rval))
		case token.TILDE:
			x.X = t.expr(x.X, base)
			return x
		}
		x.X = t.expr(x.X, rval)
		return x
	case *ast.BinaryExpr:
		if tv, ok := t.c.ti.Types[x]; ok && tv.IsType() {
			x.X, x.Y = t.expr(x.X, base), t.expr(x.Y, base)
			return x
		}
		x.X = t.expr(x.X, rval)
		x.Y = t.expr(x.Y, rval)
		return x
	case *ast.IndexExpr:
		if tv, ok := t.c.ti.Types[x.X]; ok && !tv.IsType() {
			if _, isSig := under(tv.Type).(*types.Signature); !isSig {
				sh := t.shared(x)
				switch c := core(tv.Type).(type) {
				case *types.Map:
					fn := "MapR"
					if m == lhs {
						fn = "MapW"
					}
					x.Index = t.expr(x.Index, rval)
					xx := t.expr(x.X, rval)
					if t.noYield {
						x.X = xx
					} else {
						x.X = t.simCall(fn, lit(t.site(x.Pos())), xx)
					}
					return x
				case *types.Array:
					if tv.Addressable() {
						n := &ast.IndexExpr{X: t.expr(x.X, base), Index: t.expr(x.Index, rval)}
						return t.load(x, n, m, sh)
					}
					x.X, x.Index = t.expr(x.X, rval), t.expr(x.Index, rval)
					return x
				case *types.Slice, *types.Pointer:
					_ = c
					n := &ast.IndexExpr{X: t.expr(x.X, rval), Index: t.expr(x.Index, rval)}
					return t.load(x, n, m, sh)
				}
				x.X, x.Index = t.expr(x.X, rval), t.expr(x.Index, rval)
				return x
			}
		}
		// instantiation
		x.X, x.Index = t.expr(x.X, base), t.expr(x.Index, base)
		return x
	case *ast.IndexListExpr:
		x.X = t.expr(x.X, base)
		for i := range x.Indices {
			x.Indices[i] = t.expr(x.Indices[i], base)
		}
		return x
	case *ast.SliceExpr:
		bm := rval
		if _, ok := core(t.typeOf(x.X)).(*types.Array); ok {
			bm = base
		}
		x.X = t.expr(x.X, bm)
		x.Low, x.High, x.Max = t.opt(x.Low), t.opt(x.High), t.opt(x.Max)
		return x
	case *ast.TypeAssertExpr:
		x.X = t.expr(x.X, rval)
		if x.Type != nil {
			x.Type = t.expr(x.Type, base)
		}
		return x
	case *ast.CallExpr:
		return t.call(x)
	case *ast.FuncLit:
		x.Type = t.expr(x.Type, base).(*ast.FuncType)
		t.funcBody(x.Body)
		return x
	case *ast.CompositeLit:
		if x.Type != nil {
			x.Type = t.expr(x.Type, base)
		}
		_, isStruct := core(t.litType(x)).(*types.Struct)
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = t.expr(kv.Key, rval)
				}
				kv.Value = t.expr(kv.Value, rval)
			} else {
				x.Elts[i] = t.expr(el, rval)
			}
		}
		return x
	case *ast.KeyValueExpr:
		x.Key, x.Value = t.expr(x.Key, rval), t.expr(x.Value, rval)
		return x
	case *ast.Ellipsis:
		if x.Elt != nil {
			x.Elt = t.expr(x.Elt, base)
		}
		return x
	case *ast.ArrayType:
		if x.Len != nil {
			x.Len = t.expr(x.Len, base)
		}
		x.Elt = t.expr(x.Elt, base)
		return x
	case *ast.StructType:
		t.fields(x.Fields)
		return x
	case *ast.FuncType:
		t.fields(x.TypeParams)
		t.fields(x.Params)
		t.fields(x.Results)
		return x
	case *ast.InterfaceType:
		t.fields(x.Methods)
		return x
	case *ast.MapType:
		x.Key, x.Value = t.expr(x.Key, base), t.expr(x.Value, base)
		return x
	case *ast.ChanType:
		x.Value = t.expr(x.Value, base)
		return x
	}
	fatal(fmt.Sprintf("unknown expression %T", e))
	return nil
}

func (t *translator) litType(x *ast.CompositeLit) types.Type {
	ty := t.typeOf(x)
	if ty == nil {
		return nil
	}
	if p, ok := ty.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return ty
}

func (t *translator) opt(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	return t.expr(e, rval)
}

func (t *translator) fields(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		old := f.Type
		f.Type = t.expr(f.Type, base)
		_ = old
	}
}

func (t *translator) builtin(fun ast.Expr) string {
	for {
		if p, ok := fun.(*ast.ParenExpr); ok {
			fun = p.X
			continue
		}
		break
	}
	switch f := fun.(type) {
	case *ast.Ident:
		if b, ok := t.c.ti.Uses[f].(*types.Builtin); ok {
			return b.Name()
		}
	case *ast.SelectorExpr:
		if b, ok := t.c.ti.Uses[f.Sel].(*types.Builtin); ok {
			return "unsafe." + b.Name()
		}
	}
	return ""
}

func (t *translator) call(x *ast.CallExpr) ast.Expr {
	// where the memory allocator puts an object is the simulator's choice
	if se, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 0 && (se.Sel.Name == "Pointer" || se.Sel.Name == "UnsafeAddr") {
		if ty := t.typeOf(se.X); ty != nil && types.TypeString(ty, nil) == "reflect.Value" {
			return t.simCall("Addr", t.call2(x))
		}
	}
	return t.call2(x)
}

func (t *translator) call2(x *ast.CallExpr) ast.Expr {
	if b := t.builtin(x.Fun); b != "" {
		switch b {
		case "recover":
			return t.simCall("Rec", x)
		case "close":
			return t.simCall("Close", t.expr(x.Args[0], rval))
		case "delete":
			m := t.expr(x.Args[0], rval)
			k := t.expr(x.Args[1], rval)
			if t.noYield {
				x.Args = []ast.Expr{m, k}
			} else {
				x.Args = []ast.Expr{t.simCall("MapW", lit(t.site(x.Pos())), m), k}
			}
			return x
		case "clear":
			if _, ok := core(t.typeOf(x.Args[0])).(*types.Map); ok {
				x.Args[0] = t.simCall("MapW", lit(t.site(x.Pos())), t.expr(x.Args[0], rval))
				return x
			}
			x.Args[0] = t.expr(x.Args[0], rval)
			return x
		case "len", "cap":
			if tv, ok := t.c.ti.Types[x]; ok && isConst(tv) {
				return x
			}
			switch core(t.typeOf(x.Args[0])).(type) {
			case *types.Map:
				a := t.expr(x.Args[0], rval)
				if !t.noYield {
					a = t.simCall("MapR", lit(t.site(x.Pos())), a)
				}
				x.Args[0] = a
			case *types.Array:
				x.Args[0] = t.expr(x.Args[0], base)
			case *types.Chan:
				// a yield: the buffer level is shared state
				x.Args[0] = t.simCall("ChanId", lit(t.site(x.Pos())), t.expr(x.Args[0], rval))
			default:
				x.Args[0] = t.expr(x.Args[0], rval)
			}
			return x
		case "new", "make":
			x.Args[0] = t.expr(x.Args[0], base)
			t.exprs(x.Args[1:])
			return x
		}
		if strings.HasPrefix(b, "unsafe.") {
			switch b {
			case "unsafe.Sizeof", "unsafe.Alignof", "unsafe.Offsetof":
				return x
			}
		}
		t.exprs(x.Args)
		return x
	}
	if tv, ok := t.c.ti.Types[x.Fun]; ok && tv.IsType() { // conversion
		x.Fun = t.expr(x.Fun, base)
		t.exprs(x.Args)
		return x
	}
	ext, byAddr := t.external(x)
	site := ""
	if ext {
		site = t.site(x.Pos())
	}
	x.Fun = t.expr(x.Fun, rval)
	if ext {
		if s, ok := ast.Unparen(x.Fun).(*ast.SelectorExpr); ok {
			if byAddr {
				s.X = &ast.UnaryExpr{Op: token.AND, X: s.X}
			}
			s.X = t.simCall("Ext", lit(site), s.X)
		}
	}
	t.exprs(x.Args)
	return x
}

// external reports whether x calls a method of a type that is neither
// translated nor shadowed, on an object another task may reach: such a call is
// one atomic step, with a scheduling point before it. byAddr: the receiver is
// an addressable value of which the method takes the address.
func (t *translator) external(x *ast.CallExpr) (ext, byAddr bool) {
	s, ok := ast.Unparen(x.Fun).(*ast.SelectorExpr)
	if !ok || t.noYield {
		return
	}
	sel, ok := t.c.ti.Selections[s]
	if !ok || sel.Kind() != types.MethodVal {
		return
	}
	fn, ok := sel.Obj().(*types.Func)
	if !ok || fn.Pkg() == nil {
		return
	}
	path := fn.Pkg().Path()
	stepless := path == "hash/maphash" // its shadow has no scheduling points
	if t.translated[path] || depTranslate[path] != "" || pkgReplace[path] != "" && !stepless {
		return
	}
	recv := fn.Type().(*types.Signature).Recv().Type()
	p, ptrRecv := recv.(*types.Pointer)
	if ptrRecv {
		recv = p.Elem()
	}
	if n, ok := recv.(*types.Named); ok {
		if _, ok := t.shadowed(path, n.Obj().Name()); ok && !stepless {
			return
		}
	}
	switch under(t.typeOf(s.X)).(type) {
	case *types.Pointer, *types.Interface:
		return true, false
	}
	if tv, ok := t.c.ti.Types[s.X]; ok && ptrRecv && tv.Addressable() && t.shared(s.X) {
		return true, true
	}
	return
}

// ---------------------------------------------------------------- declarations

func (t *translator) decl(d ast.Decl) {
	switch d := d.(type) {
	case *ast.FuncDecl:
		t.fields(d.Recv)
		d.Type = t.expr(d.Type, base).(*ast.FuncType)
		if d.Name.Name == "init" && d.Recv == nil {
			t.initN++
			n := fmt.Sprintf("simInit__%d", t.initN)
			d.Name = ast.NewIdent(n)
			t.initFns = append(t.initFns, n)
		}
		if d.Body != nil {
			t.funcBody(d.Body)
		}
	case *ast.GenDecl:
		for _, s := range d.Specs {
			switch s := s.(type) {
			case *ast.TypeSpec:
				t.fields(s.TypeParams)
				s.Type = t.expr(s.Type, base)
			case *ast.ValueSpec:
				if s.Type != nil {
					s.Type = t.expr(s.Type, base)
				}
				t.exprs(s.Values)
				if d.Tok == token.VAR {
					t.resetVar(s)
				}
			}
		}
	}
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// tail of the file's declarations: the initialiser of every package variable
// becomes a function that SimReset__ calls again at the start of every run.
func (t *translator) resetVar(s *ast.ValueSpec) {
	if t.resetInit == nil {
		t.resetInit = map[string]string{}
	}
	mk := func(names []*ast.Ident, vals []ast.Expr, key string) {
		fn := "simReset__" + strconv.Itoa(len(t.resetInit)) + "_" + strconv.Itoa(t.tmp)
		t.tmp++
		var lhsE []ast.Expr
		all := true
		for _, n := range names {
			lhsE = append(lhsE, ast.NewIdent(n.Name))
			if n.Name != "_" {
				all = false
			}
		}
		if all {
			return
		}
		t.resetInit[key] = fn
		t.file.Decls = append(t.file.Decls, &ast.FuncDecl{Name: ast.NewIdent(fn), Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhsE, Tok: token.ASSIGN, Rhs: vals}}}})
	}
	switch {
	case len(s.Values) == 0:
		for _, n := range s.Names {
			if n.Name == "_" {
				continue
			}
			fn := "simZero__" + strconv.Itoa(t.tmp)
			t.tmp++
			t.resetZero = append(t.resetZero, fn+"()")
			t.file.Decls = append(t.file.Decls, &ast.FuncDecl{Name: ast.NewIdent(fn), Type: &ast.FuncType{Params: &ast.FieldList{}},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n.Name)}, Tok: token.ASSIGN,
					Rhs: []ast.Expr{&ast.StarExpr{X: &ast.CallExpr{Fun: ast.NewIdent("new"), Args: []ast.Expr{s.Type}}}}}}}})
		}
	case len(s.Values) == len(s.Names):
		for i, n := range s.Names {
			mk([]*ast.Ident{n}, []ast.Expr{s.Values[i]}, n.Name)
		}
	default:
		var k []string
		for _, n := range s.Names {
			k = append(k, n.Name)
		}
		mk(s.Names, s.Values, strings.Join(k, ","))
	}
}

var _ = constant.Int
