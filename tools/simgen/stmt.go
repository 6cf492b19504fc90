package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

func (t *translator) funcBody(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	uses := map[string]*labelUse{}
	get := func(n string) *labelUse {
		if uses[n] == nil {
			uses[n] = &labelUse{}
		}
		return uses[n]
	}
	ast.Inspect(b, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.BranchStmt:
			if n.Label != nil {
				switch n.Tok {
				case token.GOTO:
					get(n.Label.Name).gto = true
				case token.BREAK:
					get(n.Label.Name).brk = true
				case token.CONTINUE:
					get(n.Label.Name).cont = true
				}
			}
		}
		return true
	})
	t.labels = append(t.labels, uses)
	b.List = t.list(b.List)
	t.labels = t.labels[:len(t.labels)-1]
}

func (t *translator) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, t.stmt(s)...)
	}
	return out
}

func (t *translator) loopBody(b *ast.BlockStmt, p token.Pos) {
	b.List = t.list(b.List)
	if !t.noYield {
		b.List = append([]ast.Stmt{t.yieldStmt(p)}, b.List...)
	}
}

func one(s ast.Stmt) []ast.Stmt { return []ast.Stmt{s} }

func block(l ...ast.Stmt) *ast.BlockStmt { return &ast.BlockStmt{List: l} }

func define(lhs []string, rhs ...ast.Expr) ast.Stmt {
	var l []ast.Expr
	for _, n := range lhs {
		l = append(l, ast.NewIdent(n))
	}
	return &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: rhs}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (t *translator) isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := unparen(e).(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

// isMapIndex: assignment target that is a map element (not addressable)
func (t *translator) isMapIndex(e ast.Expr) bool {
	ix, ok := unparen(e).(*ast.IndexExpr)
	if !ok {
		return false
	}
	_, m := core(t.typeOf(ix.X)).(*types.Map)
	return m
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (t *translator) sharedTarget(e ast.Expr) bool {
	return !isBlank(e) && !t.isMapIndex(e) && t.shared(unparen(e))
}

func (t *translator) assign(s *ast.AssignStmt, split bool) []ast.Stmt {
	if t.noYield {
		split = false
	}
	pos := s.Pos()
	if s.Tok == token.DEFINE {
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := t.isRecv(s.Rhs[0]); ok {
				s.Rhs[0] = t.simCall("Recv2", t.expr(u.X, rval))
				return one(s)
			}
		}
		t.exprs(s.Rhs)
		return one(s)
	}
	if s.Tok == token.ASSIGN {
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := t.isRecv(s.Rhs[0]); ok {
				for i := range s.Lhs {
					s.Lhs[i] = t.expr(s.Lhs[i], lhs)
				}
				s.Rhs[0] = t.simCall("Recv2", t.expr(u.X, rval))
				return one(s)
			}
		}
		if len(s.Lhs) == 1 {
			if split && t.sharedTarget(s.Lhs[0]) {
				l := t.expr(s.Lhs[0], lhs)
				tv := t.c.ti.Types[s.Rhs[0]]
				r := t.expr(s.Rhs[0], rval)
				if isConst(tv) || tv.IsNil() {
					return []ast.Stmt{t.yieldStmt(pos), &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.ASSIGN, Rhs: []ast.Expr{r}}}
				}
				st := t.simCall("St", lit(t.site(pos)), &ast.UnaryExpr{Op: token.AND, X: l})
				return one(&ast.ExprStmt{X: &ast.CallExpr{Fun: st, Args: []ast.Expr{r}}})
			}
			s.Lhs[0] = t.expr(s.Lhs[0], lhs)
			s.Rhs[0] = t.expr(s.Rhs[0], rval)
			return one(s)
		}
		sh := false
		for i := range s.Lhs {
			if t.sharedTarget(s.Lhs[i]) {
				sh = true
			}
			s.Lhs[i] = t.expr(s.Lhs[i], lhs)
		}
		t.exprs(s.Rhs)
		if sh && split {
			return []ast.Stmt{t.yieldStmt(pos), s}
		}
		return one(s)
	}
	// op=
	op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
		token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
		token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[s.Tok]
	if split && t.sharedTarget(s.Lhs[0]) {
		l := t.expr(s.Lhs[0], lhs)
		r := t.expr(s.Rhs[0], rval)
		return one(t.rmw(pos, l, op, &ast.ParenExpr{X: r}))
	}
	s.Lhs[0] = t.expr(s.Lhs[0], lhs)
	s.Rhs[0] = t.expr(s.Rhs[0], rval)
	return one(s)
}

func (t *translator) rmw(pos token.Pos, l ast.Expr, op token.Token, r ast.Expr) ast.Stmt {
	n := t.newTmp()
	ld := t.simCall("Ld", lit(t.site(pos)), ast.NewIdent(n))
	st := t.simCall("St", lit(t.site(pos)), ast.NewIdent(n))
	return block(define([]string{n}, &ast.UnaryExpr{Op: token.AND, X: l}),
		&ast.ExprStmt{X: &ast.CallExpr{Fun: st, Args: []ast.Expr{&ast.BinaryExpr{X: ld, Op: op, Y: r}}}})
}

func (t *translator) incdec(s *ast.IncDecStmt, split bool) []ast.Stmt {
	if split && !t.noYield && t.sharedTarget(s.X) {
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		pos := s.Pos()
		return one(t.rmw(pos, t.expr(s.X, lhs), op, lit("1")))
	}
	s.X = t.expr(s.X, lhs)
	return one(s)
}

// simple translates a statement in init/post position (must stay one simple statement)
func (t *translator) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	switch s := s.(type) {
	case *ast.AssignStmt:
		sh := false
		for _, l := range s.Lhs {
			sh = sh || s.Tok != token.DEFINE && t.sharedTarget(l)
		}
		if sh && !t.noYield {
			return wrapped(t.assign(s, true))
		}
		return t.assign(s, false)[0]
	case *ast.IncDecStmt:
		if !t.noYield && t.sharedTarget(s.X) {
			return wrapped(t.incdec(s, true))
		}
		return t.incdec(s, false)[0]
	default:
		return t.stmt(s)[0]
	}
}

// wrapped makes one simple statement of several, for the places where the
// grammar wants a simple one: a store to shared memory is a scheduling point
// there too.
func wrapped(l []ast.Stmt) ast.Stmt {
	if len(l) == 1 {
		if _, ok := l[0].(*ast.BlockStmt); !ok {
			return l[0]
		}
	}
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: l}}}}
}

func (t *translator) stmt(s ast.Stmt) []ast.Stmt {
	switch s := s.(type) {
	case *ast.LabeledStmt:
		return t.labeled(s)
	default:
		return t.stmtL(s, "")
	}
}

func (t *translator) labeled(s *ast.LabeledStmt) []ast.Stmt {
	name := s.Label.Name
	u := t.labels[len(t.labels)-1][name]
	if u == nil {
		u = &labelUse{}
	}
	loopish := false
	switch s.Stmt.(type) {
	case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
		loopish = true
	}
	gotoLabel := func() ast.Stmt {
		return &ast.LabeledStmt{Label: ast.NewIdent(name), Stmt: t.yieldStmt(s.Pos())}
	}
	if !loopish {
		if _, ok := s.Stmt.(*ast.EmptyStmt); ok {
			return one(&ast.LabeledStmt{Label: ast.NewIdent(name), Stmt: t.yieldStmt(s.Pos())})
		}
		if blk, ok := s.Stmt.(*ast.BlockStmt); ok && u.brk {
			blk.List = t.list(blk.List)
			return one(s)
		}
		return append(one(gotoLabel()), t.stmtL(s.Stmt, "")...)
	}
	lb := ""
	if u.brk || u.cont {
		lb = name
		if u.gto {
			lb = name + "__b"
			ast.Inspect(s.Stmt, func(n ast.Node) bool {
				if _, ok := n.(*ast.FuncLit); ok {
					return false
				}
				if b, ok := n.(*ast.BranchStmt); ok && b.Label != nil && b.Label.Name == name && b.Tok != token.GOTO {
					b.Label = ast.NewIdent(lb)
				}
				return true
			})
		}
	}
	out := t.stmtL(s.Stmt, lb)
	if u.gto {
		return append(one(gotoLabel()), out...)
	}
	return out
}

func wrapLabel(lb string, s ast.Stmt) ast.Stmt {
	if lb == "" {
		return s
	}
	return &ast.LabeledStmt{Label: ast.NewIdent(lb), Stmt: s}
}

func (t *translator) stmtL(s ast.Stmt, lb string) []ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.EmptyStmt, *ast.BadStmt:
		return one(s)
	case *ast.BranchStmt:
		return one(s)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				switch sp := sp.(type) {
				case *ast.TypeSpec:
					t.fields(sp.TypeParams)
					sp.Type = t.expr(sp.Type, base)
				case *ast.ValueSpec:
					if sp.Type != nil {
						sp.Type = t.expr(sp.Type, base)
					}
					if len(sp.Names) == 2 && len(sp.Values) == 1 {
						if u, ok := t.isRecv(sp.Values[0]); ok {
							sp.Values[0] = t.simCall("Recv2", t.expr(u.X, rval))
							continue
						}
					}
					t.exprs(sp.Values)
				}
			}
		}
		return one(s)
	case *ast.ExprStmt:
		s.X = t.expr(s.X, rval)
		return one(s)
	case *ast.SendStmt:
		ch := t.expr(s.Chan, rval)
		v := t.expr(s.Value, rval)
		return one(&ast.ExprStmt{X: &ast.CallExpr{Fun: t.simCall("SendTo", ch), Args: []ast.Expr{v}}})
	case *ast.IncDecStmt:
		return t.incdec(s, true)
	case *ast.AssignStmt:
		return t.assign(s, true)
	case *ast.GoStmt:
		return t.goStmt(s)
	case *ast.DeferStmt:
		if c, ok := t.call(s.Call).(*ast.CallExpr); ok {
			s.Call = c
		}
		return one(s)
	case *ast.ReturnStmt:
		t.exprs(s.Results)
		return one(s)
	case *ast.BlockStmt:
		s.List = t.list(s.List)
		return one(s)
	case *ast.IfStmt:
		t.ifStmt(s)
		return one(s)
	case *ast.ForStmt:
		pos := s.Pos()
		s.Init = t.simple(s.Init)
		if s.Cond != nil {
			s.Cond = t.expr(s.Cond, rval)
		}
		s.Post = t.simple(s.Post)
		t.loopBody(s.Body, pos)
		return one(wrapLabel(lb, s))
	case *ast.RangeStmt:
		return t.rangeStmt(s, lb)
	case *ast.SwitchStmt:
		s.Init = t.simple(s.Init)
		if s.Tag != nil {
			s.Tag = t.expr(s.Tag, rval)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			t.exprs(cc.List)
			cc.Body = t.list(cc.Body)
		}
		return one(wrapLabel(lb, s))
	case *ast.TypeSwitchStmt:
		s.Init = t.simple(s.Init)
		switch a := s.Assign.(type) {
		case *ast.AssignStmt:
			ta := unparen(a.Rhs[0]).(*ast.TypeAssertExpr)
			ta.X = t.expr(ta.X, rval)
		case *ast.ExprStmt:
			ta := unparen(a.X).(*ast.TypeAssertExpr)
			ta.X = t.expr(ta.X, rval)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = t.expr(cc.List[i], base)
			}
			cc.Body = t.list(cc.Body)
		}
		return one(wrapLabel(lb, s))
	case *ast.SelectStmt:
		return t.selectStmt(s, lb)
	case *ast.LabeledStmt:
		return t.labeled(s)
	}
	fatal("unknown statement", s)
	return nil
}

func (t *translator) ifStmt(s *ast.IfStmt) {
	s.Init = t.simple(s.Init)
	s.Cond = t.expr(s.Cond, rval)
	s.Body.List = t.list(s.Body.List)
	switch e := s.Else.(type) {
	case *ast.IfStmt:
		t.ifStmt(e)
	case *ast.BlockStmt:
		e.List = t.list(e.List)
	}
}

func (t *translator) goStmt(s *ast.GoStmt) []ast.Stmt {
	call := s.Call
	pos := s.Pos()
	var pre []ast.Stmt
	var args []ast.Expr
	builtin := t.builtin(call.Fun) != ""
	hoistFun := false
	if !builtin {
		switch f := unparen(call.Fun).(type) {
		case *ast.FuncLit:
		case *ast.Ident:
			if _, ok := t.c.ti.Uses[f].(*types.Var); ok {
				hoistFun = true
			}
		case *ast.SelectorExpr:
			if _, ok := t.c.ti.Selections[f]; ok {
				hoistFun = true
			} else if _, ok := t.c.ti.Uses[f.Sel].(*types.Var); ok {
				hoistFun = true
			}
		case *ast.IndexExpr, *ast.IndexListExpr:
			if tv, ok := t.c.ti.Types[f.(ast.Expr)]; ok && tv.Addressable() {
				hoistFun = true
			}
			if ix, ok := f.(*ast.IndexExpr); ok {
				if _, isMap := core(t.typeOf(ix.X)).(*types.Map); isMap {
					hoistFun = true
				}
			}
		default:
			hoistFun = true
		}
	}
	multi := false
	if len(call.Args) == 1 {
		if _, ok := t.typeOf(call.Args[0]).(*types.Tuple); ok {
			multi = true
		}
	}
	if multi {
		// go f(g()) with multiple results: evaluate g's results first
		tu := t.typeOf(call.Args[0]).(*types.Tuple)
		var names []string
		for i := 0; i < tu.Len(); i++ {
			n := t.newTmp()
			names = append(names, n)
			args = append(args, ast.NewIdent(n))
		}
		pre = append(pre, define(names, t.expr(call.Args[0], rval)))
	} else {
		var sig *types.Signature
		if !builtin {
			sig, _ = core(t.typeOf(call.Fun)).(*types.Signature)
		}
		for i, a := range call.Args {
			tv := t.c.ti.Types[a]
			if isConst(tv) || tv.IsNil() || tv.IsType() || (builtin && i == 0 && tv.IsType()) {
				args = append(args, t.expr(a, rval))
				continue
			}
			if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				args = append(args, t.expr(a, rval))
				continue
			}
			_ = sig
			n := t.newTmp()
			e := t.expr(a, rval)
			pre = append(pre, define([]string{n}, e))
			args = append(args, ast.NewIdent(n))
		}
	}
	var fun ast.Expr
	if builtin {
		call.Args = args
		// arguments are already translated temporaries: only the builtin itself is mapped
		switch t.builtin(call.Fun) {
		case "close":
			return one(block(append(pre, &ast.ExprStmt{X: t.simCall("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
				Body: block(&ast.ExprStmt{X: t.simCall("Close", args[0])})})})...))
		}
		fun = call.Fun
	} else {
		fun = t.expr(call.Fun, rval)
		if hoistFun {
			n := t.newTmp()
			pre = append([]ast.Stmt{define([]string{n}, fun)}, pre...)
			fun = ast.NewIdent(n)
		}
	}
	nc := &ast.CallExpr{Fun: fun, Args: args}
	if call.Ellipsis.IsValid() {
		nc.Ellipsis = 1
	}
	_ = pos
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: block(&ast.ExprStmt{X: nc})}
	gs := &ast.ExprStmt{X: t.simCall("Go", body)}
	if len(pre) == 0 {
		return one(gs)
	}
	return one(block(append(pre, gs)...))
}

func (t *translator) rangeStmt(s *ast.RangeStmt, lb string) []ast.Stmt {
	pos := s.Pos()
	ct := core(t.typeOf(s.X))
	switch ct.(type) {
	case *types.Chan:
		x := t.expr(s.X, rval)
		cn := t.newTmp()
		vn, okn := t.newTmp(), t.newTmp()
		var head []ast.Stmt
		brk := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(okn)}, Body: block(&ast.BranchStmt{Tok: token.BREAK})}
		switch {
		case s.Key == nil || isBlank(s.Key):
			head = append(head, define([]string{"_", okn}, t.simCall("Recv2", ast.NewIdent(cn))), brk)
		case s.Tok == token.DEFINE:
			head = append(head, define([]string{s.Key.(*ast.Ident).Name, okn}, t.simCall("Recv2", ast.NewIdent(cn))), brk)
		default:
			head = append(head, define([]string{vn, okn}, t.simCall("Recv2", ast.NewIdent(cn))), brk,
				&ast.AssignStmt{Lhs: []ast.Expr{t.expr(s.Key, lhs)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(vn)}})
		}
		// the loop variable lives in its own scope around the body, as in the original
		head = append(head, block(t.list(s.Body.List)...))
		f := &ast.ForStmt{Body: block(append([]ast.Stmt{t.yieldStmt(pos)}, head...)...)}
		return one(block(define([]string{cn}, x), wrapLabel(lb, f)))
	case *types.Map:
		x := t.expr(s.X, rval)
		mn, kn, vn, okn := t.newTmp(), t.newTmp(), t.newTmp(), t.newTmp()
		var head []ast.Stmt
		if !t.noYield {
			head = append(head, t.yieldStmt(pos))
		}
		valName := "_"
		if s.Value != nil && !isBlank(s.Value) {
			valName = vn
		}
		get := define([]string{valName, okn}, &ast.IndexExpr{X: ast.NewIdent(mn), Index: ast.NewIdent(kn)})
		head = append(head, get, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(okn)}, Body: block(&ast.BranchStmt{Tok: token.CONTINUE})})
		if s.Key != nil && !isBlank(s.Key) {
			if s.Tok == token.DEFINE {
				head = append(head, define([]string{s.Key.(*ast.Ident).Name}, ast.NewIdent(kn)))
			} else {
				head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{t.expr(s.Key, lhs)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(kn)}})
			}
		}
		if valName != "_" {
			if s.Tok == token.DEFINE {
				head = append(head, define([]string{s.Value.(*ast.Ident).Name}, ast.NewIdent(vn)))
			} else {
				head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{t.expr(s.Value, lhs)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(vn)}})
			}
		}
		head = append(head, block(t.list(s.Body.List)...))
		f := &ast.RangeStmt{Key: ast.NewIdent("_"), Value: ast.NewIdent(kn), Tok: token.DEFINE,
			X: t.simCall("MapKeys", lit(t.site(pos)), ast.NewIdent(mn)), Body: block(head...)}
		return one(block(define([]string{mn}, x), wrapLabel(lb, f)))
	}
	if _, ok := ct.(*types.Array); ok {
		s.X = t.expr(s.X, base)
	} else {
		s.X = t.expr(s.X, rval)
	}
	if s.Tok == token.ASSIGN {
		if s.Key != nil {
			s.Key = t.expr(s.Key, lhs)
		}
		if s.Value != nil {
			s.Value = t.expr(s.Value, lhs)
		}
	}
	t.loopBody(s.Body, pos)
	return one(wrapLabel(lb, s))
}

func (t *translator) selectStmt(s *ast.SelectStmt, lb string) []ast.Stmt {
	var pre []ast.Stmt
	var names []ast.Expr
	hasDefault := "false"
	var clauses []ast.Stmt
	idx := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = "true"
			clauses = append(clauses, &ast.CaseClause{Body: t.list(cc.Body)})
			continue
		}
		n := t.newTmp()
		names = append(names, ast.NewIdent(n))
		var bind []ast.Stmt
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			ch := t.expr(cm.Chan, rval)
			v := t.expr(cm.Value, rval)
			pre = append(pre, define([]string{n}, &ast.CallExpr{Fun: t.simCall("SendCase", ch), Args: []ast.Expr{v}}))
		case *ast.ExprStmt:
			u, _ := t.isRecv(cm.X)
			pre = append(pre, define([]string{n}, t.simCall("RecvCase", t.expr(u.X, rval))))
		case *ast.AssignStmt:
			u, _ := t.isRecv(cm.Rhs[0])
			pre = append(pre, define([]string{n}, t.simCall("RecvCase", t.expr(u.X, rval))))
			vals := []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(n), Sel: ast.NewIdent("V")}}
			if len(cm.Lhs) == 2 {
				vals = append(vals, &ast.SelectorExpr{X: ast.NewIdent(n), Sel: ast.NewIdent("Ok")})
			}
			allBlank := true
			for i := range cm.Lhs {
				if !isBlank(cm.Lhs[i]) {
					allBlank = false
				}
				if cm.Tok == token.ASSIGN {
					cm.Lhs[i] = t.expr(cm.Lhs[i], lhs)
				}
			}
			tok := cm.Tok
			if allBlank {
				tok = token.ASSIGN
			}
			bind = append(bind, &ast.AssignStmt{Lhs: cm.Lhs, Tok: tok, Rhs: vals})
		}
		body := t.list(cc.Body)
		if len(bind) > 0 {
			// the bound variables live in a scope around the body
			body = append(bind, body...)
		}
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{lit(itoa(idx))}, Body: body})
		idx++
	}
	if hasDefault == "false" {
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"sim: unreachable select"`}}}}}})
	}
	sw := &ast.SwitchStmt{Tag: t.simCall("Select", append([]ast.Expr{lit(t.site(s.Pos())), ast.NewIdent(hasDefault)}, names...)...), Body: block(clauses...)}
	return one(block(append(pre, wrapLabel(lb, sw))...))
}
