package main

// Translation of Go expressions and calls.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

func (f *fnTr) exTo(e ast.Expr, to types.Type) string {
	if fl, ok := ast.Unparen(e).(*ast.FuncLit); ok {
		_ = fl
		fail("function literal as a value")
	}
	tv := f.p.Info.Types[e]
	if tv.IsNil() {
		return zero(to)
	}
	if tv.Value != nil && !isIface(to) {
		return constExpr(f.t, tv.Value, to)
	}
	return convTo(f.ex(e), f.typeOf(e), to)
}

func (f *fnTr) exInt(e ast.Expr) string {
	s := f.ex(e)
	if vtype(f.typeOf(e)) != "int" {
		s = "(" + s + ") as int"
	}
	return s
}

func (f *fnTr) ex(e ast.Expr) string {
	tv := f.p.Info.Types[e]
	if tv.Value != nil {
		return constExpr(f.t, tv.Value, tv.Type)
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return "(" + f.ex(e.X) + ")"
	case *ast.Ident:
		if e.Name == "nil" {
			fail("untyped nil in an expression")
		}
		o := f.p.Info.Uses[e]
		if s, ok := f.subst[o]; ok {
			return s
		}
		peek := f.peek
		if c := f.cursorOf(e); c != nil {
			f.assert("cursor is in the tree", c.live, e)
			if !peek {
				f.lost(c.root)
			}
			return c.value()
		}
		if r := f.rootOf(e); r != "" && !peek {
			f.lost(r)
		}
		return f.variable(e).name
	case *ast.StarExpr:
		return f.ex(e.X)
	case *ast.UnaryExpr:
		switch e.Op {
		case token.NOT:
			return "!(" + f.ex(e.X) + ")"
		case token.SUB:
			typ := f.typeOf(e)
			if vtype(typ) == "F64" {
				return "f64_neg(" + f.ex(e.X) + ")"
			}
			return f.arith(token.SUB, "0"+vtype(typ), f.ex(e.X), typ, e)
		case token.AND:
			switch x := ast.Unparen(e.X).(type) {
			case *ast.CompositeLit, *ast.Ident:
				return f.ex(x)
			}
			fail("address of %T", e.X)
		}
		fail("operator %s", e.Op)
	case *ast.BinaryExpr:
		return f.binary(e)
	case *ast.SelectorExpr:
		if sel := f.p.Info.Selections[e]; sel != nil {
			if sel.Kind() != types.FieldVal || len(sel.Index()) != 1 {
				fail("selector %s", e.Sel.Name)
			}
			r := paren(f.ex(e.X)) + "." + e.Sel.Name
			if x, ok := f.slices[r]; ok {
				return x
			}
			return r
		}
		fail("package-level variable %s", e.Sel.Name)
	case *ast.IndexExpr:
		return f.index(e)
	case *ast.SliceExpr:
		return f.slice(e)
	case *ast.TypeAssertExpr:
		x := f.bind(f.ex(e.X))
		test, val := ifaceTest(x, f.typeOf(e.X), f.typeOf(e.Type))
		f.assert("type assertion holds", test, e)
		return "(" + val + ")"
	case *ast.CompositeLit:
		return f.composite(e, f.typeOf(e))
	case *ast.CallExpr:
		r := f.call(e)
		if len(r) != 1 {
			fail("call with %d results in an expression", len(r))
		}
		return r[0]
	}
	fail("expression %T", e)
	return ""
}

func (f *fnTr) impure(e ast.Expr) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if f.p.Info.Types[c.Fun].IsType() {
				return true
			}
			if id, ok := c.Fun.(*ast.Ident); ok {
				if _, ok := f.p.Info.Uses[id].(*types.Builtin); ok {
					return true
				}
				if o := f.p.Info.Uses[id]; f.t.litOf[o] != nil || f.bound[o] != nil {
					r = true
				}
			}
			if fn := calleeFunc(f.p, c); fn != nil && fn.Pkg() != nil && f.t.w.pkgs[fn.Pkg().Path()] != nil {
				ct := f.t.cts[funcKey(fn)]
				if ct == nil || ct.Pure == "" {
					r = true
				}
			}
		}
		return true
	})
	return r
}

func (f *fnTr) binary(e *ast.BinaryExpr) string {
	switch e.Op {
	case token.LAND, token.LOR:
		a := f.ex(e.X)
		if f.impure(e.Y) {
			n := f.tmp()
			g := a
			if e.Op == token.LAND {
				f.emit("let ghost mut %s: bool = false;", n)
			} else {
				f.emit("let ghost mut %s: bool = true;", n)
				g = "!(" + a + ")"
			}
			if len(f.guards) > 0 {
				fail("call with effects under a nested condition")
			}
			f.emit("if cond(Ghost(%s)) {", f.garg(g))
			f.ind++
			b := f.ex(e.Y)
			f.set(n, b)
			f.ind--
			f.emit("}")
			return n
		}
		g := a
		if e.Op == token.LOR {
			g = "!(" + a + ")"
		}
		f.guards = append(f.guards, "("+g+")")
		b := f.ex(e.Y)
		f.guards = f.guards[:len(f.guards)-1]
		return "((" + a + ") " + e.Op.String() + " (" + b + "))"
	case token.EQL, token.NEQ:
		var r string
		xn, yn := f.p.Info.Types[e.X].IsNil(), f.p.Info.Types[e.Y].IsNil()
		switch {
		case xn || yn:
			x := e.X
			if xn {
				x = e.Y
			}
			t := f.typeOf(x)
			v := f.ex(x)
			switch {
			case isIface(t):
				r = "(" + v + " is Nil)"
			default:
				if _, ok := t.Underlying().(*types.Slice); ok {
					n := f.tmp()
					f.emit("let ghost %s = arbitrary_bool() && %s.len() == 0;", n, paren(v))
					r = n
				} else {
					fail("comparison of %s with nil", t)
				}
			}
		default:
			x, y := f.typeOf(e.X), f.typeOf(e.Y)
			xs, ys := f.ex(e.X), f.ex(e.Y)
			r = f.eq(xs, x, ys, y)
		}
		if e.Op == token.NEQ {
			return "!(" + r + ")"
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		t := f.typeOf(e.X)
		var a, b string
		if f.p.Info.Types[e.X].Value != nil {
			t = f.typeOf(e.Y)
		}
		a, b = f.exTo(e.X, t), f.exTo(e.Y, t)
		switch vtype(t) {
		case "F64":
			switch e.Op {
			case token.LSS:
				return "f64_lt(" + a + ", " + b + ")"
			case token.GTR:
				return "f64_lt(" + b + ", " + a + ")"
			}
			fail("float comparison %s", e.Op)
		case "Str":
			switch e.Op {
			case token.LSS:
				return "str_lt(" + a + ", " + b + ")"
			case token.GTR:
				return "str_lt(" + b + ", " + a + ")"
			}
			fail("string comparison %s", e.Op)
		}
		return "(" + a + " " + e.Op.String() + " " + b + ")"
	case token.ADD, token.SUB, token.MUL, token.QUO, token.REM:
		t := f.typeOf(e)
		a := f.exTo(e.X, t)
		b := f.exTo(e.Y, t)
		return f.arith(e.Op, a, b, t, e)
	}
	fail("operator %s", e.Op)
	return ""
}

func (f *fnTr) arith(op token.Token, a, b string, t types.Type, n ast.Node) string {
	vt := vtype(t)
	switch vt {
	case "Str":
		if op == token.ADD {
			return "(" + a + " + " + b + ")"
		}
	case "F64":
		m := map[token.Token]string{token.ADD: "f64_add", token.SUB: "f64_sub", token.MUL: "f64_mul", token.QUO: "f64_div"}
		if m[op] != "" {
			return m[op] + "(" + a + ", " + b + ")"
		}
	case "int":
		switch op {
		case token.ADD, token.SUB, token.MUL:
			return "(" + a + " " + op.String() + " " + b + ")"
		}
	case "i64", "u64", "u8", "i32":
		switch op {
		case token.ADD, token.SUB, token.MUL:
			r := "(" + a + " " + op.String() + " " + b + ")"
			f.assert("no overflow", fmt.Sprintf("%s::MIN <= %s <= %s::MAX", vt, r, vt), n)
			return "(" + r + " as " + vt + ")"
		}
	}
	fail("operator %s on %s", op, t)
	return ""
}

// eq is Go's == on two operands of possibly different static types.
func (f *fnTr) eq(a string, at types.Type, b string, bt types.Type) string {
	if isIface(at) != isIface(bt) {
		if isIface(at) {
			b = convTo(b, bt, at)
		} else {
			a = convTo(a, at, bt)
			at = bt
		}
	}
	switch vtype(at) {
	case "F64":
		return "f64_eq(" + a + ", " + b + ")"
	case "Str":
		return "str_eq(" + a + ", " + b + ")"
	case "Val", "Any":
		fail("comparison of interface values with ==")
	case "LeafF":
		fail("comparison of number leaves with ==")
	}
	return "(" + a + " == " + b + ")"
}

func (f *fnTr) index(e *ast.IndexExpr) string {
	xt := f.typeOf(e.X)
	switch u := xt.Underlying().(type) {
	case *types.Map:
		m := f.ex(e.X)
		k := f.exTo(e.Index, u.Key())
		return "mget(" + m + ", " + k + ", " + zero(u.Elem()) + ")"
	case *types.Slice, *types.Basic:
		s := f.ex(e.X)
		i := f.exInt(e.Index)
		f.assert("index in range", fmt.Sprintf("0 <= %s < %s.len()", i, paren(s)), e)
		return paren(s) + "[" + i + "]"
	case *types.Array:
		if n := asciiTable(f.p, e.X); n > 0 {
			i := f.exInt(e.Index)
			f.assert("index in range", fmt.Sprintf("0 <= %s < %d", i, n), e)
			libUsed["a package-level table of ASCII strings is never assigned"] = true
			return f.execLib("table_string", 1)[0]
		}
	case *types.Pointer:
		_ = u
	}
	fail("index on %s", xt)
	return ""
}

func (f *fnTr) slice(e *ast.SliceExpr) string {
	if e.Max != nil {
		fail("three-index slice")
	}
	s := f.ex(e.X)
	lo, hi := "0int", paren(s)+".len() as int"
	if e.Low != nil {
		lo = f.exInt(e.Low)
	}
	if e.High != nil {
		hi = f.exInt(e.High)
	}
	// s[lo:hi] up to the length (not the capacity): stricter than Go
	f.assert("slice bounds in range", fmt.Sprintf("0 <= %s <= %s <= %s.len()", lo, hi, paren(s)), e)
	switch {
	case e.Low == nil && e.High == nil:
		return s
	case e.High == nil:
		return paren(s) + ".skip(" + lo + ")"
	case e.Low == nil:
		return paren(s) + ".take(" + hi + ")"
	}
	return paren(s) + ".subrange(" + lo + ", " + hi + ")"
}

func (f *fnTr) composite(e *ast.CompositeLit, t types.Type) string {
	t, _ = derefType(t)
	switch u := unalias(t).Underlying().(type) {
	case *types.Struct:
		vt := vtype(t)
		if vt == "Str" && len(e.Elts) == 0 {
			return zero(t)
		}
		vals := map[string]string{}
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				n := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == n {
						vals[n] = f.exTo(kv.Value, u.Field(j).Type())
					}
				}
			} else {
				vals[u.Field(i).Name()] = f.exTo(el, u.Field(i).Type())
			}
		}
		var fs []string
		for j := 0; j < u.NumFields(); j++ {
			n := u.Field(j).Name()
			v, ok := vals[n]
			if !ok {
				v = zero(u.Field(j).Type())
			}
			fs = append(fs, n+": "+v)
		}
		return vt + " { " + strings.Join(fs, ", ") + " }"
	case *types.Slice:
		if len(e.Elts) == 0 {
			return zero(t)
		}
		var vs []string
		for _, el := range e.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				fail("keyed slice literal")
			}
			if c, ok := el.(*ast.CompositeLit); ok && c.Type == nil {
				vs = append(vs, f.composite(c, u.Elem()))
			} else {
				vs = append(vs, f.exTo(el, u.Elem()))
			}
		}
		return "seq![" + strings.Join(vs, ", ") + "]"
	case *types.Map:
		r := zero(t)
		for _, el := range e.Elts {
			kv := el.(*ast.KeyValueExpr)
			var v string
			if c, ok := kv.Value.(*ast.CompositeLit); ok && c.Type == nil {
				v = f.composite(c, u.Elem())
			} else {
				v = f.exTo(kv.Value, u.Elem())
			}
			r = r + ".insert(" + f.exTo(kv.Key, u.Key()) + ", " + v + ")"
		}
		return r
	}
	fail("composite literal of %s", t)
	return ""
}

// ---------------------------------------------------------------- calls

func (f *fnTr) call(c *ast.CallExpr) []string {
	info := f.p.Info
	if tv := info.Types[c.Fun]; tv.IsType() {
		return []string{f.conversion(c.Args[0], sub(tv.Type))}
	}
	if lit, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok {
		return f.inline(f.t.litInfo(f.p, f.fi.key, lit), c, nil)
	}
	if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		o := info.Uses[id]
		if _, ok := o.(*types.Builtin); ok {
			return f.builtin(id.Name, c)
		}
		if f.t.litDup[o] || f.t.litOf[o] != nil && f.bound[o] != nil {
			fail("call of %s, which is assigned several functions", id.Name)
		}
		if b := f.bound[o]; b != nil {
			return f.callBound(b, c)
		}
		if fi := f.t.litOf[o]; fi != nil {
			if fi.rec {
				return f.callFn(fi.key, fi, c, nil)
			}
			return f.inline(fi, c, nil)
		}
	}
	fn := calleeFunc(f.p, c)
	if fn == nil {
		fail("call of a function value")
	}
	if fn.Pkg() != nil && f.t.w.pkgs[fn.Pkg().Path()] != nil {
		key := funcKey(fn)
		fi := f.t.fns[key]
		if fi == nil {
			fail("call of %s, which has no body", key)
		}
		var recv ast.Expr
		if fi.recv != nil {
			recv = ast.Unparen(c.Fun).(*ast.SelectorExpr).X
		}
		if f.t.cts[key] == nil && !f.recursive(key) {
			return f.inline(fi, c, recv)
		}
		return f.callFn(key, fi, c, recv)
	}
	if h, ok := libFuncs[fn.FullName()]; ok {
		return h(f, c)
	}
	fail("call of external function %s has no contract", fn.FullName())
	return nil
}

// recursive reports whether key can call itself through contract-less functions.
func (f *fnTr) recursive(key string) bool {
	for _, fr := range f.frames {
		if fr.key == key {
			return true
		}
	}
	return f.fi.key == key
}

// bound is the function a parameter of function type stands for in an inlined call.
type bound struct {
	fi    *FnInfo
	scope map[types.Object]*GV
	inst  map[*types.TypeParam]types.Type
}

// litInfo describes a function literal that has no name.
func (t *Tr) litInfo(p *Pkg, parent string, lit *ast.FuncLit) *FnInfo {
	if fi := t.anon[lit]; fi != nil {
		return fi
	}
	t.anonN[parent]++
	name := fmt.Sprintf("func%d", t.anonN[parent])
	fi := &FnInfo{key: parent + "." + name, pkg: p, name: name, typ: lit.Type, body: lit.Body, sig: p.Info.Types[lit].Type.(*types.Signature), lit: lit, pos: lit.Pos()}
	t.anon[lit] = fi
	return fi
}

// funcArg resolves an argument of function type: a literal, a local closure, a
// parameter bound to one, or a declared function.
func (t *Tr) funcArg(p *Pkg, parent string, e ast.Expr) (fi *FnInfo, param types.Object) {
	switch e := ast.Unparen(e).(type) {
	case *ast.FuncLit:
		return t.litInfo(p, parent, e), nil
	case *ast.Ident:
		o := p.Info.Uses[e]
		if t.litDup[o] {
			fail("%s is assigned several functions", e.Name)
		}
		if fi := t.litOf[o]; fi != nil {
			return fi, nil
		}
		if fn, ok := o.(*types.Func); ok {
			return t.fns[funcKey(fn)], nil
		}
		return nil, o
	case *ast.SelectorExpr:
		if fn, ok := p.Info.Uses[e.Sel].(*types.Func); ok && p.Info.Selections[e] == nil {
			return t.fns[funcKey(fn)], nil
		}
	}
	return nil, nil
}

func (f *fnTr) bindFunc(e ast.Expr) *bound {
	fi, param := f.t.funcArg(f.p, f.fi.key, e)
	if fi == nil {
		if b := f.bound[param]; param != nil && b != nil {
			return b
		}
		fail("function value %s", types.ExprString(e))
	}
	b := &bound{fi: fi, scope: map[types.Object]*GV{}, inst: tsubst}
	for k, v := range f.scope {
		b.scope[k] = v
	}
	return b
}

// callBound calls the function a parameter stands for. Its arguments belong to
// the calling function, its body to the place it was written in.
func (f *fnTr) callBound(b *bound, c *ast.CallExpr) []string {
	if b.fi.lit == nil {
		if f.t.cts[b.fi.key] == nil && !f.recursive(b.fi.key) {
			return f.inline(b.fi, c, nil)
		}
		return f.callFn(b.fi.key, b.fi, c, nil)
	}
	if b.fi.rec {
		return f.callFn(b.fi.key, b.fi, c, nil)
	}
	f.into = b
	return f.inline(b.fi, c, nil)
}

func (f *fnTr) conversion(a ast.Expr, to types.Type) string {
	from := f.typeOf(a)
	if f.p.Info.Types[a].IsNil() {
		return zero(to)
	}
	if isIface(to) {
		return f.exTo(a, to)
	}
	fv, tv := vtype(from), vtype(to)
	if fv == tv {
		return f.ex(a)
	}
	ints := map[string]bool{"int": true, "i64": true, "u64": true, "u8": true, "i32": true}
	x := f.ex(a)
	switch {
	case ints[fv] && tv == "int":
		return "(" + x + " as int)"
	case fv == "int" && tv == "i64" && isGoInt(from):
		x = f.bind(x)
		c := fmt.Sprintf("i64::MIN <= %s <= i64::MAX", x)
		if len(f.guards) > 0 {
			c = "(" + strings.Join(f.guards, " && ") + ") ==> (" + c + ")"
		}
		libUsed["a Go int fits 64 bits"] = true
		f.emit("assume(%s);", c)
		return "(" + x + " as i64)"
	case ints[fv] && ints[tv]:
		f.assert("conversion keeps the value", fmt.Sprintf("%s::MIN <= %s <= %s::MAX", tv, x, tv), a)
		return "(" + x + " as " + tv + ")"
	case ints[fv] && tv == "F64":
		return "f64_of_int(" + x + " as int)"
	case fv == "F64" && tv == "i64":
		return "f64_to_i64(" + x + ")"
	}
	fail("conversion from %s to %s", from, to)
	return ""
}

func isGoInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int
}

func (f *fnTr) builtin(name string, c *ast.CallExpr) []string {
	switch name {
	case "len":
		x := f.ex(c.Args[0])
		if _, ok := f.typeOf(c.Args[0]).Underlying().(*types.Map); ok {
			return []string{"(" + paren(x) + ".dom().len() as int)"}
		}
		return []string{"(" + paren(x) + ".len() as int)"}
	case "append":
		t := f.typeOf(c)
		el := t.Underlying().(*types.Slice).Elem()
		base := f.exTo(c.Args[0], t)
		if c.Ellipsis.IsValid() {
			return []string{"(" + base + " + " + f.exTo(c.Args[1], f.typeOf(c.Args[1])) + ")"}
		}
		r := paren(base)
		for _, a := range c.Args[1:] {
			var v string
			if cl, ok := a.(*ast.CompositeLit); ok && cl.Type == nil {
				v = f.composite(cl, el)
			} else {
				v = f.exTo(a, el)
			}
			r += ".push(" + v + ")"
		}
		return []string{r}
	case "make":
		t := f.typeOf(c)
		switch u := t.Underlying().(type) {
		case *types.Map:
			if len(c.Args) > 1 {
				f.ex(c.Args[1])
			}
			return []string{zero(t)}
		case *types.Slice:
			n := f.exInt(c.Args[1])
			if len(c.Args) > 2 {
				m := f.exInt(c.Args[2])
				f.assert("make bounds", fmt.Sprintf("0 <= %s <= %s", n, m), c)
			} else {
				f.assert("make bounds", "0 <= "+n, c)
			}
			if tv := f.p.Info.Types[c.Args[1]]; tv.Value != nil && constant.Sign(tv.Value) == 0 {
				return []string{zero(t)}
			}
			return []string{"seq_fill(" + n + ", " + zero(u.Elem()) + ")"}
		}
		fail("make(%s)", t)
	case "delete":
		k := f.exTo(c.Args[1], f.typeOf(c.Args[0]).Underlying().(*types.Map).Key())
		m := f.ex(c.Args[0])
		f.store(c.Args[0], paren(m)+".remove("+k+")")
		return nil
	case "clear":
		if _, ok := f.typeOf(c.Args[0]).Underlying().(*types.Map); !ok {
			fail("clear of a slice")
		}
		f.store(c.Args[0], zero(f.typeOf(c.Args[0])))
		return nil
	case "copy":
		d, s := f.ex(c.Args[0]), f.ex(c.Args[1])
		f.store(c.Args[0], "seq_copy("+d+", "+s+")")
		return []string{"seq_min(" + paren(d) + ".len() as int, " + paren(s) + ".len() as int)"}
	case "panic":
		f.emitO("panic unreachable", "", c, nil, "assert(false);")
		f.emit("return absurd();")
		return nil
	case "min", "max":
		t := f.typeOf(c)
		r := f.exTo(c.Args[0], t)
		op := "<"
		if name == "max" {
			op = ">"
		}
		for _, a := range c.Args[1:] {
			b := f.exTo(a, t)
			r = fmt.Sprintf("(if %s %s %s { %s } else { %s })", b, op, r, b, r)
		}
		return []string{r}
	}
	fail("builtin %s", name)
	return nil
}

// lvalue of a pointer argument: the Go expression the pointer refers to.
func pointee(e ast.Expr) ast.Expr {
	e = ast.Unparen(e)
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
		return ast.Unparen(u.X)
	}
	return e
}

func (f *fnTr) argList(fi *FnInfo, c *ast.CallExpr, recv ast.Expr) (exprs []ast.Expr, ptypes []types.Type) {
	if recv != nil {
		exprs = append(exprs, recv)
		ptypes = append(ptypes, fi.sig.Recv().Type())
	}
	if fi.sig.Variadic() {
		fail("variadic function %s", fi.key)
	}
	for i, a := range c.Args {
		exprs = append(exprs, a)
		ptypes = append(ptypes, fi.sig.Params().At(i).Type())
	}
	return
}

func (f *fnTr) callFn(key string, fi *FnInfo, c *ast.CallExpr, recv ast.Expr) []string {
	if f.t.cts[key] == nil {
		fail("recursive function %s has no contract", key)
	}
	exprs, ptypes := f.argList(fi, c, recv)
	var args []string
	for i, e := range exprs {
		pt, isPtr := derefType(ptypes[i])
		if isPtr {
			args = append(args, f.ex(pointee(e)))
		} else if i == 0 && recv != nil {
			args = append(args, f.ex(pointee(e)))
		} else {
			_ = pt
			args = append(args, f.exTo(e, ptypes[i]))
		}
	}
	f.t.need(key)
	ct := f.t.cts[key]
	if ct.Pure != "" {
		var lets strings.Builder
		for i, a := range args {
			if i < len(ct.Params) {
				fmt.Fprintf(&lets, "let %s = %s; ", ct.Params[i], a)
			}
		}
		for _, r := range ct.Req {
			f.assert("precondition of "+key, "{ "+lets.String()+f.t.prep(r.Text)+" }", c)
		}
		e := "({ " + lets.String() + f.t.prep(ct.Pure) + " })"
		if fi.sig.Results().Len() == 1 {
			return []string{e}
		}
		n := f.tmp()
		f.emit("let ghost %s = %s;", n, e)
		var rs []string
		for i := 0; i < fi.sig.Results().Len(); i++ {
			rs = append(rs, fmt.Sprintf("%s.%d", n, i))
		}
		return rs
	}
	if len(f.guards) > 0 {
		fail("call of %s under a condition inside an expression", key)
	}
	f.callN[key]++
	short := key[strings.LastIndex(key, ".")+1:]
	if k := f.t.renamed[key]; k != "" {
		short = k[strings.LastIndex(k, ".")+1:]
	}
	site := fmt.Sprintf("%s#%d", short, f.callN[key])
	f.hintAt(f.ct.CallBefore, short, site)
	n := f.tmp()
	var gs []string
	for _, a := range args {
		gs = append(gs, "Ghost("+f.garg(a)+")")
	}
	var caps []string
	for _, o := range f.t.captured(fi) {
		g := f.scope[o]
		if g == nil {
			fail("%s is called where %s is not known", key, o.Name())
		}
		caps = append(caps, "Ghost("+f.garg(g.name)+")")
	}
	gs = append(caps, gs...)
	if ct.Files {
		gs = append([]string{"Ghost(" + f.garg(f.files().name) + ")"}, gs...)
	}
	f.emitO("precondition of "+key, "", c, nil, fmt.Sprintf("let %s = %s(%s);", n, vname(key), strings.Join(gs, ", ")))
	var rs []string
	k := 0
	for ; k < fi.sig.Results().Len(); k++ {
		rs = append(rs, fmt.Sprintf("%s@.%d", n, k))
	}
	if ct.Files {
		f.set(f.files().name, fmt.Sprintf("%s@.%d", n, k))
		k++
	}
	for i, e := range exprs {
		if _, isPtr := derefType(ptypes[i]); isPtr {
			f.store(pointee(e), fmt.Sprintf("%s@.%d", n, k))
			k++
		}
	}
	f.hintAt(f.ct.CallAfter, short, site)
	return rs
}

// files is the state of the file system.
func (f *fnTr) files() *GV {
	if f.disk == nil {
		fail("the file system is used where the contract does not say so")
	}
	return f.disk
}

func (f *fnTr) hintAt(m map[string]string, short, site string) {
	for _, fr := range f.frames {
		if f.al == nil || fr.known {
			return
		}
	}
	f.seen[short], f.seen[site] = true, true
	f.hint(m[short])
	f.hint(m[site])
}

// inline translates a call of a function without contract by translating its body.
func (f *fnTr) inline(fi *FnInfo, c *ast.CallExpr, recv ast.Expr) []string {
	into := f.into
	f.into = nil
	for _, fr := range f.frames {
		if fr.key == fi.key {
			fail("recursive function %s has no contract", fi.key)
		}
	}
	if len(f.frames) > 6 {
		fail("inlining too deep at %s", fi.key)
	}
	if len(f.guards) > 0 {
		fail("call of %s under a condition inside an expression", fi.key)
	}
	if fi.pkg != f.p && fi.lit != nil && into == nil {
		fail("closure from another package")
	}
	f.t.inlined[fi.key] = true
	exprs, ptypes := f.argList(fi, c, recv)
	inst := instance(f.p, c, fi.sig)
	with(inst, func() {
		for i := range ptypes {
			ptypes[i] = sub(ptypes[i])
		}
	})
	fr := &inlFrame{key: fi.key, sig: fi.sig, loops: len(f.loops)}
	if len(f.frames) == 0 {
		f.shape.Inlined = append(f.shape.Inlined, fi.key)
	}
	if f.al != nil {
		for _, k := range f.al.base.Inlined {
			if k == fi.key {
				fr.known = true
			}
		}
	}
	// arguments
	type pend struct {
		obj  types.Object
		name string
		typ  types.Type
		val  string
		gv   *GV
		fn   *bound
	}
	var ps []pend
	i := 0
	add := func(fl *ast.FieldList) {
		if fl == nil {
			return
		}
		for _, fd := range fl.List {
			names := fd.Names
			if len(names) == 0 {
				names = []*ast.Ident{ast.NewIdent("_")}
			}
			for _, n := range names {
				e := exprs[i]
				p := pend{obj: fi.pkg.Info.Defs[n], name: n.Name, typ: ptypes[i]}
				if isFuncType(ptypes[i]) {
					p.fn = f.bindFunc(e)
				} else if _, isPtr := derefType(ptypes[i]); isPtr {
					id, ok := pointee(e).(*ast.Ident)
					if !ok {
						fail("pointer argument of %s is not a variable", fi.key)
					}
					p.gv = f.variable(id)
				} else if g := f.alias(fi, n, ptypes[i], e, exprs); g != nil {
					p.gv = g
				} else if i == 0 && recv != nil {
					p.val = f.ex(pointee(e))
				} else {
					p.val = f.exTo(e, ptypes[i])
				}
				ps = append(ps, p)
				i++
			}
		}
	}
	add(fi.recv)
	add(fi.typ.Params)
	savedScope := map[types.Object]*GV{}
	for k, v := range f.scope {
		savedScope[k] = v
	}
	if fi.lit == nil {
		f.scope = map[types.Object]*GV{}
	} else {
		f.scope = map[types.Object]*GV{}
		from := savedScope
		inst = tsubst
		if into != nil {
			from, inst = into.scope, into.inst
		}
		for k, v := range from {
			f.scope[k] = v
		}
	}
	savedP, savedT := f.p, tsubst
	f.p = fi.pkg
	tsubst = inst
	defer func() { tsubst = savedT }()
	for _, p := range ps {
		if p.fn != nil {
			if p.obj != nil {
				f.bound[p.obj] = p.fn
			}
			continue
		}
		if p.gv != nil {
			f.scope[p.obj] = p.gv
			continue
		}
		f.kind = "arg"
		g := f.declare(p.obj, "in_"+fi.name+"_"+p.name, p.typ)
		f.kind = ""
		f.declInit(g, p.val)
	}
	for k := 0; k < fi.sig.Results().Len(); k++ {
		rt := sub(fi.sig.Results().At(k).Type())
		g := f.declare(nil, "out_"+fi.name, rt)
		f.declInit(g, zero(rt))
		fr.rets = append(fr.rets, g)
	}
	if fi.typ.Results != nil {
		for _, fd := range fi.typ.Results.List {
			for _, n := range fd.Names {
				g := f.declare(fi.pkg.Info.Defs[n], "in_"+fi.name+"_"+n.Name, fi.pkg.Info.TypeOf(fd.Type))
				f.declInit(g, zero(g.typ))
				fr.named = append(fr.named, g)
			}
		}
	}
	fr.done = f.declName("done_" + fi.name)
	f.emit("let ghost mut %s: bool = false;", fr.done)
	f.frames = append(f.frames, fr)
	cur := f.cur
	f.emit("{")
	f.ind++
	f.block(fi.body.List)
	f.ind--
	f.emit("}")
	f.cur = cur
	f.frames = f.frames[:len(f.frames)-1]
	f.p = savedP
	f.scope = savedScope
	var rs []string
	for _, g := range fr.rets {
		n := f.tmp()
		f.emit("let ghost %s = %s;", n, g.name)
		rs = append(rs, n)
	}
	return rs
}

// alias gives the caller's variable a parameter can stand for: a map or slice
// given as a plain local variable. An assignment to an element is then seen by
// the caller, as it is in Go.
func (f *fnTr) alias(fi *FnInfo, n *ast.Ident, t types.Type, e ast.Expr, exprs []ast.Expr) *GV {
	if fi.lit != nil {
		return nil
	}
	o := fi.pkg.Info.Defs[n]
	v := aliasVar(f.p, fi, o, t, e, exprs)
	if v == nil {
		return nil
	}
	if f.scope[v] == nil {
		fail("argument %s", v.Name())
	}
	return f.scope[v]
}

func aliasVar(p *Pkg, fi *FnInfo, formal types.Object, ft types.Type, e ast.Expr, exprs []ast.Expr) types.Object {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok || formal == nil {
		return nil
	}
	v, ok := p.Info.Uses[id].(*types.Var)
	if !ok || v.IsField() || v.Parent() == v.Pkg().Scope() {
		return nil
	}
	switch ft.Underlying().(type) {
	case *types.Map, *types.Slice:
	default:
		return nil
	}
	if vtype(v.Type()) != vtype(ft) || assigned(fi.pkg, fi.body, formal) {
		return nil
	}
	uses := 0
	for _, x := range exprs {
		ast.Inspect(x, func(n ast.Node) bool {
			if i, ok := n.(*ast.Ident); ok && p.Info.Uses[i] == v {
				uses++
			}
			return true
		})
	}
	if uses != 1 {
		return nil
	}
	return v
}

// assigned reports whether a variable itself is assigned, captured or has its address taken.
func assigned(p *Pkg, body ast.Node, o types.Object) bool {
	r := false
	is := func(e ast.Expr) bool {
		id, ok := ast.Unparen(e).(*ast.Ident)
		return ok && (p.Info.Uses[id] == o || p.Info.Defs[id] == o)
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				r = r || is(l)
			}
		case *ast.RangeStmt:
			r = r || n.Key != nil && is(n.Key) || n.Value != nil && is(n.Value)
		case *ast.UnaryExpr:
			r = r || n.Op == token.AND && is(n.X)
		case *ast.IncDecStmt:
			r = r || is(n.X)
		case *ast.FuncLit:
			ast.Inspect(n.Body, func(m ast.Node) bool {
				if id, ok := m.(*ast.Ident); ok && p.Info.Uses[id] == o {
					r = true
				}
				return true
			})
		}
		return true
	})
	return r
}

// captured gives the variables of the surrounding function a recursive closure
// reads. One that assigns them is outside the subset.
func (t *Tr) captured(fi *FnInfo) (r []types.Object) {
	if fi.lit == nil || !fi.rec {
		return nil
	}
	seen := map[types.Object]bool{}
	ast.Inspect(fi.lit, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		o, ok := fi.pkg.Info.Uses[id].(*types.Var)
		if !ok || o.IsField() || seen[o] || o.Parent() == o.Pkg().Scope() || isFuncType(o.Type()) {
			return true
		}
		if o.Pos() >= fi.lit.Pos() && o.Pos() <= fi.lit.End() {
			return true
		}
		if _, ok := t.replacers[o]; ok {
			return true
		}
		seen[o] = true
		if assigned(fi.pkg, fi.lit.Body, o) || partAssigned(fi.pkg, fi.lit.Body, o) {
			fail("closure %s assigns %s", fi.key, o.Name())
		}
		r = append(r, o)
		return true
	})
	return
}

// partAssigned reports whether a field or element of a variable is assigned.
func partAssigned(p *Pkg, body ast.Node, o types.Object) bool {
	r := false
	base := func(e ast.Expr) {
		for {
			switch x := ast.Unparen(e).(type) {
			case *ast.SelectorExpr:
				e = x.X
				continue
			case *ast.IndexExpr:
				e = x.X
				continue
			case *ast.StarExpr:
				e = x.X
				continue
			case *ast.Ident:
				r = r || p.Info.Uses[x] == o
			}
			return
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				base(l)
			}
		case *ast.IncDecStmt:
			base(n.X)
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				base(n.X)
			}
		case *ast.RangeStmt:
			if n.Key != nil {
				base(n.Key)
			}
			if n.Value != nil {
				base(n.Value)
			}
		}
		return true
	})
	return r
}

// asciiTable gives the length of a package-level array of constant ASCII
// strings that nothing in its package assigns.
func asciiTable(p *Pkg, e ast.Expr) int {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return 0
	}
	o, ok := p.Info.Uses[id].(*types.Var)
	if !ok || o.Parent() != o.Pkg().Scope() || o.Exported() {
		return 0
	}
	for _, f := range p.Files {
		if assigned(p, f, o) || partAssigned(p, f, o) {
			return 0
		}
	}
	n := 0
	for _, f := range p.Files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range g.Specs {
				vs, ok := s.(*ast.ValueSpec)
				if !ok || len(vs.Names) != 1 || len(vs.Values) != 1 || p.Info.Defs[vs.Names[0]] != o {
					continue
				}
				cl, ok := vs.Values[0].(*ast.CompositeLit)
				if !ok {
					return 0
				}
				for _, el := range cl.Elts {
					tv := p.Info.Types[el]
					if tv.Value == nil || tv.Value.Kind() != constant.String {
						return 0
					}
					for _, b := range []byte(constant.StringVal(tv.Value)) {
						if b >= 128 {
							return 0
						}
					}
				}
				n = len(cl.Elts)
			}
		}
	}
	if a, ok := o.Type().Underlying().(*types.Array); ok && int(a.Len()) != n {
		return 0
	}
	return n
}
