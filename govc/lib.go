package main

// Assumed contracts of the standard library functions the code calls.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"
)

var libFuncs map[string]func(*fnTr, *ast.CallExpr) []string

// libUsed records which assumed library contracts a run relied on.
var libUsed = map[string]bool{}

// functions with the same contract: the hints of one serve the others.
var sameHints = map[string]string{
	"slices.Sort": "sort.Slice", "slices.SortFunc": "sort.Slice", "slices.Sorted": "sort.Slice", "slices.SortedFunc": "sort.Slice",
	"slices.SortStableFunc": "sort.SliceStable",
}

func lib(names string, h func(*fnTr, *ast.CallExpr) []string) {
	for _, n := range strings.Fields(names) {
		n := n
		libFuncs[n] = func(f *fnTr, c *ast.CallExpr) []string {
			libUsed[n] = true
			k := n
			if sameHints[n] != "" {
				k = sameHints[n]
			}
			f.hintAt(f.ct.CallBefore, k, fmt.Sprintf("%s#%d", k, f.callN[k]+1))
			r := h(f, c)
			f.callN[k]++
			f.hintAt(f.ct.CallAfter, k, fmt.Sprintf("%s#%d", k, f.callN[k]))
			return r
		}
	}
}

func (f *fnTr) strArg(e ast.Expr) string {
	s := f.ex(e)
	return s
}

func (f *fnTr) recvExpr(c *ast.CallExpr) ast.Expr {
	return pointee(ast.Unparen(c.Fun).(*ast.SelectorExpr).X)
}

func (f *fnTr) sideEval(args []ast.Expr) {
	for _, a := range args {
		if f.p.Info.Types[a].IsNil() || f.p.Info.Types[a].Value != nil {
			continue
		}
		f.evalIgnored(a)
	}
}

// evalIgnored evaluates an operand for its side conditions only.
func (f *fnTr) evalIgnored(a ast.Expr) {
	if c, ok := ast.Unparen(a).(*ast.CallExpr); ok {
		if fn := calleeFunc(f.p, c); fn != nil && fn.FullName() == "(error).Error" {
			f.ex(c)
			return
		}
	}
	f.ex(a)
}

// format expands a constant fmt format over its arguments.
func (f *fnTr) format(fm ast.Expr, args []ast.Expr) string {
	tv := f.p.Info.Types[fm]
	if tv.Value == nil {
		fail("non-constant format string")
	}
	return f.formatStr(constant.StringVal(tv.Value), args)
}

func (f *fnTr) formatStr(s string, args []ast.Expr) string {
	var parts []string
	flush := func(x string) {
		if x != "" {
			parts = append(parts, f.t.lit(x))
		}
	}
	k := 0
	lit := ""
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			lit += string(s[i])
			continue
		}
		i++
		if i < len(s) && s[i] == '%' {
			lit += "%"
			continue
		}
		if i >= len(s) || k >= len(args) {
			fail("format string %q", s)
		}
		flush(lit)
		lit = ""
		a := args[k]
		k++
		t := f.typeOf(a)
		if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			t = types.Default(t)
		}
		vt := vtype(t)
		x := f.exTo(a, t)
		switch {
		case s[i] == 'd' && (vt == "int" || vt == "i64" || vt == "u64" || vt == "u8"):
			parts = append(parts, "dec_str("+x+" as int)")
		case (s[i] == 's' || s[i] == 'v') && vt == "Str" && !hasStringMethod(t):
			if s[i] == 'v' {
				if _, ok := t.Underlying().(*types.Slice); ok {
					fail("format %%v of bytes")
				}
			}
			parts = append(parts, x)
		case s[i] == 's' && vt == "Any":
			parts = append(parts, "any_fmt_s("+x+")")
		case s[i] == 'd' && vt == "Any":
			parts = append(parts, "any_fmt_d("+x+")")
		case s[i] == 'v' && vt == "bool":
			parts = append(parts, "bool_str("+x+")")
		case s[i] == 'v' && vt == "F64":
			parts = append(parts, "f64_fmt("+x+")")
		case s[i] == 'v' && (vt == "int" || vt == "i64" || vt == "u64"):
			parts = append(parts, "dec_str("+x+" as int)")
		case s[i] == 'v' && vt == "Any":
			parts = append(parts, "any_fmt("+x+")")
		case s[i] == 'T':
			parts = append(parts, "any_type_fmt("+x+")")
		default:
			fail("format verb %%%c of %s", s[i], t)
		}
	}
	flush(lit)
	if k != len(args) {
		fail("format string %q with %d arguments", s, len(args))
	}
	if len(parts) == 0 {
		return "Seq::<u8>::empty()"
	}
	return "(" + strings.Join(parts, " + ") + ")"
}

func hasStringMethod(t types.Type) bool {
	ms := types.NewMethodSet(t)
	return ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil
}

// funcBody gives the parameters and the body of a function given to the library.
func (f *fnTr) funcBody(fn ast.Expr) (*FnInfo, []types.Object) {
	fi, param := f.t.funcArg(f.p, f.fi.key, fn)
	if b := f.bound[param]; param != nil && b != nil {
		fi = b.fi
	}
	if fi == nil || fi.rec || fi.pkg != f.p || fi.recv != nil {
		fail("function value %s", types.ExprString(fn))
	}
	var os []types.Object
	for _, fd := range fi.typ.Params.List {
		for _, n := range fd.Names {
			os = append(os, fi.pkg.Info.Defs[n])
		}
	}
	if len(os) != fi.sig.Params().Len() {
		fail("function with unnamed parameters")
	}
	f.t.inlined[fi.key] = true
	return fi, os
}

// pureBody translates a body without effects into an expression: definitions
// and ifs that end in a return.
func (f *fnTr) pureBody(l []ast.Stmt, res types.Type) string {
	if len(l) == 0 {
		fail("function without a final return")
	}
	switch s := l[0].(type) {
	case *ast.BlockStmt:
		return f.pureBody(append(append([]ast.Stmt{}, s.List...), l[1:]...), res)
	case *ast.ReturnStmt:
		if len(s.Results) != 1 {
			fail("function with several results")
		}
		return f.exTo(s.Results[0], res)
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE || len(s.Lhs) != len(s.Rhs) {
			fail("function literal with assignments")
		}
		var es []string
		for i := range s.Lhs {
			es = append(es, f.ex(s.Rhs[i]))
		}
		for i, x := range s.Lhs {
			o := f.p.Info.Defs[x.(*ast.Ident)]
			if o == nil {
				fail("function literal with assignments")
			}
			if assignedIn(f.p, l[1:], o) {
				fail("function literal with assignments")
			}
			f.subst[o] = "(" + convTo(es[i], f.typeOf(s.Rhs[i]), o.Type()) + ")"
		}
		return f.pureBody(l[1:], res)
	case *ast.IfStmt:
		if s.Init != nil {
			in := *s
			in.Init = nil
			return f.pureBody(append([]ast.Stmt{s.Init, &in}, l[1:]...), res)
		}
		c := f.ex(s.Cond)
		n := len(f.guards)
		f.guards = append(f.guards, c)
		a := f.pureBody(append(append([]ast.Stmt{}, s.Body.List...), l[1:]...), res)
		f.guards = append(f.guards[:n], "!("+c+")")
		rest := l[1:]
		if s.Else != nil {
			rest = append([]ast.Stmt{s.Else}, rest...)
		}
		b := f.pureBody(rest, res)
		f.guards = f.guards[:n]
		return "(if " + c + " { " + a + " } else { " + b + " })"
	case *ast.SwitchStmt:
		if s.Init != nil || s.Tag != nil || hasDirectBreak(s.Body) {
			fail("switch in a function literal")
		}
		rest := append([]ast.Stmt{}, l[1:]...)
		var dflt []ast.Stmt
		var ifs []*ast.IfStmt
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			if cc.List == nil {
				dflt = cc.Body
				continue
			}
			cond := cc.List[0]
			if len(cc.List) != 1 {
				fail("switch in a function literal")
			}
			ifs = append(ifs, &ast.IfStmt{If: cc.Pos(), Cond: cond, Body: &ast.BlockStmt{List: cc.Body}})
		}
		out := append(append([]ast.Stmt{}, dflt...), rest...)
		for i := len(ifs) - 1; i >= 0; i-- {
			out = []ast.Stmt{&ast.IfStmt{If: ifs[i].If, Cond: ifs[i].Cond, Body: &ast.BlockStmt{List: append(append([]ast.Stmt{}, ifs[i].Body.List...), rest...)}, Else: &ast.BlockStmt{List: out}}}
		}
		return f.pureBody(out, res)
	}
	fail("statement %T in a function literal", l[0])
	return ""
}

func assignedIn(p *Pkg, l []ast.Stmt, o types.Object) bool {
	for _, s := range l {
		if assigned(p, s, o) {
			return true
		}
	}
	return false
}

// lambda runs fn and returns its expression and the conditions under which it
// does not panic. fn may emit nothing else.
func (f *fnTr) lambda(fn func() string) (e string, conds []string) {
	save := f.out
	n := len(save)
	f.inLambda++
	e = fn()
	f.inLambda--
	for _, l := range f.out[n:] {
		t := strings.TrimSpace(l.text)
		if !strings.HasPrefix(t, "assert(") || !strings.HasSuffix(t, ");") {
			fail("function literal with effects")
		}
		conds = append(conds, strings.TrimSuffix(strings.TrimPrefix(t, "assert("), ");"))
	}
	f.out = save[:n:n]
	return
}

// lessLambda translates a comparator over s[i], s[j] into a spec closure over elements.
func (f *fnTr) lessLambda(sl ast.Expr, fn ast.Expr) string {
	fi, ps := f.funcBody(fn)
	if fi.lit == nil {
		fail("comparator of indices that is not a literal")
	}
	el := f.typeOf(sl).Underlying().(*types.Slice).Elem()
	vt := vtype(el)
	f.tmpN++
	a, b := fmt.Sprintf("la_%d", f.tmpN), fmt.Sprintf("lb_%d", f.tmpN)
	f.subst[ps[0]] = "0int"
	f.subst[ps[1]] = "1int"
	seq := "seq![" + a + ", " + b + "]"
	// the comparator reads the slice being sorted: replace it by the pair compared
	e, conds := f.lambda(func() string {
		return f.withSlice(sl, seq, func() string { return f.pureBody(fi.body.List, types.Typ[types.Bool]) })
	})
	elems := func(e string) string {
		e = strings.ReplaceAll(e, seq+"[0int]", a)
		e = strings.ReplaceAll(e, "("+seq+")[0int]", a)
		e = strings.ReplaceAll(e, "("+seq+")[1int]", b)
		return strings.ReplaceAll(e, seq+"[1int]", b)
	}
	if e = elems(e); strings.Contains(e, seq) {
		fail("comparator reads more of the slice than the two elements")
	}
	f.noPanic(sl, a, b, vt, conds, elems)
	return fmt.Sprintf("|%s: %s, %s: %s| %s", a, vt, b, vt, e)
}

// noPanic obliges a comparator not to panic on the elements of the slice.
func (f *fnTr) noPanic(sl ast.Expr, a, b, vt string, conds []string, elems func(string) string) {
	var cs []string
	for _, c := range conds {
		if c = elems(c); strings.Contains(c, a) || strings.Contains(c, b) {
			cs = append(cs, "("+c+")")
		}
	}
	for i := 0; i < len(cs); i++ {
		if regexp.MustCompile(`^\(0 <= [01]int < (\(?)seq!\[` + a + `, ` + b + `\](\)?)\.len\(\)\)$`).MatchString(cs[i]) {
			cs = append(cs[:i], cs[i+1:]...)
			i--
		}
	}
	if len(cs) == 0 {
		return
	}
	x := f.bind(f.ex(sl))
	f.assert("the comparator does not panic", fmt.Sprintf("forall|%s: %s, %s: %s| #[trigger] %s.contains(%s) && #[trigger] %s.contains(%s) ==> %s", a, vt, b, vt, x, a, x, b, strings.Join(cs, " && ")), sl)
}

// cmpLambda translates a three-way comparator of elements into "less".
func (f *fnTr) cmpLambda(sl ast.Expr, el types.Type, fn ast.Expr) string {
	vt := vtype(el)
	f.tmpN++
	a, b := fmt.Sprintf("la_%d", f.tmpN), fmt.Sprintf("lb_%d", f.tmpN)
	var e string
	var conds []string
	if n := libFuncName(f.p, fn); n == "strings.Compare" || n == "cmp.Compare" || n == "bytes.Compare" {
		e = f.three(a, b, el)
	} else {
		fi, ps := f.funcBody(fn)
		f.subst[ps[0]], f.subst[ps[1]] = a, b
		e, conds = f.lambda(func() string { return f.pureBody(fi.body.List, types.Typ[types.Int]) })
	}
	if sl != nil {
		f.noPanic(sl, a, b, vt, conds, func(s string) string { return s })
	} else if len(conds) > 0 {
		fail("comparator that can panic")
	}
	return fmt.Sprintf("|%s: %s, %s: %s| (%s) < 0", a, vt, b, vt, e)
}

func libFuncName(p *Pkg, e ast.Expr) string {
	switch x := ast.Unparen(e).(type) {
	case *ast.IndexExpr:
		e = x.X
	}
	if s, ok := ast.Unparen(e).(*ast.SelectorExpr); ok {
		if fn, ok := p.Info.Uses[s.Sel].(*types.Func); ok {
			return fn.FullName()
		}
	}
	return ""
}

// three is the three-way comparison of two values of an ordered type.
func (f *fnTr) three(a, b string, t types.Type) string {
	lt, eq := a+" < "+b, a+" == "+b
	switch vtype(t) {
	case "Str":
		lt, eq = "str_lt("+a+", "+b+")", "str_eq("+a+", "+b+")"
	case "int", "i64", "u64", "u8", "nat":
	default:
		fail("three-way comparison of %s", t)
	}
	return "(if " + lt + " { -1int } else if " + eq + " { 0int } else { 1int })"
}

// withSlice evaluates fn with every occurrence of the slice expression sl replaced.
func (f *fnTr) withSlice(sl ast.Expr, repl string, fn func() string) string {
	switch s := ast.Unparen(sl).(type) {
	case *ast.Ident:
		o := f.p.Info.Uses[s]
		old, had := f.subst[o]
		f.subst[o] = repl
		r := fn()
		if had {
			f.subst[o] = old
		} else {
			delete(f.subst, o)
		}
		return r
	case *ast.SelectorExpr:
		if _, ok := s.X.(*ast.Ident); ok {
			base := f.ex(s)
			if f.slices == nil {
				f.slices = map[string]string{}
			}
			f.slices[base] = repl
			r := fn()
			delete(f.slices, base)
			return r
		}
	}
	fail("sort of a complex expression")
	return ""
}

// strictWeak proves that a comparator is a strict weak order.
func (f *fnTr) strictWeak(l string) {
	use := ""
	if strings.Contains(l, "str_lt(") {
		use = "broadcast use group_str_lt; lemma_str_eq(); "
	}
	f.emitO("comparator is a strict weak order", l, nil, nil, "proof { "+use+"reveal(strict_weak); assert(strict_weak("+l+")); }")
}

// predLambda translates a predicate over a value of Verus type vt.
func (f *fnTr) predLambda(fn ast.Expr, vt string) (string, string) {
	fi, ps := f.funcBody(fn)
	f.tmpN++
	a := fmt.Sprintf("lp_%d", f.tmpN)
	f.subst[ps[0]] = a
	e, conds := f.lambda(func() string { return f.pureBody(fi.body.List, types.Typ[types.Bool]) })
	delete(f.subst, ps[0])
	c := "true"
	if len(conds) > 0 {
		c = strings.Join(conds, " && ")
	}
	return fmt.Sprintf("|%s: %s| %s", a, vt, e), fmt.Sprintf("|%s: %s| %s", a, vt, c)
}

func (f *fnTr) pureCall(fn string, args ...string) []string {
	return []string{fn + "(" + strings.Join(args, ", ") + ")"}
}

// prefix1 translates a string about to be compared with a one-byte prefix or suffix.
func (f *fnTr) prefix1(a, p ast.Expr) string {
	x := f.ex(a)
	if tv := f.p.Info.Types[p]; tv.Value != nil && tv.Value.Kind() == constant.String && len(constant.StringVal(tv.Value)) == 1 && f.inLambda == 0 {
		f.emit("proof { lemma_prefix1(%s, %s); }", x, f.ex(p))
	}
	return x
}

func trimPrefix(a, b string) string {
	return fmt.Sprintf("(if has_prefix(%s, %s) { (%s).skip((%s).len() as int) } else { %s })", a, b, a, b, a)
}

func trimSuffix(a, b string) string {
	return fmt.Sprintf("(if has_suffix(%s, %s) { (%s).take((%s).len() - (%s).len()) } else { %s })", a, b, a, a, b, a)
}

func oneByte(f *fnTr, e ast.Expr) string {
	tv := f.p.Info.Types[e]
	if tv.Value != nil && tv.Value.Kind() == constant.Int {
		if v, ok := constant.Int64Val(tv.Value); ok && v >= 0 && v < 128 {
			return fmt.Sprintf("%du8", v)
		}
	}
	if tv.Value == nil || tv.Value.Kind() != constant.String || len(constant.StringVal(tv.Value)) != 1 {
		fail("separator is not a constant single byte")
	}
	return fmt.Sprintf("%du8", constant.StringVal(tv.Value)[0])
}

func (f *fnTr) execLib(fn string, nres int, args ...string) []string {
	if len(f.guards) > 0 {
		fail("call of %s under a condition inside an expression", fn)
	}
	n := f.tmp()
	var gs []string
	for _, a := range args {
		gs = append(gs, "Ghost("+f.garg(a)+")")
	}
	f.emitO("precondition of "+fn, "", nil, nil, fmt.Sprintf("let %s = %s(%s);", n, fn, strings.Join(gs, ", ")))
	var rs []string
	for i := 0; i < nres; i++ {
		rs = append(rs, fmt.Sprintf("%s@.%d", n, i))
	}
	return rs
}

func init() {
	libFuncs = map[string]func(*fnTr, *ast.CallExpr) []string{}
	lib("fmt.Errorf errors.New", func(f *fnTr, c *ast.CallExpr) []string {
		f.sideEval(c.Args)
		return []string{"Err::E"}
	})
	lib("(error).Error", func(f *fnTr, c *ast.CallExpr) []string {
		e := f.ex(ast.Unparen(c.Fun).(*ast.SelectorExpr).X)
		f.assert("no nil dereference", "!("+e+" is Nil)", c)
		return []string{"err_text(" + e + ")"}
	})
	lib("fmt.Sprintf", func(f *fnTr, c *ast.CallExpr) []string {
		return []string{f.format(c.Args[0], c.Args[1:])}
	})
	lib("fmt.Sprint", func(f *fnTr, c *ast.CallExpr) []string {
		if len(c.Args) != 1 {
			fail("fmt.Sprint of several values")
		}
		return []string{f.formatStr("%v", c.Args)}
	})
	lib("fmt.Fprintf", func(f *fnTr, c *ast.CallExpr) []string {
		dst := pointee(c.Args[0])
		s := f.format(c.Args[1], c.Args[2:])
		f.store(dst, "("+f.ex(dst)+" + "+s+")")
		return []string{"0int", "Err::Nil"}
	})
	lib("fmt.Printf fmt.Print fmt.Println", func(f *fnTr, c *ast.CallExpr) []string {
		f.sideEval(c.Args)
		return []string{"0int", "Err::Nil"}
	})
	lib("os.WriteFile", func(f *fnTr, c *ast.CallExpr) []string {
		d := f.files().name
		r := f.execLib("os_write_file", 2, d, f.ex(c.Args[0]), f.ex(c.Args[1]))
		f.set(d, r[1])
		return r[:1]
	})
	for _, k := range [][2]string{{"os.MkdirAll", "os_mkdir"}, {"os.Mkdir", "os_mkdir_one"}, {"os.Remove os.RemoveAll", "os_remove"}} {
		lib(k[0], func(f *fnTr, c *ast.CallExpr) []string {
			d := f.files().name
			r := f.execLib(k[1], 2, d, f.ex(c.Args[0]))
			f.set(d, r[1])
			return r[:1]
		})
	}
	lib("os.Stat", func(f *fnTr, c *ast.CallExpr) []string {
		return f.execLib("os_stat", 2, f.files().name, f.ex(c.Args[0]))
	})
	lib("os.IsNotExist", func(f *fnTr, c *ast.CallExpr) []string {
		return []string{"(" + f.ex(c.Args[0]) + " is E)"}
	})
	lib("path/filepath.Join", func(f *fnTr, c *ast.CallExpr) []string {
		if len(c.Args) < 2 || c.Ellipsis.IsValid() {
			fail("filepath.Join of a list")
		}
		x := f.ex(c.Args[0])
		for _, a := range c.Args[1:] {
			x = "path_join(" + x + ", " + f.ex(a) + ")"
		}
		return []string{x}
	})
	lib("github.com/schollz/progressbar/v3.Default", func(f *fnTr, c *ast.CallExpr) []string {
		f.sideEval(c.Args)
		return []string{"0int"}
	})
	lib("(*github.com/schollz/progressbar/v3.ProgressBar).Add", func(f *fnTr, c *ast.CallExpr) []string {
		f.sideEval(c.Args)
		return []string{"Err::Nil"}
	})
	lib("(*strings.Builder).WriteString (*bytes.Buffer).WriteString", func(f *fnTr, c *ast.CallExpr) []string {
		dst := f.recvExpr(c)
		s := f.ex(c.Args[0])
		f.store(dst, "("+f.ex(dst)+" + "+s+")")
		return []string{"0int", "Err::Nil"}
	})
	lib("(*strings.Builder).WriteByte (*bytes.Buffer).WriteByte", func(f *fnTr, c *ast.CallExpr) []string {
		dst := f.recvExpr(c)
		s := f.exTo(c.Args[0], types.Typ[types.Uint8])
		f.store(dst, paren(f.ex(dst))+".push("+s+")")
		return []string{"Err::Nil"}
	})
	lib("(*strings.Builder).WriteRune (*bytes.Buffer).WriteRune", func(f *fnTr, c *ast.CallExpr) []string {
		dst := f.recvExpr(c)
		f.store(dst, paren(f.ex(dst))+".push("+oneByte(f, c.Args[0])+")")
		return []string{"1int", "Err::Nil"}
	})
	lib("(*strings.Builder).Write (*bytes.Buffer).Write", func(f *fnTr, c *ast.CallExpr) []string {
		dst := f.recvExpr(c)
		s := f.bind(f.ex(c.Args[0]))
		f.store(dst, "("+f.ex(dst)+" + "+s+")")
		return []string{"(" + paren(s) + ".len() as int)", "Err::Nil"}
	})
	lib("(*strings.Builder).Reset (*bytes.Buffer).Reset", func(f *fnTr, c *ast.CallExpr) []string {
		f.store(f.recvExpr(c), "Seq::<u8>::empty()")
		return nil
	})
	lib("(*strings.Builder).Grow (*bytes.Buffer).Grow", func(f *fnTr, c *ast.CallExpr) []string {
		f.ex(c.Args[0])
		return nil
	})
	lib("(*strings.Builder).String (*bytes.Buffer).String (*bytes.Buffer).Bytes", func(f *fnTr, c *ast.CallExpr) []string {
		return []string{f.ex(f.recvExpr(c))}
	})
	lib("(*strings.Builder).Len (*bytes.Buffer).Len", func(f *fnTr, c *ast.CallExpr) []string {
		return []string{"(" + paren(f.ex(f.recvExpr(c))) + ".len() as int)"}
	})
	lib("strings.HasPrefix bytes.HasPrefix", func(f *fnTr, c *ast.CallExpr) []string {
		return f.pureCall("has_prefix", f.prefix1(c.Args[0], c.Args[1]), f.ex(c.Args[1]))
	})
	lib("strings.HasSuffix bytes.HasSuffix", func(f *fnTr, c *ast.CallExpr) []string {
		return f.pureCall("has_suffix", f.prefix1(c.Args[0], c.Args[1]), f.ex(c.Args[1]))
	})
	lib("strings.TrimPrefix bytes.TrimPrefix", func(f *fnTr, c *ast.CallExpr) []string {
		return []string{trimPrefix(f.ex(c.Args[0]), f.ex(c.Args[1]))}
	})
	lib("strings.TrimSuffix bytes.TrimSuffix", func(f *fnTr, c *ast.CallExpr) []string {
		return []string{trimSuffix(f.ex(c.Args[0]), f.ex(c.Args[1]))}
	})
	lib("strings.CutPrefix bytes.CutPrefix", func(f *fnTr, c *ast.CallExpr) []string {
		a, b := f.bind(f.ex(c.Args[0])), f.bind(f.ex(c.Args[1]))
		return []string{trimPrefix(a, b), fmt.Sprintf("has_prefix(%s, %s)", a, b)}
	})
	lib("strings.CutSuffix bytes.CutSuffix", func(f *fnTr, c *ast.CallExpr) []string {
		a, b := f.bind(f.ex(c.Args[0])), f.bind(f.ex(c.Args[1]))
		return []string{trimSuffix(a, b), fmt.Sprintf("has_suffix(%s, %s)", a, b)}
	})
	lib("bytes.Equal", func(f *fnTr, c *ast.CallExpr) []string {
		return f.pureCall("str_eq", f.ex(c.Args[0]), f.ex(c.Args[1]))
	})
	lib("strings.Compare bytes.Compare cmp.Compare", func(f *fnTr, c *ast.CallExpr) []string {
		t := f.typeOf(c.Args[0])
		if f.p.Info.Types[c.Args[0]].Value != nil {
			t = f.typeOf(c.Args[1])
		}
		return []string{f.three(f.exTo(c.Args[0], t), f.exTo(c.Args[1], t), t)}
	})
	lib("cmp.Less", func(f *fnTr, c *ast.CallExpr) []string {
		t := f.typeOf(c.Args[0])
		return []string{"(" + f.three(f.exTo(c.Args[0], t), f.exTo(c.Args[1], t), t) + " < 0)"}
	})
	lib("strings.Contains bytes.Contains strings.ContainsRune strings.ContainsAny", func(f *fnTr, c *ast.CallExpr) []string {
		tv := f.p.Info.Types[c.Args[1]]
		s := paren(f.ex(c.Args[0]))
		any := strings.HasSuffix(calleeFunc(f.p, c).FullName(), "ContainsAny")
		if tv.Value == nil || tv.Value.Kind() == constant.String && !any && len(constant.StringVal(tv.Value)) != 1 {
			if any {
				fail("ContainsAny with a variable set")
			}
			return f.pureCall("str_contains", s, f.ex(c.Args[1]))
		}
		if !any {
			return []string{s + ".contains(" + oneByte(f, c.Args[1]) + ")"}
		}
		e := "false"
		for _, b := range []byte(constant.StringVal(tv.Value)) {
			if b >= 128 {
				fail("ContainsAny beyond ASCII")
			}
			e += fmt.Sprintf(" || %s.contains(%du8)", s, b)
		}
		return []string{"(" + e + ")"}
	})
	lib("strings.IndexByte bytes.IndexByte strings.Index strings.IndexRune", func(f *fnTr, c *ast.CallExpr) []string {
		return f.pureCall("str_index", f.ex(c.Args[0]), oneByte(f, c.Args[1]))
	})
	lib("strings.LastIndexByte bytes.LastIndexByte strings.LastIndex", func(f *fnTr, c *ast.CallExpr) []string {
		return f.pureCall("str_last_index", f.ex(c.Args[0]), oneByte(f, c.Args[1]))
	})
	lib("math/rand.Float64", func(f *fnTr, c *ast.CallExpr) []string {
		return f.execLib("rand_float", 1)
	})
	lib("math/rand.Intn", func(f *fnTr, c *ast.CallExpr) []string {
		return f.execLib("rand_intn", 1, f.exInt(c.Args[0]))
	})
	lib("(time.Time).UnixNano", func(f *fnTr, c *ast.CallExpr) []string {
		if x, ok := ast.Unparen(ast.Unparen(c.Fun).(*ast.SelectorExpr).X).(*ast.CallExpr); !ok || calleeFunc(f.p, x) == nil || calleeFunc(f.p, x).FullName() != "time.Now" {
			fail("a point in time other than now")
		}
		return f.execLib("time_now", 1)
	})
	lib("strings.Count", func(f *fnTr, c *ast.CallExpr) []string {
		return []string{"(" + f.pureCall("split", f.ex(c.Args[0]), oneByte(f, c.Args[1]))[0] + ".len() - 1)"}
	})
	lib("strings.Cut", func(f *fnTr, c *ast.CallExpr) []string {
		s := f.bind(f.ex(c.Args[0]))
		i := f.bind(f.pureCall("str_index", s, oneByte(f, c.Args[1]))[0])
		return []string{fmt.Sprintf("(if %s < 0 { %s } else { %s.take(%s) })", i, s, paren(s), i),
			fmt.Sprintf("(if %s < 0 { Seq::<u8>::empty() } else { %s.skip(%s + 1) })", i, paren(s), i), i + " >= 0"}
	})
	lib("strings.SplitN", func(f *fnTr, c *ast.CallExpr) []string {
		s := f.bind(f.ex(c.Args[0]))
		b := oneByte(f, c.Args[1])
		switch {
		case isConstInt(f, c.Args[2], -1):
			return f.pureCall("split", s, b)
		case isConstInt(f, c.Args[2], 2):
			i := f.bind(f.pureCall("str_index", s, b)[0])
			return []string{fmt.Sprintf("(if %s < 0 { seq![%s] } else { seq![%s.take(%s), %s.skip(%s + 1)] })", i, s, paren(s), i, paren(s), i)}
		}
		fail("strings.SplitN with other counts")
		return nil
	})
	lib("strings.Replace", func(f *fnTr, c *ast.CallExpr) []string {
		if !isConstInt(f, c.Args[3], -1) {
			fail("strings.Replace with a count")
		}
		return f.pureCall("replace_byte", f.ex(c.Args[0]), oneByte(f, c.Args[1]), oneByte(f, c.Args[2]))
	})
	lib("strings.Clone bytes.Clone", func(f *fnTr, c *ast.CallExpr) []string { return []string{f.ex(c.Args[0])} })
	lib("strconv.FormatBool", func(f *fnTr, c *ast.CallExpr) []string { return f.pureCall("bool_str", f.ex(c.Args[0])) })
	lib("strconv.FormatFloat", func(f *fnTr, c *ast.CallExpr) []string {
		if !isConstInt(f, c.Args[1], 'g') || !isConstInt(f, c.Args[2], -1) || !isConstInt(f, c.Args[3], 64) {
			fail("strconv.FormatFloat other than 'g', -1, 64")
		}
		return f.pureCall("f64_fmt", f.exTo(c.Args[0], types.Typ[types.Float64])) // what %v prints
	})
	lib("strings.ReplaceAll", func(f *fnTr, c *ast.CallExpr) []string {
		return f.pureCall("replace_byte", f.ex(c.Args[0]), oneByte(f, c.Args[1]), oneByte(f, c.Args[2]))
	})
	lib("strings.Split", func(f *fnTr, c *ast.CallExpr) []string {
		return f.pureCall("split", f.ex(c.Args[0]), oneByte(f, c.Args[1]))
	})
	lib("strings.Join", func(f *fnTr, c *ast.CallExpr) []string {
		return f.pureCall("join", f.ex(c.Args[0]), f.ex(c.Args[1]))
	})
	lib("(*strings.Replacer).Replace", func(f *fnTr, c *ast.CallExpr) []string {
		id, ok := ast.Unparen(ast.Unparen(c.Fun).(*ast.SelectorExpr).X).(*ast.Ident)
		if !ok {
			fail("replacer expression")
		}
		ps, ok := f.t.replacers[f.p.Info.Uses[id]]
		if !ok || len(ps)%2 != 0 {
			fail("replacer %s is not a constant table", id.Name)
		}
		e := "Seq::<(Str, Str)>::empty()"
		for i := 0; i < len(ps); i += 2 {
			if len(ps[i]) == 0 {
				fail("replacer with an empty pattern")
			}
			e += fmt.Sprintf(".push((%s, %s))", f.t.lit(ps[i]), f.t.lit(ps[i+1]))
		}
		return f.pureCall("replacer", e, f.ex(c.Args[0]))
	})
	lib("strconv.Atoi", func(f *fnTr, c *ast.CallExpr) []string {
		s := f.bind(f.ex(c.Args[0]))
		return []string{"atoi_val(" + s + ")", "atoi_err(" + s + ")"}
	})
	lib("strconv.ParseInt", func(f *fnTr, c *ast.CallExpr) []string {
		if !isConstInt(f, c.Args[1], 10) || !isConstInt(f, c.Args[2], 64) {
			fail("strconv.ParseInt with other base or size")
		}
		s := f.bind(f.ex(c.Args[0]))
		return []string{"parse_int_val(" + s + ")", "parse_int_err(" + s + ")"}
	})
	lib("strconv.ParseFloat", func(f *fnTr, c *ast.CallExpr) []string {
		if !isConstInt(f, c.Args[1], 64) {
			fail("strconv.ParseFloat with other size")
		}
		s := f.bind(f.ex(c.Args[0]))
		return []string{"parse_f64_val(" + s + ")", "parse_f64_err(" + s + ")"}
	})
	lib("strconv.FormatInt strconv.FormatUint", func(f *fnTr, c *ast.CallExpr) []string {
		if !isConstInt(f, c.Args[1], 10) {
			fail("FormatInt with other base")
		}
		return f.pureCall("dec_str", f.ex(c.Args[0])+" as int")
	})
	lib("strconv.Itoa", func(f *fnTr, c *ast.CallExpr) []string {
		return f.pureCall("dec_str", f.exTo(c.Args[0], types.Typ[types.Int]))
	})
	lib("maps.Clone slices.Clone", func(f *fnTr, c *ast.CallExpr) []string { return []string{f.ex(c.Args[0])} })
	lib("reflect.DeepEqual", func(f *fnTr, c *ast.CallExpr) []string {
		a := types.Universe.Lookup("any").Type()
		return f.pureCall("go_deep_equal", f.exTo(c.Args[0], a), f.exTo(c.Args[1], a))
	})
	lib("reflect.TypeOf", func(f *fnTr, c *ast.CallExpr) []string {
		t := f.typeOf(c.Args[0])
		if isValue(t) {
			return f.pureCall("val_tag", f.ex(c.Args[0]))
		}
		return f.pureCall("any_tag", f.exTo(c.Args[0], types.Universe.Lookup("any").Type()))
	})
	lib("json.Marshal encoding/json.Marshal", func(f *fnTr, c *ast.CallExpr) []string {
		t := f.typeOf(c.Args[0])
		x := f.bind(f.exTo(c.Args[0], types.Universe.Lookup("any").Type()))
		_ = t
		return []string{"json_text(" + x + ")", "json_text_err(" + x + ")"}
	})
	lib("encoding/json.Unmarshal", func(f *fnTr, c *ast.CallExpr) []string {
		dst := pointee(c.Args[1])
		t, _ := derefType(f.typeOf(dst))
		b := f.ex(c.Args[0])
		switch {
		case isAny(t):
			r := f.execLib("json_unmarshal_any", 2, b, f.ex(dst))
			f.store(dst, r[1])
			return r[:1]
		case namedKey(t) == "tsonpatch.Patch":
			r := f.execLib("json_unmarshal_patch", 2, b, f.ex(dst))
			f.store(dst, r[1])
			return r[:1]
		}
		fail("json.Unmarshal into %s", t)
		return nil
	})
	lib("bytes.NewReader", func(f *fnTr, c *ast.CallExpr) []string { return []string{f.ex(c.Args[0])} })
	lib("encoding/json.NewDecoder", func(f *fnTr, c *ast.CallExpr) []string {
		return []string{"JDec { input: " + f.ex(c.Args[0]) + ", numbers: false, used: false }"}
	})
	lib("(*encoding/json.Decoder).UseNumber", func(f *fnTr, c *ast.CallExpr) []string {
		d := f.recvExpr(c)
		x := f.ex(d)
		f.store(d, "JDec { input: "+x+".input, numbers: true, used: "+x+".used }")
		return nil
	})
	lib("(*encoding/json.Decoder).Decode", func(f *fnTr, c *ast.CallExpr) []string {
		d := f.recvExpr(c)
		dst := pointee(c.Args[0])
		t, _ := derefType(f.typeOf(dst))
		if !isAny(t) {
			fail("Decode into %s", t)
		}
		x := f.ex(d)
		r := f.execLib("json_decode_any", 2, x, f.ex(dst))
		f.store(dst, r[1])
		f.store(d, "JDec { input: "+x+".input, numbers: "+x+".numbers, used: true }")
		return r[:1]
	})
	lib("(encoding/json.Number).Int64", func(f *fnTr, c *ast.CallExpr) []string {
		s := f.bind(f.ex(f.recvExpr(c)))
		return []string{"parse_int_val(" + s + ")", "parse_int_err(" + s + ")"}
	})
	lib("(encoding/json.Number).Float64", func(f *fnTr, c *ast.CallExpr) []string {
		s := f.bind(f.ex(f.recvExpr(c)))
		return []string{"parse_f64_val(" + s + ")", "parse_f64_err(" + s + ")"}
	})
	lib("sort.Strings slices.Sort", func(f *fnTr, c *ast.CallExpr) []string {
		x := f.ex(c.Args[0])
		f.store(c.Args[0], f.sorted(x, f.typeOf(c.Args[0]).Underlying().(*types.Slice).Elem()))
		return nil
	})
	lib("slices.SortFunc slices.SortStableFunc", func(f *fnTr, c *ast.CallExpr) []string {
		el := f.typeOf(c.Args[0]).Underlying().(*types.Slice).Elem()
		l := f.cmpLambda(c.Args[0], el, c.Args[1])
		f.strictWeak(l)
		fn := "sort_any"
		if strings.HasSuffix(calleeFunc(f.p, c).FullName(), "StableFunc") {
			fn = "sort_stable"
		}
		r := f.execLib(fn+"::<"+vtype(el)+">", 1, f.ex(c.Args[0]), l)
		f.store(c.Args[0], r[0])
		return nil
	})
	lib("slices.Sorted slices.Collect slices.SortedFunc", func(f *fnTr, c *ast.CallExpr) []string {
		in, ok := ast.Unparen(c.Args[0]).(*ast.CallExpr)
		name := calleeFunc(f.p, c).FullName()
		if ok {
			switch calleeName(f.p, in) {
			case "maps.Keys", "maps.Values":
				if len(f.guards) > 0 {
					fail("iteration under a condition inside an expression")
				}
				m := f.bind(f.ex(in.Args[0]))
				u := f.typeOf(in.Args[0]).Underlying().(*types.Map)
				n := f.tmp()
				f.emit("let r_%s = any_order::<%s, %s>(Ghost(%s));", n, vtype(u.Key()), vtype(u.Elem()), m)
				f.emit("let ghost %s = r_%s@;", n, n)
				el := u.Key()
				if calleeName(f.p, in) == "maps.Values" {
					el = u.Elem()
					k := n
					n = f.tmp()
					f.emit("let ghost %s = %s.map_values(|k: %s| %s[k]);", n, k, vtype(u.Key()), m)
				}
				switch name {
				case "slices.Sorted":
					return []string{f.sorted(n, el)}
				case "slices.SortedFunc":
					l := f.cmpLambda(nil, el, c.Args[1])
					f.strictWeak(l)
					return f.execLib("sort_any::<"+vtype(el)+">", 1, n, l)
				}
				return []string{n}
			case "slices.Values":
				el := f.typeOf(in.Args[0]).Underlying().(*types.Slice).Elem()
				switch name {
				case "slices.Sorted":
					return []string{f.sorted(f.ex(in.Args[0]), el)}
				case "slices.Collect":
					return []string{f.ex(in.Args[0])}
				}
			}
		}
		fail("%s of another iterator", name)
		return nil
	})
	lib("slices.Contains slices.Index", func(f *fnTr, c *ast.CallExpr) []string {
		el := f.typeOf(c.Args[0]).Underlying().(*types.Slice).Elem()
		switch vtype(el) {
		case "Str", "int", "i64", "u64", "u8", "bool":
		default:
			fail("search of %s", el)
		}
		s, x := f.ex(c.Args[0]), f.exTo(c.Args[1], el)
		if strings.HasSuffix(calleeFunc(f.p, c).FullName(), "Index") {
			return f.pureCall("seq_index", s, x)
		}
		return []string{paren(s) + ".contains(" + x + ")"}
	})
	lib("slices.Equal", func(f *fnTr, c *ast.CallExpr) []string {
		el := f.typeOf(c.Args[0]).Underlying().(*types.Slice).Elem()
		switch vtype(el) {
		case "Str", "int", "i64", "u64", "u8", "bool":
		default:
			fail("comparison of %s", el)
		}
		return []string{"(" + paren(f.ex(c.Args[0])) + " =~= " + f.ex(c.Args[1]) + ")"}
	})
	lib("slices.ContainsFunc slices.IndexFunc", func(f *fnTr, c *ast.CallExpr) []string {
		el := f.typeOf(c.Args[0]).Underlying().(*types.Slice).Elem()
		x := f.bind(f.ex(c.Args[0]))
		p, ok := f.predLambda(c.Args[1], vtype(el))
		pn := f.bind(p)
		if !strings.HasSuffix(ok, "| true") {
			on := f.bind(ok)
			f.assert("the predicate does not panic", fmt.Sprintf("forall|i: int| 0 <= i < %s.len() ==> %s(#[trigger] %s[i])", paren(x), on, paren(x)), c)
		}
		if strings.HasSuffix(calleeFunc(f.p, c).FullName(), "IndexFunc") {
			return f.pureCall("seq_index_where", x, pn)
		}
		return []string{fmt.Sprintf("(exists|i: int| 0 <= i < %s.len() && %s(#[trigger] %s[i]))", paren(x), pn, paren(x))}
	})
	lib("slices.Concat", func(f *fnTr, c *ast.CallExpr) []string {
		if c.Ellipsis.IsValid() || len(c.Args) == 0 {
			fail("slices.Concat of a list")
		}
		var es []string
		for _, x := range c.Args {
			es = append(es, f.exTo(x, f.typeOf(c.Args[0])))
		}
		return []string{"(" + strings.Join(es, " + ") + ")"}
	})
	lib("slices.Insert", func(f *fnTr, c *ast.CallExpr) []string {
		t := f.typeOf(c.Args[0])
		el := t.Underlying().(*types.Slice).Elem()
		s, i := f.bind(f.ex(c.Args[0])), f.bind(f.exInt(c.Args[1]))
		f.assert("index in range", fmt.Sprintf("0 <= %s <= %s.len()", i, paren(s)), c)
		mid := "Seq::<" + vtype(el) + ">::empty()"
		for _, x := range c.Args[2:] {
			if c.Ellipsis.IsValid() {
				mid = f.exTo(x, t)
				break
			}
			mid += ".push(" + f.exTo(x, el) + ")"
		}
		return []string{fmt.Sprintf("(%s.take(%s) + %s + %s.skip(%s))", paren(s), i, mid, paren(s), i)}
	})
	lib("slices.Delete", func(f *fnTr, c *ast.CallExpr) []string {
		s, i, j := f.bind(f.ex(c.Args[0])), f.bind(f.exInt(c.Args[1])), f.bind(f.exInt(c.Args[2]))
		f.assert("slice bounds in range", fmt.Sprintf("0 <= %s <= %s <= %s.len()", i, j, paren(s)), c)
		return []string{fmt.Sprintf("(%s.take(%s) + %s.skip(%s))", paren(s), i, paren(s), j)}
	})
	lib("slices.Reverse", func(f *fnTr, c *ast.CallExpr) []string {
		f.store(c.Args[0], paren(f.ex(c.Args[0]))+".reverse()")
		return nil
	})
	lib("maps.Copy", func(f *fnTr, c *ast.CallExpr) []string {
		x := f.ex(c.Args[0])
		f.store(c.Args[0], paren(x)+".union_prefer_right("+f.ex(c.Args[1])+")")
		return nil
	})
	lib("sort.Slice", func(f *fnTr, c *ast.CallExpr) []string {
		l := f.lessLambda(c.Args[0], c.Args[1])
		f.strictWeak(l)
		r := f.execLib("sort_any::<"+vtype(f.typeOf(c.Args[0]).Underlying().(*types.Slice).Elem())+">", 1, f.ex(c.Args[0]), l)
		f.store(c.Args[0], r[0])
		return nil
	})
	lib("sort.SliceStable", func(f *fnTr, c *ast.CallExpr) []string {
		l := f.lessLambda(c.Args[0], c.Args[1])
		f.strictWeak(l)
		r := f.execLib("sort_stable::<"+vtype(f.typeOf(c.Args[0]).Underlying().(*types.Slice).Elem())+">", 1, f.ex(c.Args[0]), l)
		f.store(c.Args[0], r[0])
		return nil
	})
	lib("sort.Search", func(f *fnTr, c *ast.CallExpr) []string {
		n := f.exInt(c.Args[0])
		p, side := f.predLambda(c.Args[1], "int")
		return f.execLib("sort_search", 1, n, p, side)
	})
}

// sorted sorts values of an ordered type.
func (f *fnTr) sorted(x string, el types.Type) string {
	vt := vtype(el)
	l := "|a: Str, b: Str| str_lt(a, b)"
	switch vt {
	case "Str":
		f.emit("proof { broadcast use group_str_lt; reveal(strict_weak); assert(strict_weak(%s)); }", l)
	case "int", "i64", "u64", "u8":
		l = fmt.Sprintf("|a: %s, b: %s| a < b", vt, vt)
		f.strictWeak(l)
	default:
		fail("sort of %s", el)
	}
	return f.execLib("sort_any::<"+vt+">", 1, x, l)[0]
}

func calleeName(p *Pkg, c *ast.CallExpr) string {
	if fn := calleeFunc(p, c); fn != nil {
		return fn.FullName()
	}
	return ""
}

func isConstInt(f *fnTr, e ast.Expr, n int64) bool {
	tv := f.p.Info.Types[e]
	if tv.Value == nil {
		return false
	}
	v, ok := constant.Int64Val(tv.Value)
	return ok && v == n
}
