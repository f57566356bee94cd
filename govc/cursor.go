package main

// Cursors: local variables that walk down the nested maps of a tree the
// function builds (cur := root; cur = cur[k].(map[string]any); cur[k] = v).
// A cursor is translated as a path into its root, so that a write through it is
// a write to the root. That is right as long as every map on the path is held
// by the tree alone: the translation keeps the set of paths at which the tree
// holds a map or slice made for that place (own_<root>), and each step, write
// and append has the obligation that the path is in it.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
)

type cursor struct {
	root, path, live string
}

func isAnyMap(t types.Type) bool {
	m, ok := unalias(t).Underlying().(*types.Map)
	if !ok || !isAny(m.Elem()) {
		return false
	}
	b, ok := m.Key().Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

// stepOf matches c[k].(map[string]any) for a local variable c.
func stepOf(p *Pkg, e ast.Expr) (c *ast.Ident, k ast.Expr) {
	ta, ok := ast.Unparen(e).(*ast.TypeAssertExpr)
	if !ok || ta.Type == nil || !isAnyMap(p.Info.TypeOf(ta.Type)) {
		return nil, nil
	}
	ix, ok := ast.Unparen(ta.X).(*ast.IndexExpr)
	if !ok {
		return nil, nil
	}
	c, _ = ast.Unparen(ix.X).(*ast.Ident)
	if c == nil || !isAnyMap(p.Info.TypeOf(c)) {
		return nil, nil
	}
	return c, ix.Index
}

// cursorVars gives the variables of a package that step into nested maps.
func (t *Tr) cursorVars(p *Pkg) map[types.Object]bool {
	if r, ok := t.curVars[p]; ok {
		return r
	}
	r := map[types.Object]bool{}
	for _, f := range p.Files {
		ast.Inspect(f, func(n ast.Node) bool {
			s, ok := n.(*ast.AssignStmt)
			if !ok || s.Tok != token.ASSIGN || len(s.Lhs) != 1 || len(s.Rhs) != 1 {
				return true
			}
			id, ok := s.Lhs[0].(*ast.Ident)
			if !ok {
				return true
			}
			if c, _ := stepOf(p, s.Rhs[0]); c != nil && p.Info.Uses[c] == p.Info.Uses[id] {
				r[p.Info.Uses[id]] = true
			}
			return true
		})
	}
	// only those that start as another variable
	starts := map[types.Object]bool{}
	if t.curRoot == nil {
		t.curRoot = map[types.Object]types.Object{}
	}
	for _, f := range p.Files {
		ast.Inspect(f, func(n ast.Node) bool {
			s, ok := n.(*ast.AssignStmt)
			if ok && s.Tok == token.DEFINE && len(s.Lhs) == 1 && len(s.Rhs) == 1 {
				if id, ok := s.Lhs[0].(*ast.Ident); ok && r[p.Info.Defs[id]] {
					if x, ok := ast.Unparen(s.Rhs[0]).(*ast.Ident); ok {
						if v, ok := p.Info.Uses[x].(*types.Var); ok {
							starts[p.Info.Defs[id]] = true
							t.curRoot[p.Info.Defs[id]] = v
						}
					}
				}
			}
			return true
		})
	}
	for o := range r {
		if !starts[o] {
			delete(r, o)
			delete(t.curRoot, o)
		}
	}
	t.curVars[p] = r
	return r
}

func (f *fnTr) cursorOf(e ast.Expr) *cursor {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return nil
	}
	o := f.p.Info.Uses[id]
	if o == nil {
		o = f.p.Info.Defs[id]
	}
	return f.cursors[o]
}

// rootOf gives the ghost variable of a map that cursors may walk.
func (f *fnTr) rootOf(e ast.Expr) string {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return ""
	}
	g := f.scope[f.p.Info.Uses[id]]
	if g == nil || f.owns[g.name] == "" {
		return ""
	}
	return g.name
}

// noteRoot declares the set of owned paths for a new map variable.
func (f *fnTr) noteRoot(g *GV) {
	if len(f.t.cursorVars(f.p)) == 0 || !isAnyMap(g.typ) {
		return
	}
	n := "own_" + g.name
	f.owns[g.name] = n
	f.t.cursorUsed = true
	f.emit("let ghost mut %s: Set<Seq<Str>> = Set::empty();", n)
}

// lost is called when a map may become reachable from elsewhere.
func (f *fnTr) lost(root string) {
	if f.inLambda > 0 {
		fail("tree %s inside a function literal", root)
	}
	f.emit("proof { %s = Set::empty(); }", f.owns[root])
	vis := map[string]bool(nil)
	for _, c := range f.cursors {
		if c.root == root {
			if vis == nil {
				vis = f.visible()
			}
			if vis[c.live] {
				f.emit("proof { %s = %s && %s.len() == 0; }", c.live, c.live, c.path)
			}
		}
	}
}

// dead makes the cursors of a root unusable, except one.
func (f *fnTr) dead(root string, keep *cursor) {
	vis := map[string]bool(nil)
	for _, c := range f.cursors {
		if c.root == root && c != keep {
			if vis == nil {
				vis = f.visible()
			}
			if vis[c.live] {
				f.emit("proof { %s = false; }", c.live)
			}
		}
	}
}

func (c *cursor) value() string { return fmt.Sprintf("walk(%s, %s)", c.root, c.path) }

// defineCursor translates cur := root.
func (f *fnTr) defineCursor(id *ast.Ident, rhs ast.Expr) bool {
	o := f.p.Info.Defs[id]
	if o == nil || !f.t.cursorVars(f.p)[o] {
		return false
	}
	x, ok := ast.Unparen(rhs).(*ast.Ident)
	if !ok {
		return false
	}
	g := f.variable(x)
	if f.cursorOf(x) != nil {
		fail("cursor %s starts at another cursor", id.Name)
	}
	if f.owns[g.name] == "" {
		f.noteRoot(g)
	}
	if f.owns[g.name] == "" {
		fail("cursor %s", id.Name)
	}
	pn := f.declName(id.Name + "_path")
	c := &cursor{root: g.name, path: pn, live: f.declName(id.Name + "_live")}
	f.emit("let ghost mut %s: Seq<Str> = Seq::empty();", c.path)
	f.emit("let ghost mut %s: bool = true;", c.live)
	f.cursors[o] = c
	f.t.cursorUsed = true
	return true
}

// assignCursor translates cur = cur[k].(map[string]any) and cur = root.
func (f *fnTr) assignCursor(c *cursor, rhs ast.Expr, n ast.Node) {
	if x, ok := ast.Unparen(rhs).(*ast.Ident); ok {
		if f.cursorOf(x) == nil && f.variable(x).name == c.root {
			f.emit("proof { %s = Seq::empty(); %s = true; }", c.path, c.live)
			return
		}
		fail("cursor assigned %s", x.Name)
	}
	id, k := stepOf(f.p, rhs)
	if id == nil || f.cursorOf(id) != c {
		fail("cursor assigned %s", types.ExprString(rhs))
	}
	ks := f.bind(f.ex(k))
	f.assert("cursor is in the tree", c.live, n)
	f.assert("type assertion holds", fmt.Sprintf("mget(%s, %s, Any::Nil) is M", c.value(), ks), n)
	f.assert("map stepped into is held by the tree alone", fmt.Sprintf("%s.contains(%s.push(%s))", f.owns[c.root], c.path, ks), n)
	f.emit("proof { %s = %s.push(%s); }", c.path, c.path, ks)
}

// storeCursor translates cur[k] = rhs.
func (f *fnTr) storeCursor(c *cursor, l *ast.IndexExpr, rhs ast.Expr, n ast.Node) {
	k := f.bind(f.ex(l.Index))
	anyT := types.Universe.Lookup("any").Type()
	q := fmt.Sprintf("%s.push(%s)", c.path, k)
	own := f.owns[c.root]
	f.assert("cursor is in the tree", c.live, n)
	kind := "other"
	var v string
	if call, ok := ast.Unparen(rhs).(*ast.CallExpr); ok {
		if id, ok := ast.Unparen(call.Fun).(*ast.Ident); ok {
			if _, ok := f.p.Info.Uses[id].(*types.Builtin); ok {
				switch id.Name {
				case "make":
					kind = "make"
				case "append":
					if ta, ok := ast.Unparen(call.Args[0]).(*ast.TypeAssertExpr); ok && ta.Type != nil && !call.Ellipsis.IsValid() {
						if ix, ok := ast.Unparen(ta.X).(*ast.IndexExpr); ok && f.cursorOf(ix.X) == c && types.ExprString(ix.Index) == types.ExprString(l.Index) && !hasCall(ix.Index) {
							kind = "append"
							x := f.bind(fmt.Sprintf("mget(%s, %s, Any::Nil)", c.value(), k))
							test, val := ifaceTest(x, anyT, f.typeOf(ta.Type))
							f.assert("type assertion holds", test, n)
							f.assert("slice appended to is held by the tree alone", fmt.Sprintf("%s.contains(%s)", own, q), n)
							v = "(" + val + ")"
							el := f.typeOf(ta.Type).Underlying().(*types.Slice).Elem()
							for _, a := range call.Args[1:] {
								v += ".push(" + f.exTo(a, el) + ")"
							}
							v = convTo(v, f.typeOf(ta.Type), anyT)
						}
					}
				}
			}
		}
	}
	if kind != "append" {
		v = f.exTo(rhs, anyT)
	}
	v = f.bind(v)
	f.set(c.root, fmt.Sprintf("put_at(%s, %s, %s, %s)", c.root, c.path, k, v))
	f.dead(c.root, c)
	switch kind {
	case "make":
		f.emit("proof { %s = own_cut(%s, %s).insert(%s); }", own, own, q, q)
	case "other":
		f.emit("proof { %s = own_cut(%s, %s); }", own, own, q)
	}
}

const cursorSpecs = `// ==== cursors: paths into nested maps
pub open spec fn walk(m: Map<Str, Any>, p: Seq<Str>) -> Map<Str, Any>
    decreases p.len(),
{
    if p.len() == 0 { m } else { walk(mget(m, p[0], Any::Nil)->M_0, p.skip(1)) }
}
pub open spec fn put_at(m: Map<Str, Any>, p: Seq<Str>, k: Str, v: Any) -> Map<Str, Any>
    decreases p.len(),
{
    if p.len() == 0 { m.insert(k, v) } else { m.insert(p[0], Any::M(put_at(mget(m, p[0], Any::Nil)->M_0, p.skip(1), k, v))) }
}
pub open spec fn path_prefix(p: Seq<Str>, q: Seq<Str>) -> bool { p.len() <= q.len() && q.take(p.len() as int) =~= p }
pub open spec fn own_cut(own: Set<Seq<Str>>, q: Seq<Str>) -> Set<Seq<Str>> { own.filter(|p: Seq<Str>| !path_prefix(q, p)) }
`

// ---- ownership: a cursor stands for its root. That the maps and slices below
// the root are held by the tree alone is decided by the obligations above.

func (a *oan) cursorRoot(o types.Object) types.Object {
	if o == nil || !a.t.cursorVars(a.p)[o] {
		return nil
	}
	return a.t.curRoot[o]
}

func (a *oan) isCursor(e ast.Expr) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return false
	}
	o := a.p.Info.Uses[id]
	if o == nil {
		o = a.p.Info.Defs[id]
	}
	return a.cursorRoot(o) != nil
}

// assignCursor handles cur := root, cur = cur[k].(map[string]any) and
// cur[k] = append(cur[k].([]any), ...).
func (a *oan) assignCursor(l, r ast.Expr, n ast.Node) bool {
	if a.isCursor(l) {
		a.eval(r)
		return true
	}
	ix, ok := ast.Unparen(l).(*ast.IndexExpr)
	if !ok || !a.isCursor(ix.X) {
		return false
	}
	c, ok := ast.Unparen(r).(*ast.CallExpr)
	if !ok || !a.isBuiltin(c, "append") || c.Ellipsis.IsValid() {
		return false
	}
	ta, ok := ast.Unparen(c.Args[0]).(*ast.TypeAssertExpr)
	if !ok || types.ExprString(ta.X) != types.ExprString(ix) {
		return false
	}
	a.eval(ix.Index)
	for _, e := range c.Args[1:] {
		a.capture(a.eval(e), "it was stored in a container at "+a.at(n))
	}
	base := a.eval(ix.X)
	p, _ := a.pathOf(ix.X)
	for c := range base.cells {
		if c > cFrozen {
			a.st.elems[c] = false
		}
	}
	a.write(n, base, &p, true, a.keyObj(ix.Index))
	return true
}

func isMake(p *Pkg, c *ast.CallExpr) bool {
	id, ok := ast.Unparen(c.Fun).(*ast.Ident)
	if !ok {
		return false
	}
	_, ok = p.Info.Uses[id].(*types.Builtin)
	return ok && id.Name == "make"
}
