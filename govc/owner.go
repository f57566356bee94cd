package main

// Ownership obligations. The translation treats slices, maps and documents as
// values, which is right only if no write through one variable shows up in
// another live one. This pass decides that for every translated function: an
// interprocedural abstract interpretation of the syntax tree over memory cells
// (one recent and one old cell per allocation site), with an obligation for
// every write in place, every hand-over and every history at a function exit:
//
//   - a write in place (index assignment, delete, clear, copy, sort, append to
//     a prefix) must reach only cells this function owns; every other variable
//     that may reach them is stale afterwards and must not be read again
//   - append must extend owned cells; other variables that may reach them must
//     not be written afterwards
//   - a cell is given up when it is stored in a container or handed to a
//     function that keeps it; data of parameters is never owned (unless the
//     contract says "owns")
//   - Version, Snapshots, Patches and PatchPool of a history are owned and
//     unshared at every call and exit, and its maps are not nil
//   - nothing is assigned in a nil map

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type ownRes struct {
	n     int
	fails []string
}

type path struct {
	obj   types.Object
	field string
}

type cell int

const (
	cNil    cell = 1
	cFrozen cell = 2
)

type aval struct {
	cells  map[cell]bool
	noapp  string // not writable through this value, and why
	inner  bool   // may end before the end of its memory
	fields map[string]aval
	temp   bool
}

func (a aval) with(b aval) aval {
	r := aval{cells: map[cell]bool{}, noapp: a.noapp, inner: a.inner || b.inner}
	if r.noapp == "" {
		r.noapp = b.noapp
	}
	for c := range a.cells {
		r.cells[c] = true
	}
	for c := range b.cells {
		r.cells[c] = true
	}
	return r
}

type ostate struct {
	vars   map[path]aval
	stale  map[path]string
	frozen map[cell]string
	elems  map[cell]bool // elements owned through the container only
	pend   map[cell]string
}

func newState() *ostate {
	return &ostate{map[path]aval{}, map[path]string{}, map[cell]string{cFrozen: "shared"}, map[cell]bool{}, map[cell]string{}}
}

func (s *ostate) clone() *ostate {
	n := newState()
	for k, v := range s.vars {
		n.vars[k] = v
	}
	for k, v := range s.stale {
		n.stale[k] = v
	}
	for k, v := range s.frozen {
		n.frozen[k] = v
	}
	for k, v := range s.elems {
		n.elems[k] = v
	}
	for k, v := range s.pend {
		n.pend[k] = v
	}
	return n
}

func joinState(a, b *ostate) *ostate {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	a.gc()
	b.gc()
	n := a.clone()
	for k, v := range b.vars {
		if w, ok := n.vars[k]; ok {
			n.vars[k] = w.with(v)
		} else {
			n.vars[k] = v
		}
	}
	for k, v := range b.stale {
		if n.stale[k] == "" {
			n.stale[k] = v
		}
	}
	for k, v := range b.frozen {
		if n.frozen[k] == "" {
			n.frozen[k] = v
		}
	}
	for k, v := range b.elems {
		if w, ok := n.elems[k]; ok {
			n.elems[k] = w && v
		} else {
			n.elems[k] = v
		}
	}
	for k, v := range b.pend {
		if w := n.pend[k]; w != v {
			n.pend[k] = ""
			if strings.HasPrefix(v, "dirty:") || strings.HasPrefix(w, "dirty:") {
				n.pend[k] = "dirty:?"
			}
		}
	}
	return n
}

// gc drops what is known of cells that no variable can reach any more.
func (s *ostate) gc() {
	live := map[cell]bool{cFrozen: true}
	for _, v := range s.vars {
		for c := range v.cells {
			live[c] = true
			if c < 0 {
				live[-c] = true
			}
		}
	}
	for c := range s.frozen {
		if !live[c] {
			delete(s.frozen, c)
		}
	}
	for c := range s.elems {
		if !live[c] {
			delete(s.elems, c)
		}
	}
	for c := range s.pend {
		if !live[c] {
			delete(s.pend, c)
		}
	}
}

func (s *ostate) dirty(c cell) bool { return strings.HasPrefix(s.pend[c], "dirty:") }

func (s *ostate) sig() string {
	if s == nil {
		return ""
	}
	var r []string
	for p, v := range s.vars {
		var cs []int
		for c := range v.cells {
			cs = append(cs, int(c))
		}
		sort.Ints(cs)
		r = append(r, fmt.Sprint("v", p.obj.Pos(), p.obj.Name(), p.field, cs, v.noapp != "", v.inner))
	}
	for p, v := range s.stale {
		r = append(r, fmt.Sprint("s", p.obj.Pos(), p.obj.Name(), p.field, v != ""))
	}
	for c, v := range s.frozen {
		r = append(r, fmt.Sprint("f", c, v != ""))
	}
	for c, v := range s.elems {
		r = append(r, fmt.Sprint("e", c, v))
	}
	for c, v := range s.pend {
		r = append(r, fmt.Sprint("p", c, v))
	}
	sort.Strings(r)
	return strings.Join(r, ";")
}

type resSum struct {
	params          map[int]bool
	frozen, nilMay  bool
	fresh, elemsOwn bool
	set             bool
}

type fieldEff struct{ elem, app, rebind bool }

type ownSum struct {
	res      []resSum
	captured map[int]bool
	field    map[string]fieldEff // of the receiver (histories)
}

type loopRec struct{ brk, cont *ostate }

type oframe struct {
	fi     *FnInfo
	named  []types.Object
	ret    *ostate
	vals   []aval
	recv   types.Object
	inline bool
	robj   []types.Object
}

type oan struct {
	t      *Tr
	w      *World
	fi     *FnInfo
	ct     *Contract
	sums   map[string]*ownSum
	ids    map[string]cell
	params map[cell]int
	fcells map[cell]string // entry cells of the receiver's fields
	eff    map[string]fieldEff
	capt   map[int]bool
	st     *ostate
	frames []*oframe
	loops  []*loopRec
	labels map[string]int
	sites  map[string]bool
	fails  map[string]bool
	hidden []hid
	ctx    string
	report bool
	p      *Pkg
	bound  map[types.Object]*obound // parameters of function type
	into   *obound
}

type obound struct {
	fi   *FnInfo
	inst map[*types.TypeParam]types.Type
}

type hid struct {
	path path
	key  types.Object
	base string
}

func ownership(t *Tr, w *World, pc PropConf) ownRes {
	assume := map[string]bool{}
	for _, a := range pc.Assume {
		assume[a] = true
	}
	sums := map[string]*ownSum{}
	var keys []string
	for _, k := range t.order {
		if t.fns[k] != nil && t.fns[k].body != nil {
			keys = append(keys, k)
		}
	}
	var res ownRes
	run := func(k string, rep bool) (a *oan, sum *ownSum, err string) {
		a = &oan{t: t, w: w, bound: map[types.Object]*obound{}, fi: t.fns[k], p: t.fns[k].pkg, ct: t.cts[k], sums: sums, ids: map[string]cell{}, params: map[cell]int{}, fcells: map[cell]string{},
			eff: map[string]fieldEff{}, capt: map[int]bool{}, sites: map[string]bool{}, fails: map[string]bool{}, report: rep}
		defer func() {
			if r := recover(); r != nil {
				e, ok := r.(transErr)
				if !ok {
					panic(r)
				}
				err = e.msg
			}
		}()
		sum = a.function()
		return
	}
	for round := 0; round < 12; round++ {
		before := fmt.Sprint(sumText(sums))
		for _, k := range keys {
			if _, s, e := run(k, false); e == "" {
				sums[k] = s
			}
		}
		if fmt.Sprint(sumText(sums)) == before {
			break
		}
	}
	seen := map[string]bool{}
	sites := map[string]bool{}
	for _, k := range keys {
		if assume[k] || (t.cts[k] != nil && t.cts[k].External) {
			continue
		}
		a, _, e := run(k, true)
		if e != "" && !seen[k+e] {
			seen[k+e] = true
			res.fails = append(res.fails, k+": outside the ownership analysis: "+e)
		}
		for s := range a.sites {
			sites[k+" "+s] = true
		}
		for f := range a.fails {
			if !seen[f] {
				seen[f] = true
				res.fails = append(res.fails, f)
			}
		}
	}
	res.n = len(sites)
	sort.Strings(res.fails)
	return res
}

func sumText(m map[string]*ownSum) string {
	var r []string
	for k, s := range m {
		r = append(r, fmt.Sprint(k, s.res, s.captured, s.field))
	}
	sort.Strings(r)
	return strings.Join(r, "\n")
}

// ---------------------------------------------------------------- helpers

func (a *oan) at(n ast.Node) string {
	ps := a.w.fset.Position(n.Pos())
	rel, err := filepath.Rel(a.w.repo, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

func (a *oan) bad(n ast.Node, format string, args ...any) {
	a.fails[a.fi.key+" at "+a.at(n)+": "+fmt.Sprintf(format, args...)] = true
}

func (a *oan) site(n ast.Node, what string) {
	a.sites[fmt.Sprintf("%s %s %d", what, a.at(n), n.Pos())] = true
}

func (a *oan) id(key string) cell {
	if c, ok := a.ids[key]; ok {
		return c
	}
	c := cell(len(a.ids)*2 + 10) // even: recent; odd: old
	a.ids[key] = c
	return c
}

// fresh allocates: the site's previous object becomes the old one.
func (a *oan) fresh(n ast.Node, tag string) aval {
	if a.st == nil {
		return aval{}
	}
	c := a.id(fmt.Sprintf("%s@%d%s", a.ctx, n.Pos(), tag))
	old := c + 1
	used, oldUsed := false, false
	for _, v := range a.st.vars {
		oldUsed = oldUsed || v.cells[old]
	}
	if !oldUsed { // no variable refers to the old objects any more
		delete(a.st.frozen, old)
		delete(a.st.elems, old)
		delete(a.st.pend, old)
	}
	for p, v := range a.st.vars {
		if v.cells[c] {
			used = true
			nv := v.with(aval{})
			delete(nv.cells, c)
			nv.cells[old] = true
			a.st.vars[p] = nv
		}
	}
	if used {
		if f := a.st.frozen[c]; f != "" && a.st.frozen[old] == "" {
			a.st.frozen[old] = f
		}
		if e, ok := a.st.elems[old]; ok {
			a.st.elems[old] = e && a.st.elems[c]
		} else {
			a.st.elems[old] = a.st.elems[c]
		}
	}
	delete(a.st.frozen, c)
	delete(a.st.pend, c)
	a.st.elems[c] = true
	return aval{cells: map[cell]bool{c: true}, temp: true}
}

func frozenVal(why string) aval {
	return aval{cells: map[cell]bool{cFrozen: true}, noapp: why}
}

func holds(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := unalias(t).Underlying().(type) {
	case *types.Slice, *types.Map, *types.Interface, *types.Struct, *types.Pointer:
		if isErr(t) || namedKey(t) == "strings.Builder" || leafKind(t) != "" {
			return false
		}
		return true
	case *types.Tuple:
		_ = u
	}
	return false
}

func (a *oan) typeOf(e ast.Expr) types.Type {
	if id, ok := ast.Unparen(e).(*ast.Ident); ok {
		if o := a.p.Info.Uses[id]; o != nil {
			return sub(o.Type())
		}
		if o := a.p.Info.Defs[id]; o != nil {
			return sub(o.Type())
		}
	}
	return sub(a.p.Info.Types[e].Type)
}

func isLgm(t types.Type) bool {
	t, _ = derefType(t)
	return namedKey(t) == "logument.Logument"
}

var lgmFields = []string{"Version", "Snapshots", "Patches", "PatchPool"}

// pathOf gives the access path of a variable or of a field of a variable.
func (a *oan) pathOf(e ast.Expr) (path, bool) {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		o := a.p.Info.Uses[e]
		if o == nil {
			o = a.p.Info.Defs[e]
		}
		if r := a.cursorRoot(o); r != nil {
			o = r
		}
		if v, ok := o.(*types.Var); ok {
			return path{v, ""}, true
		}
	case *ast.SelectorExpr:
		if id, ok := ast.Unparen(e.X).(*ast.Ident); ok {
			if v, ok := a.p.Info.Uses[id].(*types.Var); ok {
				return path{v, e.Sel.Name}, true
			}
		}
		if st, ok := ast.Unparen(e.X).(*ast.StarExpr); ok {
			return a.pathOf(&ast.SelectorExpr{X: st.X, Sel: e.Sel})
		}
	case *ast.StarExpr:
		return a.pathOf(e.X)
	}
	return path{}, false
}

func (a *oan) read(p path, n ast.Node) aval {
	if a.st == nil {
		return aval{}
	}
	if why := a.st.stale[p]; why != "" {
		a.bad(n, "%s is read although its memory %s", p, why)
	}
	if v, ok := a.st.vars[p]; ok {
		return v
	}
	if p.field != "" { // field of a plain struct value or of a pointer not tracked
		if v, ok := a.st.vars[path{p.obj, ""}]; ok {
			if why := a.st.stale[path{p.obj, ""}]; why != "" {
				a.bad(n, "%s is read although its memory %s", p, why)
			}
			if len(v.cells) == 0 {
				return v
			}
			r := v.with(aval{})
			r.noapp = "field of a shared structure"
			return r
		}
	}
	return frozenVal("not created in this function")
}

func (p path) String() string {
	if p.field != "" {
		return p.obj.Name() + "." + p.field
	}
	return p.obj.Name()
}

func (a *oan) bind(p path, v aval) {
	v.temp = false
	fs := v.fields
	v.fields = nil
	a.st.vars[p] = v
	delete(a.st.stale, p)
	if p.field == "" {
		for q := range a.st.vars {
			if q.obj == p.obj && q.field != "" {
				delete(a.st.vars, q)
				delete(a.st.stale, q)
			}
		}
		for f, fv := range fs {
			a.bind(path{p.obj, f}, fv)
		}
	}
	if f := a.recvField(p); f != "" {
		e := a.eff[f]
		e.rebind = true
		a.eff[f] = e
	}
}

func (a *oan) recvField(p path) string {
	if p.field == "" || len(a.frames) == 0 || p.obj != a.frames[0].recv {
		return ""
	}
	return p.field
}

// capture gives up the cells of v: they are reachable from somewhere else now.
func (a *oan) capture(v aval, why string) {
	if a.st == nil {
		return
	}
	for c := range v.cells {
		if c == cNil || c == cFrozen {
			continue
		}
		if k, ok := a.params[c]; ok {
			a.capt[k] = true
		}
		if base, ok := a.elemBase(c); ok {
			a.st.elems[base] = false
			continue
		}
		if a.st.frozen[c] == "" {
			a.st.frozen[c] = why
		}
	}
	for _, f := range v.fields {
		a.capture(f, why)
	}
}

// cells of elements: negative ids
func elemCell(c cell) cell { return -c }

func (a *oan) elemBase(c cell) (cell, bool) {
	if c < 0 {
		return -c, true
	}
	return 0, false
}

func (a *oan) frozenWhy(c cell) string {
	if b, ok := a.elemBase(c); ok {
		if !a.st.elems[b] {
			return "is shared as an element of a container"
		}
		return ""
	}
	return a.st.frozen[c]
}

// load gives the value of an element of v.
func (a *oan) load(v aval, typ types.Type) aval {
	if !holds(typ) {
		return aval{}
	}
	r := aval{cells: map[cell]bool{}, noapp: "is an element of a container"}
	for c := range v.cells {
		if c > cFrozen && a.st.elems[c] && !a.st.dirty(c) {
			r.cells[elemCell(c)] = true
		} else if c != cNil {
			r.cells[cFrozen] = true
		}
	}
	return r
}

func (a *oan) overlap(x, y aval) bool {
	for c := range x.cells {
		if c != cNil && y.cells[c] {
			return true
		}
	}
	return false
}

// write checks a write in place through v (held by path via, if any).
func (a *oan) write(n ast.Node, v aval, via *path, elem bool, key types.Object) {
	if a.st == nil {
		return
	}
	a.site(n, "write")
	if v.noapp != "" {
		a.bad(n, "write to memory that %s", v.noapp)
		return
	}
	for c := range v.cells {
		if c == cNil {
			continue
		}
		if why := a.frozenWhy(c); why != "" {
			a.bad(n, "write to memory that is not owned here: %s", why)
			return
		}
		if f, ok := a.fcells[c]; ok {
			e := a.eff[f]
			e.elem = e.elem || elem
			e.app = e.app || !elem
			a.eff[f] = e
		}
	}
	for p, w := range a.st.vars {
		if via != nil && p == *via || !a.overlap(v, w) {
			continue
		}
		if via != nil && p.obj == via.obj && p.field == "" && via.field != "" {
			continue
		}
		skip := false
		for _, h := range a.hidden {
			if h.path == p && key != nil && h.key == key {
				skip = true
			}
		}
		if skip {
			continue
		}
		if elem {
			if a.st.stale[p] == "" {
				a.st.stale[p] = "was overwritten at " + a.at(n)
			}
		} else {
			w = w.with(aval{})
			w.noapp = "may share its end with the slice extended at " + a.at(n)
			a.st.vars[p] = w
		}
	}
}

func (a *oan) checkLgm(n ast.Node, what string) {
	if a.st == nil {
		return
	}
	type ref struct {
		p path
		v aval
	}
	var all []ref
	objs := map[types.Object]bool{}
	for p := range a.st.vars {
		if p.field != "" && isLgm(p.obj.Type()) {
			objs[p.obj] = true
		}
	}
	for o := range objs {
		for _, f := range lgmFields {
			p := path{o, f}
			v, ok := a.st.vars[p]
			if !ok {
				continue
			}
			a.site(n, what+" "+p.String())
			all = append(all, ref{p, v})
			if why := a.st.stale[p]; why != "" {
				a.bad(n, "%s: the memory of %s %s", what, p, why)
			}
			if v.inner {
				a.bad(n, "%s: %s may end before the end of its memory", what, p)
			}
			if v.noapp != "" {
				a.bad(n, "%s: %s %s", what, p, v.noapp)
			}
			for c := range v.cells {
				if c == cNil {
					if f == "Snapshots" || f == "Patches" {
						a.bad(n, "%s: the map %s may be nil", what, p)
					}
				} else if why := a.frozenWhy(c); why != "" {
					a.bad(n, "%s: the memory of %s is shared: %s", what, p, why)
				}
			}
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].p.String() < all[j].p.String() })
	for i := range all {
		for j := i + 1; j < len(all); j++ {
			if all[i].p != all[j].p && a.overlap(all[i].v, all[j].v) {
				a.bad(n, "%s: %s and %s share memory", what, all[i].p, all[j].p)
			}
		}
	}
}

// ---------------------------------------------------------------- functions

func (a *oan) function() *ownSum {
	a.st = newState()
	fr := &oframe{fi: a.fi}
	a.frames = []*oframe{fr}
	k := 0
	entry := func(fl *ast.FieldList, isRecv bool) {
		if fl == nil {
			return
		}
		for _, fd := range fl.List {
			names := fd.Names
			if len(names) == 0 {
				k++
			}
			for _, n := range names {
				o := a.fi.pkg.Info.Defs[n]
				if o == nil {
					k++
					continue
				}
				if isLgm(o.Type()) {
					if isRecv {
						fr.recv = o
					}
					for _, f := range lgmFields {
						c := a.id(fmt.Sprintf("field %s.%s", n.Name, f))
						a.st.elems[c] = false
						if isRecv {
							a.fcells[c] = f
						}
						a.st.vars[path{o, f}] = aval{cells: map[cell]bool{c: true}}
					}
					a.st.vars[path{o, "CurrentState"}] = frozenVal("is shared")
				} else if holds(o.Type()) {
					c := a.id(fmt.Sprintf("param %d", k))
					a.params[c] = k
					a.st.elems[c] = false
					if a.ct == nil || !a.ct.Owns[a.ctName(k)] {
						a.st.frozen[c] = "it belongs to the caller (parameter " + n.Name + ")"
					}
					a.st.vars[path{o, ""}] = aval{cells: map[cell]bool{c: true}}
				}
				k++
			}
		}
	}
	entry(a.fi.recv, true)
	entry(a.fi.typ.Params, false)
	a.namedResults(fr)
	a.body(fr)
	sum := &ownSum{captured: a.capt, field: a.eff}
	nres := a.fi.sig.Results().Len()
	for i := 0; i < nres; i++ {
		rs := resSum{params: map[int]bool{}, set: true, elemsOwn: true}
		if i < len(fr.vals) {
			v := fr.vals[i]
			for c := range v.cells {
				if k, ok := a.params[c]; ok {
					rs.params[k] = true
				} else if c == cNil {
					rs.nilMay = true
				} else if fr.ret != nil && (a.frozenIn(fr.ret, c) || a.fcells[c] != "") {
					rs.frozen = true
				} else {
					rs.fresh = true
					rs.elemsOwn = rs.elemsOwn && fr.ret != nil && fr.ret.elems[c]
				}
			}
			if v.inner || v.noapp != "" {
				rs.frozen = true
			}
		}
		sum.res = append(sum.res, rs)
	}
	return sum
}

func (a *oan) frozenIn(s *ostate, c cell) bool {
	if b, ok := a.elemBase(c); ok {
		return !s.elems[b] || true
	}
	return s.frozen[c] != ""
}

func (a *oan) ctName(k int) string {
	if a.ct != nil && k < len(a.ct.Params) {
		return a.ct.Params[k]
	}
	return ""
}

func (a *oan) namedResults(fr *oframe) {
	if fr.fi.typ.Results == nil {
		return
	}
	for _, fd := range fr.fi.typ.Results.List {
		for _, n := range fd.Names {
			o := fr.fi.pkg.Info.Defs[n]
			fr.named = append(fr.named, o)
			if o != nil && holds(o.Type()) {
				a.st.vars[path{o, ""}] = aval{cells: map[cell]bool{cNil: true}}
			}
		}
	}
}

func (a *oan) body(fr *oframe) {
	a.block(fr.fi.body.List)
	if a.st != nil {
		a.leave(fr.fi.body, nil)
	}
}

func (a *oan) leave(n ast.Node, vals []aval) {
	if a.st == nil {
		return
	}
	fr := a.frames[len(a.frames)-1]
	if len(a.frames) == 1 {
		// a returned history must own its memory as well
		for _, v := range vals {
			a.lgmLiteral(n, v)
			for c := range v.cells {
				if f, ok := a.fcells[c]; ok {
					a.bad(n, "the memory of the history's %s is returned", f)
				}
				if b, ok := a.elemBase(c); ok {
					a.st.elems[b] = false
				}
			}
		}
		a.checkLgm(n, "at return")
	}
	for i, v := range vals {
		for i >= len(fr.vals) {
			fr.vals = append(fr.vals, aval{cells: map[cell]bool{}})
		}
		v.fields = mergeFields(fr.vals[i].fields, v.fields)
		fs := v.fields
		fr.vals[i] = fr.vals[i].with(v)
		fr.vals[i].fields = fs
	}
	for i, v := range vals { // keep what is known of the results
		for i >= len(fr.robj) {
			fr.robj = append(fr.robj, types.NewVar(token.NoPos, nil, fmt.Sprintf("result %d", len(fr.robj)), types.Typ[types.Int]))
		}
		all := v.with(aval{})
		for _, f := range v.fields {
			all = all.with(f)
		}
		a.st.vars[path{fr.robj[i], ""}] = all
	}
	fr.ret = joinState(fr.ret, a.st)
	a.st = nil
}

func mergeFields(a, b map[string]aval) map[string]aval {
	if a == nil {
		return b
	}
	r := map[string]aval{}
	for k, v := range a {
		r[k] = v
	}
	for k, v := range b {
		if w, ok := r[k]; ok {
			r[k] = w.with(v)
		} else {
			r[k] = v
		}
	}
	return r
}

// lgmLiteral checks a history value that is not held by a variable.
func (a *oan) lgmLiteral(n ast.Node, v aval) {
	if a.st == nil {
		return
	}
	for _, f := range lgmFields {
		w, ok := v.fields[f]
		if !ok {
			continue
		}
		a.site(n, "history "+f)
		for c := range w.cells {
			if c == cNil {
				if f == "Snapshots" || f == "Patches" {
					a.bad(n, "the map %s of the new history may be nil", f)
				}
			} else if why := a.frozenWhy(c); why != "" {
				a.bad(n, "the memory of %s of the new history is shared: %s", f, why)
			} else {
				for p, u := range a.st.vars {
					if p.field != "" && isLgm(p.obj.Type()) && u.cells[c] {
						a.bad(n, "%s of the new history shares its memory with %s", f, p)
					}
				}
			}
		}
		if w.noapp != "" || w.inner {
			a.bad(n, "%s of the new history does not own the end of its memory", f)
		}
		for g, u := range v.fields {
			if g < f && a.overlap(u, w) {
				a.bad(n, "%s and %s of the new history share memory", g, f)
			}
		}
	}
}

// ---------------------------------------------------------------- statements

func (a *oan) block(l []ast.Stmt) {
	for _, s := range l {
		if a.st == nil {
			return
		}
		a.stmt(s)
	}
}

func (a *oan) stmt(s ast.Stmt) {
	switch s := s.(type) {
	case *ast.BlockStmt:
		a.block(s.List)
	case *ast.EmptyStmt:
	case *ast.DeclStmt:
		gd, ok := s.Decl.(*ast.GenDecl)
		if !ok {
			return
		}
		for _, sp := range gd.Specs {
			vs, ok := sp.(*ast.ValueSpec)
			if !ok {
				continue
			}
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					if o := a.p.Info.Defs[n]; o != nil {
						a.declareZero(o)
					}
				}
				continue
			}
			a.assign(identExprs(vs.Names), vs.Values, s)
		}
	case *ast.AssignStmt:
		if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
			a.eval(s.Lhs[0])
			a.eval(s.Rhs[0])
			return
		}
		a.assign(s.Lhs, s.Rhs, s)
	case *ast.IncDecStmt:
		a.eval(s.X)
	case *ast.ExprStmt:
		a.eval(s.X)
	case *ast.ReturnStmt:
		fr := a.frames[len(a.frames)-1]
		var vals []aval
		if len(s.Results) == 0 {
			for _, o := range fr.named {
				if o != nil && holds(o.Type()) {
					vals = append(vals, a.read(path{o, ""}, s))
				} else {
					vals = append(vals, aval{})
				}
			}
		} else {
			vals = a.evalList(s.Results)
		}
		a.leave(s, vals)
	case *ast.IfStmt:
		if s.Init != nil {
			a.stmt(s.Init)
		}
		if a.st == nil {
			return
		}
		a.eval(s.Cond)
		before := a.st.clone()
		a.block(s.Body.List)
		then := a.st
		a.st = before
		if s.Else != nil {
			a.stmt(s.Else)
		}
		a.st = joinState(then, a.st)
	case *ast.ForStmt:
		if s.Init != nil {
			a.stmt(s.Init)
		}
		a.loop(s.Body, func() bool {
			if s.Cond != nil {
				a.eval(s.Cond)
			}
			return s.Cond != nil
		}, func() { a.block(s.Body.List) }, func() {
			if s.Post != nil {
				a.stmt(s.Post)
			}
		})
	case *ast.RangeStmt:
		a.rangeStmt(s)
	case *ast.SwitchStmt:
		if s.Init != nil {
			a.stmt(s.Init)
		}
		if s.Tag != nil {
			a.eval(s.Tag)
		}
		a.cases(s.Body, nil)
	case *ast.TypeSwitchStmt:
		if s.Init != nil {
			a.stmt(s.Init)
		}
		var x ast.Expr
		switch as := s.Assign.(type) {
		case *ast.ExprStmt:
			x = as.X.(*ast.TypeAssertExpr).X
		case *ast.AssignStmt:
			x = as.Rhs[0].(*ast.TypeAssertExpr).X
		}
		v := a.eval(x)
		a.cases(s.Body, func(cc *ast.CaseClause) {
			if o := a.p.Info.Implicits[cc]; o != nil && holds(o.Type()) {
				a.bind(path{o, ""}, v)
			}
		})
	case *ast.BranchStmt:
		if s.Label != nil || s.Tok == token.GOTO || s.Tok == token.FALLTHROUGH {
			fail("%s with label or fallthrough", s.Tok)
		}
		l := a.loops[len(a.loops)-1]
		if s.Tok == token.BREAK {
			l.brk = joinState(l.brk, a.st)
		} else {
			for i := len(a.loops) - 1; i >= 0; i-- {
				if l = a.loops[i]; !a.isSwitch(l) {
					break
				}
			}
			l.cont = joinState(l.cont, a.st)
		}
		a.st = nil
	default:
		fail("statement %T", s)
	}
}

var switchRec = map[*loopRec]bool{}

func (a *oan) isSwitch(l *loopRec) bool { return switchRec[l] }

func (a *oan) cases(body *ast.BlockStmt, pre func(*ast.CaseClause)) {
	l := &loopRec{}
	switchRec[l] = true
	a.loops = append(a.loops, l)
	before := a.st
	var out *ostate
	hasDef := false
	for _, c := range body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			hasDef = true
		}
		a.st = before.clone()
		for _, e := range cc.List {
			if tv := a.p.Info.Types[e]; !tv.IsType() && !tv.IsNil() {
				a.eval(e)
			}
		}
		if pre != nil {
			pre(cc)
		}
		a.block(cc.Body)
		out = joinState(out, a.st)
	}
	if !hasDef {
		out = joinState(out, before.clone())
	}
	a.loops = a.loops[:len(a.loops)-1]
	delete(switchRec, l)
	a.st = joinState(out, l.brk)
}

// scopeEnd forgets the variables declared in a loop body.
func (a *oan) scopeEnd(s *ostate, n ast.Node) {
	if s == nil {
		return
	}
	for p := range s.vars {
		if p.obj.Pos() >= n.Pos() && p.obj.Pos() < n.End() {
			delete(s.vars, p)
			delete(s.stale, p)
		}
	}
}

func (a *oan) loop(n ast.Node, head func() bool, body func(), post func()) {
	cur := a.st
	for i := 0; ; i++ {
		a.st = cur.clone()
		l := &loopRec{}
		a.loops = append(a.loops, l)
		exits := head()
		var exit *ostate
		if exits {
			exit = a.st.clone()
		}
		body()
		a.st = joinState(a.st, l.cont)
		a.scopeEnd(a.st, n)
		if a.st != nil {
			post()
		}
		a.loops = a.loops[:len(a.loops)-1]
		next := joinState(cur.clone(), a.st)
		if next.sig() == cur.sig() || i > 30 {
			if i > 30 {
				fail("ownership analysis of a loop does not converge")
			}
			a.st = joinState(exit, l.brk)
			return
		}
		cur = next
	}
}

func (a *oan) rangeStmt(s *ast.RangeStmt) {
	orig := s
	s = plainRange(a.p, s)
	v := a.eval(s.X)
	xt := a.typeOf(s.X)
	isMap := false
	var elem, keyT types.Type
	switch u := xt.Underlying().(type) {
	case *types.Slice:
		elem = u.Elem()
	case *types.Map:
		isMap = true
		elem, keyT = u.Elem(), u.Key()
	}
	_ = keyT
	hasVal := s.Value != nil
	if id, ok := s.Value.(*ast.Ident); ok && id.Name == "_" {
		hasVal = false
	}
	var h *path
	if isMap || hasVal {
		var key types.Object
		if id, ok := s.Key.(*ast.Ident); ok {
			key = a.p.Info.Defs[id]
		}
		o := types.NewVar(s.Pos(), a.p.Types, "range over "+types.ExprString(s.X), xt)
		for _, x := range a.hidden { // one object per statement
			_ = x
		}
		p := path{a.hiddenObj(orig, o), ""}
		h = &p
		a.bind(p, v)
		a.hidden = append(a.hidden, hid{path: p, key: key})
	}
	a.loop(s.Body, func() bool {
		if h != nil {
			v = a.read(*h, s)
		}
		return true
	}, func() {
		if s.Key != nil && s.Tok == token.ASSIGN {
			a.store(s.Key, aval{}, s)
		}
		if hasVal && elem != nil && holds(elem) {
			ev := a.load(v, elem)
			if s.Tok == token.DEFINE {
				if o := a.p.Info.Defs[s.Value.(*ast.Ident)]; o != nil {
					a.bind(path{o, ""}, ev)
				}
			} else {
				a.store(s.Value, ev, s)
			}
		}
		a.block(s.Body.List)
	}, func() {})
	if h != nil {
		a.hidden = a.hidden[:len(a.hidden)-1]
		if a.st != nil {
			delete(a.st.vars, *h)
			delete(a.st.stale, *h)
		}
	}
}

var hiddenObjs = map[ast.Node]types.Object{}

func (a *oan) hiddenObj(n ast.Node, o types.Object) types.Object {
	if x, ok := hiddenObjs[n]; ok {
		return x
	}
	hiddenObjs[n] = o
	return o
}

func (a *oan) declareZero(o types.Object) {
	if holds(o.Type()) {
		if isLgm(o.Type()) {
			if _, ptr := derefType(o.Type()); !ptr {
				fail("history value declared without constructor")
			}
		}
		a.bind(path{o, ""}, aval{cells: map[cell]bool{cNil: true}})
	}
}

func (a *oan) assign(lhs, rhs []ast.Expr, n ast.Node) {
	if len(lhs) == len(rhs) {
		for i := range lhs {
			if lit, ok := rhs[i].(*ast.FuncLit); ok {
				_ = lit
				if len(lhs) == 1 {
					return
				}
				fail("function value in a multiple assignment")
			}
		}
	}
	if len(lhs) == 1 && len(rhs) == 1 && a.assignCursor(lhs[0], rhs[0], n) {
		return
	}
	// x[k] = append(x[k], ...): the element stays owned by its container
	if len(lhs) == 1 && len(rhs) == 1 {
		if ix, ok := ast.Unparen(lhs[0]).(*ast.IndexExpr); ok {
			if a.appendInPlace(ix, rhs[0], n) {
				return
			}
		}
		if p, ok := a.pathOf(lhs[0]); ok && p.field == "" {
			if ix, ok := ast.Unparen(rhs[0]).(*ast.IndexExpr); ok && holds(a.typeOf(ix)) {
				v := a.eval(ix)
				only := len(v.cells) > 0
				for c := range v.cells {
					if c >= 0 {
						only = false
					}
				}
				if only && !isIface(a.typeOf(ix)) && simpleExpr(ix.X) && simpleExpr(ix.Index) {
					a.forget(p.obj)
					v.noapp = "" // may be extended if it is stored back under the same key
					a.bind(p, v)
					for c := range v.cells {
						b, _ := a.elemBase(c)
						a.st.pend[b] = p.String() + "=" + types.ExprString(ix)
					}
					return
				}
			}
		}
	}
	var vals []aval
	if len(rhs) == len(lhs) {
		vals = a.evalList(rhs)
	} else {
		vals = a.evalMulti(rhs[0], len(lhs))
	}
	for i, l := range lhs {
		a.store(l, vals[i], n)
	}
}

func simpleExpr(e ast.Expr) bool {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return simpleExpr(e.X)
	case *ast.BinaryExpr:
		return simpleExpr(e.X) && simpleExpr(e.Y)
	case *ast.IndexExpr:
		return simpleExpr(e.X) && simpleExpr(e.Index)
	}
	return false
}

func (a *oan) appendInPlace(ix *ast.IndexExpr, r ast.Expr, n ast.Node) bool {
	c, ok := ast.Unparen(r).(*ast.CallExpr)
	if !ok || !a.isBuiltin(c, "append") {
		return false
	}
	b, ok := ast.Unparen(c.Args[0]).(*ast.IndexExpr)
	if !ok || !simpleExpr(ix) || types.ExprString(b) != types.ExprString(ix) {
		return false
	}
	base := a.eval(ix.X)
	for x := range base.cells {
		if x == cNil || x <= cFrozen && x >= 0 || x < 0 || !a.st.elems[x] || a.st.dirty(x) {
			return false
		}
	}
	a.eval(ix.Index)
	elem := a.typeOf(ix)
	for i, e := range c.Args[1:] {
		v := a.eval(e)
		if !(i == 0 && c.Ellipsis.IsValid()) {
			a.capture(v, "it was stored in a container at "+a.at(n))
		}
	}
	ev := a.load(base, elem)
	ev.noapp = ""
	a.write(n, ev, nil, false, nil)
	via, has := a.pathOf(ix.X)
	var vp *path
	if has {
		vp = &via
	}
	a.write(n, base, vp, true, a.keyObj(ix.Index))
	return true
}

func (a *oan) keyObj(e ast.Expr) types.Object {
	if id, ok := ast.Unparen(e).(*ast.Ident); ok {
		return a.p.Info.Uses[id]
	}
	return nil
}

func (a *oan) store(l ast.Expr, v aval, n ast.Node) {
	if a.st == nil {
		return
	}
	switch l := ast.Unparen(l).(type) {
	case *ast.Ident:
		if l.Name == "_" {
			return
		}
		o := a.p.Info.Defs[l]
		if o == nil {
			o = a.p.Info.Uses[l]
		}
		if !holds(o.Type()) {
			return
		}
		a.forget(o)
		a.bind(path{o, ""}, v)
	case *ast.StarExpr:
		if p, ok := a.pathOf(l); ok {
			a.capture(v, "it was stored through a pointer at "+a.at(n))
			a.bind(p, frozenVal("was stored through a pointer"))
		}
	case *ast.SelectorExpr:
		if !holds(a.typeOf(l)) {
			return
		}
		p, ok := a.pathOf(l)
		if !ok {
			fail("assignment to field %s", types.ExprString(l))
		}
		if isLgm(p.obj.Type()) {
			if p.field == "CurrentState" {
				a.capture(v, "it was stored in the history at "+a.at(n))
			}
			a.bind(p, v)
			return
		}
		// field of a plain structure
		a.capture(v, "it was stored in a field at "+a.at(n))
		w := a.st.vars[path{p.obj, ""}].with(v)
		a.st.vars[path{p.obj, ""}] = w
	case *ast.IndexExpr:
		base := a.eval(l.X)
		a.eval(l.Index)
		via, has := a.pathOf(l.X)
		var vp *path
		if has {
			vp = &via
		}
		for c := range base.cells {
			if c == cNil {
				if _, ok := a.typeOf(l.X).Underlying().(*types.Map); ok {
					a.bad(n, "assignment in the map %s, which may be nil", types.ExprString(l.X))
				}
			}
		}
		if holds(a.typeOf(l)) {
			a.putElem(base, v, l, n)
		}
		a.write(n, base, vp, true, a.keyObj(l.Index))
	default:
		fail("assignment to %T", l)
	}
}

// forget drops pending elements whose key or container variable changes.
func (a *oan) forget(o types.Object) {
	for c, v := range a.st.pend {
		i := strings.Index(v, "=")
		if i < 0 || !wordIn(v[i:], o.Name()) {
			continue
		}
		if strings.HasPrefix(v, "dirty:") {
			a.st.pend[c] = "dirty:?"
		} else {
			a.st.pend[c] = ""
		}
	}
}

func wordIn(s, w string) bool {
	return regexp.MustCompile(`\b` + regexp.QuoteMeta(w) + `\b`).MatchString(s)
}

// putElem stores v as an element of base.
func (a *oan) putElem(base, v aval, l *ast.IndexExpr, n ast.Node) {
	own := v.noapp == "" && !v.inner
	for c := range v.cells {
		if c == cNil {
			continue
		}
		if b, ok := a.elemBase(c); ok { // loaded from this container under the same key?
			same := base.cells[b] && len(base.cells) == 1
			if !(same && strings.HasSuffix(a.st.pend[b], "="+types.ExprString(l)) && a.st.elems[b]) {
				own = false
			}
			continue
		}
		if a.st.frozen[c] != "" || a.fcells[c] != "" {
			own = false
		}
		if _, ok := a.params[c]; ok {
			own = false
		}
	}
	for c := range base.cells {
		if c <= cFrozen || !a.st.elems[c] {
			own = false
		}
		if a.st.dirty(c) && !v.cells[elemCell(c)] {
			own = false
		}
	}
	if own {
		for c := range v.cells {
			if b, ok := a.elemBase(c); ok {
				a.st.pend[b] = ""
			}
		}
		// variables that still hold the element may not extend it any more
		for p, w := range a.st.vars {
			if a.overlap(v, w) {
				w = w.with(aval{})
				for c := range v.cells {
					if c > cFrozen && w.cells[c] {
						delete(w.cells, c)
						for b := range base.cells {
							w.cells[elemCell(b)] = true
						}
					}
				}
				w.noapp = "was stored in a container at " + a.at(n)
				a.st.vars[p] = w
			}
		}
		return
	}
	for c := range v.cells {
		if b, ok := a.elemBase(c); ok && !base.cells[b] {
			a.st.elems[b] = false
		}
	}
	a.capture(v, "it was stored in a container at "+a.at(n))
	for c := range base.cells {
		if c > cFrozen {
			if len(v.cells) > 0 {
				a.st.elems[c] = false
			}
		}
	}
}

// ---------------------------------------------------------------- expressions

func (a *oan) isBuiltin(c *ast.CallExpr, name string) bool {
	id, ok := ast.Unparen(c.Fun).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = a.p.Info.Uses[id].(*types.Builtin)
	return ok
}

func (a *oan) evalList(l []ast.Expr) []aval {
	if len(l) == 1 {
		if c, ok := ast.Unparen(l[0]).(*ast.CallExpr); ok {
			if tp, ok := a.p.Info.Types[c].Type.(*types.Tuple); ok {
				return a.evalMulti(l[0], tp.Len())
			}
		}
	}
	var r []aval
	for _, e := range l {
		r = append(r, a.eval(e))
	}
	return r
}

func (a *oan) evalMulti(e ast.Expr, n int) []aval {
	r := make([]aval, n)
	switch x := ast.Unparen(e).(type) {
	case *ast.CallExpr:
		vs := a.call(x)
		copy(r, vs)
	default: // v, ok := m[k], x.(T)
		r[0] = a.eval(e)
	}
	return r
}

func (a *oan) eval(e ast.Expr) aval {
	if a.st == nil {
		return aval{}
	}
	tv := a.p.Info.Types[e]
	if tv.IsNil() {
		return aval{cells: map[cell]bool{cNil: true}}
	}
	if tv.Value != nil || tv.IsType() {
		return aval{}
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return a.eval(e.X)
	case *ast.Ident:
		o := a.p.Info.Uses[e]
		v, ok := o.(*types.Var)
		if !ok || !holds(v.Type()) {
			return aval{}
		}
		if isLgm(v.Type()) {
			return aval{}
		}
		if r := a.cursorRoot(o); r != nil {
			v = r.(*types.Var)
		}
		return a.read(path{v, ""}, e)
	case *ast.BasicLit:
		return aval{}
	case *ast.BinaryExpr:
		a.eval(e.X)
		if e.Op == token.LAND || e.Op == token.LOR { // the second operand may not be evaluated
			before := a.st.clone()
			a.eval(e.Y)
			a.st = joinState(before, a.st)
		} else {
			a.eval(e.Y)
		}
		return aval{}
	case *ast.UnaryExpr:
		if e.Op == token.AND {
			if cl, ok := ast.Unparen(e.X).(*ast.CompositeLit); ok {
				return a.eval(cl)
			}
			return a.eval(e.X)
		}
		a.eval(e.X)
		return aval{}
	case *ast.StarExpr:
		return a.eval(e.X)
	case *ast.SelectorExpr:
		if _, ok := a.p.Info.Selections[e]; !ok {
			return aval{} // package-level
		}
		if p, ok := a.pathOf(e); ok {
			if !holds(a.typeOf(e)) {
				if why := a.st.stale[path{p.obj, ""}]; why != "" {
					a.bad(e, "%s is read although its memory %s", p.obj.Name(), why)
				}
				return aval{}
			}
			return a.read(p, e)
		}
		v := a.eval(e.X)
		if !holds(a.typeOf(e)) {
			return aval{}
		}
		if len(v.cells) > 0 {
			v.noapp = "is a field of a shared structure"
		}
		return v
	case *ast.IndexExpr:
		v := a.eval(e.X)
		a.eval(e.Index)
		t := a.p.Info.Types[e].Type
		if tp, ok := t.(*types.Tuple); ok {
			t = tp.At(0).Type()
		}
		return a.load(v, t)
	case *ast.SliceExpr:
		v := a.eval(e.X)
		for _, x := range []ast.Expr{e.Low, e.High} {
			if x != nil {
				a.eval(x)
			}
		}
		if _, ok := a.typeOf(e.X).Underlying().(*types.Slice); !ok {
			return aval{}
		}
		r := v.with(aval{})
		if e.High != nil {
			r.inner = true
		}
		return r
	case *ast.TypeAssertExpr:
		return a.eval(e.X)
	case *ast.CompositeLit:
		return a.composite(e)
	case *ast.CallExpr:
		vs := a.call(e)
		if len(vs) == 0 {
			return aval{}
		}
		return vs[0]
	case *ast.FuncLit:
		a.funcLit(e)
		return aval{}
	}
	fail("expression %T", e)
	return aval{}
}

func (a *oan) composite(e *ast.CompositeLit) aval {
	t := a.p.Info.Types[e].Type
	t, _ = derefType(t)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		r := aval{cells: map[cell]bool{}, fields: map[string]aval{}}
		lg := isLgm(t)
		given := map[string]bool{}
		for i, el := range e.Elts {
			name := ""
			x := el
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				name = kv.Key.(*ast.Ident).Name
				x = kv.Value
			} else {
				name = u.Field(i).Name()
			}
			given[name] = true
			v := a.eval(x)
			if lg {
				if name == "CurrentState" {
					a.capture(v, "it was stored in the history at "+a.at(e))
				}
				r.fields[name] = v
				// two fields given the same variable share it
				continue
			}
			a.capture(v, "it was stored in a structure at "+a.at(e))
			r = r.with(v)
		}
		if lg {
			for _, f := range lgmFields {
				if !given[f] {
					r.fields[f] = aval{cells: map[cell]bool{cNil: true}}
				}
			}
			a.lgmLiteral(e, r)
			return r
		}
		r.fields = nil
		if len(r.cells) > 0 {
			r.noapp = "is part of a structure"
		}
		return r
	case *types.Slice, *types.Map, *types.Array:
		f := a.fresh(e, "")
		a.bindTemp(e, f)
		for _, el := range e.Elts {
			x := el
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				a.eval(kv.Key)
				x = kv.Value
			}
			var v aval
			if cl, ok := x.(*ast.CompositeLit); ok && cl.Type == nil {
				v = a.composite(cl)
			} else {
				v = a.eval(x)
			}
			a.capture(v, "it was stored in a container at "+a.at(e))
			if len(v.cells) > 0 {
				for c := range f.cells {
					a.st.elems[c] = false
				}
			}
		}
		return f
	}
	return aval{}
}

func (a *oan) bindTemp(e ast.Node, v aval) {}

func (a *oan) funcLit(e *ast.FuncLit) {
	// a function literal given to a library function: it may run any number of
	// times and must not write
	saved := a.st
	a.st = saved.clone()
	for _, fd := range e.Type.Params.List {
		for _, n := range fd.Names {
			if o := a.p.Info.Defs[n]; o != nil && holds(o.Type()) {
				a.bind(path{o, ""}, frozenVal("is an element being compared"))
			}
		}
	}
	fi := &FnInfo{key: "literal", pkg: a.p, typ: e.Type, body: e.Body, sig: a.p.Info.Types[e].Type.(*types.Signature), lit: e}
	fr := &oframe{fi: fi, inline: true}
	a.frames = append(a.frames, fr)
	loops := a.loops
	a.loops = nil
	a.block(e.Body.List)
	a.loops = loops
	a.frames = a.frames[:len(a.frames)-1]
	a.st = saved
}

var ownWriters = map[string]bool{ // first argument is written in place
	"sort.Strings": true, "sort.Slice": true, "sort.SliceStable": true, "sort.Ints": true, "sort.Sort": true, "sort.Stable": true,
	"slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true, "slices.Reverse": true, "maps.Copy": true,
	"maps.DeleteFunc": true, "slices.Delete": true, "slices.Insert": true, "slices.Replace": true, "slices.Compact": true,
	"slices.CompactFunc": true, "slices.DeleteFunc": true,
}

var ownReturns = map[string]bool{ // the result replaces the first argument
	"slices.Delete": true, "slices.Insert": true, "slices.Replace": true, "slices.Compact": true, "slices.CompactFunc": true, "slices.DeleteFunc": true,
}

var ownShares = map[string]bool{
	"slices.Delete": true, "slices.Insert": true, "slices.Replace": true, "slices.Compact": true, "slices.CompactFunc": true, "slices.DeleteFunc": true,
	"maps.Copy": true, "slices.Concat": true, "slices.Collect": true, "slices.Sorted": true, "slices.SortedFunc": true, "maps.Values": true, "slices.Values": true,
}

func (a *oan) call(c *ast.CallExpr) []aval {
	info := a.p.Info
	if tv := info.Types[c.Fun]; tv.IsType() {
		v := a.eval(c.Args[0])
		from, to := a.typeOf(c.Args[0]), tv.Type
		if !holds(to) {
			return []aval{{}}
		}
		if from != nil {
			if b, ok := from.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return []aval{a.fresh(c, "conv")}
			}
		}
		return []aval{v}
	}
	if lit, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok {
		return a.inline(a.t.litInfo(a.p, a.fi.key, lit), c, nil)
	}
	if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		o := info.Uses[id]
		if _, ok := o.(*types.Builtin); ok {
			return a.builtin(id.Name, c)
		}
		if b := a.bound[o]; b != nil {
			if b.fi.rec || b.fi.lit == nil && a.t.cts[b.fi.key] != nil {
				return a.callSum(b.fi.key, b.fi, c, nil)
			}
			a.into = b
			return a.inline(b.fi, c, nil)
		}
		if fi := a.t.litOf[o]; fi != nil {
			if fi.rec {
				return a.callSum(fi.key, fi, c, nil)
			}
			return a.inline(fi, c, nil)
		}
	}
	fn := calleeFunc(a.p, c)
	if fn == nil {
		fail("call of a function value")
	}
	if fn.Pkg() != nil && a.w.pkgs[fn.Pkg().Path()] != nil {
		key := funcKey(fn)
		fi := a.t.fns[key]
		if fi == nil || fi.body == nil {
			fail("call of %s, which has no body", key)
		}
		var recv ast.Expr
		if fi.recv != nil {
			recv = ast.Unparen(c.Fun).(*ast.SelectorExpr).X
		}
		if a.t.cts[key] == nil {
			return a.inline(fi, c, recv)
		}
		return a.callSum(key, fi, c, recv)
	}
	// library
	name := fn.FullName()
	var args []aval
	if sel, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr); ok {
		if s, ok := info.Selections[sel]; ok && s.Kind() == types.MethodVal {
			args = append(args, a.eval(sel.X))
		}
	}
	n := len(args)
	for _, x := range c.Args {
		args = append(args, a.eval(x))
	}
	if ownWriters[name] {
		via, has := a.pathOf(c.Args[0])
		var vp *path
		if has && !ownReturns[name] { // otherwise the variable is left with memory that was overwritten
			vp = &via
		}
		a.write(c, args[n], vp, true, nil)
	}
	if ownShares[name] && a.st != nil { // elements of the arguments end up in the first one or in the result
		for _, v := range args[n:] {
			for x := range v.cells {
				if x > cFrozen {
					a.st.elems[x] = false
				}
			}
		}
		for _, v := range args[n+1:] {
			if name == "slices.Insert" && !c.Ellipsis.IsValid() {
				a.capture(v, "it was stored in a container at "+a.at(c))
			}
		}
	}
	for _, x := range c.Args { // results through pointers
		if u, ok := ast.Unparen(x).(*ast.UnaryExpr); ok && u.Op == token.AND {
			if p, ok := a.pathOf(u.X); ok && holds(p.obj.Type()) {
				switch name {
				case "encoding/json.Unmarshal", "(*encoding/json.Decoder).Decode":
					v := a.fresh(x, "json")
					v.cells[cNil] = true
					a.bind(p, v)
				case "fmt.Fprintf":
				default:
					a.bind(p, frozenVal("was set through a pointer"))
				}
			}
		}
	}
	var rs []aval
	for i := 0; i < fn.Type().(*types.Signature).Results().Len(); i++ {
		t := fn.Type().(*types.Signature).Results().At(i).Type()
		if tp := info.Types[c].Type; i == 0 && tp != nil {
			if _, ok := tp.(*types.Tuple); !ok {
				t = tp
			}
		}
		if !holds(t) {
			rs = append(rs, aval{})
			continue
		}
		switch name {
		case "maps.Clone", "slices.Clone":
			v := a.fresh(c, "")
			for x := range v.cells { // elements are shared with the original
				a.st.elems[x] = false
			}
			if args[n].cells[cNil] {
				v.cells[cNil] = true
			}
			for x := range args[n].cells {
				if x > cFrozen {
					a.st.elems[x] = false
				}
			}
			rs = append(rs, v)
		case "slices.Concat", "slices.Collect", "slices.Sorted", "slices.SortedFunc":
			v := a.fresh(c, "")
			for x := range v.cells {
				a.st.elems[x] = false
			}
			rs = append(rs, v)
		case "bytes.Clone", "strings.Split", "strings.Fields", "encoding/json.Marshal", "strings.SplitN", "encoding/json.MarshalIndent":
			rs = append(rs, a.fresh(c, ""))
		case "slices.Delete", "slices.Insert", "slices.Replace", "slices.Compact", "slices.CompactFunc", "slices.DeleteFunc":
			rs = append(rs, args[n].with(a.fresh(c, "")))
		default:
			v := frozenVal("comes from a library function")
			for _, x := range args {
				v = v.with(x)
			}
			rs = append(rs, v)
		}
	}
	return rs
}

func (a *oan) builtin(name string, c *ast.CallExpr) []aval {
	viaOf := func(e ast.Expr) *path {
		if p, ok := a.pathOf(e); ok {
			return &p
		}
		return nil
	}
	switch name {
	case "append":
		base := a.eval(c.Args[0])
		hasElems := false
		for i, x := range c.Args[1:] {
			var v aval
			if cl, ok := x.(*ast.CompositeLit); ok && cl.Type == nil {
				v = a.composite(cl)
			} else {
				v = a.eval(x)
			}
			if i == 0 && c.Ellipsis.IsValid() {
				if el, ok := a.typeOf(x).Underlying().(*types.Slice); ok && holds(el.Elem()) {
					hasElems = true
					for k := range v.cells {
						if k > cFrozen {
							a.st.elems[k] = false
						}
					}
				}
			} else if len(v.cells) > 0 {
				hasElems = true
				a.capture(v, "it was stored in a container at "+a.at(c))
			}
		}
		r := a.fresh(c, "")
		if !onlyNil(base) {
			if base.inner {
				a.write(c, base, nil, true, nil)
			} else {
				a.write(c, base, nil, false, nil)
			}
			for x := range base.cells {
				r.cells[x] = true
				if b, ok := a.elemBase(x); ok && a.st.pend[b] != "" && !a.st.dirty(b) {
					a.st.pend[b] = "dirty:" + a.st.pend[b]
				} else if ok {
					a.st.pend[b] = "dirty:?"
				}
			}
			delete(r.cells, cNil)
		}
		if hasElems {
			for x := range r.cells {
				if x > cFrozen {
					a.st.elems[x] = false
				}
			}
		}
		r.temp = true
		return []aval{r}
	case "make":
		for _, x := range c.Args[1:] {
			a.eval(x)
		}
		return []aval{a.fresh(c, "")}
	case "new":
		return []aval{{cells: map[cell]bool{cNil: true}}}
	case "delete", "clear":
		v := a.eval(c.Args[0])
		var key types.Object
		if name == "delete" {
			a.eval(c.Args[1])
			key = a.keyObj(c.Args[1])
		}
		a.write(c, v, viaOf(c.Args[0]), true, key)
		return nil
	case "copy":
		v := a.eval(c.Args[0])
		s := a.eval(c.Args[1])
		if sl, ok := a.typeOf(c.Args[0]).Underlying().(*types.Slice); ok && holds(sl.Elem()) {
			for _, w := range []aval{v, s} {
				for x := range w.cells {
					if x > cFrozen {
						a.st.elems[x] = false
					}
				}
			}
		}
		a.write(c, v, viaOf(c.Args[0]), true, nil)
		return []aval{{}}
	case "panic":
		for _, x := range c.Args {
			a.eval(x)
		}
		a.st = nil
		return nil
	}
	for _, x := range c.Args {
		a.eval(x)
	}
	return []aval{{}}
}

func onlyNil(v aval) bool {
	for c := range v.cells {
		if c != cNil {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- calls

type oarg struct {
	expr ast.Expr
	obj  types.Object // formal
	typ  types.Type
	val  aval
	lgm  types.Object // actual, for histories
}

func (a *oan) args(fi *FnInfo, c *ast.CallExpr, recv ast.Expr) []oarg {
	var r []oarg
	var exprs []ast.Expr
	if recv != nil {
		exprs = append(exprs, recv)
	}
	exprs = append(exprs, c.Args...)
	i := 0
	add := func(fl *ast.FieldList) {
		if fl == nil {
			return
		}
		for _, fd := range fl.List {
			ns := fd.Names
			if len(ns) == 0 {
				ns = []*ast.Ident{nil}
			}
			for _, n := range ns {
				if i >= len(exprs) {
					fail("call of %s", fi.key)
				}
				g := oarg{expr: exprs[i], typ: fi.pkg.Info.TypeOf(fd.Type)}
				if n != nil {
					g.obj = fi.pkg.Info.Defs[n]
				}
				if isFuncType(g.typ) {
					ff, param := a.t.funcArg(a.p, a.fi.key, g.expr)
					b := a.bound[param]
					if ff != nil {
						b = &obound{fi: ff, inst: tsubst}
					}
					if b == nil {
						fail("function value %s", types.ExprString(g.expr))
					}
					if g.obj != nil {
						a.bound[g.obj] = b
					}
				} else if isLgm(g.typ) {
					if p, ok := a.pathOf(pointee(g.expr)); ok && p.field == "" {
						g.lgm = p.obj
					} else {
						fail("history argument %s", types.ExprString(g.expr))
					}
				} else {
					g.val = a.eval(g.expr)
				}
				r = append(r, g)
				i++
			}
		}
	}
	add(fi.recv)
	add(fi.typ.Params)
	return r
}

func (a *oan) callSum(key string, fi *FnInfo, c *ast.CallExpr, recv ast.Expr) []aval {
	as := a.args(fi, c, recv)
	if a.st == nil {
		return nil
	}
	sum := a.sums[key]
	if sum == nil { // not analysed yet: bottom
		sum = &ownSum{captured: map[int]bool{}, field: map[string]fieldEff{}}
	}
	ct := a.t.cts[key]
	hasLgm := false
	for i, g := range as {
		if g.lgm != nil {
			hasLgm = true
			continue
		}
		if sum.captured[i] {
			a.capture(g.val, "it was handed to "+key+" at "+a.at(c))
		}
		if ct != nil && i < len(ct.Params) && ct.Owns[ct.Params[i]] {
			var vp *path
			if p, ok := a.pathOf(g.expr); ok {
				vp = &p
			}
			a.write(c, g.val, vp, true, nil)
			if vp != nil {
				if a.st.stale[*vp] == "" {
					a.st.stale[*vp] = "was given to " + key + " at " + a.at(c)
				}
			}
		}
	}
	if hasLgm {
		a.checkLgm(c, "at call of "+key)
		for i, g := range as {
			if g.lgm == nil {
				continue
			}
			for _, f := range lgmFields {
				e := sum.field[f]
				if i != 0 {
					e = fieldEff{true, true, true}
				}
				p := path{g.lgm, f}
				v := a.st.vars[p]
				if e.elem || e.app {
					for q, w := range a.st.vars {
						if q != p && a.overlap(v, w) {
							if e.elem {
								a.st.stale[q] = "was overwritten by the call of " + key + " at " + a.at(c)
							} else {
								w = w.with(aval{})
								w.noapp = "may share its end with a slice extended at " + a.at(c)
								a.st.vars[q] = w
							}
						}
					}
					if g.lgm == a.frames[0].recv {
						x := a.eff[f]
						x.elem, x.app = x.elem || e.elem, x.app || e.app
						a.eff[f] = x
					}
				}
				if e.rebind {
					nv := a.fresh(c, fmt.Sprintf("field %d %s", i, f))
					for x := range nv.cells {
						a.st.elems[x] = false
					}
					nv.temp = false
					a.bind(p, nv)
				}
			}
			if _, ok := a.st.vars[path{g.lgm, "CurrentState"}]; ok {
				a.st.vars[path{g.lgm, "CurrentState"}] = frozenVal("is shared")
			}
		}
	}
	for i, g := range as { // results through pointers
		if _, ptr := derefType(g.typ); ptr && g.lgm == nil {
			if p, ok := a.pathOf(pointee(g.expr)); ok && holds(p.obj.Type()) {
				_ = i
				t, _ := derefType(g.typ)
				if _, isStruct := t.Underlying().(*types.Struct); !isStruct {
					a.bind(p, frozenVal("was set by "+key))
				}
			}
		}
	}
	var rs []aval
	for i := 0; i < fi.sig.Results().Len(); i++ {
		t := fi.sig.Results().At(i).Type()
		if !holds(t) {
			rs = append(rs, aval{})
			continue
		}
		if isLgm(t) { // a new history owns its memory
			r := aval{cells: map[cell]bool{}, fields: map[string]aval{}}
			for _, f := range lgmFields {
				v := a.fresh(c, "new "+f)
				for x := range v.cells {
					a.st.elems[x] = false
				}
				r.fields[f] = v
			}
			rs = append(rs, r)
			continue
		}
		r := aval{cells: map[cell]bool{}, temp: true}
		if i < len(sum.res) {
			s := sum.res[i]
			for k := range s.params {
				if k < len(as) {
					r = r.with(as[k].val)
				}
			}
			if s.frozen {
				r = r.with(frozenVal("is shared by " + key))
			}
			if s.nilMay {
				r.cells[cNil] = true
			}
			if s.fresh {
				v := a.fresh(c, fmt.Sprintf("res %d", i))
				for x := range v.cells {
					a.st.elems[x] = s.elemsOwn
				}
				r = r.with(v)
			}
		}
		rs = append(rs, r)
	}
	return rs
}

func (a *oan) inline(fi *FnInfo, c *ast.CallExpr, recv ast.Expr) []aval {
	into := a.into
	a.into = nil
	for _, fr := range a.frames {
		if fr.fi == fi {
			fail("recursive function %s without contract", fi.key)
		}
	}
	inst := instance(a.p, c, fi.sig)
	as := a.args(fi, c, recv)
	if a.st == nil {
		return nil
	}
	fr := &oframe{fi: fi, inline: true}
	type link struct{ formal, actual types.Object }
	var links []link
	var moves []link
	var exprs []ast.Expr
	for _, g := range as {
		exprs = append(exprs, g.expr)
	}
	for _, g := range as {
		if g.obj == nil {
			continue
		}
		if g.lgm == nil && fi.lit == nil && holds(g.obj.Type()) {
			// the translation lets the parameter stand for the caller's variable
			if v := a.aliasVar(inst, fi, g, exprs); v != nil {
				if _, ok := a.st.vars[path{v, ""}]; ok {
					moves = append(moves, link{g.obj, v})
				}
			}
		}
		if g.lgm != nil {
			for p, v := range a.st.vars {
				if p.obj == g.lgm && p.field != "" {
					a.st.vars[path{g.obj, p.field}] = v
					if s := a.st.stale[p]; s != "" {
						a.st.stale[path{g.obj, p.field}] = s
					}
				}
			}
			links = append(links, link{g.obj, g.lgm})
			continue
		}
		if holds(g.obj.Type()) {
			a.bind(path{g.obj, ""}, g.val)
		}
	}
	// a history argument moves into the callee's name for the time of the call
	savedRecv := a.frames[0].recv
	for _, l := range links {
		for _, p := range a.pathsOf(l.actual) {
			delete(a.st.vars, p)
			delete(a.st.stale, p)
		}
		if a.frames[0].recv == l.actual {
			a.frames[0].recv = l.formal
		}
	}
	for _, l := range moves {
		delete(a.st.vars, path{l.actual, ""})
		delete(a.st.stale, path{l.actual, ""})
	}
	savedP, savedCtx := a.p, a.ctx
	a.p = fi.pkg
	a.ctx += fmt.Sprintf("/%d", c.Pos())
	savedT := tsubst
	if fi.lit != nil {
		inst = tsubst
	}
	if into != nil && fi.lit != nil {
		inst = into.inst
	}
	tsubst = inst
	defer func() { tsubst = savedT }()
	a.frames = append(a.frames, fr)
	a.namedResults(fr)
	loops := a.loops
	a.loops = nil
	a.block(fi.body.List)
	if a.st != nil {
		a.leave(fi.body, nil)
	}
	a.loops = loops
	a.frames = a.frames[:len(a.frames)-1]
	a.p, a.ctx = savedP, savedCtx
	a.st = fr.ret
	a.frames[0].recv = savedRecv
	if a.st == nil {
		return make([]aval, fi.sig.Results().Len())
	}
	for _, l := range links {
		for _, p := range a.pathsOf(l.formal) {
			q := path{l.actual, p.field}
			a.st.vars[q] = a.st.vars[p]
			if s := a.st.stale[p]; s != "" {
				a.st.stale[q] = s
			} else {
				delete(a.st.stale, q)
			}
			delete(a.st.vars, p)
			delete(a.st.stale, p)
		}
	}
	for _, l := range moves {
		p, q := path{l.formal, ""}, path{l.actual, ""}
		if v, ok := a.st.vars[p]; ok {
			a.st.vars[q] = v
		}
		if s := a.st.stale[p]; s != "" {
			a.st.stale[q] = s
		}
	}
	// the callee's variables are gone
	for p := range a.st.vars {
		if p.obj.Pos() >= fi.body.Pos() && p.obj.Pos() < fi.body.End() || a.isFormal(fi, p.obj) {
			delete(a.st.vars, p)
			delete(a.st.stale, p)
		}
	}
	for _, o := range fr.robj {
		delete(a.st.vars, path{o, ""})
	}
	vals := fr.vals
	for len(vals) < fi.sig.Results().Len() {
		vals = append(vals, aval{})
	}
	return vals
}

func (a *oan) pathsOf(o types.Object) (r []path) {
	for p := range a.st.vars {
		if p.obj == o && p.field != "" {
			r = append(r, p)
		}
	}
	return
}

func (a *oan) isFormal(fi *FnInfo, o types.Object) bool {
	return o.Pos() >= fi.typ.Pos() && o.Pos() < fi.typ.End()
}

func (a *oan) aliasVar(inst map[*types.TypeParam]types.Type, fi *FnInfo, g oarg, exprs []ast.Expr) (r types.Object) {
	var t types.Type
	with(inst, func() { t = sub(g.obj.Type()) })
	return aliasVar(a.p, fi, g.obj, t, g.expr, exprs)
}
