package main

// Translation of Go function bodies, statement by statement, into ghost-state
// programs whose proof obligations the deductive verifier (Verus/Z3) discharges.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type Obl struct {
	Fn, Kind, Desc, Pos string
	Tags                []string
}

type line struct {
	text string
	obl  *Obl
}

type FnInfo struct {
	key  string
	pkg  *Pkg
	name string
	typ  *ast.FuncType
	recv *ast.FieldList
	body *ast.BlockStmt
	sig  *types.Signature
	lit  *ast.FuncLit
	pos  token.Pos
	rec  bool
}

type Tr struct {
	w          *World
	cts        map[string]*Contract
	lits       map[string]string
	fns        map[string]*FnInfo
	litOf      map[types.Object]*FnInfo // local closures
	litDup     map[types.Object]bool    // assigned more than one function
	anon       map[*ast.FuncLit]*FnInfo
	anonN      map[string]int
	queue      []string
	done       map[string][]line
	order      []string
	prop       string
	replacers  map[types.Object][]string
	errs       []string
	smoke      bool
	inlined    map[string]bool
	assumed    map[string]bool // contracts discharged by another property's check
	shapes     map[string]*Shape
	found      map[string]*Shape // of the current source
	renamed    map[string]string
	shift      map[string]map[string]int
	aligned    map[string]*Align
	guess      map[string]bool // functions whose invariants are guessed
	curRoot    map[types.Object]types.Object
	curVars    map[*Pkg]map[types.Object]bool
	cursorUsed bool
}

func newTr(w *World, cts map[string]*Contract, prop string) *Tr {
	t := &Tr{w: w, cts: cts, lits: map[string]string{}, fns: map[string]*FnInfo{}, litOf: map[types.Object]*FnInfo{},
		litDup: map[types.Object]bool{}, anon: map[*ast.FuncLit]*FnInfo{}, anonN: map[string]int{},
		done: map[string][]line{}, prop: prop, replacers: map[types.Object][]string{}, inlined: map[string]bool{}, assumed: map[string]bool{},
		shapes: map[string]*Shape{}, found: map[string]*Shape{}, renamed: map[string]string{}, shift: map[string]map[string]int{}, aligned: map[string]*Align{}, guess: map[string]bool{}, curVars: map[*Pkg]map[types.Object]bool{}}
	for _, p := range w.pkgs {
		p := p
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Body == nil {
						continue
					}
					obj := p.Info.Defs[d.Name].(*types.Func)
					key := funcKey(obj)
					t.fns[key] = &FnInfo{key: key, pkg: p, name: d.Name.Name, typ: d.Type, recv: d.Recv, body: d.Body, sig: obj.Type().(*types.Signature), pos: d.Pos()}
					t.scanClosures(p, key, d.Body)
				case *ast.GenDecl:
					for _, s := range d.Specs {
						if vs, ok := s.(*ast.ValueSpec); ok {
							for i, n := range vs.Names {
								if i < len(vs.Values) {
									t.noteReplacer(p, n, vs.Values[i])
								}
							}
						}
					}
				}
			}
		}
	}
	return t
}

func (t *Tr) noteReplacer(p *Pkg, n *ast.Ident, v ast.Expr) bool {
	c, ok := v.(*ast.CallExpr)
	if !ok {
		return false
	}
	if f := calleeFunc(p, c); f != nil && f.FullName() == "strings.NewReplacer" {
		var args []string
		for _, a := range c.Args {
			tv := p.Info.Types[a]
			if tv.Value == nil {
				return false
			}
			args = append(args, constant.StringVal(tv.Value))
		}
		t.replacers[p.Info.Defs[n]] = args
		return true
	}
	return false
}

func (t *Tr) scanClosures(p *Pkg, parent string, body *ast.BlockStmt) {
	note := func(id *ast.Ident, e ast.Expr) {
		lit, ok := e.(*ast.FuncLit)
		if !ok {
			return
		}
		obj := p.Info.Defs[id]
		if obj == nil {
			obj = p.Info.Uses[id]
		}
		if old := t.litOf[obj]; old != nil {
			t.litDup[obj] = true
		}
		fi := &FnInfo{key: parent + "." + id.Name, pkg: p, name: id.Name, typ: lit.Type, body: lit.Body, sig: p.Info.Types[lit].Type.(*types.Signature), lit: lit, pos: lit.Pos()}
		ast.Inspect(lit.Body, func(n ast.Node) bool {
			if x, ok := n.(*ast.Ident); ok && p.Info.Uses[x] == obj {
				fi.rec = true
			}
			return true
		})
		t.litOf[obj] = fi
		if fi.rec {
			t.fns[fi.key] = fi
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			if len(n.Lhs) == len(n.Rhs) {
				for i := range n.Lhs {
					if id, ok := n.Lhs[i].(*ast.Ident); ok {
						note(id, n.Rhs[i])
						if n.Tok == token.DEFINE {
							t.noteReplacer(p, id, n.Rhs[i])
						}
					}
				}
			}
		case *ast.ValueSpec:
			for i, id := range n.Names {
				if i < len(n.Values) {
					note(id, n.Values[i])
					t.noteReplacer(p, id, n.Values[i])
				}
			}
		}
		return true
	})
}

func funcKey(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	pk := ""
	if f.Pkg() != nil {
		pk = f.Pkg().Name()
	}
	if r := sig.Recv(); r != nil {
		rt, _ := derefType(r.Type())
		if n, ok := unalias(rt).(*types.Named); ok {
			return pk + "." + n.Obj().Name() + "." + f.Name()
		}
	}
	return pk + "." + f.Name()
}

func calleeFunc(p *Pkg, c *ast.CallExpr) *types.Func {
	var id *ast.Ident
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		id = f
	case *ast.SelectorExpr:
		id = f.Sel
	case *ast.IndexExpr:
		if x, ok := f.X.(*ast.Ident); ok {
			id = x
		} else if x, ok := f.X.(*ast.SelectorExpr); ok {
			id = x.Sel
		}
	}
	if id == nil {
		return nil
	}
	f, _ := p.Info.Uses[id].(*types.Func)
	return f
}

func vname(key string) string { return strings.ReplaceAll(key, ".", "__") }

func (t *Tr) need(key string) {
	if _, ok := t.done[key]; ok {
		return
	}
	for _, q := range t.queue {
		if q == key {
			return
		}
	}
	t.queue = append(t.queue, key)
}

func (t *Tr) run(roots []string) {
	for _, r := range roots {
		t.need(r)
	}
	for len(t.queue) > 0 {
		k := t.queue[0]
		t.queue = t.queue[1:]
		if _, ok := t.done[k]; ok {
			continue
		}
		t.done[k] = nil
		t.done[k] = t.function(k)
		t.order = append(t.order, k)
	}
	sort.Strings(t.order)
}

// ---------------------------------------------------------------- functions

type GV struct {
	name string
	typ  types.Type
	vt   string
}

type loopCtx struct {
	post    func() // post statement + condition checks before continue
	inlineD int    // inline frame depth the loop belongs to
	exit    func()
}

type inlFrame struct {
	key     string
	rets    []*GV
	done    string
	sig     *types.Signature
	loops   int
	named   []*GV
	mayLoop bool
	known   bool // translated in place where the hints were written, too
}

type fnTr struct {
	t        *Tr
	p        *Pkg
	fi       *FnInfo
	ct       *Contract
	out      []line
	ind      int
	scope    map[types.Object]*GV
	names    map[string]int
	loopN    int
	tmpN     int
	callN    map[string]int
	guards   []string
	loops    []*loopCtx
	frames   []*inlFrame
	res      []*GV // named results
	ptrs     []*GV // in-out parameters
	disk     *GV   // the file system
	subst    map[types.Object]string
	bound    map[types.Object]*bound // parameters of function type
	into     *bound
	inLambda int
	slices   map[string]string // fields being sorted, replaced in a comparator
	cur      ast.Node
	shape    Shape
	kind     string // of the variables being declared
	kLoop    int
	active   []int // loops being translated
	declAt   map[string]int
	startAt  map[int]int
	al       *Align
	seen     map[string]bool // calls hints were placed at
	placed   map[string]bool // the same, in the previous pass
	prev     *Shape          // of the function, when invariants are guessed
	near     int             // loop a hint stands next to
	head     int             // loop at whose head a hint is placed
	cursors  map[types.Object]*cursor
	owns     map[string]string
	peek     bool // the map itself is not kept: v, ok := m[k]
	blank0   bool // the first variable assigned is blank
}

func (f *fnTr) pos(n ast.Node) string {
	if n == nil {
		n = f.cur
	}
	if n == nil {
		return ""
	}
	ps := f.t.w.fset.Position(n.Pos())
	rel, err := filepath.Rel(f.t.w.repo, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

func (f *fnTr) emit(format string, args ...any) {
	s := format
	if len(args) > 0 {
		s = fmt.Sprintf(format, args...)
	}
	for _, l := range strings.Split(s, "\n") {
		f.out = append(f.out, line{strings.Repeat("    ", f.ind) + l, &Obl{Fn: f.fi.key, Kind: "statement", Pos: f.pos(nil)}})
	}
}

func (f *fnTr) emitO(kind, desc string, n ast.Node, tags []string, text string) {
	o := &Obl{Fn: f.fi.key, Kind: kind, Desc: desc, Pos: f.pos(n), Tags: tags}
	for _, l := range strings.Split(text, "\n") {
		f.out = append(f.out, line{strings.Repeat("    ", f.ind) + l, o})
	}
}

// assert emits a side condition that must hold whenever the current guards do.
func (f *fnTr) assert(kind, cond string, n ast.Node) {
	if len(f.guards) > 0 {
		cond = "(" + strings.Join(f.guards, " && ") + ") ==> (" + cond + ")"
	}
	f.emitO(kind, cond, n, nil, "assert("+cond+");")
}

func (f *fnTr) tmp() string { f.tmpN++; return fmt.Sprintf("t_%d", f.tmpN) }

func (f *fnTr) declName(name string) string {
	f.names[name]++
	if k := f.names[name]; k > 1 {
		return fmt.Sprintf("v_%s_%d", name, k)
	}
	return "v_" + name
}

func (f *fnTr) declare(obj types.Object, name string, typ types.Type) *GV {
	dt, _ := derefType(typ)
	g := &GV{name: f.declName(name), typ: dt, vt: vtype(dt)}
	f.declAt[g.name] = len(f.declAt) + 1
	kind, loop := f.kind, f.kLoop
	if kind == "" || kind == "arg" {
		if loop = 0; kind == "" {
			kind = "local"
		}
		if n := len(f.active); n > 0 {
			loop = f.active[n-1]
		}
	}
	f.shape.Vars = append(f.shape.Vars, ShVar{g.name, g.vt, kind, loop})
	if obj != nil {
		f.scope[obj] = g
	}
	return g
}

func (f *fnTr) declInit(g *GV, e string) {
	f.emit("let ghost mut %s: %s = %s;", g.name, g.vt, e)
}

func (f *fnTr) set(name, e string) {
	f.emit("proof { %s = %s; }", name, e)
	for _, l := range f.active {
		if d := f.declAt[name]; d > 0 && d <= f.startAt[l] {
			for _, v := range f.shape.Vars {
				if v.Name == name {
					f.shape.Loops[l-1].note(v.VT + " " + name)
				}
			}
		}
	}
}

var lineNo int

func hasTag(tags []string, p string) bool {
	if len(tags) == 0 || p == "" || p == "all" {
		return true
	}
	for _, t := range tags {
		if t == p {
			return true
		}
	}
	return false
}

func (t *Tr) prep(s string) string { return t.prepText(s) }

// prepText replaces "string literals" in specification text.
func (t *Tr) prepText(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '/' && i+1 < len(s) && s[i+1] == '/' {
			j := strings.IndexByte(s[i:], '\n')
			if j < 0 {
				j = len(s) - i
			}
			b.WriteString(s[i : i+j])
			i += j - 1
			continue
		}
		if s[i] == '"' {
			j := i + 1
			var lit []byte
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
					switch s[j] {
					case 'n':
						lit = append(lit, '\n')
					case 't':
						lit = append(lit, '\t')
					default:
						lit = append(lit, s[j])
					}
				} else {
					lit = append(lit, s[j])
				}
				j++
			}
			b.WriteString(t.lit(string(lit)))
			i = j
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func (t *Tr) function(key string) (res []line) {
	fi := t.fns[key]
	ct := t.cts[key]
	if ct == nil {
		ct = &Contract{Key: key, Loops: map[int]*LoopSpec{}}
	}
	if fi == nil {
		t.errs = append(t.errs, fmt.Sprintf("function %s: not found in the current source", key))
		return nil
	}
	mk := func() *fnTr {
		return &fnTr{t: t, p: fi.pkg, fi: fi, ct: ct, scope: map[types.Object]*GV{}, names: map[string]int{}, callN: map[string]int{}, subst: map[types.Object]string{}, bound: map[types.Object]*bound{}, seen: map[string]bool{}, cursors: map[types.Object]*cursor{}, owns: map[string]string{},
			declAt: map[string]int{}, startAt: map[int]int{}}
	}
	f := mk()
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(transErr)
			if !ok {
				panic(r)
			}
			t.errs = append(t.errs, fmt.Sprintf("function %s (%s): %s", key, f.pos(f.cur), e.msg))
			res = f.stub()
		}
	}()
	f.whole()
	t.found[key] = &f.shape
	f.shape.Sig = sigText(fi.sig)
	if base := t.shapes[key]; base != nil && !base.same(&f.shape) {
		al := align(base, &f.shape)
		for v, d := range t.shift[key] {
			al.shift[v] = d
		}
		t.aligned[key] = al
		old := f
		f = mk()
		f.al = al
		if t.guess[key] {
			f.prev, f.placed = &old.shape, old.seen
		}
		f.whole()
	} else if t.guess[key] {
		old := f
		f = mk()
		f.prev, f.placed = &old.shape, old.seen
		f.whole()
	}
	return f.out
}

func sigText(s *types.Signature) string {
	q := func(p *types.Package) string { return p.Name() }
	r := ""
	if s.Recv() != nil {
		r = types.TypeString(s.Recv().Type(), q) + " "
	}
	return r + types.TypeString(types.NewSignatureType(nil, nil, nil, stripNames(s.Params()), stripNames(s.Results()), s.Variadic()), q)
}

func stripNames(t *types.Tuple) *types.Tuple {
	var vs []*types.Var
	for i := 0; i < t.Len(); i++ {
		vs = append(vs, types.NewVar(0, nil, "", t.At(i).Type()))
	}
	return types.NewTuple(vs...)
}

// header computes parameter and result lists.
func (f *fnTr) header() (params []*GV, pnames []string, rtypes []string, rnames []string) {
	info := f.p.Info
	f.kind = "param"
	defer func() { f.kind = "" }()
	i := 0
	add := func(fl *ast.FieldList) {
		if fl == nil {
			return
		}
		for _, fd := range fl.List {
			names := fd.Names
			if len(names) == 0 {
				names = []*ast.Ident{ast.NewIdent("_")}
			}
			for _, n := range names {
				typ := info.TypeOf(fd.Type)
				g := f.declare(info.Defs[n], n.Name, typ)
				if _, isPtr := derefType(typ); isPtr {
					f.ptrs = append(f.ptrs, g)
				}
				pn := "p_" + n.Name
				if i < len(f.ct.Params) {
					pn = f.ct.Params[i]
				}
				i++
				params = append(params, g)
				pnames = append(pnames, pn)
			}
		}
	}
	if f.ct.Files {
		f.disk = f.declare(nil, "disk", diskType)
		f.ptrs = append(f.ptrs, f.disk)
		params = append(params, f.disk)
		pnames = append(pnames, "disk")
	}
	// variables of the surrounding function come before its own
	for _, o := range f.t.captured(f.fi) {
		g := f.declare(o, o.Name(), o.Type())
		params = append(params, g)
		pnames = append(pnames, "cap_"+o.Name())
	}
	add(f.fi.recv)
	add(f.fi.typ.Params)
	if len(f.ct.Params) > 0 && i != len(f.ct.Params) {
		fail("the contract names %d parameters, the function has %d", len(f.ct.Params), i)
	}
	sig := f.fi.sig
	for i := 0; i < sig.Results().Len(); i++ {
		rtypes = append(rtypes, vtype(sig.Results().At(i).Type()))
		if i < len(f.ct.Results) {
			rnames = append(rnames, f.ct.Results[i])
		} else {
			rnames = append(rnames, fmt.Sprintf("res_%d", i))
		}
	}
	if len(f.ct.Results) > 0 && len(f.ct.Results) != sig.Results().Len() {
		fail("the contract names %d results, the function has %d", len(f.ct.Results), sig.Results().Len())
	}
	for j, g := range params {
		for _, q := range f.ptrs {
			if q == g {
				rtypes = append(rtypes, g.vt)
				rnames = append(rnames, "new_"+pnames[j])
			}
		}
	}
	return
}

func tuple(xs []string) string {
	if len(xs) == 1 {
		return "(" + xs[0] + ",)"
	}
	return "(" + strings.Join(xs, ", ") + ")"
}

func (f *fnTr) signature(params []*GV, pnames, rtypes, rnames []string, stub bool) {
	ct := f.ct
	for _, a := range ct.Attrs {
		f.emit("#[verifier::%s]", a)
	}
	if stub {
		f.emit("#[verifier::external_body]")
	} else {
		f.emit("#[verifier::loop_isolation(false)]")
		f.emit("#[verifier::spinoff_prover]")
	}
	if ct.Dec == "" && f.fi.rec || ct.NoTerm {
		f.emit("#[verifier::exec_allows_no_decreases_clause]")
	}
	var ps []string
	for i, g := range params {
		ps = append(ps, fmt.Sprintf("Ghost(%s): Ghost<%s>", pnames[i], g.vt))
	}
	f.emit("pub fn %s(%s) -> (ret: Ghost<%s>)", vname(f.fi.key), strings.Join(ps, ", "), tuple(rtypes))
	f.ind++
	if len(ct.Req) > 0 {
		f.emit("requires")
		for _, c := range ct.Req {
			f.emitO("precondition", c.Text, f.fi.body, c.Tags, "    ("+f.t.prep(c.Text)+"),")
		}
	}
	bind := "let " + tuple(rnames) + " = ret@; "
	if len(rnames) == 0 {
		bind = ""
	}
	f.emit("ensures")
	if ct.Pure != "" {
		f.emitO("postcondition", "result == "+ct.Pure, f.fi.body, nil, "    ({ "+bind+"("+strings.Join(rnames[:len(rnames)-len(f.ptrs)], ", ")+") == ("+f.t.prep(ct.Pure)+") }),")
		k := 0
		for j, g := range params {
			for _, q := range f.ptrs {
				if q == g {
					f.emitO("frame", "no effect on "+pnames[j], f.fi.body, nil, "    ({ "+bind+rnames[len(rnames)-len(f.ptrs)+k]+" == "+pnames[j]+" }),")
					k++
				}
			}
		}
	}
	for _, c := range ct.Ens {
		if hasTag(c.Tags, f.t.prop) {
			f.emitO("postcondition", c.Text, f.fi.body, c.Tags, "    ({ "+bind+f.t.prep(c.Text)+" }),")
		}
	}
	f.emit("    true,")
	if ct.Dec != "" {
		f.emitO("termination", ct.Dec, f.fi.body, nil, "decreases "+f.t.prep(ct.Dec))
	}
	f.ind--
}

// stub is emitted for a function outside the translatable subset: its
// obligations count as failed, but its callers can still be examined.
func (f *fnTr) stub() (res []line) {
	g := &fnTr{t: f.t, p: f.p, fi: f.fi, ct: f.ct, scope: map[types.Object]*GV{}, names: map[string]int{}, callN: map[string]int{},
		declAt: map[string]int{}, startAt: map[int]int{}}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(transErr); !ok {
				panic(r)
			}
			res = nil
		}
	}()
	a, b, c, d := g.header()
	g.signature(a, b, c, d, true)
	g.emit("{ unimplemented!() }")
	return g.out
}

func (f *fnTr) whole() {
	params, pnames, rtypes, rnames := f.header()
	ext := f.ct.External || f.t.assumed[f.fi.key]
	f.signature(params, pnames, rtypes, rnames, ext)
	if ext {
		f.emit("{ unimplemented!() }")
		return
	}
	f.emit("{")
	f.ind++
	f.emit("proof { lemma_lits(); }")
	for i, g := range params {
		f.declInit(g, pnames[i])
	}
	if f.fi.typ.Results != nil {
		for _, fd := range f.fi.typ.Results.List {
			for _, n := range fd.Names {
				g := f.declare(f.p.Info.Defs[n], n.Name, f.p.Info.TypeOf(fd.Type))
				f.res = append(f.res, g)
				f.declInit(g, zero(g.typ))
			}
		}
	}
	f.smoke("function " + f.fi.key)
	f.hint(f.ct.Entry)
	f.block(f.fi.body.List)
	if f.fi.sig.Results().Len() == 0 && !terminates(f.fi.body.List) {
		f.ret(nil, f.fi.body)
	}
	f.ind--
	f.emit("}")
}

func (f *fnTr) smoke(desc string) {
	if f.t.smoke {
		f.emitO("smoke", desc, nil, nil, "if arbitrary() { assert(false); }")
	}
}

func (f *fnTr) prep(s string) string {
	if f.al == nil {
		return f.t.prep(s)
	}
	in := f.head
	if in == 0 {
		in = f.near
	}
	if n := len(f.active); in == 0 && n > 0 {
		in = f.active[n-1]
	}
	return f.t.prep(f.al.respell(s, f.head, in, f.visible()))
}

var ghostVarRe = regexp.MustCompile(`^\s*let ghost mut (v_\w+):`)

// visible gives the variables that can be named at the end of the output so far.
func (f *fnTr) visible() map[string]bool {
	st := []map[string]bool{{}}
	for _, l := range f.out {
		if m := ghostVarRe.FindStringSubmatch(l.text); m != nil {
			st[len(st)-1][m[1]] = true
		}
		for _, c := range l.text {
			switch c {
			case '{':
				st = append(st, map[string]bool{})
			case '}':
				if len(st) > 1 {
					st = st[:len(st)-1]
				}
			}
		}
	}
	r := map[string]bool{}
	for _, m := range st {
		for v := range m {
			r[v] = true
		}
	}
	return r
}

var ghostRe = regexp.MustCompile(`^\s*ghost (\w+) = ([^;]*);\s*`)

func (f *fnTr) hint(s string) {
	if l := strings.Split(s, "\x00"); len(l) > 1 {
		for i := 1; i+1 < len(l); i += 2 {
			if hasTag(splitNames(l[i]), f.t.prop) {
				f.hint(l[i+1])
			}
		}
		return
	}
	for { // "ghost x = e;" at the start: a ghost variable for later hints
		m := ghostRe.FindStringSubmatch(s)
		if m == nil {
			break
		}
		f.emitO("proof step", "", nil, nil, "let ghost "+m[1]+" = "+f.prep(m[2])+";")
		s = s[len(m[0]):]
	}
	if s != "" {
		f.emitO("proof step", "", nil, nil, "proof {\n"+f.prep(s)+"\n}")
	}
}

func terminates(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch s := l[len(l)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BlockStmt:
		return terminates(s.List)
	case *ast.IfStmt:
		if s.Else == nil {
			return false
		}
		if !terminates(s.Body.List) {
			return false
		}
		if b, ok := s.Else.(*ast.BlockStmt); ok {
			return terminates(b.List)
		}
		return terminates([]ast.Stmt{s.Else})
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
				return true
			}
		}
	case *ast.ForStmt:
		return s.Cond == nil
	}
	return false
}

func (f *fnTr) ret(vals []string, n ast.Node) {
	if len(f.frames) > 0 {
		fr := f.frames[len(f.frames)-1]
		for i, v := range vals {
			f.set(fr.rets[i].name, v)
		}
		f.set(fr.done, "true")
		if len(f.loops) > fr.loops {
			f.emit("break;")
		}
		return
	}
	all := append([]string{}, vals...)
	for _, g := range f.ptrs {
		all = append(all, g.name)
	}
	f.stray()
	if f.ct.Ret != "" {
		f.emit("{")
		f.ind++
		for i, v := range all {
			nm := ""
			if i < len(f.ct.Results) {
				nm = f.ct.Results[i]
			} else if i >= len(vals) {
				nm = "new_" + f.ptrName(i-len(vals))
			}
			if nm == "" {
				nm = fmt.Sprintf("res_%d", i)
			}
			f.emit("let ghost %s = %s;", nm, v)
		}
		f.hint(f.ct.Ret)
		f.ind--
		f.emit("}")
	}
	f.smoke("end of " + f.fi.key)
	r := f.tmp()
	f.emit("let ghost %s = %s;", r, tuple(all))
	f.emitO("return", "", n, nil, "return Ghost("+r+");")
}

func (f *fnTr) ptrName(k int) string {
	if f.disk != nil {
		if k == 0 {
			return "disk"
		}
		k--
	}
	i, c := 0, 0
	names := f.ct.Params
	walk := func(fl *ast.FieldList) string {
		if fl == nil {
			return ""
		}
		for _, fd := range fl.List {
			m := len(fd.Names)
			if m == 0 {
				m = 1
			}
			for j := 0; j < m; j++ {
				if _, ok := derefType(f.p.Info.TypeOf(fd.Type)); ok {
					if c == k {
						if i < len(names) {
							return names[i]
						}
						return "p_" + fd.Names[j].Name
					}
					c++
				}
				i++
			}
		}
		return ""
	}
	if s := walk(f.fi.recv); s != "" {
		return s
	}
	return walk(f.fi.typ.Params)
}

// ---------------------------------------------------------------- statements

func (f *fnTr) block(l []ast.Stmt) {
	for i, s := range l {
		f.stmt(s)
		if len(f.frames) > 0 && i+1 < len(l) && containsReturn(s) {
			fr := f.frames[len(f.frames)-1]
			f.emit("if cond(Ghost(!%s)) {", fr.done)
			f.ind++
			f.block(l[i+1:])
			f.ind--
			f.emit("}")
			return
		}
	}
}

func containsReturn(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.ReturnStmt:
			found = true
		case *ast.FuncLit:
			return false
		}
		return true
	})
	return found
}

// flat: the names of a loop are unique, and hints after it may refer to them
func (f *fnTr) flat(fn func()) { fn() }

func (f *fnTr) scoped(fn func()) {
	f.emit("{")
	f.ind++
	fn()
	f.ind--
	f.emit("}")
}

func (f *fnTr) stmt(s ast.Stmt) {
	f.cur = s
	switch s := s.(type) {
	case *ast.EmptyStmt:
	case *ast.BlockStmt:
		f.scoped(func() { f.block(s.List) })
	case *ast.DeclStmt:
		f.declStmt(s)
	case *ast.ExprStmt:
		f.exprStmt(s)
	case *ast.AssignStmt:
		f.assign(s)
	case *ast.IncDecStmt:
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		typ := f.typeOf(s.X)
		v := f.arith(op, f.ex(s.X), "1"+vtype(typ), typ, s)
		f.store(s.X, v)
	case *ast.IfStmt:
		f.ifStmt(s)
	case *ast.ForStmt:
		f.forStmt(s)
	case *ast.RangeStmt:
		f.rangeStmt(s)
	case *ast.SwitchStmt:
		f.switchStmt(s)
	case *ast.TypeSwitchStmt:
		f.typeSwitch(s)
	case *ast.ReturnStmt:
		f.returnStmt(s)
	case *ast.BranchStmt:
		if s.Label != nil || len(f.loops) == 0 {
			fail("labelled or stray %s", s.Tok)
		}
		lc := f.loops[len(f.loops)-1]
		switch s.Tok {
		case token.BREAK:
			if lc.exit != nil {
				lc.exit()
			}
			f.emit("break;")
		case token.CONTINUE:
			if lc.post != nil {
				lc.post()
			}
			f.emit("continue;")
		default:
			fail("%s statement", s.Tok)
		}
	default:
		fail("statement %T", s)
	}
}

func (f *fnTr) declStmt(s *ast.DeclStmt) {
	gd := s.Decl.(*ast.GenDecl)
	if gd.Tok == token.CONST || gd.Tok == token.TYPE {
		return
	}
	for _, sp := range gd.Specs {
		vs := sp.(*ast.ValueSpec)
		f.define(identExprs(vs.Names), vs.Values, vs.Type, true)
	}
}

func identExprs(ids []*ast.Ident) (r []ast.Expr) {
	for _, i := range ids {
		r = append(r, i)
	}
	return
}

func (f *fnTr) typeOf(e ast.Expr) types.Type {
	t := f.p.Info.TypeOf(e)
	if t == nil {
		if id, ok := e.(*ast.Ident); ok {
			if o := f.p.Info.Defs[id]; o != nil {
				return sub(o.Type())
			}
			if o := f.p.Info.Uses[id]; o != nil {
				return sub(o.Type())
			}
		}
		fail("no type for expression")
	}
	return sub(t)
}

func isFuncType(t types.Type) bool {
	_, ok := unalias(t).Underlying().(*types.Signature)
	return ok
}

// rhs evaluates the right-hand sides of an assignment to n targets.
func (f *fnTr) rhs(values []ast.Expr, n int) (vals []string, typs []types.Type) {
	if len(values) == n {
		for _, v := range values {
			vals = append(vals, f.ex(v))
			typs = append(typs, f.typeOf(v))
		}
		return
	}
	if len(values) != 1 {
		fail("assignment shape")
	}
	switch v := ast.Unparen(values[0]).(type) {
	case *ast.CallExpr:
		vals = f.call(v)
		tup := f.typeOf(v).(*types.Tuple)
		for i := 0; i < tup.Len(); i++ {
			typs = append(typs, tup.At(i).Type())
		}
		if len(vals) != n {
			fail("call yields %d values, %d expected", len(vals), n)
		}
	case *ast.IndexExpr: // v, ok := m[k]
		mt := f.typeOf(v.X).Underlying().(*types.Map)
		f.peek = f.blank0
		m := f.bind(f.ex(v.X))
		f.peek = false
		k := f.bind(f.exTo(v.Index, mt.Key()))
		vals = []string{fmt.Sprintf("mget(%s, %s, %s)", m, k, zero(mt.Elem())), fmt.Sprintf("%s.dom().contains(%s)", m, k)}
		typs = []types.Type{mt.Elem(), types.Typ[types.Bool]}
	case *ast.TypeAssertExpr:
		x := f.bind(f.ex(v.X))
		t := f.typeOf(v.Type)
		test, val := ifaceTest(x, f.typeOf(v.X), t)
		vals = []string{fmt.Sprintf("(if %s { %s } else { %s })", test, val, zero(t)), test}
		typs = []types.Type{t, types.Typ[types.Bool]}
	default:
		fail("multi-value expression %T", v)
	}
	return
}

func (f *fnTr) bind(e string) string {
	if isSimple(e) {
		return e
	}
	n := f.tmp()
	f.emit("let ghost %s = %s;", n, e)
	return n
}

// garg names a complex ghost argument before it is passed.
func (f *fnTr) garg(e string) string {
	if isIdent(e) {
		return e
	}
	n := f.tmp()
	f.emit("let ghost %s = %s;", n, e)
	return n
}

func isSimple(e string) bool {
	for _, c := range e {
		if !(c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			return false
		}
	}
	return !strings.HasPrefix(e, "v_") && !strings.HasPrefix(e, "i_")
}

func (f *fnTr) define(lhs, values []ast.Expr, typ ast.Expr, isVar bool) {
	info := f.p.Info
	// closures and replacers carry no state of their own
	skip := func(i int) bool {
		id, ok := lhs[i].(*ast.Ident)
		if !ok {
			return false
		}
		o := info.Defs[id]
		if o == nil {
			o = info.Uses[id]
		}
		if o == nil {
			return false
		}
		if _, ok := f.t.replacers[o]; ok {
			return true
		}
		return isFuncType(o.Type())
	}
	if len(values) == 0 {
		for i, l := range lhs {
			if skip(i) {
				continue
			}
			id := l.(*ast.Ident)
			o := info.Defs[id]
			if _, isMap := o.Type().Underlying().(*types.Map); isMap {
				fail("nil map variable %s", id.Name)
			}
			g := f.declare(o, id.Name, o.Type())
			f.declInit(g, zero(g.typ))
		}
		return
	}
	if len(lhs) == 1 && skip(0) {
		return
	}
	if len(lhs) == 1 && len(values) == 1 {
		if id, ok := lhs[0].(*ast.Ident); ok && f.defineCursor(id, values[0]) {
			return
		}
	}
	if id, ok := lhs[0].(*ast.Ident); ok && id.Name == "_" {
		f.blank0 = true
		defer func() { f.blank0 = false }()
	}
	var vals []string
	var typs []types.Type
	if len(values) == len(lhs) {
		for i, v := range values {
			if skip(i) {
				vals, typs = append(vals, ""), append(typs, nil)
				continue
			}
			e := f.ex(v)
			if len(values) > 1 {
				e = f.bind(e)
			}
			vals, typs = append(vals, e), append(typs, f.typeOf(v))
		}
	} else {
		vals, typs = f.rhs(values, len(lhs))
		for i := range vals {
			vals[i] = f.bind(vals[i])
		}
	}
	for i, l := range lhs {
		if skip(i) {
			continue
		}
		id := l.(*ast.Ident)
		if id.Name == "_" {
			continue
		}
		if o := info.Defs[id]; o != nil {
			e := convTo(vals[i], typs[i], o.Type())
			g := f.declare(o, id.Name, o.Type())
			f.declInit(g, e)
			if i < len(values) {
				if c, ok := ast.Unparen(values[i]).(*ast.CallExpr); ok && isMake(f.p, c) {
					f.noteRoot(g)
				}
			}
		} else {
			f.store(l, convTo(vals[i], typs[i], f.typeOf(l)))
		}
	}
}

func (f *fnTr) assign(s *ast.AssignStmt) {
	switch s.Tok {
	case token.DEFINE:
		f.define(s.Lhs, s.Rhs, nil, false)
		return
	case token.ASSIGN:
	default:
		op, ok := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL}[s.Tok]
		if !ok {
			fail("assignment operator %s", s.Tok)
		}
		typ := f.typeOf(s.Lhs[0])
		v := f.arith(op, f.ex(s.Lhs[0]), f.exTo(s.Rhs[0], typ), typ, s)
		f.store(s.Lhs[0], v)
		return
	}
	if len(s.Lhs) == 1 {
		if id, ok := s.Lhs[0].(*ast.Ident); ok {
			if id.Name == "_" {
				f.ex(s.Rhs[0])
				return
			}
			if isFuncType(f.typeOf(id)) {
				if _, ok := s.Rhs[0].(*ast.FuncLit); ok {
					return
				}
				fail("assignment of a function value")
			}
		}
		if c := f.cursorOf(s.Lhs[0]); c != nil {
			f.assignCursor(c, s.Rhs[0], s)
			return
		}
		if ix, ok := ast.Unparen(s.Lhs[0]).(*ast.IndexExpr); ok {
			if c := f.cursorOf(ix.X); c != nil {
				f.storeCursor(c, ix, s.Rhs[0], s)
				return
			}
		}
		e := f.exTo(s.Rhs[0], f.typeOf(s.Lhs[0]))
		f.store(s.Lhs[0], e)
		return
	}
	if id, ok := s.Lhs[0].(*ast.Ident); ok && id.Name == "_" {
		f.blank0 = true
		defer func() { f.blank0 = false }()
	}
	// index operands of the targets are evaluated first
	for _, l := range s.Lhs {
		if ix, ok := ast.Unparen(l).(*ast.IndexExpr); ok {
			if _, ok := ast.Unparen(ix.Index).(*ast.Ident); !ok && f.p.Info.Types[ix.Index].Value == nil {
				if hasCall(ix.Index) {
					fail("call inside an assignment target")
				}
			}
		}
	}
	vals, typs := f.rhs(s.Rhs, len(s.Lhs))
	for i := range vals {
		vals[i] = f.bind(vals[i])
	}
	for i, l := range s.Lhs {
		if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
			continue
		}
		f.store(l, convTo(vals[i], typs[i], f.typeOf(l)))
	}
}

func hasCall(e ast.Expr) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.CallExpr); ok {
			r = true
		}
		return true
	})
	return r
}

// store assigns value v (already converted) to the Go location l.
func (f *fnTr) store(l ast.Expr, v string) {
	switch l := ast.Unparen(l).(type) {
	case *ast.Ident:
		if l.Name == "_" {
			return
		}
		if f.cursorOf(l) != nil {
			fail("assignment to cursor %s", l.Name)
		}
		f.set(f.variable(l).name, v)
		if r := f.rootOf(l); r != "" {
			f.lost(r)
			f.dead(r, nil)
		}
	case *ast.StarExpr:
		f.store(l.X, v)
	case *ast.SelectorExpr:
		st, _ := derefType(f.typeOf(l.X))
		base := f.ex(l.X)
		s, ok := unalias(st).Underlying().(*types.Struct)
		if !ok {
			fail("field assignment")
		}
		var fs []string
		for i := 0; i < s.NumFields(); i++ {
			n := s.Field(i).Name()
			if n == l.Sel.Name {
				fs = append(fs, n+": "+v)
			} else {
				fs = append(fs, n+": "+paren(base)+"."+n)
			}
		}
		f.store(l.X, vtype(st)+" { "+strings.Join(fs, ", ")+" }")
	case *ast.IndexExpr:
		switch u := f.typeOf(l.X).Underlying().(type) {
		case *types.Map:
			k := f.exTo(l.Index, u.Key())
			if f.cursorOf(l.X) != nil {
				fail("assignment through cursor in this form")
			}
			if r := f.rootOf(l.X); r != "" {
				k = f.bind(k)
				f.set(r, r+".insert("+k+", "+v+")")
				f.emit("proof { %s = own_cut(%s, seq![%s]); }", f.owns[r], f.owns[r], k)
				f.dead(r, nil)
				return
			}
			f.store(l.X, paren(f.ex(l.X))+".insert("+k+", "+v+")")
		case *types.Slice:
			i := f.exInt(l.Index)
			b := f.ex(l.X)
			f.assert("index in range", fmt.Sprintf("0 <= %s < %s.len()", i, paren(b)), l)
			f.store(l.X, paren(b)+".update("+i+" as int, "+v+")")
		default:
			fail("index assignment on %s", f.typeOf(l.X))
		}
	default:
		fail("assignment to %T", l)
	}
}

func paren(e string) string {
	if isIdent(e) {
		return e
	}
	return "(" + e + ")"
}

func isIdent(e string) bool {
	for _, c := range e {
		if !(c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			return false
		}
	}
	return true
}

func (f *fnTr) variable(id *ast.Ident) *GV {
	o := f.p.Info.Uses[id]
	if o == nil {
		o = f.p.Info.Defs[id]
	}
	g := f.scope[o]
	if g == nil {
		fail("variable %s is not a local of this function (captured or global)", id.Name)
	}
	return g
}

func (f *fnTr) exprStmt(s *ast.ExprStmt) {
	c, ok := ast.Unparen(s.X).(*ast.CallExpr)
	if !ok {
		fail("expression statement")
	}
	f.call(c)
}

func (f *fnTr) returnStmt(s *ast.ReturnStmt) {
	sig := f.fi.sig
	named := f.res
	if len(f.frames) > 0 {
		fr := f.frames[len(f.frames)-1]
		sig, named = fr.sig, fr.named
	}
	n := sig.Results().Len()
	var vals []string
	if len(s.Results) == 0 {
		for _, g := range named {
			vals = append(vals, g.name)
		}
	} else {
		var typs []types.Type
		if len(s.Results) == n {
			for i, r := range s.Results {
				e := f.exTo(r, sig.Results().At(i).Type())
				if n > 1 {
					e = f.bindV(e)
				}
				vals = append(vals, e)
			}
		} else {
			vals, typs = f.rhs(s.Results, n)
			for i := range vals {
				vals[i] = convTo(vals[i], typs[i], sig.Results().At(i).Type())
			}
		}
	}
	f.ret(vals, s)
}

func (f *fnTr) bindV(e string) string { return e }

func (f *fnTr) ifStmt(s *ast.IfStmt) {
	if s.Init != nil {
		f.scoped(func() {
			f.stmt(s.Init)
			f.ifRest(s)
		})
		return
	}
	f.ifRest(s)
}

func (f *fnTr) ifRest(s *ast.IfStmt) {
	f.cur = s
	c := f.ex(s.Cond)
	f.emit("if cond(Ghost(%s)) {", f.garg(c))
	f.ind++
	f.block(s.Body.List)
	f.ind--
	if s.Else != nil {
		f.emit("} else {")
		f.ind++
		if b, ok := s.Else.(*ast.BlockStmt); ok {
			f.block(b.List)
		} else {
			f.stmt(s.Else)
		}
		f.ind--
	}
	f.emit("}")
}

func (f *fnTr) loopSpec(kind, vt, text string) (*LoopSpec, int) {
	f.loopN++
	n := f.loopN
	parent := 0
	if k := len(f.active); k > 0 {
		parent = f.active[k-1]
	}
	f.shape.Loops = append(f.shape.Loops, ShLoop{Kind: kind, VT: vt, Text: text, Parent: parent, Sets: []string{}})
	f.startAt[n] = len(f.declAt)
	if f.al != nil {
		if n = f.al.back[n]; n == 0 {
			return &LoopSpec{}, f.loopN
		}
	}
	if l := f.ct.Loops[n]; l != nil {
		return l, f.loopN
	}
	return &LoopSpec{}, f.loopN
}

func (f *fnTr) loopHead(cond string, ls *LoopSpec, auto []string, autoDec string, n ast.Node) {
	f.head = f.loopN
	f.emit("while cond(Ghost(%s))", cond)
	f.ind++
	if len(ls.XInv) > 0 {
		f.emit("invariant_except_break")
		for _, c := range ls.XInv {
			if hasTag(c.Tags, f.t.prop) {
				f.emitO("loop invariant", c.Text, n, c.Tags, "    ("+f.prep(c.Text)+"),")
			}
		}
	}
	f.emit("invariant")
	for _, a := range auto {
		f.emitO("loop invariant", a, n, nil, "    ("+a+"),")
	}
	for _, c := range ls.Inv {
		if hasTag(c.Tags, f.t.prop) {
			f.emitO("loop invariant", c.Text, n, c.Tags, "    ("+f.prep(c.Text)+"),")
		}
	}
	if st, ok := n.(ast.Stmt); ok {
		for _, g := range f.guesses(st, ls, f.loopN) {
			f.emitO("guess", g, n, nil, "    ("+g+"),")
		}
	}
	f.emit("    true,")
	if len(ls.Ens) > 0 {
		f.emit("ensures")
		for _, c := range ls.Ens {
			f.emitO("loop exit condition", c.Text, n, c.Tags, "    ("+f.prep(c.Text)+"),")
		}
	}
	d := ls.Dec
	if d == "" {
		d = autoDec
	}
	if d == "" {
		d = "0int"
	}
	dt := f.prep(d)
	if ls.Dec == "" {
		dt = f.t.prep(d)
	}
	f.emitO("loop termination", d, n, nil, "decreases "+dt)
	f.head = 0
	f.ind--
	f.emit("{")
	f.ind++
	if ls.Entry != "" {
		f.hint(ls.Entry)
	}
}

func (f *fnTr) afterLoop(s ast.Stmt) {
	if len(f.frames) > 0 && containsReturn(s) && len(f.loops) > f.frames[len(f.frames)-1].loops {
		f.emit("if cond(Ghost(%s)) { break; }", f.frames[len(f.frames)-1].done)
	}
}

func (f *fnTr) forStmt(s *ast.ForStmt) {
	f.flat(func() {
		if s.Init != nil {
			f.kind, f.kLoop = "forvar", f.loopN+1
			f.stmt(s.Init)
			f.kind = ""
		}
		f.cur = s
		ls, num := f.loopSpec("for", "", "")
		if a, ok := s.Init.(*ast.AssignStmt); ok && len(a.Rhs) == 1 {
			if l, ok := a.Rhs[0].(*ast.BasicLit); ok && l.Kind == token.INT {
				f.shape.Loops[num-1].Init = l.Value
			}
		}
		f.hint(ls.Before)
		if f.guessing() {
			if g := f.loopVar(s); g != "" {
				f.emit("let ghost g_%d = %s;", num, g)
			}
		}
		f.captures(num)
		iauto, iv := f.indexLoop(s, num)
		var c string
		if s.Cond != nil {
			if f.impure(s.Cond) {
				fail("loop condition with side effects")
			}
			c = f.ex(s.Cond) // side conditions at the first evaluation
		} else {
			c = "true"
		}
		auto, dec := f.countedLoop(s)
		lss := *ls
		lss.Entry = ""
		f.loopHead(c, &lss, append(auto, iauto...), dec, s)
		if iv != "" {
			f.set(iv, iv+" + 1")
		}
		f.hint(ls.Entry)
		f.active = append(f.active, num)
		lc := &loopCtx{}
		inPost := false
		lc.post = func() {
			if inPost {
				return
			}
			inPost = true
			f.hint(ls.Exit)
			if s.Post != nil {
				f.stmt(s.Post)
				if f.guessing() {
					f.hint(ls.Exit)
				}
			}
			f.cur = s
			if s.Cond != nil {
				f.ex(s.Cond) // side conditions at every re-evaluation
			}
			inPost = false
		}
		f.loops = append(f.loops, lc)
		f.block(s.Body.List)
		if !endsInJump(s.Body.List) {
			if len(f.frames) > 0 && containsReturn(s.Body) {
				fr := f.frames[len(f.frames)-1]
				f.emit("if cond(Ghost(%s)) { break; }", fr.done)
			}
			lc.post()
		}
		f.loops = f.loops[:len(f.loops)-1]
		f.active = f.active[:len(f.active)-1]
		f.ind--
		f.emit("}")
		f.emit("proof { }")
		if s.Cond == nil && !hasBreak(s.Body) && len(f.frames) == 0 {
			f.emit("proof { assert(false); }\nreturn Ghost(vstd::pervasive::arbitrary());")
		}
		f.near = num
		f.hint(ls.After)
		f.near = 0
		f.afterLoop(s)
	})
}

// indexLoop recognises "for i := 0; i < len(x); i++" over an unchanged slice
// where the recorded loop ranges over a slice, and keeps the ghost variables of
// such a loop.
func (f *fnTr) indexLoop(s *ast.ForStmt, num int) (auto []string, iv string) {
	if f.al == nil || f.al.back[num] == 0 || f.al.base.Loops[f.al.back[num]-1].Kind != "slice" {
		return
	}
	init, ok := s.Init.(*ast.AssignStmt)
	if !ok || init.Tok != token.DEFINE || len(init.Lhs) != 1 {
		return
	}
	id := init.Lhs[0].(*ast.Ident)
	if tv := f.p.Info.Types[init.Rhs[0]]; tv.Value == nil || tv.Value.String() != "0" {
		return
	}
	post, ok := s.Post.(*ast.IncDecStmt)
	if !ok || post.Tok != token.INC {
		return
	}
	c, ok := ast.Unparen(s.Cond).(*ast.BinaryExpr)
	if !ok || c.Op != token.LSS {
		return
	}
	n, ok := ast.Unparen(c.Y).(*ast.CallExpr)
	if !ok || len(n.Args) != 1 {
		return
	}
	if b, ok := n.Fun.(*ast.Ident); !ok || b.Name != "len" {
		return
	}
	o := f.p.Info.Defs[id]
	for _, e := range []ast.Expr{post.X, c.X} {
		if x, ok := ast.Unparen(e).(*ast.Ident); !ok || f.p.Info.Uses[x] != o {
			return
		}
	}
	if mutatedIn(f.p, s.Body, o) != 0 {
		return
	}
	x := n.Args[0]
	if vtype(f.typeOf(x)) != f.al.base.Loops[f.al.back[num]-1].VT {
		return
	}
	if xi, ok := ast.Unparen(x).(*ast.Ident); ok && mutatedIn(f.p, s.Body, f.p.Info.Uses[xi]) == 2 {
		return
	}
	iv, sv := fmt.Sprintf("i_%d", num), fmt.Sprintf("seq_%d", num)
	f.emit("let ghost %s = %s;", sv, f.ex(x))
	f.emit("let ghost mut %s: int = 0int;", iv)
	return []string{iv + " == " + f.variable(id).name, "0 <= " + iv + " <= " + sv + ".len()", f.ex(x) + ".len() == " + sv + ".len()"}, iv
}

func endsInJump(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch s := l[len(l)-1].(type) {
	case *ast.BranchStmt, *ast.ReturnStmt:
		return true
	case *ast.IfStmt:
		if s.Else == nil {
			return false
		}
		eb, ok := s.Else.(*ast.BlockStmt)
		if !ok {
			return endsInJump(s.Body.List) && endsInJump([]ast.Stmt{s.Else})
		}
		return endsInJump(s.Body.List) && endsInJump(eb.List)
	}
	return false
}

// countedLoop recognises "i < n; i++" and gives the obvious termination measure.
func (f *fnTr) countedLoop(s *ast.ForStmt) (auto []string, dec string) {
	post, ok := s.Post.(*ast.IncDecStmt)
	if !ok || s.Cond == nil {
		return
	}
	id, ok := post.X.(*ast.Ident)
	if !ok {
		return
	}
	c := s.Cond
	for {
		b, ok := ast.Unparen(c).(*ast.BinaryExpr)
		if !ok {
			return
		}
		if b.Op == token.LAND {
			c = b.X
			continue
		}
		x, ok := b.X.(*ast.Ident)
		if !ok || x.Name != id.Name || hasCallOtherThanLen(b.Y) {
			return
		}
		v := f.variable(id).name
		save := f.out
		y := f.ex(b.Y)
		f.out = save
		switch {
		case post.Tok == token.INC && (b.Op == token.LSS || b.Op == token.LEQ):
			return nil, "(" + y + ") - " + v + " + 1"
		case post.Tok == token.DEC && (b.Op == token.GTR || b.Op == token.GEQ):
			return nil, v + " - (" + y + ") + 1"
		}
		return
	}
}

func hasCallOtherThanLen(e ast.Expr) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); !ok || id.Name != "len" {
				r = true
			}
		}
		return true
	})
	return r
}

func (f *fnTr) rangeStmt(s *ast.RangeStmt) {
	f.flat(func() {
		f.cur = s
		info := f.p.Info
		s = f.plainRange(s)
		if f.unrolled(s) {
			return
		}
		xt := f.typeOf(s.X)
		x := f.ex(s.X)
		kind := "int"
		switch xt.Underlying().(type) {
		case *types.Slice:
			kind = "slice"
		case *types.Map:
			kind = "map"
		}
		ls, k := f.loopSpec(kind, vtype(xt), types.ExprString(s.X))
		iv, sv := fmt.Sprintf("i_%d", k), fmt.Sprintf("seq_%d", k)
		var keyE, valE string
		var keyT, valT types.Type
		lim := sv + ".len()"
		auto := []string{}
		switch u := xt.Underlying().(type) {
		case *types.Slice:
			f.emit("let ghost %s = %s;", sv, x)
			keyE, keyT = iv, types.Typ[types.Int]
			valE, valT = sv+"["+iv+"]", u.Elem()
			if id, ok := ast.Unparen(s.X).(*ast.Ident); ok {
				switch kind := mutatedIn(f.p, s.Body, info.Uses[id]); kind {
				case 1: // elements assigned in place: reads see the current element
					valE = f.variable(id).name + "[" + iv + "]"
					auto = append(auto, f.variable(id).name+".len() == "+sv+".len()")
				case 2:
				}
			}
		case *types.Map:
			mv := fmt.Sprintf("map_%d", k)
			f.emit("let ghost %s = %s;", mv, x)
			f.emit("let r_%s = any_order::<%s, %s>(Ghost(%s));", sv, vtype(u.Key()), vtype(u.Elem()), mv)
			f.emit("let ghost %s = r_%s@;", sv, sv)
			keyE, keyT = sv+"["+iv+"]", u.Key()
			valE, valT = mv+"["+sv+"["+iv+"]]", u.Elem()
			if id, ok := ast.Unparen(s.X).(*ast.Ident); ok {
				if mutatedIn(f.p, s.Body, info.Uses[id]) != 0 {
					cur := f.variable(id).name
					valE = cur + "[" + sv + "[" + iv + "]]"
					auto = append(auto, cur+".dom() =~= "+mv+".dom()")
				}
			}
		case *types.Basic:
			if u.Info()&types.IsInteger == 0 {
				fail("range over %s", xt)
			}
			f.emit("let ghost %s = %s;", sv, x)
			lim = "(if " + sv + " < 0 { 0int } else { " + sv + " as int })"
			keyE, keyT = "("+iv+" as "+vtype(xt)+")", xt
		default:
			fail("range over %s", xt)
		}
		f.emit("let ghost mut %s: int = 0int;", iv)
		f.captures(k)
		f.hint(ls.Before)
		auto = append([]string{fmt.Sprintf("0 <= %s <= %s", iv, lim)}, auto...)
		lss := *ls
		lss.Entry = ""
		f.loopHead(iv+" < "+lim, &lss, auto, lim+" - "+iv, s)
		f.active = append(f.active, k)
		bindv := func(e ast.Expr, kind, val string, typ types.Type) {
			if e == nil {
				return
			}
			id, ok := e.(*ast.Ident)
			if ok && id.Name == "_" {
				return
			}
			if s.Tok == token.DEFINE {
				f.kind, f.kLoop = kind, k
				g := f.declare(info.Defs[id], id.Name, typ)
				f.kind = ""
				f.declInit(g, val)
			} else {
				f.store(e, convTo(val, typ, f.typeOf(e)))
			}
		}
		bindv(s.Key, "rkey", keyE, keyT)
		if s.Value != nil {
			bindv(s.Value, "rval", valE, valT)
		}
		f.set(iv, iv+" + 1")
		f.hint(ls.Entry)
		lc := &loopCtx{post: func() { f.hint(ls.Exit) }}
		f.loops = append(f.loops, lc)
		f.block(s.Body.List)
		if !endsInJump(s.Body.List) {
			if len(f.frames) > 0 && containsReturn(s.Body) {
				f.emit("if cond(Ghost(%s)) { break; }", f.frames[len(f.frames)-1].done)
			}
			lc.post()
		}
		f.loops = f.loops[:len(f.loops)-1]
		f.active = f.active[:len(f.active)-1]
		f.ind--
		f.emit("}")
		f.emit("proof { }")
		f.near = k
		f.hint(ls.After)
		f.near = 0
		f.afterLoop(s)
	})
}

// plainRange turns a range over maps.Keys, maps.All or slices.All into a range
// over the collection.
// unrolled translates a loop over a short list that is written out, without
// jumps, as the sequence of its rounds.
func (f *fnTr) unrolled(s *ast.RangeStmt) bool {
	c, ok := ast.Unparen(s.X).(*ast.CompositeLit)
	if !ok || s.Tok != token.DEFINE || len(c.Elts) == 0 || len(c.Elts) > 4 {
		return false
	}
	var elem types.Type
	switch u := f.typeOf(c).Underlying().(type) {
	case *types.Slice:
		elem = u.Elem()
	case *types.Array:
		if u.Len() != int64(len(c.Elts)) {
			return false
		}
		elem = u.Elem()
	default:
		return false
	}
	for _, e := range c.Elts {
		switch e := e.(type) {
		case *ast.KeyValueExpr:
			return false
		case *ast.CompositeLit:
			if e.Type == nil {
				return false
			}
		}
	}
	ok = true
	ast.Inspect(s.Body, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.BranchStmt, *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit, *ast.LabeledStmt, *ast.SelectStmt, *ast.DeferStmt:
			ok = false
		case *ast.ReturnStmt:
			ok = ok && len(f.frames) == 0
		}
		return ok
	})
	if !ok {
		return false
	}
	var vals []string
	for _, e := range c.Elts {
		t := f.tmp()
		f.emit("let ghost %s: %s = %s;", t, vtype(elem), convTo(f.ex(e), f.typeOf(e), elem))
		vals = append(vals, t)
	}
	for i, v := range vals {
		f.scoped(func() {
			bind := func(e ast.Expr, val string, typ types.Type) {
				if id, ok := e.(*ast.Ident); ok && id.Name != "_" {
					f.declInit(f.declare(f.p.Info.Defs[id], id.Name, typ), val)
				}
			}
			bind(s.Key, fmt.Sprintf("%dint", i), types.Typ[types.Int])
			bind(s.Value, v, elem)
			f.block(s.Body.List)
		})
	}
	return true
}

func (f *fnTr) plainRange(s *ast.RangeStmt) *ast.RangeStmt {
	return plainRange(f.p, s)
}

func plainRange(p *Pkg, s *ast.RangeStmt) *ast.RangeStmt {
	if c, ok := ast.Unparen(s.X).(*ast.CallExpr); ok {
		r := *s
		switch calleeName(p, c) {
		case "maps.Keys", "maps.All", "slices.All":
			r.X = c.Args[0]
			return &r
		case "maps.Values", "slices.Values":
			r.X = c.Args[0]
			r.Key, r.Value = nil, s.Key
			return &r
		}
	}
	return s
}

// mutatedIn reports how body changes variable o: 0 not, 1 element assignment only, 2 otherwise.
func mutatedIn(p *Pkg, body ast.Node, o types.Object) int {
	r := 0
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				switch l := ast.Unparen(l).(type) {
				case *ast.Ident:
					if p.Info.Uses[l] == o {
						r = 2
					}
				case *ast.IndexExpr:
					if id, ok := ast.Unparen(l.X).(*ast.Ident); ok && p.Info.Uses[id] == o && r < 1 {
						r = 1
					}
				}
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear") {
				if x, ok := ast.Unparen(n.Args[0]).(*ast.Ident); ok && p.Info.Uses[x] == o {
					fail("%s on the collection being ranged over", id.Name)
				}
			}
		}
		return true
	})
	return r
}

func (f *fnTr) switchStmt(s *ast.SwitchStmt) {
	f.scoped(func() {
		if s.Init != nil {
			f.stmt(s.Init)
		}
		f.cur = s
		var tag string
		var tagT types.Type
		if s.Tag != nil {
			tag = f.ex(s.Tag)
			n := f.tmp()
			f.emit("let ghost %s = %s;", n, tag)
			tag, tagT = n, f.typeOf(s.Tag)
		}
		var clauses []*ast.CaseClause
		var def *ast.CaseClause
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			if cc.List == nil {
				def = cc
			} else {
				clauses = append(clauses, cc)
			}
		}
		depth := 0
		for _, cc := range clauses {
			f.cur = cc
			var cs []string
			saved := len(f.guards)
			for _, e := range cc.List {
				var c string
				if s.Tag != nil {
					c = f.eq(tag, tagT, f.ex(e), f.typeOf(e))
				} else {
					c = f.ex(e)
				}
				cs = append(cs, c)
				f.guards = append(f.guards, "!("+c+")")
			}
			f.guards = f.guards[:saved]
			f.emit("if cond(Ghost(%s)) {", f.garg(strings.Join(cs, " || ")))
			f.ind++
			f.block(noBreak(cc.Body))
			f.ind--
			f.emit("} else {")
			f.ind++
			depth++
		}
		if def != nil {
			f.cur = def
			f.block(noBreak(def.Body))
		}
		for ; depth > 0; depth-- {
			f.ind--
			f.emit("}")
		}
	})
}

// noBreak rewrites the body of a switch clause so that it ends where it breaks.
func noBreak(l []ast.Stmt) []ast.Stmt {
	if !hasDirectBreak(&ast.BlockStmt{List: l}) {
		return l
	}
	for i, s := range l {
		if !hasDirectBreak(&ast.BlockStmt{List: []ast.Stmt{s}}) {
			continue
		}
		rest := l[i+1:]
		out := append([]ast.Stmt{}, l[:i]...)
		switch s := s.(type) {
		case *ast.BranchStmt:
			if s.Tok != token.BREAK || s.Label != nil {
				fail("%s inside switch", s.Tok)
			}
			return out
		case *ast.BlockStmt:
			b := *s
			b.List = noBreak(append(append([]ast.Stmt{}, s.List...), rest...))
			return append(out, &b)
		case *ast.IfStmt:
			c, b := *s, *s.Body
			b.List = append([]ast.Stmt{}, s.Body.List...)
			if !endsInJump(b.List) || hasDirectBreak(&b) {
				b.List = append(b.List, rest...)
			}
			b.List = noBreak(b.List)
			c.Body = &b
			e := &ast.BlockStmt{Lbrace: s.End(), Rbrace: s.End(), List: rest}
			if s.Else != nil {
				e.List = append([]ast.Stmt{s.Else}, rest...)
			}
			e.List = noBreak(e.List)
			c.Else = e
			return append(out, &c)
		default:
			fail("break inside %T", s)
		}
	}
	return l
}

func hasBreak(b *ast.BlockStmt) bool {
	r := false
	ast.Inspect(b, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit:
			return false
		case *ast.BranchStmt:
			r = r || m.Tok == token.BREAK
		}
		return true
	})
	return r
}

func hasDirectBreak(b *ast.BlockStmt) bool {
	r := false
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch m := m.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				return false
			case *ast.BranchStmt:
				if m.Tok == token.BREAK && m.Label == nil || m.Tok == token.FALLTHROUGH {
					r = true
				}
			}
			return true
		})
	}
	for _, s := range b.List {
		walk(s)
	}
	return r
}

func (f *fnTr) typeSwitch(s *ast.TypeSwitchStmt) {
	f.scoped(func() {
		if s.Init != nil {
			f.stmt(s.Init)
		}
		f.cur = s
		var x ast.Expr
		name := ""
		switch a := s.Assign.(type) {
		case *ast.ExprStmt:
			x = a.X.(*ast.TypeAssertExpr).X
		case *ast.AssignStmt:
			x = a.Rhs[0].(*ast.TypeAssertExpr).X
			name = a.Lhs[0].(*ast.Ident).Name
		}
		xt := f.typeOf(x)
		e := f.ex(x)
		sub := f.tmp()
		f.emit("let ghost %s = %s;", sub, e)
		depth := 0
		var def *ast.CaseClause
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			if cc.List == nil {
				def = cc
				continue
			}
			f.cur = cc
			var tests []string
			val := sub
			for _, te := range cc.List {
				if tv := f.p.Info.Types[te]; tv.IsNil() {
					tests = append(tests, "("+sub+" is Nil)")
					continue
				}
				t, v := ifaceTest(sub, xt, f.typeOf(te))
				tests = append(tests, t)
				if len(cc.List) == 1 {
					val = v
				}
			}
			f.emit("if cond(Ghost(%s)) {", f.garg(strings.Join(tests, " || ")))
			f.ind++
			if name != "" {
				o := f.p.Info.Implicits[cc]
				if o != nil {
					g := f.declare(o, name, o.Type())
					f.declInit(g, val)
				}
			}
			f.block(noBreak(cc.Body))
			f.ind--
			f.emit("} else {")
			f.ind++
			depth++
		}
		if def != nil {
			f.cur = def
			if name != "" {
				if o := f.p.Info.Implicits[def]; o != nil {
					g := f.declare(o, name, o.Type())
					f.declInit(g, sub)
				}
			}
			f.block(noBreak(def.Body))
		}
		for ; depth > 0; depth-- {
			f.ind--
			f.emit("}")
		}
	})
}
