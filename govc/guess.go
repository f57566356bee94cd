package main

// Guessed invariants. Where the proof of changed code fails and no input is
// found that breaks the property, the proof is tried again with invariants
// guessed from the loops as they are now. A guess that does not hold is
// dropped, and so are recorded invariants and hints that do not hold; what is
// proved stays the same.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// guessing reports whether invariants are guessed in the current function.
func (f *fnTr) guessing() bool { return f.prev != nil }

// guesses gives candidate invariants for loop n. head is the loop statement.
func (f *fnTr) guesses(s ast.Stmt, ls *LoopSpec, n int) (r []string) {
	if !f.guessing() || n > len(f.prev.Loops) {
		return
	}
	iv, lim := "", ""
	vis := f.visible()
	switch l := s.(type) {
	case *ast.RangeStmt:
		iv = fmt.Sprintf("i_%d", n)
		if _, ok := f.typeOf(l.X).Underlying().(*types.Basic); ok {
			lim = fmt.Sprintf("seq_%d", n)
		} else {
			lim = fmt.Sprintf("seq_%d.len()", n)
		}
		r = append(r, f.searchRange(l, n)...)
	case *ast.ForStmt:
		iv = f.loopVar(l)
		if iv == "" || !vis[iv] {
			iv = ""
			break
		}
		r = append(r, "0 <= "+iv, "-1 <= "+iv, iv+" <= g_"+fmt.Sprint(n), iv+" >= g_"+fmt.Sprint(n))
		if b, ok := ast.Unparen(l.Cond).(*ast.BinaryExpr); ok && l.Cond != nil && !f.impure(b.Y) {
			lim = f.quietly(func() string { return f.ex(b.Y) })
			r = append(r, iv+" <= "+lim)
		}
		r = append(r, f.searchFor(l, n, iv)...)
	}
	for _, x := range f.prev.Loops[n-1].Sets {
		k := strings.LastIndex(x, " ")
		vt, v := x[:k], x[k+1:]
		if !vis[v] || v == iv {
			continue
		}
		for _, c := range ls.Maybe {
			if c.Name == vt && hasTag(c.Tags, f.t.prop) {
				r = append(r, strings.ReplaceAll(f.prep(c.Text), "$", v))
			}
		}
		r = append(r, fmt.Sprintf("%s == g_%d_%s", v, n, v))
		if strings.HasPrefix(vt, "Seq<") {
			r = append(r, fmt.Sprintf("%s.len() == g_%d_%s.len()", v, n, v))
		}
		if strings.HasPrefix(vt, "Seq<") && iv != "" {
			r = append(r, v+".len() == "+iv, v+".len() <= "+iv)
			if lim != "" {
				r = append(r, v+".len() == "+lim)
			}
		}
	}
	return
}

// stray emits the hints that no longer have a place of their own.
func (f *fnTr) stray() {
	if !f.guessing() || len(f.frames) > 0 {
		return
	}
	put := func(m map[string]string) {
		var ks []string
		for k := range m {
			if !f.placed[k] {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			f.hint(m[k])
		}
	}
	put(f.ct.CallBefore)
	put(f.ct.CallAfter)
	if f.al == nil {
		return
	}
	for n := 1; n <= len(f.al.base.Loops); n++ {
		if l := f.ct.Loops[n]; l != nil && f.al.fwd[n] == 0 {
			f.hint(l.Before)
			f.hint(l.After)
		}
	}
}

// captures names the values variables have before loop n.
func (f *fnTr) captures(n int) {
	if !f.guessing() || n > len(f.prev.Loops) {
		return
	}
	f.stray()
	vis := f.visible()
	for _, x := range f.prev.Loops[n-1].Sets {
		if v := x[strings.LastIndex(x, " ")+1:]; vis[v] {
			f.emit("let ghost g_%d_%s = %s;", n, v, v)
		}
	}
}

// loopVar is the counter of a loop.
func (f *fnTr) loopVar(s *ast.ForStmt) string {
	p, ok := s.Post.(*ast.IncDecStmt)
	if !ok {
		return ""
	}
	id, ok := p.X.(*ast.Ident)
	if !ok || f.scope[f.p.Info.Uses[id]] == nil {
		return ""
	}
	return f.scope[f.p.Info.Uses[id]].name
}

// quietly evaluates an expression without its side conditions.
func (f *fnTr) quietly(fn func() string) (r string) {
	out, tmp := f.out, f.tmpN
	defer func() {
		f.out, f.tmpN = out, tmp
		if e := recover(); e != nil {
			if _, ok := e.(transErr); !ok {
				panic(e)
			}
			r = ""
		}
	}()
	return fn()
}

// leaves gives the condition under which a body leaves the loop at once.
func (f *fnTr) leaves(b *ast.BlockStmt) ast.Expr {
	for _, s := range b.List {
		if i, ok := s.(*ast.IfStmt); ok && i.Init == nil && i.Else == nil && len(i.Body.List) > 0 {
			switch l := i.Body.List[len(i.Body.List)-1].(type) {
			case *ast.ReturnStmt:
				return i.Cond
			case *ast.BranchStmt:
				if l.Tok == token.BREAK {
					return i.Cond
				}
			}
		}
	}
	return nil
}

// with translates e with names replaced.
func (f *fnTr) with(e ast.Expr, sub map[types.Object]string) string {
	if f.impure(e) {
		return ""
	}
	old := map[types.Object]string{}
	for o, s := range sub {
		if x, ok := f.subst[o]; ok {
			old[o] = x
		}
		f.subst[o] = s
	}
	r := f.quietly(func() string { return f.ex(e) })
	for o := range sub {
		delete(f.subst, o)
		if x, ok := old[o]; ok {
			f.subst[o] = x
		}
	}
	return r
}

func (f *fnTr) searchRange(s *ast.RangeStmt, n int) (r []string) {
	c := f.leaves(s.Body)
	if c == nil {
		return
	}
	sub := map[types.Object]string{}
	obj := func(e ast.Expr) types.Object {
		if id, ok := e.(*ast.Ident); ok {
			return f.p.Info.Defs[id]
		}
		return nil
	}
	switch f.typeOf(s.X).Underlying().(type) {
	case *types.Slice:
		sub[obj(s.Key)] = fmt.Sprintf("(j as %s)", vtype(types.Typ[types.Int]))
		sub[obj(s.Value)] = fmt.Sprintf("seq_%d[j]", n)
	case *types.Map:
		sub[obj(s.Key)] = fmt.Sprintf("seq_%d[j]", n)
		sub[obj(s.Value)] = fmt.Sprintf("map_%d[seq_%d[j]]", n, n)
	default:
		return
	}
	delete(sub, nil)
	if x := f.with(c, sub); x != "" {
		r = append(r, fmt.Sprintf("forall|j: int| 0 <= j < i_%d ==> !(%s)", n, x))
	}
	return
}

func (f *fnTr) searchFor(s *ast.ForStmt, n int, iv string) (r []string) {
	c := f.leaves(s.Body)
	p := s.Post.(*ast.IncDecStmt)
	if c == nil {
		return
	}
	o := f.p.Info.Uses[p.X.(*ast.Ident)]
	x := f.with(c, map[types.Object]string{o: "(j as " + vtype(f.typeOf(p.X)) + ")"})
	if x == "" {
		return
	}
	if p.Tok == token.INC {
		return []string{fmt.Sprintf("forall|j: int| g_%d <= j < %s ==> !(%s)", n, iv, x)}
	}
	return []string{fmt.Sprintf("forall|j: int| %s < j <= g_%d ==> !(%s)", iv, n, x)}
}
