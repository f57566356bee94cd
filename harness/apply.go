package main

import (
	"reflect"

	"github.com/CAU-CPSS/logument/internal/tsonpatch"
)

func init() {
	props["C09"] = c09
	props["C10"] = c10
	props["C11"] = c11
}

func c09(c *Case) {
	doc := withSpare(c, c.anyDoc(true))
	op := c.op(doc)
	c.noteF(func() string { return "document " + show(doc) })
	c.noteF(func() string { return "operation " + showOp(op) })
	want, ok := refApply(doc, op)
	got, err := tsonpatch.ApplyOperation(doc, op)
	switch {
	case ok && err != nil:
		c.fail("ApplyOperation reports %v, want %s", err, show(want))
	case !ok && err == nil:
		c.fail("ApplyOperation reports no error and yields %s, but the operation cannot be carried out", show(got))
	case ok && !same(got, want):
		c.fail("ApplyOperation yields %s, want %s", show(got), show(want))
	}
}

// share replaces parts of the document by other parts of it.
func share(c *Case, v Val) Val {
	o, ok := v.(Obj)
	if !ok || len(o) == 0 {
		return v
	}
	k := keysOf(o)
	a, b := pick(c, k), c.key()
	o[b] = o[a]
	return o
}

func c10(c *Case) {
	type held struct {
		v Val
		s string
	}
	doc := withSpare(c, c.anyDoc(true))
	if c.p(1, 2) {
		doc = share(c, doc)
	}
	docs := []held{{doc, show(doc)}}
	c.noteF(func() string { return "document " + docs[0].s })
	for i := 1 + c.n(6); i > 0; i-- {
		from := pick(c, docs)
		var res Val
		var err error
		var what string
		if c.p(1, 2) {
			op := c.op(from.v)
			if c.p(3, 4) {
				op = c.goodOp(from.v)
			}
			what = showOp(op)
			c.note("apply %s to %s", what, from.s)
			res, err = tsonpatch.ApplyOperation(from.v, op)
		} else {
			var p tsonpatch.Patch
			d := from.v
			for j := c.n(4); j > 0; j-- {
				op := c.goodOp(d)
				d, _ = refApply(d, op)
				p = append(p, op)
			}
			if c.p(1, 3) { // fails after earlier operations succeeded
				p = append(p, Op{Op: "replace", Path: "/a/b/c/0/zz/1", Value: nil})
			}
			what = showOps(p)
			c.note("apply %s to %s", what, from.s)
			res, err = tsonpatch.ApplyPatch(from.v, p)
		}
		for j, h := range docs {
			if s := show(h.v); s != h.s {
				c.fail("applying %s changed document %d\nfrom %s\nto   %s", what, j, h.s, s)
			}
		}
		if err == nil {
			docs = append(docs, held{res, show(res)})
		}
	}
}

func c11(c *Case) {
	doc := withSpare(c, c.anyDoc(true))
	var p tsonpatch.Patch
	d := doc
	for i := c.n(c.size() + 1); i > 0; i-- {
		op := c.goodOp(d)
		if c.p(1, 10) {
			op = c.op(d)
		}
		if n, ok := refApply(d, op); ok {
			d = n
		}
		p = append(p, op)
	}
	c.noteF(func() string { return "document " + show(doc) })
	c.noteF(func() string { return "patch " + showOps(p) })
	before := append(tsonpatch.Patch{}, p...)
	// the reference is the code's own single step: C09 judges the steps
	want, ok := Val(doc), true
	for _, op := range p {
		var err error
		if want, err = tsonpatch.ApplyOperation(want, op); err != nil {
			ok = false
			break
		}
	}
	got, err := tsonpatch.ApplyPatch(doc, p)
	switch {
	case ok && err != nil:
		c.fail("ApplyPatch reports %v, want %s", err, show(want))
	case !ok && err == nil:
		c.fail("ApplyPatch reports no error although an operation fails; it yields %s", show(got))
	case !ok && got != nil:
		c.fail("ApplyPatch reports an error and yields the document %s", show(got))
	case ok && !same(got, want):
		c.fail("ApplyPatch yields %s, want %s", show(got), show(want))
	}
	if len(p) > 0 && !reflect.DeepEqual(before, p) {
		c.fail("ApplyPatch changed the patch to %s", showOps(p))
	}
}
