package main

// Patch generation and the JSON form of patches.

import (
	"encoding/json"
	"math"

	"github.com/CAU-CPSS/logument/internal/tsonpatch"
)

func init() {
	props["C12"] = c12
	props["C13"] = c13
	props["C14"] = c14
}

func isLeaf(v Val) bool {
	switch v.(type) {
	case LS, LF, LB:
		return true
	}
	return false
}

func kind(v Val) int {
	switch v.(type) {
	case LS:
		return 1
	case LF:
		return 2
	case LB:
		return 3
	case Obj:
		return 4
	case Arr:
		return 5
	}
	return 0
}

// canGenerate: every added or retyped member is a leaf
func canGenerate(a, b Val) bool {
	if kind(a) != kind(b) {
		return isLeaf(b)
	}
	switch x := a.(type) {
	case Obj:
		y := b.(Obj)
		for k, e := range y {
			if o, ok := x[k]; ok {
				if !canGenerate(o, e) {
					return false
				}
			} else if !isLeaf(e) {
				return false
			}
		}
	case Arr:
		y := b.(Arr)
		for i, e := range y {
			if i < len(x) {
				if !canGenerate(x[i], e) {
					return false
				}
			} else if !isLeaf(e) {
				return false
			}
		}
	}
	return true
}

// pair is two documents, the second mostly a variation of the first.
func (c *Case) pair() (Val, Val) {
	a := nonNeg(deepCopy(c.anyDoc(true)))
	b := deepCopy(a)
	switch c.n(10) {
	case 0:
		b = c.anyDoc(true)
	case 1:
	default:
		for k := 1 + c.n(4); k > 0; k-- {
			n := vary(c, b)
			if c.p(5, 6) && !canGenerate(a, n) {
				continue
			}
			b = n
		}
	}
	b = nonNeg(deepCopy(b))
	if c.p(1, 8) {
		a, b = c.broken(a), c.broken(b)
	}
	if c.p(1, 5) {
		a, b = b, a
	}
	return a, b
}

// broken is v with strings that are not valid UTF-8.
func (c *Case) broken(v Val) Val {
	switch x := v.(type) {
	case LS:
		if c.p(2, 3) {
			x.Value += pick(c, []string{"\xff", "\xfe", "\xc3", "\xed\xa0\x80", "\ufffd"})
		}
		return x
	case Obj:
		for k, e := range x {
			x[k] = c.broken(e)
		}
	case Arr:
		for i, e := range x {
			x[i] = c.broken(e)
		}
	}
	return v
}

func (c *Case) generate(a, b Val, ts bool) (tsonpatch.Patch, error) {
	if ts {
		return tsonpatch.GeneratePatchWithTimestamp(a, b)
	}
	return tsonpatch.GeneratePatch(a, b)
}

func c12(c *Case) {
	a, b := c.pair()
	sa, sb := show(a), show(b)
	c.note("first %s", sa)
	c.note("second %s", sb)
	for _, ts := range []bool{false, true} {
		p, err := c.generate(a, b, ts)
		if err != nil {
			if canGenerate(a, b) {
				c.fail("generation (timestamps %v) reports %v", ts, err)
			}
			continue
		}
		got, err := tsonpatch.ApplyPatch(a, p)
		if err != nil {
			c.fail("patch %s (timestamps %v) cannot be applied: %v", showOps(p), ts, err)
		}
		if ts && !same(got, b) || !sameValues(got, b) {
			c.fail("patch %s (timestamps %v) yields %s", showOps(p), ts, show(got))
		}
		if ref, ok := refFold(a, p); !ok || ts && !same(ref, b) || !sameValues(ref, b) {
			c.fail("patch %s (timestamps %v) describes %s (possible: %v)", showOps(p), ts, show(ref), ok)
		}
	}
	if show(a) != sa || show(b) != sb {
		c.fail("generation changed a document: %s and %s", show(a), show(b))
	}
}

func c13(c *Case) {
	a, b := c.pair()
	c.note("first %s", show(a))
	c.note("second %s", show(b))
	for _, ts := range []bool{false, true} {
		p, err := c.generate(a, b, ts)
		if err != nil {
			continue
		}
		equal := sameValues(a, b)
		if ts {
			equal = same(a, b)
		}
		if (len(p) == 0) != equal {
			c.fail("patch is %s (timestamps %v), equal documents: %v", showOps(p), ts, equal)
		}
		seen := map[string]bool{}
		for _, o := range p {
			if seen[o.Path] {
				c.fail("patch %s addresses %q twice", showOps(p), o.Path)
			}
			seen[o.Path] = true
			toks := tokens(o.Path)
			if o.Path == "" {
				toks = nil
			} else if o.Path[0] != '/' || pointer(toks) != o.Path {
				c.fail("path %q of patch %s is not escaped", o.Path, showOps(p))
			}
			av, inA := lookup(a, toks)
			bv, inB := lookup(b, toks)
			switch o.Op {
			case "add", "replace":
				l, ok := opLeaf(o)
				if !inB || !ok || !same(l, bv) {
					c.fail("%s carries something else than %s", showOp(o), show(bv))
				}
				if inA && (o.Op == "add" || sameValues(av, bv)) && !(av == nil && o.Op == "add") && !(ts && !same(av, bv) && o.Op == "replace") {
					c.fail("%s although the first document has %s there", showOp(o), show(av))
				}
			case "remove":
				if inB || !inA {
					c.fail("%s although the location is in the second document (%v) or not in the first (%v)", showOp(o), inB, !inA)
				}
			default:
				c.fail("operation %s", showOp(o))
			}
		}
	}
}

func plainValue(v any) any {
	if i, ok := v.(int); ok {
		return float64(i)
	}
	return v
}

func sameOp(a, b Op) bool {
	return a.Op == b.Op && a.Path == b.Path && a.Timestamp == b.Timestamp && showAny(plainValue(a.Value)) == showAny(plainValue(b.Value)) &&
		(a.Value == nil) == (b.Value == nil)
}

// readOp reads the JSON form of one operation strictly.
func readOp(b []byte) (Op, bool) {
	var m map[string]json.RawMessage
	var o Op
	if json.Unmarshal(b, &m) != nil || len(m) < 3 || len(m) > 4 {
		return o, false
	}
	if json.Unmarshal(m["op"], &o.Op) != nil || json.Unmarshal(m["path"], &o.Path) != nil || json.Unmarshal(m["timestamp"], &o.Timestamp) != nil {
		return o, false
	}
	if v, ok := m["value"]; ok {
		if json.Unmarshal(v, &o.Value) != nil {
			return o, false
		}
	} else if len(m) != 3 {
		return o, false
	}
	return o, true
}

func c14(c *Case) {
	doc := c.anyDoc(true)
	var p tsonpatch.Patch
	for k := c.n(5); k > 0; k-- {
		o := c.op(doc)
		if c.p(1, 3) {
			o.Path = c.randStr()
		}
		if c.p(1, 3) {
			o.Value = c.randStr()
		}
		if c.p(1, 12) {
			o.Value = plain(c.doc(3, 2, true))
		}
		switch o.Value.(type) {
		case int64, []string:
			o.Value = nil
		}
		if c.p(1, 10) {
			o.Timestamp = pick(c, []int64{math.MinInt64, math.MaxInt64, -1, 0})
		}
		p = append(p, o)
	}
	before := showOps(p)
	c.note("patch %s", before)
	read := func(what string, q tsonpatch.Patch, err error, text string) {
		if err != nil || len(q) != len(p) {
			c.fail("%s: %s reads back as %s (error %v)", what, text, showOps(q), err)
		}
		for i := range p {
			if !sameOp(p[i], q[i]) {
				c.fail("%s: %s reads back as %s", what, text, showOps(q))
			}
		}
	}
	for i := range p {
		s := p[i].String()
		if o, ok := readOp([]byte(s)); !ok || !sameOp(o, p[i]) {
			c.fail("String yields %s, which reads back as %s (well-formed: %v)", s, showOp(o), ok)
		}
		b, err := p[i].Marshal()
		if err != nil {
			c.fail("Marshal of %s reports %v", showOp(p[i]), err)
		}
		if o, ok := readOp(b); !ok || !sameOp(o, p[i]) {
			c.fail("Marshal yields %s, which reads back as %s (well-formed: %v)", b, showOp(o), ok)
		}
	}
	s := p.String()
	q, err := tsonpatch.Unmarshal([]byte(s))
	read("String", q, err, s)
	q, err = tsonpatch.FromJson(p)
	read("FromJson", q, err, "the patch")
	q, err = tsonpatch.FromJson([]tsonpatch.Operation(p))
	read("FromJson", q, err, "the list of operations")
	if p != nil {
		b, err := json.Marshal(p)
		if err != nil {
			c.fail("json.Marshal reports %v", err)
		}
		q, err = tsonpatch.Unmarshal(b)
		read("json.Marshal", q, err, string(b))
	}
	if _, err := tsonpatch.Unmarshal([]byte(s + "x")); err == nil {
		c.fail("Unmarshal accepts %sx", s)
	}
	if showOps(p) != before {
		c.fail("serialising changed the patch to %s", showOps(p))
	}
}
