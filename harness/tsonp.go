package main

// Documents on their own: lookup, latest timestamp, JSON forms, equality.

import (
	"bytes"
	"encoding/json"
	"maps"
	"math"
	"slices"
	"strconv"

	"github.com/CAU-CPSS/logument/internal/tson"
)

func init() {
	props["C04"] = c04
	props["C05"] = c05
	props["C06"] = c06
	props["C07"] = c07
	props["C08"] = c08
}

func c04(c *Case) {
	doc := c.anyDoc(true)
	before := show(doc)
	c.note("document %s", before)
	for i := 0; i < 4; i++ {
		path := c.anyPath(doc)
		if c.p(1, 3) {
			path = pointer(c.tokensNear(doc))
		}
		if c.p(1, 20) {
			path = c.randStr()
		}
		c.note("path %q", path)
		var want Val
		ok := false
		if path == "" || path[0] == '/' {
			want, ok = lookup(doc, tokens(path))
		}
		got, err := tson.GetValue(doc, path)
		switch {
		case ok && err != nil:
			c.fail("GetValue(%q) reports %v, want %s", path, err, show(want))
		case !ok && err == nil:
			c.fail("GetValue(%q) yields %s, but the path leads nowhere", path, show(got))
		case ok && !same(got, want):
			c.fail("GetValue(%q) yields %s, want %s", path, show(got), show(want))
		}
	}
	if show(doc) != before {
		c.fail("the lookup changed the document to %s", show(doc))
	}
}

func c05(c *Case) {
	doc := c.anyDoc(true)
	c.note("document %s", show(doc))
	if doc == nil {
		return
	}
	if got, want := tson.GetLatestTimestamp(doc), latest(doc); got != want {
		c.fail("GetLatestTimestamp is %d, want %d", got, want)
	}
}

// plain is the document with every leaf replaced by its value.
func plain(v Val) any {
	switch v := v.(type) {
	case LS:
		return v.Value
	case LF:
		return v.Value
	case LB:
		return v.Value
	case Obj:
		m := map[string]any{}
		for k, e := range v {
			m[k] = plain(e)
		}
		return m
	case Arr:
		a := []any{}
		for _, e := range v {
			a = append(a, plain(e))
		}
		return a
	}
	return nil
}

// wrap is the plain JSON value with every scalar made a leaf without a timestamp.
func wrap(v any) Val {
	switch v := v.(type) {
	case string:
		return LS{Value: v, Timestamp: -1}
	case float64:
		return LF{Value: v, Timestamp: -1}
	case bool:
		return LB{Value: v, Timestamp: -1}
	case map[string]any:
		o := Obj{}
		for k, e := range v {
			o[k] = wrap(e)
		}
		return o
	case []any:
		a := Arr{}
		for _, e := range v {
			a = append(a, wrap(e))
		}
		return a
	}
	return nil
}

func c07(c *Case) {
	doc := c.anyDoc(true)
	before := show(doc)
	c.note("document %s", before)
	want := plain(doc)
	var j any = "?"
	if err := tson.ToJson(doc, &j); err != nil || showAny(j) != showAny(want) {
		c.fail("ToJson yields %s (error %v), want %s", showAny(j), err, showAny(want))
	}
	if show(doc) != before {
		c.fail("ToJson changed the document to %s", show(doc))
	}
	b, err := tson.ToJsonBytes(doc)
	if err != nil {
		c.fail("ToJsonBytes reports %v", err)
	}
	var back any
	if err := json.Unmarshal(b, &back); err != nil || showAny(back) != showAny(want) {
		c.fail("ToJsonBytes yields %s (error %v), want %s", b, err, showAny(want))
	}
	// plain JSON to TSON and back
	src := plain(c.anyDoc(c.p(1, 2)))
	if src == nil {
		return
	}
	text := showAny(src)
	c.note("plain JSON %s", text)
	t := Val(LS{Value: "?"})
	if err := tson.FromJson(src, &t); err != nil || !same(t, wrap(src)) {
		c.fail("FromJson yields %s (error %v), want %s", show(t), err, show(wrap(src)))
	}
	if showAny(src) != text {
		c.fail("FromJson changed its input to %s", showAny(src))
	}
	var again any
	if err := tson.ToJson(t, &again); err != nil || showAny(again) != text {
		c.fail("JSON to TSON to JSON yields %s (error %v)", showAny(again), err)
	}
	raw, _ := json.Marshal(src)
	t = LS{Value: "?"}
	if err := tson.FromJsonBytes(raw, &t); err != nil || !same(t, wrap(src)) {
		c.fail("FromJsonBytes yields %s (error %v), want %s", show(t), err, show(wrap(src)))
	}
	bad := append(append([]byte{}, raw...), pick(c, []string{"x", "}", ",", "\"", "{}"})...)
	if err := tson.FromJsonBytes(bad, &t); err == nil {
		c.fail("FromJsonBytes accepts %s", bad)
	}
}

// vary changes one detail of a document, or none; the second result tells
// whether values or structure differ, the third whether anything does.
func vary(c *Case, v Val) Val {
	v = deepCopy(v)
	toks := c.walk(v)
	if len(toks) == 0 {
		return c.vary1(v)
	}
	par, _ := lookup(v, toks[:len(toks)-1])
	last := toks[len(toks)-1]
	switch p := par.(type) {
	case Obj:
		switch c.n(5) {
		case 0:
			p[c.key()] = p[last]
		case 1:
			delete(p, last)
		default:
			p[last] = c.vary1(p[last])
		}
	case Arr:
		i, _ := strconv.Atoi(last)
		if c.p(1, 4) && len(p) > 1 {
			k := c.n(len(p))
			p[i], p[k] = p[k], p[i]
		} else {
			p[i] = c.vary1(p[i])
		}
	}
	return v
}

func (c *Case) vary1(v Val) Val {
	switch w := v.(type) {
	case LS:
		if c.p(1, 2) {
			w.Timestamp = c.ts()
			return w
		}
		if c.p(1, 2) {
			w.Value += "x"
			return w
		}
	case LF:
		if c.p(1, 2) {
			w.Timestamp = c.ts()
			return w
		}
		if c.p(1, 2) {
			w.Value = math.Nextafter(w.Value, 0)
			return w
		}
	case LB:
		if c.p(1, 2) {
			w.Timestamp++
			return w
		}
	case Arr:
		if c.p(1, 2) {
			return append(append(Arr{}, w...), c.doc(1, 1, true))
		}
		if len(w) > 0 {
			return append(Arr{}, w[:len(w)-1]...)
		}
	case nil:
		return pick(c, []Val{Obj{}, Arr{}, nil})
	}
	switch c.n(6) {
	case 0:
		return nil
	case 1:
		return Obj{}
	case 2:
		return Arr{}
	}
	return c.leaf()
}

// nonZero: the negative zero equals the positive one, although they print differently
func nonNeg(v Val) Val {
	switch w := v.(type) {
	case LF:
		if w.Value == 0 {
			w.Value = 0
			return LF{Value: 0, Timestamp: w.Timestamp}
		}
	case Obj:
		for k := range w {
			w[k] = nonNeg(w[k])
		}
	case Arr:
		for i := range w {
			w[i] = nonNeg(w[i])
		}
	}
	return v
}

func c08(c *Case) {
	a := deepCopy(c.anyDoc(true))
	b := deepCopy(a)
	for k := c.n(3); k > 0; k-- {
		b = vary(c, b)
	}
	if c.p(1, 10) {
		b = c.anyDoc(true)
	}
	if c.p(1, 3) {
		b = flipZeros(c, b)
	}
	sa, sb := show(a), show(b)
	c.note("first %s", sa)
	c.note("second %s", sb)
	na, nb := nonNeg(deepCopy(a)), nonNeg(deepCopy(b)) // 0 equals -0
	for k := 0; k < 2; k++ {
		if eq, err := tson.Equal(a, b); err != nil || eq != (show(na) == show(nb)) {
			c.fail("Equal reports %v (error %v)", eq, err)
		}
		if eq, err := tson.EqualWithoutTimestamp(a, b); err != nil || eq != sameValues(na, nb) {
			c.fail("EqualWithoutTimestamp reports %v (error %v)", eq, err)
		}
		if show(a) != sa || show(b) != sb {
			c.fail("comparison changed a document: %s and %s", show(a), show(b))
		}
		a, b, sa, sb = b, a, sb, sa
	}
}

// flipZeros changes the sign of some zeros.
func flipZeros(c *Case, v Val) Val {
	switch w := v.(type) {
	case LF:
		if w.Value == 0 && c.p(1, 2) {
			w.Value = -w.Value
		}
		return w
	case Obj:
		for _, k := range slices.Sorted(maps.Keys(w)) {
			w[k] = flipZeros(c, w[k])
		}
	case Arr:
		for i := range w {
			w[i] = flipZeros(c, w[i])
		}
	}
	return v
}

// compatDoc reads the JSON form with timestamps of a document.
func compatDoc(v any) (Val, bool) {
	switch v := v.(type) {
	case nil:
		return nil, true
	case map[string]any:
		if len(v) == 2 {
			val, ok1 := v["value"]
			n, ok2 := v["timestamp"].(json.Number)
			if ok1 && ok2 {
				if ts, err := strconv.ParseInt(string(n), 10, 64); err == nil {
					switch x := val.(type) {
					case nil:
						return nil, true
					case string:
						return LS{Value: x, Timestamp: ts}, true
					case bool:
						return LB{Value: x, Timestamp: ts}, true
					case json.Number:
						f, err := strconv.ParseFloat(string(x), 64)
						return LF{Value: f, Timestamp: ts}, err == nil
					}
					return nil, false
				}
			}
		}
		o := Obj{}
		for k, e := range v {
			d, ok := compatDoc(e)
			if !ok {
				return nil, false
			}
			o[k] = d
		}
		return o, true
	case []any:
		a := Arr{}
		for _, e := range v {
			d, ok := compatDoc(e)
			if !ok {
				return nil, false
			}
			a = append(a, d)
		}
		return a, true
	}
	return nil, false
}

func assign(v *any, b []byte) bool {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	return d.Decode(v) == nil
}

func c06(c *Case) {
	doc := c.anyDoc(true)
	before := show(doc)
	c.note("document %s", before)
	b, err := tson.ToCompatibleTsonBytes(doc)
	if err != nil {
		c.fail("ToCompatibleTsonBytes reports %v", err)
	}
	var tree any
	if !assign(&tree, b) {
		c.fail("ToCompatibleTsonBytes yields %s, not JSON", b)
	}
	if d, ok := compatDoc(tree); !ok || !same(d, doc) {
		c.fail("ToCompatibleTsonBytes yields %s, which does not describe the document", b)
	}
	back := Val(LS{Value: "?"})
	if err := tson.FromCompatibleTsonBytes(b, &back); err != nil || !same(back, doc) {
		c.fail("through %s: FromCompatibleTsonBytes yields %s (error %v)", b, show(back), err)
	}
	s, err := tson.ToCompatibleTsonBytesSorted(doc)
	if err == nil {
		var st any
		if !assign(&st, s) || showAny(st) != showAny(tree) {
			c.fail("ToCompatibleTsonBytesSorted yields %s, want the content of %s", s, b)
		}
	} else {
		c.fail("ToCompatibleTsonBytesSorted reports %v", err)
	}
	// damaged and foreign texts
	bad := append([]byte{}, b...)
	for k := c.n(3); k >= 0 && len(bad) > 0; k-- {
		i := c.n(len(bad))
		switch c.n(4) {
		case 0:
			bad[i] = "{}[],:\"0123456789.eE-ntf "[c.n(25)]
		case 1:
			bad = append(bad[:i:i], bad[i+1:]...)
		case 2:
			bad = bytes.Replace(bad, []byte(pick(c, []string{`"value"`, `"timestamp"`, `:1`, `true`})), []byte(pick(c, []string{`"timestamp"`, `"value"`, `:1.5`, `:1e2`, `null`, `[1]`, `{}`, `"x"`})), 1)
		case 3:
			bad = append(bad[:i:i], append([]byte(pick(c, []string{"1", "null", "[]", "{}", "\"a\"", "9", ","})), bad[i:]...)...)
		}
	}
	c.note("text %q", bad)
	var want Val
	ok := false
	var chk, tr any
	if json.Unmarshal(bad, &chk) == nil && assign(&tr, bad) {
		want, ok = compatDoc(tr)
	}
	got := Val(LS{Value: "?"})
	err = tson.FromCompatibleTsonBytes(bad, &got)
	switch {
	case ok && (err != nil || !same(got, want)):
		c.fail("FromCompatibleTsonBytes(%s) yields %s (error %v), want %s", bad, show(got), err, show(want))
	case !ok && err == nil:
		c.fail("FromCompatibleTsonBytes(%s) yields %s, but this is not the JSON form of a document", bad, show(got))
	}
	if show(doc) != before {
		c.fail("conversion changed the document to %s", show(doc))
	}
}
