package main

// Generators of documents, paths and operations.

import (
	"math"
)

var keyPool = []string{"a", "b", "c", "d", "0", "1", "2", "x/y", "~", "~1", "~0", "a~b", "", "é", "k\"q", "back\\slash", "new\nline", "value", "timestamp", "speed", "가", "ab", "a b", "01", "-1", "+1", "/", "~01"}
var dotKeys = []string{"a", "b", "c", "d", "0", "1", "speed", "ab", "é", "x~1y"}
var strPool = []string{"", "x", "y", "hello", "\"", "\\", "\n\t\r\b\f", "\u2028", "é", "<5>", "true", "null", "/", "a'b", "\x01", "\x7f", "{", "]", ",", "0", "日本", "<html>&"}
var numPool = []float64{0, 1, -1, 2, 0.5, 72.5, -122.4194, 1e21, 1e-7, 123456789, 1e300, 5e-324, math.MaxFloat64, -math.MaxFloat64, 3, 1e20, 9007199254740993, 100, 1e6, 0.1, math.Copysign(0, -1)}
var tsPool = []int64{-1, 0, 1, 2, 3, 10, 1700000000, 1700000000123456789, math.MaxInt64, 9007199254740993}

func (c *Case) key() string {
	if c.p(1, 20) {
		return c.randStr()
	}
	if c.p(1, 2) {
		return keyPool[c.n(5)]
	}
	return pick(c, keyPool)
}
func (c *Case) str() string {
	if c.p(1, 6) {
		return c.randStr()
	}
	return pick(c, strPool)
}

// randStr: valid UTF-8 from various ranges, now and then long
func (c *Case) randStr() string {
	n := c.n(6)
	if c.p(1, 12) {
		n = 20 + c.n(80)
	}
	var r []rune
	for ; n > 0; n-- {
		switch c.n(6) {
		case 0:
			r = append(r, rune(c.n(128)))
		case 1:
			r = append(r, rune(32+c.n(95)))
		case 2:
			r = append(r, pick(c, []rune("\\\"/~.<>{}[],: 0123456789-+eE\x00\u2028\u2029\ufffd\ufeff\U0001F600\u007f\u0080\u07ff\u0800\uffff\U0010ffff")))
		case 3:
			r = append(r, rune(0x80+c.n(0x700)))
		case 4:
			r = append(r, rune('a'+c.n(26)))
		default:
			x := rune(c.n(0x110000))
			if x >= 0xd800 && x < 0xe000 {
				x = 'x'
			}
			r = append(r, x)
		}
	}
	return string(r)
}
func (c *Case) num() float64 {
	if c.p(1, 4) {
		for {
			f := math.Float64frombits(c.u64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return f
			}
		}
	}
	return pick(c, numPool)
}

// posNum: a number other than the negative zero
func (c *Case) ts() int64 {
	switch c.n(8) {
	case 0:
		return -1 - int64(c.n(5))
	case 1:
		return int64(c.u64() >> 1)
	case 2:
		return int64(c.u64() >> (1 + c.n(62)))
	}
	return pick(c, tsPool)
}

func (c *Case) leaf() Val {
	switch c.n(3) {
	case 0:
		return LS{Value: c.str(), Timestamp: c.ts()}
	case 1:
		return LF{Value: c.num(), Timestamp: c.ts()}
	}
	return LB{Value: c.p(1, 2), Timestamp: c.ts()}
}

// doc generates a document of about the given size.
func (c *Case) doc(size, depth int, nulls bool) Val {
	if depth <= 0 || size <= 0 || c.p(1, 6) {
		if nulls && c.p(1, 8) {
			return nil
		}
		return c.leaf()
	}
	if c.p(1, 2) {
		return c.obj(size, depth, nulls)
	}
	n := c.n(size + 1)
	a := make(Arr, 0, n+c.n(3))
	for i := 0; i < n; i++ {
		a = append(a, c.doc(size/2, depth-1, nulls))
	}
	return a
}

func (c *Case) obj(size, depth int, nulls bool) Val {
	o := Obj{}
	for i := c.n(size + 1); i > 0; i-- {
		o[c.key()] = c.doc(size/2, depth-1, nulls)
	}
	return o
}

// deep: a long chain of containers
func (c *Case) deep(n int) Val {
	if n == 0 {
		return c.leaf()
	}
	if c.p(1, 2) {
		a := Arr{}
		for i := c.n(3); i > 0; i-- {
			a = append(a, c.leaf())
		}
		return append(a, c.deep(n-1))
	}
	o := Obj{c.key(): c.leaf()}
	o[c.key()] = c.deep(n - 1)
	return o
}

// anyDoc generates a document, mostly an object.
func (c *Case) anyDoc(nulls bool) Val {
	s := c.size()
	switch c.n(40) {
	case 0: // deep
		return c.deep(4 + c.n(12))
	case 1: // long array
		a := make(Arr, 0, 8)
		for i := c.n(30); i > 0; i-- {
			a = append(a, c.doc(1, 1, nulls))
		}
		return Obj{c.key(): a}
	}
	if c.p(1, 6) {
		return c.doc(s, 4, nulls)
	}
	o := c.obj(s+1, 4, nulls).(Obj)
	if len(o) == 0 {
		o["a"] = c.leaf()
	}
	return o
}

// walk returns the tokens of a random location of the document.
func (c *Case) walk(v Val) []string {
	var t []string
	for {
		switch w := v.(type) {
		case Obj:
			if len(w) == 0 || (len(t) > 0 && c.p(1, 6)) {
				return t
			}
			k := keysOf(w)
			x := pick(c, k)
			t, v = append(t, x), w[x]
			continue
		case Arr:
			if len(w) == 0 || (len(t) > 0 && c.p(1, 6)) {
				return t
			}
			i := c.n(len(w))
			t, v = append(t, itoa(i)), w[i]
			continue
		}
		return t
	}
}

// tokensNear gives tokens of an existing or nearby location.
func (c *Case) tokensNear(v Val) []string {
	t := c.walk(v)
	switch c.n(6) {
	case 0:
		t = append(t, c.key())
	case 1:
		if len(t) > 0 {
			t[len(t)-1] = c.key()
		}
	case 2:
		if len(t) > 0 && c.p(1, 2) {
			t = t[:len(t)-1]
		}
	case 3:
		// one past the end of an array
		if len(t) > 0 {
			if par, ok := lookup(v, t[:len(t)-1]); ok {
				if a, ok := par.(Arr); ok {
					t[len(t)-1] = itoa(len(a) + c.n(2))
				}
			}
		}
	}
	return t
}

// path writes tokens as a path; dotted only where that is unambiguous.
func (c *Case) path(toks []string) string {
	dotted := c.p(1, 4) && len(toks) > 0 && toks[0] != ""
	p := ""
	for i, t := range toks {
		e := esc(t)
		for _, r := range []byte(e) {
			if r == '.' || r == '/' {
				dotted = false
			}
		}
		if i > 0 {
			p += "."
		}
		p += e
	}
	if dotted {
		return p
	}
	return pointer(toks)
}

func (c *Case) anyPath(v Val) string {
	p := c.path(c.tokensNear(v))
	switch c.n(12) {
	case 0:
		return p + pick(c, []string{"/", "//", "~", "~2", "/~", "/-", "/01", "/+1", "/-1", "/1e0", "/9223372036854775808", ".", "/ 1", "/00", "/-0"})
	case 1:
		if len(p) > 1 {
			i := c.n(len(p))
			for i > 0 && p[i]&0xc0 == 0x80 {
				i--
			}
			return p[:i] + pick(c, []string{"/", "~", ".", "x", "0"}) + p[i:]
		}
	case 2:
		if len(p) > 1 && p[1] < 0x80 {
			return p[1:]
		}
	}
	return p
}

func (c *Case) opValue() any {
	switch c.n(8) {
	case 0, 1:
		return c.str()
	case 2, 3:
		return c.num()
	case 4:
		return c.p(1, 2)
	case 5:
		if c.p(1, 4) {
			return pick(c, []int{-1, -7, 1 << 31, 5000000000, -1 << 40, 1<<53 + 1, math.MaxInt64, math.MinInt64})
		}
		return c.n(5)
	case 6:
		return "v" + itoa(c.n(3))
	}
	return float64(c.n(3))
}

func (c *Case) badValue() any {
	return pick(c, []any{nil, map[string]any{"a": 1.0}, []any{1.0}, int64(3), []string{"x"}})
}

// op generates an operation near the document's locations; it may be invalid.
func (c *Case) op(v Val) Op {
	o := Op{Path: c.anyPath(v), Timestamp: c.ts(), Op: pick(c, []opType{"add", "replace", "remove", "replace"})}
	if o.Op != "remove" || c.p(1, 4) {
		o.Value = c.opValue()
	}
	if c.p(1, 15) {
		o.Op = pick(c, []opType{"move", "copy", "test", "", "Add", "nop"})
	}
	if o.Op != "remove" && c.p(1, 15) {
		o.Value = c.badValue()
	}
	return o
}

// goodOp generates an operation that can be carried out on the document.
func (c *Case) goodOp(v Val) Op {
	for i := 0; i < 50; i++ {
		o := c.op(v)
		if _, ok := refApply(v, o); ok {
			return o
		}
	}
	if _, ok := v.(Obj); ok {
		return Op{Op: "replace", Path: "/a", Value: float64(c.n(3)), Timestamp: c.ts()}
	}
	return Op{Op: "replace", Path: "", Value: float64(c.n(3)), Timestamp: c.ts()}
}
