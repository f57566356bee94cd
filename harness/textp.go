package main

// TSON text: a reader of its own, texts to read, and the round trips.

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/internal/tson"
)

func init() {
	props["C01"] = c01
	props["C02"] = c02
	props["C03"] = c03
}

// text reads TSON: the remaining text is t[i:], a failure panics with bad{}.
type text struct {
	t string
	i int
}
type bad struct{}

func readText(s string) (v Val, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(bad); !is {
				panic(r)
			}
			v, ok = nil, false
		}
	}()
	r := &text{t: s}
	v = r.value()
	r.ws()
	if r.i != len(s) {
		return nil, false
	}
	return v, true
}
func (r *text) ws() { r.i += len(r.t[r.i:]) - len(strings.TrimLeft(r.t[r.i:], " \t\r\n")) }
func (r *text) see(p string) bool {
	r.ws()
	return strings.HasPrefix(r.t[r.i:], p)
}
func (r *text) take(p string) bool {
	if r.see(p) {
		r.i += len(p)
		return true
	}
	return false
}
func (r *text) need(p string) {
	if !r.take(p) {
		panic(bad{})
	}
}
func (r *text) digits() string {
	j := r.i
	for j < len(r.t) && r.t[j] >= '0' && r.t[j] <= '9' {
		j++
	}
	s := r.t[r.i:j]
	r.i = j
	return s
}

// stamp: a timestamp, if one stands here
func (r *text) stamp() (int64, bool) {
	if !r.take("<") {
		return -1, false
	}
	if r.i < len(r.t) && r.t[r.i] == '>' {
		r.i++
		return -1, true
	}
	d := r.digits()
	x, err := strconv.ParseInt(d, 10, 64)
	if d == "" || err != nil {
		panic(bad{})
	}
	r.need(">")
	return x, true
}
func (r *text) str() string {
	r.need("\"")
	var b []byte
	for {
		if r.i >= len(r.t) {
			panic(bad{})
		}
		c := r.t[r.i]
		r.i++
		switch c {
		case '"':
			return string(b)
		case '\\':
			if r.i >= len(r.t) {
				panic(bad{})
			}
			k := strings.IndexByte("\"\\/'bfnrt", r.t[r.i])
			r.i++
			if k < 0 {
				panic(bad{})
			}
			b = append(b, "\"\\/'\b\f\n\r\t"[k])
		default:
			b = append(b, c)
		}
	}
}

// scalar: a string or a number
func (r *text) scalar() (any, bool) {
	r.ws()
	if r.i >= len(r.t) {
		return nil, false
	}
	c := r.t[r.i]
	if c == '"' {
		return r.str(), true
	}
	if c != '-' && (c < '0' || c > '9') {
		return nil, false
	}
	j := r.i
	one := func(set string) bool {
		if r.i < len(r.t) && strings.IndexByte(set, r.t[r.i]) >= 0 {
			r.i++
			return true
		}
		return false
	}
	one("-")
	r.digits()
	if one(".") {
		r.digits()
	}
	if one("eE") {
		one("+-")
		r.digits()
	}
	x, err := strconv.ParseFloat(r.t[j:r.i], 64)
	if err != nil {
		panic(bad{})
	}
	return x, true
}
func leafOf(v any, ts int64) Val {
	switch v := v.(type) {
	case string:
		return LS{Value: v, Timestamp: ts}
	case float64:
		return LF{Value: v, Timestamp: ts}
	case bool:
		return LB{Value: v, Timestamp: ts}
	}
	return nil
}
func restamp(v Val, ts int64) Val {
	if ts < 0 {
		return v
	}
	switch v := v.(type) {
	case LS:
		return LS{Value: v.Value, Timestamp: ts}
	case LF:
		return LF{Value: v.Value, Timestamp: ts}
	case LB:
		return LB{Value: v.Value, Timestamp: ts}
	}
	return v
}
func (r *text) value() Val {
	if r.see("<") {
		ts, _ := r.stamp()
		v, ok := r.scalar()
		if !ok {
			panic(bad{})
		}
		return leafOf(v, ts)
	}
	switch {
	case r.take("{"):
		o := Obj{}
		if r.take("}") {
			return o
		}
		for {
			k := r.str()
			ts, _ := r.stamp()
			r.need(":")
			o[k] = restamp(r.value(), ts)
			if r.take("}") {
				return o
			}
			r.need(",")
		}
	case r.take("["):
		a := Arr{}
		if r.take("]") {
			return a
		}
		for {
			ts, _ := r.stamp()
			a = append(a, restamp(r.value(), ts))
			if r.take("]") {
				return a
			}
			r.need(",")
		}
	}
	var v any
	if x, ok := r.scalar(); ok {
		v = x
	} else if r.take("true") {
		v = true
	} else if r.take("false") {
		v = false
	} else {
		r.need("null")
		return nil
	}
	ts, _ := r.stamp()
	return leafOf(v, ts)
}

// ---- texts

func (c *Case) blank() string {
	switch c.n(5) {
	case 0:
		return pick(c, []string{" ", "\n", "\t", "\r\n", "  ", " \n\t "})
	}
	return ""
}
func (c *Case) stampText() string {
	switch c.n(9) {
	case 0:
		return "<>"
	case 1:
		return pick(c, []string{"<0>", "<007>", "<9223372036854775807>", "<5 >", "<5\n>", "<00000000000000000000005>"})
	case 2:
		return "<" + strconv.FormatInt(int64(c.u64()>>1), 10) + ">"
	}
	return "<" + itoa(c.n(1000)) + ">"
}
func (c *Case) strText() string {
	s := c.rawStr()
	var b strings.Builder
	b.WriteByte('"')
	for _, x := range []byte(s) {
		switch {
		case x == '"' || x == '\\':
			b.WriteByte('\\')
			b.WriteByte(x)
		case x == '/' && c.p(1, 2), x == '\'' && c.p(1, 2):
			b.WriteByte('\\')
			b.WriteByte(x)
		case strings.IndexByte("\b\f\n\r\t", x) >= 0 && c.p(2, 3):
			b.WriteByte('\\')
			b.WriteByte("bfnrt"[strings.IndexByte("\b\f\n\r\t", x)])
		default:
			b.WriteByte(x)
		}
	}
	b.WriteByte('"')
	return b.String()
}
func (c *Case) numText() string {
	switch c.n(4) {
	case 0:
		return pick(c, []string{"0", "-0", "1.", "1.5e3", "-2E-2", "1e+10", "00012", "1e300", "-1.7976931348623157e308", "5e-324", "123456789012345678901234567890", "0.1e1", "1e-400", "4.E2"})
	case 1:
		return strconv.FormatFloat(c.num(), 'g', -1, 64)
	}
	return itoa(c.n(2000) - 1000)
}

// docText writes a random document in a random layout.
func (c *Case) docText(size, depth int) string {
	var b strings.Builder
	w := func(s string) { b.WriteString(c.blank()); b.WriteString(s) }
	switch k := c.n(8); {
	case depth > 0 && size > 0 && k < 3:
		w("{")
		for i := c.n(size + 1); i > 0; i-- {
			k := c.strText()
			if c.p(1, 2) {
				k = strconv.Quote(pick(c, keyPool[:5]))
			}
			w(k)
			if c.p(1, 2) {
				w(c.stampText())
			}
			w(":")
			w(c.docText(size/2, depth-1))
			if i > 1 {
				w(",")
			}
		}
		w("}")
	case depth > 0 && size > 0 && k < 5:
		w("[")
		for i := c.n(size + 1); i > 0; i-- {
			if c.p(1, 2) {
				w(c.stampText())
			}
			w(c.docText(size/2, depth-1))
			if i > 1 {
				w(",")
			}
		}
		w("]")
	default:
		if c.p(1, 6) {
			w("null")
			break
		}
		t := c.strText()
		switch c.n(3) {
		case 0:
			t = c.numText()
		case 1:
			if c.p(1, 2) {
				t = pick(c, []string{"true", "false"})
			}
		}
		if c.p(1, 12) && t[0] != 't' && t[0] != 'f' {
			w(c.stampText())
			w(t)
			break
		}
		w(t)
		if c.p(1, 3) {
			w(c.stampText())
		}
	}
	b.WriteString(c.blank())
	return b.String()
}

var scraps = []string{"{", "}", "[", "]", ",", ":", "<", ">", "\"", "\\", "<5>", "<>", "null", "true", "false", "nul", "-", ".", "e", "E+", "1", "0", " ", "\n", "\"a\"", "\"a\":", "\\u0041", "\\x", "'", "/", "//", "<-1>", "<9223372036854775808>", "<1.5>", "<a>", "é", "\x00", "\xff", "NaN", "Infinity", "+1", "0x1p-2", "1_0", "<<", "\v", "\u00a0", "tru", "True", "nullnull", ",,", "[]", "{}"}

func (c *Case) anyText() string {
	switch c.n(12) {
	case 0: // scraps
		var b strings.Builder
		for i := c.n(8); i > 0; i-- {
			b.WriteString(pick(c, scraps))
		}
		return b.String()
	case 1: // bytes
		b := make([]byte, c.n(12))
		for i := range b {
			b[i] = byte(c.u64())
			if c.p(1, 2) {
				b[i] = "{}[],:<>\"\\ \n0123456789-.eEtrufalsn"[c.n(34)]
			}
		}
		return string(b)
	case 2: // written by the library
		v := c.rawDoc()
		if b, err := tson.Marshal(v); err == nil {
			return string(b)
		}
	}
	s := c.docText(c.size(), 4)
	if c.p(1, 2) {
		return s
	}
	for i := 1 + c.n(2); i > 0; i-- { // damage it
		j := c.n(len(s) + 1)
		switch c.n(4) {
		case 0:
			s = s[:j] + pick(c, scraps) + s[j:]
		case 1:
			if j < len(s) {
				s = s[:j] + s[j+1:]
			}
		case 2:
			if j < len(s) {
				s = s[:j] + pick(c, scraps) + s[j+1:]
			}
		default:
			s = s[:j]
		}
	}
	return s
}

func c01(c *Case) {
	s := c.anyText()
	if c.index%101 == 100 { // deep nesting
		n := 100 + c.n(3000)
		s = strings.Repeat(pick(c, []string{"[", "{\"a\":", "[[], "}), n) + pick(c, []string{"1 <2>", "\"x\"", "null", ""})
		if c.p(1, 2) {
			s += strings.Repeat(pick(c, []string{"]", "}"}), n)
		}
	}
	c.noteF(func() string { return fmt.Sprintf("text %s", clip(strconv.Quote(s), 2000)) })
	want, ok := readText(s)
	data := []byte(s)
	var got tson.Tson
	err := tson.Unmarshal(data, &got)
	if string(data) != s {
		c.fail("Unmarshal changed its input to %q", data)
	}
	switch {
	case ok && err != nil:
		c.fail("Unmarshal reports %v, want %s", err, clip(show(want), 2000))
	case !ok && err == nil:
		c.fail("Unmarshal yields %s, but the text is not TSON", clip(show(got), 2000))
	case ok && show(got) != show(want):
		c.fail("Unmarshal yields %s, want %s", clip(show(got), 2000), clip(show(want), 2000))
	}
}

// rawStr: any bytes
func (c *Case) rawStr() string {
	if c.p(1, 3) {
		b := make([]byte, c.n(8))
		for i := range b {
			b[i] = byte(c.u64())
			switch c.n(4) {
			case 0:
				b[i] = byte(c.n(32))
			case 1:
				b[i] = "\"\\/'<>{}[]:,\x7f"[c.n(13)]
			}
		}
		return string(b)
	}
	return c.str()
}

// rawDoc: a document whose strings are any bytes
func (c *Case) rawDoc() Val {
	var f func(v Val) Val
	f = func(v Val) Val {
		switch v := v.(type) {
		case LS:
			if c.p(1, 3) {
				return LS{Value: c.rawStr(), Timestamp: v.Timestamp}
			}
		case LF:
			if math.IsNaN(v.Value) || math.IsInf(v.Value, 0) {
				return nil
			}
		case Obj:
			o := Obj{}
			for _, k := range keysOf(v) {
				n := k
				if c.p(1, 5) {
					n = c.rawStr()
				}
				o[n] = f(v[k])
			}
			return o
		case Arr:
			a := Arr{}
			for _, e := range v {
				a = append(a, f(e))
			}
			return a
		}
		return v
	}
	return f(c.anyDoc(true))
}

// stamped: every negative timestamp made -1
func unstamped(v Val) Val {
	n := func(t int64) int64 { return max(t, -1) }
	switch v := v.(type) {
	case LS:
		return LS{Value: v.Value, Timestamp: n(v.Timestamp)}
	case LF:
		return LF{Value: v.Value, Timestamp: n(v.Timestamp)}
	case LB:
		return LB{Value: v.Value, Timestamp: n(v.Timestamp)}
	case Obj:
		o := Obj{}
		for k, e := range v {
			o[k] = unstamped(e)
		}
		return o
	case Arr:
		a := Arr{}
		for _, e := range v {
			a = append(a, unstamped(e))
		}
		return a
	}
	return v
}

func c02(c *Case) {
	doc := c.rawDoc()
	before := show(doc)
	c.note("document %s", before)
	b, err := tson.Marshal(doc)
	if err != nil {
		c.fail("Marshal reports %v", err)
	}
	backTo(c, doc, before, b)
}

func c03(c *Case) {
	doc := c.rawDoc()
	before := show(doc)
	space := func() string {
		s := ""
		for i := c.n(5); i > 0; i-- {
			s += pick(c, []string{" ", "\t", "  ", "\n", "\r"})
		}
		return s
	}
	prefix, indent := space(), space()
	c.note("document %s, prefix %q, indent %q", before, prefix, indent)
	b, err := tson.MarshalIndent(doc, prefix, indent)
	if err != nil {
		c.fail("MarshalIndent reports %v", err)
	}
	backTo(c, doc, before, b)
}

func backTo(c *Case, doc Val, before string, b []byte) {
	text := string(b)
	want := show(unstamped(doc))
	if show(doc) != before {
		c.fail("writing changed the document to %s", show(doc))
	}
	if v, ok := readText(text); !ok || show(v) != want {
		c.fail("the text written, %q, reads as %s (a text of the grammar: %v), want %s", text, show(v), ok, want)
	}
	var back tson.Tson
	if err := tson.Unmarshal(b, &back); err != nil || show(back) != want {
		c.fail("the text written, %q, reads back as %s (error %v), want %s", text, show(back), err, want)
	}
}
