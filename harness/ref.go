package main

// Reference semantics and comparison, written without the code under test.

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
)

type (
	Val = tson.Value
	Obj = tson.Object
	Arr = tson.Array
	LS  = tson.Leaf[string]
	LF  = tson.Leaf[float64]
	LB  = tson.Leaf[bool]
	Op  = tsonpatch.Operation
)

// show renders a document unambiguously, object members sorted.
func show(v Val) string {
	var b strings.Builder
	showTo(&b, v, true)
	return b.String()
}

func showTo(b *strings.Builder, v Val, ts bool) {
	stamp := func(t int64) {
		if ts {
			fmt.Fprintf(b, "@%d", t)
		}
	}
	switch v := v.(type) {
	case nil:
		b.WriteString("null")
	case LS:
		b.WriteString(strconv.QuoteToASCII(v.Value))
		stamp(v.Timestamp)
	case LF:
		b.WriteString(showF(v.Value))
		stamp(v.Timestamp)
	case LB:
		fmt.Fprintf(b, "%v", v.Value)
		stamp(v.Timestamp)
	case Obj:
		if v == nil { // unlike an empty object: Equal tells them apart
			b.WriteString("nil")
		}
		keys := make([]string, 0, len(v))
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(strconv.QuoteToASCII(k) + ": ")
			showTo(b, v[k], ts)
		}
		b.WriteByte('}')
	case Arr:
		if v == nil {
			b.WriteString("nil")
		}
		b.WriteByte('[')
		for i, e := range v {
			if i > 0 {
				b.WriteString(", ")
			}
			showTo(b, e, ts)
		}
		b.WriteByte(']')
	default:
		fmt.Fprintf(b, "<%T>", v)
	}
}

// showF tells every number apart by its bits.
func showF(x float64) string {
	return strconv.FormatFloat(x, 'g', -1, 64)
}

func showAny(v any) string {
	switch v := v.(type) {
	case string:
		return strconv.QuoteToASCII(v)
	case float64:
		return showF(v)
	case Val:
		return show(v)
	case map[string]any:
		keys := make([]string, 0, len(v))
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		var b strings.Builder
		b.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(strconv.QuoteToASCII(k) + ": " + showAny(v[k]))
		}
		return b.String() + "}"
	case []any:
		var xs []string
		for _, e := range v {
			xs = append(xs, showAny(e))
		}
		return "[" + strings.Join(xs, ", ") + "]"
	case nil:
		return "null"
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

// same: identical documents (values compared by bits, so -0 and 0 differ)
func same(a, b Val) bool { return show(a) == show(b) }

// sameValues ignores timestamps.
func sameValues(a, b Val) bool {
	var x, y strings.Builder
	showTo(&x, a, false)
	showTo(&y, b, false)
	return x.String() == y.String()
}

func deepCopy(v Val) Val {
	switch v := v.(type) {
	case Obj:
		o := Obj{}
		for k, e := range v {
			o[k] = deepCopy(e)
		}
		return o
	case Arr:
		a := make(Arr, len(v))
		for i := range v {
			a[i] = deepCopy(v[i])
		}
		return a
	}
	return v
}

// withBackArray gives every array of the document spare capacity.
func withSpare(c *Case, v Val) Val {
	switch v := v.(type) {
	case Obj:
		o := make(Obj, len(v)+c.n(3))
		for k, e := range v {
			o[k] = withSpare(c, e)
		}
		return o
	case Arr:
		a := make(Arr, len(v), len(v)+c.n(4))
		for i := range v {
			a[i] = withSpare(c, v[i])
		}
		return a
	}
	return v
}

func showOp(o Op) string {
	return fmt.Sprintf("{%s %s %s @%d}", o.Op, strconv.QuoteToASCII(o.Path), showAny(o.Value), o.Timestamp)
}
func showOps(os []Op) string {
	var xs []string
	for _, o := range os {
		xs = append(xs, showOp(o))
	}
	return "[" + strings.Join(xs, " ") + "]"
}
func showPatches(m map[uint64]tsonpatch.Patch) string {
	var ks []uint64
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	var xs []string
	for _, k := range ks {
		xs = append(xs, fmt.Sprintf("%d: %s", k, showOps(m[k])))
	}
	return "{" + strings.Join(xs, ", ") + "}"
}

// ---- paths

func unesc(s string) string {
	out := []byte{}
	for i := 0; i < len(s); i++ {
		if s[i] == '~' && i+1 < len(s) && (s[i+1] == '0' || s[i+1] == '1') {
			if s[i+1] == '1' {
				out = append(out, '/')
			} else {
				out = append(out, '~')
			}
			i++
		} else {
			out = append(out, s[i])
		}
	}
	return string(out)
}

func esc(s string) string {
	out := []byte{}
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '~':
			out = append(out, '~', '0')
		case '/':
			out = append(out, '~', '1')
		default:
			out = append(out, s[i])
		}
	}
	return string(out)
}

func pointer(toks []string) string {
	p := ""
	for _, t := range toks {
		p += "/" + esc(t)
	}
	return p
}

// splitOn cuts s at every byte of set.
func splitOn(s, set string) []string {
	res := []string{""}
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(set, s[i]) >= 0 {
			res = append(res, "")
		} else {
			res[len(res)-1] += string(s[i : i+1])
		}
	}
	return res
}

// tokens of a pointer or dotted path
func tokens(path string) []string {
	if path == "" {
		return nil
	}
	var ts []string
	if path[0] == '/' {
		ts = splitOn(path[1:], "/")
	} else {
		ts = splitOn(path, "./")
	}
	for i := range ts {
		ts[i] = unesc(ts[i])
	}
	return ts
}

var intRe = regexp.MustCompile(`^[+-]?[0-9]+$`)

// index written in a token: a decimal integer that is not negative
func index(tok string) (int, bool) {
	if !intRe.MatchString(tok) {
		return 0, false
	}
	var b big.Int
	b.SetString(strings.TrimPrefix(tok, "+"), 10)
	if b.Sign() < 0 || !b.IsInt64() {
		return 0, false
	}
	return int(b.Int64()), true
}

func lookup(v Val, toks []string) (Val, bool) {
	for _, t := range toks {
		switch w := v.(type) {
		case Obj:
			e, ok := w[t]
			if !ok {
				return nil, false
			}
			v = e
		case Arr:
			i, ok := index(t)
			if !ok || i >= len(w) {
				return nil, false
			}
			v = w[i]
		default:
			return nil, false
		}
	}
	return v, true
}

func opLeaf(o Op) (Val, bool) {
	switch x := o.Value.(type) {
	case string:
		return LS{Value: x, Timestamp: o.Timestamp}, true
	case float64:
		return LF{Value: x, Timestamp: o.Timestamp}, true
	case int:
		return LF{Value: float64(x), Timestamp: o.Timestamp}, true
	case bool:
		return LB{Value: x, Timestamp: o.Timestamp}, true
	}
	return nil, false
}

// refApply applies one operation to a copy of the document.
func refApply(doc Val, o Op) (Val, bool) {
	var leaf Val
	switch o.Op {
	case "add", "replace":
		l, ok := opLeaf(o)
		if !ok {
			return nil, false
		}
		leaf = l
	case "remove":
	default:
		return nil, false
	}
	toks := tokens(o.Path)
	if len(toks) == 0 {
		return leaf, true
	}
	return refAt(deepCopy(doc), toks, leaf)
}

// refAt: leaf == nil removes
func refAt(v Val, toks []string, leaf Val) (Val, bool) {
	t, last := toks[0], len(toks) == 1
	switch w := v.(type) {
	case Obj:
		if last {
			if leaf == nil {
				delete(w, t)
			} else {
				w[t] = leaf
			}
			return w, true
		}
		child := w[t]
		if child == nil {
			if leaf == nil {
				return nil, false
			}
			if _, num := index(toks[1]); num {
				child = Arr{}
			} else {
				child = Obj{}
			}
		}
		n, ok := refAt(child, toks[1:], leaf)
		if !ok {
			return nil, false
		}
		w[t] = n
		return w, true
	case Arr:
		i, ok := index(t)
		if !ok || i > len(w) {
			return nil, false
		}
		if i == len(w) {
			if !last || leaf == nil {
				return nil, false
			}
			return append(append(Arr{}, w...), leaf), true
		}
		if last {
			if leaf == nil {
				return append(append(Arr{}, w[:i]...), w[i+1:]...), true
			}
			w[i] = leaf
			return w, true
		}
		n, ok := refAt(w[i], toks[1:], leaf)
		if !ok {
			return nil, false
		}
		w[i] = n
		return w, true
	}
	return nil, false
}

func refFold(doc Val, ops []Op) (Val, bool) {
	for _, o := range ops {
		d, ok := refApply(doc, o)
		if !ok {
			return nil, false
		}
		doc = d
	}
	return doc, true
}

func latest(v Val) int64 {
	switch v := v.(type) {
	case LS:
		return v.Timestamp
	case LF:
		return v.Timestamp
	case LB:
		return v.Timestamp
	case Obj:
		m := int64(0)
		for _, e := range v {
			m = max(m, latest(e))
		}
		return m
	case Arr:
		m := int64(0)
		for _, e := range v {
			m = max(m, latest(e))
		}
		return m
	}
	return math.MinInt64
}
