package main

// Vehicle data sets: the next data set has the signals of the one before.

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"
	"unsafe"

	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/vssgen"
)

func init() { props["C27"], props["C28"] = c27, c28 }

// fields of a data set: its data and the flag that it is one
func setFields(v *vssgen.VssJson) (data *any, init *bool) {
	r := reflect.ValueOf(v).Elem()
	for i := 0; i < r.NumField(); i++ {
		f := r.Field(i)
		p := unsafe.Pointer(f.UnsafeAddr())
		switch {
		case f.Kind() == reflect.Interface && f.NumMethod() == 0:
			data = (*any)(p)
		case f.Kind() == reflect.Bool:
			init = (*bool)(p)
		}
	}
	return
}

func (c *Case) setKey() string {
	ks := []string{"a", "b", "A", "Speed", "value", "Vehicle", "é", "x y", "0", "-", "metadata", "x_", "parent", "ü/~1"}
	if c.p(1, 3) {
		return pick(c, ks) + itoa(c.n(30))
	}
	return pick(c, ks)
}

func (c *Case) setLeaf() map[string]any {
	var v any
	switch c.n(6) {
	case 0:
		v = pick(c, []string{"", "x", "TEST_STRING_VALUE_1", "true", "é\"\\\n", "<a>"})
	case 1:
		v = c.p(1, 2)
	case 2:
		v = pick(c, []int{0, -1, 100, math.MaxInt64, math.MinInt64, 7})
	case 3:
		v = pick(c, []float64{0, 1, -0.5, 1e300, 1e-300, 42.25, 1 << 60})
	case 4:
		v = float64(c.n(1000)) / 8
	}
	return map[string]any{"value": v, "timestamp": pick(c, []int64{0, -1, 1, 1 << 53, math.MaxInt64, math.MinInt64, 1700000000000000000})}
}

func (c *Case) setTree(depth, width int) map[string]any {
	m := map[string]any{}
	for i := c.n(width + 1); i > 0; i-- {
		k := c.setKey()
		switch x := c.n(8); {
		case x < 3 && depth > 0:
			m[k] = c.setTree(depth-1, width)
		case x == 3:
			a := []any{}
			for j := c.n(4); j > 0; j-- {
				a = append(a, c.setLeaf())
			}
			m[k] = a
		default:
			m[k] = c.setLeaf()
		}
	}
	return m
}

func copyAny(a any) any {
	switch a := a.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, v := range a {
			m[k] = copyAny(v)
		}
		return m
	case []any:
		s := make([]any, len(a))
		for i, v := range a {
			s[i] = copyAny(v)
		}
		return s
	}
	return a
}

// signals of a data set, by path
func signals(c *Case, a map[string]any, path string, out map[string]any) {
	for k, v := range a {
		p := path + "." + k
		if m, ok := v.(map[string]any); ok {
			if _, leaf := m["timestamp"]; !leaf {
				signals(c, m, p, out)
				continue
			}
		}
		out[p[0:]] = v
	}
}

func sameKindAny(x, y any) bool {
	return fmt.Sprintf("%T", x) == fmt.Sprintf("%T", y)
}

func c28(c *Case) {
	size := c.size()
	data := c.setTree(1+c.n(3), 1+size/2)
	var v vssgen.VssJson
	d, in := setFields(&v)
	if d == nil || in == nil {
		return
	}
	*d, *in = data, true
	cur := &v
	for step := 0; step < 1+c.n(3); step++ {
		d, _ := setFields(cur)
		before := map[string]any{}
		signals(c, copyAny((*d).(map[string]any)).(map[string]any), "", before)
		rate, keep := pick(c, []float64{0, 0.3, 0.5, 1}), pick(c, []float64{0, 0.3, 0.5, 1})
		text := fmt.Sprintf("%#v", *d)
		c.note("data set %s\nGenerateNext(%v, %v)", text, rate, keep)
		start := time.Now().UnixNano()
		next, _ := cur.GenerateNext(rate, keep, 1, step+2)
		nd, _ := setFields(next)
		nm, ok := (*nd).(map[string]any)
		if !ok {
			c.fail("the next data set is a %T", *nd)
		}
		after := map[string]any{}
		signals(c, nm, "", after)
		var ts *int64
		leaf := func(p string, x, y any) {
			xm, _ := x.(map[string]any)
			ym, ok := y.(map[string]any)
			if !ok || len(ym) != 2 {
				c.fail("signal %s became %#v", p, y)
			}
			if !sameKindAny(xm["value"], ym["value"]) {
				c.fail("signal %s: value %#v became %#v", p, xm["value"], ym["value"])
			}
			t, ok := ym["timestamp"].(int64)
			if !ok {
				c.fail("signal %s: timestamp %#v", p, ym["timestamp"])
			}
			if ts == nil {
				ts = &t
				if t < start || t > time.Now().UnixNano() {
					c.fail("the new timestamp %d is not the time of the call", t)
				}
			}
			if *ts != t {
				c.fail("signal %s has the timestamp %d, another one %d", p, t, *ts)
			}
		}
		for p, x := range before {
			y, ok := after[p]
			if !ok {
				c.fail("signal %s is missing in the next data set %#v", strings.TrimPrefix(p, "."), nm)
			}
			if reflect.DeepEqual(x, y) {
				continue
			}
			if xs, ok := x.([]any); ok {
				ys, ok := y.([]any)
				if !ok || len(xs) != len(ys) {
					c.fail("signal %s: %#v became %#v", p, x, y)
				}
				for i := range xs {
					leaf(p, xs[i], ys[i])
				}
				continue
			}
			leaf(p, x, y)
		}
		for p := range after {
			if _, ok := before[p]; !ok {
				c.fail("signal %s is new in the next data set", p)
			}
		}
		cur = next
	}
}

// schema is a VSS schema.
func (c *Case) schema(depth, width int) map[string]any {
	types := []string{"boolean", "int8", "uint8", "float", "double", "float[]", "int16", "int32", "string", "string[]", "uint16", "uint32", "uint8[]"}
	ch := map[string]any{}
	for i := 1 + c.n(width); i > 0; i-- {
		k := pick(c, []string{"A", "B", "Speed", "é", "x y", "Row1", "a/b", "t~1", "\"q\"", "<x>", "0"}) + pick(c, []string{"", "", itoa(c.n(20))})
		if depth > 0 && c.p(1, 3) {
			ch[k] = c.schema(depth-1, width)
			continue
		}
		n := map[string]any{"datatype": pick(c, types), "type": "sensor", "description": "x"}
		switch c.n(5) {
		case 0:
			n["unit"] = "percent"
		case 1:
			n["unit"] = "km/h"
		case 2:
			n["allowed"] = []any{"ON", "OFF", "a\"b\\", "é<>&"}[c.n(3):]
		case 3:
			delete(n, "datatype")
		}
		ch[k] = n
	}
	return map[string]any{"type": "branch", "uuid": "1", "children": ch}
}

// quiet runs f without its output.
func quiet(f func()) {
	o, e := os.Stdout, os.Stderr
	if n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout, os.Stderr = n, n
		defer func() { os.Stdout, os.Stderr = o, e; n.Close() }()
	}
	f()
}

func readFile(c *Case, f string) string {
	b, err := os.ReadFile(f)
	if err != nil {
		c.fail("%v", err)
	}
	return string(b)
}

// replays: the changes in file p turn the data set in file a into the one in file b.
func replays(c *Case, a, p, b string) {
	ta, tp, tb := readFile(c, a), readFile(c, p), readFile(c, b)
	c.note("data set %s\nchanges %s\nnext data set %s", ta, tp, tb)
	va, ok := readText(ta)
	if !ok {
		c.fail("the data set cannot be read")
	}
	vb, ok := readText(tb)
	if !ok {
		c.fail("the next data set cannot be read")
	}
	var ops tsonpatch.Patch
	if err := json.Unmarshal([]byte(tp), &ops); err != nil {
		c.fail("the changes cannot be read: %v", err)
	}
	x, ok := refFold(va, ops)
	if !ok {
		c.fail("the changes cannot be applied")
	}
	if !same(x, vb) {
		c.fail("the changes lead to %s, not to the next data set", clip(show(x), 2000))
	}
	_, sa := flat(va, "")
	_, sb := flat(vb, "")
	if sa != sb {
		c.fail("the next data set does not have the signals of the one before")
	}
}

// flat lists the signals of a document, and their paths.
func flat(v Val, p string) (n int, s string) {
	if o, ok := v.(Obj); ok {
		for _, k := range keysOf(o) {
			m, t := flat(o[k], p+"/"+esc(k))
			n += m
			s += t
		}
		return
	}
	return 1, p + "\n"
}

func c27(c *Case) {
	dir, err := os.MkdirTemp("", "vss")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	size := c.size()
	if c.p(1, 2) { // steps from data sets of any form, of one or two series taking turns
		name := func(k string, s, j int) string { return filepath.Join(dir, k+itoa(s)+"_"+itoa(j)) }
		// save leaves the text of a set in a file, whatever stood there
		save := func(v *vssgen.VssJson, f string) {
			if c.p(1, 3) {
				t := filepath.Join(dir, "t")
				v.Save(t)
				old := readFile(c, t)
				switch c.n(4) {
				case 0:
					old = strings.Repeat("7", len(old))
				case 1:
					old = strings.Map(func(r rune) rune {
						if r >= '0' && r <= '9' {
							return '0' + (r-'0'+1)%10
						}
						return r
					}, old)
				case 2:
					old += "\n" + old
				case 3:
					old = ""
				}
				if os.WriteFile(f, []byte(old), 0o644) != nil {
					return
				}
				v.Save(f)
				a, ok := readText(readFile(c, f))
				b, ok2 := readText(readFile(c, t))
				if ok2 && (!ok || !same(a, b)) {
					c.note("the file was %s\nand is %s\nin a new file it is %s", old, readFile(c, f), readFile(c, t))
					c.fail("Save leaves another text than in a new file")
				}
				return
			}
			v.Save(f)
		}
		var cur []*vssgen.VssJson
		first := pick(c, []int{1, 1, 1, 2, 9, 98, 99, 999, 1 << 20})
		for s := 0; s < 1+c.n(2); s++ {
			v := &vssgen.VssJson{}
			d, in := setFields(v)
			if d == nil || in == nil {
				return
			}
			*d, *in = c.setTree(1+c.n(3), 1+size/2), true
			save(v, name("s", s, first))
			cur = append(cur, v)
		}
		for j := first + 1; j < first+3+c.n(2); j++ {
			for s, v := range cur {
				rate, keep := pick(c, []float64{0, 0.3, 0.5, 1}), pick(c, []float64{0, 0.3, 0.5, 1})
				next, p := v.GenerateNext(rate, keep, 1, j)
				save(next, name("s", s, j))
				p.Save(name("p", s, j))
				replays(c, name("s", s, j-1), name("p", s, j), name("s", s, j))
				cur[s] = next
			}
		}
		return
	}
	cars, files := c.n(3), c.n(4)
	sch := c.schema(2, 1+size/2)
	if size > 2 && c.p(1, 50) { // many files, or many cars
		sch = c.schema(0, 1)
		if cars, files = 1, 1000+c.n(40); c.p(1, 2) {
			cars, files = 100+c.n(20), 2
		}
	}
	text, _ := json.Marshal(map[string]any{"Vehicle": sch})
	file := filepath.Join(dir, "schema.json")
	if os.WriteFile(file, text, 0o644) != nil {
		return
	}
	meta := func() map[string]any {
		return map[string]any{"dataset": file, "cars": cars, "files": files,
			"change_rate": pick(c, []float64{0, 0.3, 1}), "maintain_rate": pick(c, []float64{0, 0.3, 1}), "size": pick(c, []float64{0, 0.5, 1, 1})}
	}
	out := filepath.Join(dir, "out")
	if c.p(1, 3) { // directories that are there already
		for i := 1; i <= cars; i++ {
			for _, k := range []string{"tson", "patches", ""} {
				if d := filepath.Join(out, "car_"+itoa(i), k); c.p(1, 3) {
					c.note("directory %s", d)
					os.MkdirAll(d, 0o755)
				}
			}
		}
	}
	if c.p(1, 4) { // an earlier series
		m := meta()
		c.note("Generate(%v)", m)
		quiet(func() { vssgen.Generate(m, out) })
	}
	m := meta()
	c.note("schema %s\nGenerate(%v)", text, m)
	quiet(func() { vssgen.Generate(m, out) })
	for i := 1; i <= cars; i++ {
		car := filepath.Join(out, "car_"+itoa(i))
		name := func(j int) string { return filepath.Join(car, "tson", itoa(i)+"_"+itoa(j)+".tson") }
		change := func(j int) string { return filepath.Join(car, "patches", itoa(i)+"_"+itoa(j)+".json") }
		if a, b := readFile(c, name(1)), readFile(c, change(1)); true {
			va, ok := readText(a)
			vb, ok2 := readText(b)
			if !ok || !ok2 || !same(va, vb) {
				c.note("first data set %s\nand its copy %s", a, b)
				c.fail("the first data set and its copy differ, or cannot be read")
			}
		}
		for j := 2; j <= files; j++ {
			replays(c, name(j-1), change(j), name(j))
		}
	}
}
