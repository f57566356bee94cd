package main

// One check: translate, run the verifier, map its answers back to obligations.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Opts struct {
	repo, verif, prop, work, fn string
	dev, noReplay, smoke, own   bool
	shift                       map[string]map[string]int
	guess                       map[string]bool
	shape                       bool
	rlimit                      int
	limit                       time.Duration
	seed                        uint64
	tier                        string
}

type PropConf struct {
	Roots    []string `json:"roots"`
	Assume   []string `json:"assume"`
	Specs    []string `json:"specs"`
	Replay   []string `json:"replay"`
	Note     string   `json:"note"`
	Packages []string `json:"packages"`
}

type Failure struct {
	Obl  *Obl
	Msg  string
	Text string
}

func (t *Tr) structDefs() string {
	var b strings.Builder
	for _, k := range []string{"tsonpatch.Operation", "logument.Logument", "tson.Parser", "vssgen.VssJson"} {
		if k == "vssgen.VssJson" && !t.uses("vssgen.") {
			continue
		}
		i := strings.Index(k, ".")
		p := t.w.pkgs[modPath+k[:i]]
		if p == nil {
			if k == "tsonpatch.Operation" {
				b.WriteString("pub struct Operation { pub Op: Str, pub Path: Str, pub Value: Any, pub Timestamp: i64 }\n")
			}
			continue
		}
		o := p.Types.Scope().Lookup(k[i+1:])
		if o == nil {
			t.errs = append(t.errs, "type "+k+" not found in the current source")
			continue
		}
		s, ok := o.Type().Underlying().(*types.Struct)
		if !ok {
			t.errs = append(t.errs, "type "+k+" is not a struct")
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					e, ok := r.(transErr)
					if !ok {
						panic(r)
					}
					t.errs = append(t.errs, "type "+k+": "+e.msg)
				}
			}()
			var fs []string
			for j := 0; j < s.NumFields(); j++ {
				fs = append(fs, "pub "+s.Field(j).Name()+": "+vtype(s.Field(j).Type()))
			}
			fmt.Fprintf(&b, "pub struct %s { %s }\n", k[i+1:], strings.Join(fs, ", "))
		}()
	}
	return b.String()
}

// jsonDefs states the keys encoding/json writes, from the struct tags of the
// current source; a type with an encoding of its own is not covered.
func (t *Tr) jsonDefs() string {
	var b strings.Builder
	keys := func(prefix string, s *types.Struct, fields ...string) {
		for _, want := range fields {
			key, opts, ok := "", "", false
			for j := 0; j < s.NumFields(); j++ {
				if s.Field(j).Name() != want {
					continue
				}
				ok = true
				key, opts, _ = strings.Cut(reflect.StructTag(s.Tag(j)).Get("json"), ",")
				if key == "" {
					key = want
				}
			}
			if !ok || key == "-" || opts != "" && opts != "omitempty" {
				t.errs = append(t.errs, fmt.Sprintf("JSON tag of field %s of %s", want, prefix))
				continue
			}
			fmt.Fprintf(&b, "pub open spec fn %s_%s_key() -> Str { %s }\n", prefix, strings.ToLower(want), t.lit(key))
			fmt.Fprintf(&b, "pub open spec fn %s_%s_omitempty() -> bool { %v }\n", prefix, strings.ToLower(want), opts != "")
		}
		if s.NumFields() != len(fields) {
			t.errs = append(t.errs, fmt.Sprintf("fields of %s", prefix))
		}
	}
	for _, k := range []string{"tson.Leaf", "tson.Object", "tson.Array", "tsonpatch.Operation", "tsonpatch.Patch", "tsonpatch.OpType"} {
		i := strings.Index(k, ".")
		p := t.w.pkgs[modPath+k[:i]]
		if p == nil {
			continue
		}
		o := p.Types.Scope().Lookup(k[i+1:])
		if o == nil {
			t.errs = append(t.errs, "type "+k+" not found in the current source")
			continue
		}
		ms := types.NewMethodSet(types.NewPointer(o.Type()))
		for j := 0; j < ms.Len(); j++ {
			switch ms.At(j).Obj().Name() {
			case "MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText":
				t.errs = append(t.errs, "type "+k+" has an encoding of its own")
			}
		}
		if s, ok := o.Type().Underlying().(*types.Struct); ok {
			if k == "tson.Leaf" {
				keys("leaf", s, "Value", "Timestamp")
			} else {
				keys("op", s, "Op", "Path", "Value", "Timestamp")
			}
		}
	}
	return b.String()
}

type VFile struct {
	lines []line
}

func (v *VFile) add(s string, o *Obl) {
	for _, l := range strings.Split(strings.TrimRight(s, "\n"), "\n") {
		v.lines = append(v.lines, line{l, o})
	}
}

func (v *VFile) text() string {
	var b strings.Builder
	for _, l := range v.lines {
		b.WriteString(l.text)
		b.WriteByte('\n')
	}
	return b.String()
}

func (t *Tr) assemble(o Opts, pc PropConf) *VFile {
	v := &VFile{}
	var body []line
	for _, k := range t.order {
		body = append(body, line{"", nil}, line{"// ---- " + k, nil})
		body = append(body, t.done[k]...)
	}
	var specs []string
	for _, s := range append([]string{"prelude"}, pc.Specs...) {
		data, err := os.ReadFile(filepath.Join(o.verif, "specs", s+".rs"))
		if err != nil {
			fatal("%v", err)
		}
		specs = append(specs, t.prepText(string(data)))
	}
	v.add("#![allow(unused_imports, unused_variables, unused_mut, unused_assignments, non_snake_case, dead_code, non_camel_case_types, unused_parens, unused_braces, unreachable_code)]\nuse vstd::prelude::*;\nverus! {", nil)
	v.add(t.structDefs(), &Obl{Kind: "types"})
	v.add(t.jsonDefs(), &Obl{Kind: "types"})
	if t.cursorUsed || t.uses("vssgen.") {
		v.add(cursorSpecs, nil)
	}
	for i, s := range specs {
		name := append([]string{"prelude"}, pc.Specs...)[i]
		v.add("// ==== "+name, nil)
		v.add(s, &Obl{Fn: "specs/" + name + ".rs", Kind: "lemma"})
		if i == 0 {
			v.add(t.litDefs(), &Obl{Fn: "literals", Kind: "lemma"})
		}
	}
	v.lines = append(v.lines, body...)
	v.add("} // verus!\nfn main() {}", nil)
	return v
}

type VerusResult struct {
	verified, errors int
	fails            []Failure
	raw              string
	times            map[string]any
	secs             float64
	crashed          bool
}

func runVerus(file string, v *VFile, o Opts, multi int, extra ...string) VerusResult {
	args := []string{file, "--output-json", "--time", "--error-format=json", "--triggers-mode", "silent", "--multiple-errors", strconv.Itoa(multi), "--rlimit", strconv.Itoa(o.rlimit), "--num-threads", "8"}
	args = append(args, extra...)
	cmd := exec.Command("verus", args...)
	cmd.Dir = filepath.Dir(file)
	limit := o.limit
	if limit == 0 {
		limit = 480 * time.Second
	}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	start := time.Now()
	err := runGroup(cmd, limit)
	r := VerusResult{secs: time.Since(start).Seconds(), raw: se.String()}
	var js struct {
		Res struct {
			Verified int  `json:"verified"`
			Errors   int  `json:"errors"`
			Success  bool `json:"success"`
			Failed   bool `json:"encountered-error"`
			Whole    bool `json:"is-verifying-entire-crate"`
		} `json:"verification-results"`
		Times map[string]any `json:"times-ms"`
	}
	if e := json.Unmarshal(so.Bytes(), &js); e != nil {
		r.crashed = true
	}
	if len(extra) > 0 && !js.Res.Whole { // success is only reported for the whole file
		js.Res.Success = !js.Res.Failed && js.Res.Errors == 0 && js.Res.Verified > 0
	}
	r.verified, r.errors, r.times = js.Res.Verified, js.Res.Errors, js.Times
	for _, l := range strings.Split(se.String(), "\n") {
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var d struct {
			Message  string `json:"message"`
			Level    string `json:"level"`
			Rendered string `json:"rendered"`
			Spans    []struct {
				File    string `json:"file_name"`
				Line    int    `json:"line_start"`
				Primary bool   `json:"is_primary"`
				Label   string `json:"label"`
			} `json:"spans"`
		}
		if json.Unmarshal([]byte(l), &d) != nil || d.Level != "error" || len(d.Spans) == 0 {
			continue
		}
		for i := range d.Spans {
			if filepath.Base(d.Spans[i].File) != filepath.Base(file) {
				d.Spans[i].Line = 0
			}
		}
		f := Failure{Msg: d.Message, Text: d.Rendered}
		pick := func(primary bool, kinds ...string) {
			for _, s := range d.Spans {
				if s.Line >= 1 && s.Line <= len(v.lines) {
					if ob := v.lines[s.Line-1].obl; ob != nil {
						for _, k := range kinds {
							if ob.Kind == k && f.Obl == nil {
								f.Obl = ob
							}
						}
						if primary && s.Primary && f.Obl == nil && len(kinds) == 0 {
							f.Obl = ob
						}
					}
				}
			}
		}
		if strings.Contains(d.Message, "postcondition") {
			pick(false, "postcondition", "frame")
		}
		if strings.Contains(d.Message, "invariant") {
			pick(false, "loop invariant", "loop exit condition")
		}
		pick(true)
		if f.Obl == nil {
			for _, s := range d.Spans {
				if s.Line >= 1 && s.Line <= len(v.lines) && v.lines[s.Line-1].obl != nil && f.Obl == nil {
					f.Obl = v.lines[s.Line-1].obl
				}
			}
		}
		if f.Obl == nil {
			f.Obl = &Obl{Fn: "?", Kind: "verifier"}
		}
		r.fails = append(r.fails, f)
	}
	if (err != nil || !js.Res.Success) && len(r.fails) == 0 {
		r.crashed = true
	}
	return r
}

var trustRe = regexp.MustCompile(`\b(external_body|axiom|assume|admit|uninterp|assume_specification)\b`)

func loadConf(o Opts) (map[string]PropConf, error) {
	data, err := os.ReadFile(filepath.Join(o.verif, "specs", "properties.json"))
	if err != nil {
		return nil, err
	}
	m := map[string]PropConf{}
	return m, json.Unmarshal(data, &m)
}

// translate builds the verifier input for one property from the current source.
func translate(o Opts, w *World, pc PropConf, smoke bool) (*Tr, *VFile, error) {
	cts, err := parseContracts(filepath.Join(o.verif, "contracts"))
	if err != nil {
		return nil, nil, err
	}
	t := newTr(w, cts, o.prop)
	t.smoke = smoke
	if !o.shape {
		t.shapes = loadShapes(o.verif)
		t.shift = o.shift
		t.guess = o.guess
		t.rebind()
	}
	for _, a := range pc.Assume {
		t.assumed[a] = true
	}
	t.run(pc.Roots)
	return t, t.assemble(o, pc), nil
}

func devCheck(o Opts, pc PropConf) int {
	w, err := loadWorld(o.repo, []string{"./internal/..."})
	if err != nil {
		fatal("%v", err)
	}
	t, v, err := translate(o, w, pc, o.smoke)
	if err != nil {
		fatal("%v", err)
	}
	os.MkdirAll(o.work, 0o755)
	file := filepath.Join(o.work, "check.rs")
	os.WriteFile(file, []byte(v.text()), 0o644)
	var extra []string
	if o.fn != "" {
		extra = append(extra, "--verify-root", "--verify-function", o.fn)
	}
	t, v, r, dropped := prove(o, w, pc, t, v, file, func() bool { return true }, extra...)
	for _, d := range dropped {
		fmt.Println("DROPPED", d)
	}
	for _, e := range t.errs {
		fmt.Println("TRANSLATION:", e)
	}
	for _, f := range r.fails {
		fmt.Printf("FAIL %s [%s] %s at %s\n%s\n", f.Obl.Fn, f.Obl.Kind, f.Msg, f.Obl.Pos, f.Text)
	}
	if r.crashed {
		fmt.Println(r.raw)
	}
	fmt.Printf("verified %d errors %d in %.1fs (%s)\n", r.verified, r.errors, r.secs, file)
	for i, x := range r.fnTimes() {
		if i < 6 {
			fmt.Printf("   %s %.0fms\n", x.n, x.m)
		}
	}
	if len(r.fails) > 0 || r.crashed || len(t.errs) > 0 {
		return 1
	}
	return 0
}

type ft struct {
	n string
	m float64
}

func (r *VerusResult) fnTimes() (fts []ft) {
	if smt, ok := r.times["smt"].(map[string]any); ok {
		if mods, ok := smt["smt-run-module-times"].([]any); ok {
			for _, m := range mods {
				if fb, ok := m.(map[string]any)["function-breakdown"].([]any); ok {
					for _, x := range fb {
						xm := x.(map[string]any)
						tm, _ := xm["time"].(float64)
						fts = append(fts, ft{fmt.Sprint(xm["function"]), tm})
					}
				}
			}
		}
	}
	sort.Slice(fts, func(i, j int) bool { return fts[i].m > fts[j].m })
	return
}

func (r *VerusResult) smtMs() float64 {
	s := 0.0
	for _, x := range r.fnTimes() {
		s += x.m
	}
	return s
}

func (t *Tr) uses(prefix string) bool {
	for _, k := range t.order {
		if strings.HasPrefix(k, prefix) {
			return true
		}
	}
	return false
}
