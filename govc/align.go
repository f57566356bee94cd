package main

// Proof hints and loop invariants name local variables and number loops as they
// are in the code they were written for. After a change of the code they are
// carried over to the variables and loops that correspond: every function has a
// recorded shape (specs/shape.json: its variables and loops in order), which is
// matched against the shape of the current source. This decides only where a
// hint is placed and how it is spelled, never what has to be proved.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type ShVar struct {
	Name string `json:"name"`
	VT   string `json:"type"`
	Kind string `json:"kind"` // param, arg, local, rkey, rval, forvar
	Loop int    `json:"loop"` // innermost loop it is declared in, or whose variable it is
}

type ShLoop struct {
	Kind   string   `json:"kind"` // for, slice, map, int
	VT     string   `json:"type"`
	Text   string   `json:"text"`
	Parent int      `json:"parent"`
	Sets   []string `json:"sets"` // types of the outer variables assigned in it
	// the number a counting loop starts with
	Init string `json:"init,omitempty"`
}

type Shape struct {
	Vars  []ShVar  `json:"vars"`
	Loops []ShLoop `json:"loops"`
	Sig   string   `json:"sig"`
	// functions without contract translated in place
	Inlined []string `json:"inlined"`
}

func (l *ShLoop) note(s string) {
	for _, x := range l.Sets {
		if x == s {
			return
		}
	}
	l.Sets = append(l.Sets, s)
}

func typesOf(l []string) (r []string) {
	for _, s := range l {
		r = append(r, s[:strings.LastIndex(s, " ")])
	}
	return
}

type Align struct {
	base  *Shape
	cur   *Shape
	vars  map[string]string   // recorded variable -> current variable
	cand  map[string][]string // the same, all candidates, best first
	fwd   map[int]int         // recorded loop -> current loop
	back  map[int]int         // current loop -> recorded loop
	shift map[string]int      // recorded loop variable is the current one plus this
}

func loadShapes(verif string) map[string]*Shape {
	r := map[string]*Shape{}
	data, err := os.ReadFile(filepath.Join(verif, "specs", "shape.json"))
	if err == nil {
		json.Unmarshal(data, &r)
	}
	return r
}

func (s *Shape) same(o *Shape) bool {
	if len(s.Vars) != len(o.Vars) || len(s.Loops) != len(o.Loops) {
		return false
	}
	for i := range s.Vars {
		if s.Vars[i] != o.Vars[i] {
			return false
		}
	}
	for i := range s.Loops {
		a, b := s.Loops[i], o.Loops[i]
		if a.Kind != b.Kind || a.VT != b.VT || a.Parent != b.Parent || a.Init != b.Init {
			return false
		}
	}
	return true
}

func jaccard(a, b []string) float64 {
	n := map[string]int{}
	for _, x := range a {
		n[x]++
	}
	inter := 0
	for _, x := range b {
		if n[x] > 0 {
			n[x]--
			inter++
		}
	}
	u := len(a) + len(b) - inter
	if u == 0 {
		return 1
	}
	return float64(inter) / float64(u)
}

func align(base, cur *Shape) *Align {
	al := &Align{base: base, cur: cur, vars: map[string]string{}, cand: map[string][]string{}, fwd: map[int]int{}, back: map[int]int{}, shift: map[string]int{}}
	// loops: best assignment
	score := func(b, c int) float64 {
		x, y := base.Loops[b], cur.Loops[c]
		s := 0.0
		if x.Kind == y.Kind {
			s += 3
		} else if x.Kind == "for" || y.Kind == "for" {
			s += 1
		} else if x.Kind == "int" || y.Kind == "int" {
			return -10
		}
		if x.VT == y.VT {
			s += 2
		}
		if x.Text == y.Text {
			s += 1
		}
		if (x.Parent == 0) == (y.Parent == 0) {
			s += 1
		}
		return s + 4*jaccard(typesOf(x.Sets), typesOf(y.Sets))
	}
	nb, nc := len(base.Loops), len(cur.Loops)
	best, bestS := map[int]int{}, -1e9
	if nb <= 7 && nc <= 9 {
		asg := make([]int, nb)
		used := make([]bool, nc)
		var rec func(i int, s float64)
		rec = func(i int, s float64) {
			if i == nb {
				for p := 0; p < nb; p++ {
					if asg[p] < 0 {
						continue
					}
					for q := p + 1; q < nb; q++ {
						if asg[q] >= 0 && asg[q] < asg[p] {
							s -= 0.3
						}
					}
					bp := base.Loops[p].Parent
					if bp > 0 && asg[bp-1] >= 0 && asg[bp-1] == cur.Loops[asg[p]].Parent-1 {
						s += 2
					}
				}
				if s > bestS+1e-9 {
					bestS = s
					best = map[int]int{}
					for p, c := range asg {
						if c >= 0 {
							best[p] = c
						}
					}
				}
				return
			}
			for c := 0; c < nc; c++ {
				if !used[c] {
					used[c] = true
					asg[i] = c
					rec(i+1, s+score(i, c))
					used[c] = false
				}
			}
			asg[i] = -1
			rec(i+1, s)
		}
		rec(0, 0)
	} else {
		for i := 0; i < nb && i < nc; i++ {
			best[i] = i
		}
	}
	for b, c := range best {
		al.fwd[b+1] = c + 1
		al.back[c+1] = b + 1
	}
	// variables: greedy by score
	type pair struct {
		b, c int
		s    float64
	}
	var ps []pair
	for i, x := range base.Vars {
		for j, y := range cur.Vars {
			if x.VT != y.VT {
				continue
			}
			s := 0.0
			if x.Name == y.Name {
				s += 4
			} else if baseName(x.Name) == baseName(y.Name) {
				s += 3
			}
			if x.Kind == y.Kind {
				s += 2
			} else if x.Kind == "rval" && y.Kind == "rkey" && al.fwd[x.Loop] == y.Loop && y.Loop > 0 && base.Loops[x.Loop-1].Kind == "slice" && cur.Loops[y.Loop-1].Kind == "map" {
				s += 2 // the keys of a map instead of a slice of them
			} else if (x.Kind == "rval" || x.Kind == "param") && s < 3 {
				continue
			}
			if x.Loop == 0 && y.Loop == 0 || x.Loop > 0 && al.fwd[x.Loop] == y.Loop {
				s += 2.5
			} else if x.Kind == "rval" || x.Kind == "rkey" || x.Kind == "forvar" {
				continue
			}
			d := i - j
			if d < 0 {
				d = -d
			}
			s -= float64(d) * 0.02
			if s > -1 {
				ps = append(ps, pair{i, j, s})
			}
		}
	}
	sort.SliceStable(ps, func(a, b int) bool { return ps[a].s > ps[b].s })
	ub, uc := map[int]bool{}, map[int]bool{}
	for _, p := range ps {
		b, c := base.Vars[p.b].Name, cur.Vars[p.c].Name
		al.cand[b] = append(al.cand[b], c)
		if ub[p.b] || uc[p.c] || p.s <= 1 {
			continue
		}
		ub[p.b], uc[p.c] = true, true
		al.vars[b] = c
	}
	return al
}

var sufRe = regexp.MustCompile(`_\d+$`)

func baseName(n string) string {
	n = sufRe.ReplaceAllString(n, "")
	if strings.HasPrefix(n, "v_in_") { // parameter of an inlined helper
		if i := strings.LastIndex(n, "_"); i > 0 {
			return "v_" + n[i+1:]
		}
	}
	return n
}

var localRe = regexp.MustCompile(`\b(v_\w+|seq_\d+|i_\d+|map_\d+)\b`)

var indexedRe = regexp.MustCompile(`\[v_\w+\]`)

// respell carries a hint over; head says that it is evaluated at a loop's head.
// vis tells which variables can be named there, in is the innermost loop.
func (al *Align) respell(s string, head, in int, vis map[string]bool) string {
	if al == nil {
		return s
	}
	has := func(l []string, w string) bool {
		for _, x := range l {
			if x[strings.LastIndex(x, " ")+1:] == w {
				return true
			}
		}
		return false
	}
	pick := func(w string) string {
		d, ok := al.vars[w]
		best, bestS := "", -1.0
		for i, c := range al.cand[w] {
			if !vis[c] {
				continue
			}
			q := -0.01 * float64(i)
			if ok && c == d {
				q += 1
			}
			for l := in; l > 0; l = al.cur.Loops[l-1].Parent {
				if b := al.back[l]; b > 0 {
					if has(al.base.Loops[b-1].Sets, w) == has(al.cur.Loops[l-1].Sets, c) {
						q += 2
					}
					break
				}
			}
			if q > bestS {
				best, bestS = c, q
			}
		}
		return best
	}
	s = indexedRe.ReplaceAllStringFunc(s, func(w string) string {
		v := w[1 : len(w)-1]
		if al.shift[v] == 0 {
			return w
		}
		for _, b := range al.base.Vars {
			if b.Name == v {
				return "[" + v + " as " + b.VT + "]"
			}
		}
		return w
	})
	return localRe.ReplaceAllStringFunc(s, func(w string) string {
		if !strings.HasPrefix(w, "v_") {
			i := strings.LastIndex(w, "_")
			k, _ := strconv.Atoi(w[i+1:])
			if c := al.fwd[k]; c > 0 {
				return fmt.Sprintf("%s_%d", w[:i], c)
			}
			return w
		}
		var bv *ShVar
		for i := range al.base.Vars {
			if al.base.Vars[i].Name == w {
				bv = &al.base.Vars[i]
			}
		}
		if bv == nil {
			return w
		}
		c := al.fwd[bv.Loop]
		if n := pick(w); n != "" {
			if bv.Kind == "forvar" && head == c && c > 0 && al.cur.Loops[c-1].Kind != "for" {
				return fmt.Sprintf("(i_%d as %s)", c, bv.VT)
			}
			if d := al.shift[w]; d != 0 {
				return fmt.Sprintf("(%s + %d)", n, d)
			}
			return n
		}
		if c > 0 {
			switch {
			case bv.Kind == "forvar" && al.cur.Loops[c-1].Kind != "for":
				if head == c {
					return fmt.Sprintf("(i_%d as %s)", c, bv.VT)
				}
				return fmt.Sprintf("((i_%d - 1) as %s)", c, bv.VT)
			case bv.Kind == "rkey" && al.base.Loops[bv.Loop-1].Kind == "slice":
				return fmt.Sprintf("((i_%d - 1) as %s)", c, bv.VT)
			case bv.Kind == "rkey" && al.base.Loops[bv.Loop-1].Kind == "map":
				return fmt.Sprintf("(seq_%d[i_%d - 1])", c, c)
			case bv.Kind == "rval" && al.base.Loops[bv.Loop-1].Kind == "slice":
				return fmt.Sprintf("(seq_%d[i_%d - 1])", c, c)
			case bv.Kind == "rval" && al.base.Loops[bv.Loop-1].Kind == "map":
				return fmt.Sprintf("(map_%d[seq_%d[i_%d - 1]])", c, c, c)
			}
		}
		return w
	})
}

// rebind gives the contract of a function that is gone to the one new function
// of the same package with the same signature.
func (t *Tr) rebind() {
	if len(t.shapes) == 0 {
		return
	}
	pkgOf := func(k string) string { return k[:strings.Index(k, ".")] }
	for k, c := range t.cts {
		if t.fns[k] != nil || t.shapes[k] == nil || t.w.pkgs[modPath+pkgOf(k)] == nil {
			continue
		}
		var cand []string
		for n, fi := range t.fns {
			if t.shapes[n] == nil && t.cts[n] == nil && pkgOf(n) == pkgOf(k) && sigText(fi.sig) == t.shapes[k].Sig {
				cand = append(cand, n)
			}
		}
		last := k[strings.LastIndex(k, ".")+1:]
		pick := ""
		for _, n := range cand {
			if n[strings.LastIndex(n, ".")+1:] == last {
				pick = n
			}
		}
		if pick == "" && len(cand) == 1 {
			pick = cand[0]
		}
		if pick != "" {
			t.cts[pick] = c
			t.shapes[pick] = t.shapes[k]
			t.renamed[pick] = k
		}
	}
}

// recordShapes writes specs/shape.json from the current source.
func recordShapes(o Opts, confs map[string]PropConf) {
	all := map[string]*Shape{}
	for id, pc := range confs {
		w, err := loadWorld(o.repo, []string{"./internal/..."})
		if err != nil {
			fatal("%v", err)
		}
		o.prop = id
		pc.Assume = nil
		t, _, err := translate(o, w, pc, false)
		if err != nil {
			fatal("%v", err)
		}
		for k, fi := range t.fns {
			if all[k] == nil {
				all[k] = &Shape{Vars: []ShVar{}, Loops: []ShLoop{}, Sig: sigText(fi.sig), Inlined: []string{}}
			}
		}
		for k, s := range t.found {
			if s.Inlined == nil {
				s.Inlined = []string{}
			}
			all[k] = s
		}
	}
	data, _ := json.MarshalIndent(all, "", " ")
	if err := os.WriteFile(filepath.Join(o.verif, "specs", "shape.json"), append(data, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}
