package main

// The check of one property as it is registered: proof, vacuity run and replay
// side by side, evidence, and the verdict.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// runGroup runs a command in a process group of its own and ends all of it at the limit.
func runGroup(cmd *exec.Cmd, limit time.Duration) error {
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		return err
	case <-time.After(limit):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return fmt.Errorf("ended after %v", limit)
	}
}

// ---------------------------------------------------------------- replay

type HarnessReport struct {
	Property    string   `json:"property"`
	Seed        uint64   `json:"seed"`
	Evaluations uint64   `json:"evaluations"`
	Distinct    int      `json:"distinct"`
	Samples     []string `json:"samples"`
	Failed      bool     `json:"failed"`
	Index       uint64   `json:"index"`
	Input       string   `json:"input"`
	Message     string   `json:"message"`
	Seconds     float64  `json:"seconds"`
}

func buildHarness(o Opts, work string) (string, error) {
	files, _ := filepath.Glob(filepath.Join(o.verif, "harness", "*.go"))
	repl := map[string]string{}
	for _, f := range files {
		if filepath.Base(f) == "vssp.go" && o.prop != "C27" && o.prop != "C28" {
			continue // the others do not depend on that package
		}
		repl[filepath.Join(o.repo, "internal", "zzverif", filepath.Base(f))] = f
	}
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	ov := filepath.Join(work, "overlay.json")
	if err := os.WriteFile(ov, b, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(work, "replay")
	cmd := exec.Command(goTool(), "build", "-overlay", ov, "-o", bin, "./internal/zzverif")
	cmd.Dir = o.repo
	cmd.Env = goEnv()
	var out strings.Builder
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := runGroup(cmd, 200*time.Second); err != nil {
		return "", fmt.Errorf("%v\n%s", err, out.String())
	}
	return bin, nil
}

func runHarness(bin, prop string, seed uint64, secs float64, work, tag string) (*HarnessReport, error) {
	rp, st := filepath.Join(work, "report"+tag+".json"), filepath.Join(work, "state"+tag)
	os.Remove(rp)
	dir := filepath.Join(work, "cwd"+tag)
	os.MkdirAll(dir, 0o755)
	run := func(limit time.Duration, args ...string) (*HarnessReport, string, error) {
		os.Remove(rp)
		cmd := exec.Command(bin, append([]string{"-prop", prop, "-seed", strconv.FormatUint(seed, 10), "-out", rp}, args...)...)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB", "GOTRACEBACK=single")
		var eb strings.Builder
		cmd.Stderr, cmd.Stdout = &eb, &eb
		err := runGroup(cmd, limit)
		data, rerr := os.ReadFile(rp)
		if rerr != nil {
			return nil, eb.String(), err
		}
		var r HarnessReport
		if e := json.Unmarshal(data, &r); e != nil {
			return nil, eb.String(), e
		}
		return &r, eb.String(), err
	}
	r, errText, err := run(time.Duration(secs*float64(time.Second))+60*time.Second, "-secs", fmt.Sprint(secs), "-state", st)
	if r != nil {
		return r, nil
	}
	// the process died: the state file names the case
	data, _ := os.ReadFile(st)
	i, perr := strconv.ParseUint(strings.TrimSpace(string(data)), 10, 64)
	if perr != nil {
		return nil, fmt.Errorf("replay run ended without a report: %v\n%s", err, clipS(errText, 2000))
	}
	_, again, err2 := run(60*time.Second, "-only", strconv.FormatUint(i, 10), "-describe")
	if err2 == nil {
		return nil, fmt.Errorf("replay run ended without a report, and case %d alone does not fail: %v\n%s", i, err, clipS(errText, 2000))
	}
	return &HarnessReport{Property: prop, Seed: seed, Evaluations: i + 1, Distinct: 1, Failed: true, Index: i,
		Input: "(the process ended during the case; what it was doing is in the output below)", Message: "the code under test ended the process\n" + clipS(again, 4000)}, nil
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// ---------------------------------------------------------------- report

var notObl = map[string]bool{"statement": true, "proof step": true, "types": true, "return": true, "precondition": true, "smoke": true}

// obligations lists the distinct proof obligations of a run.
func obligations(t *Tr, v *VFile, pc PropConf) (all []*Obl, lemmas int) {
	skip := map[string]bool{}
	for _, a := range pc.Assume {
		skip[a] = true
	}
	for k, c := range t.cts {
		if c.External {
			skip[k] = true
		}
	}
	seen := map[*Obl]bool{}
	for _, l := range v.lines {
		if l.obl == nil || seen[l.obl] || skip[l.obl.Fn] || notObl[l.obl.Kind] {
			continue
		}
		if l.obl.Kind == "lemma" {
			continue
		}
		seen[l.obl] = true
		all = append(all, l.obl)
	}
	return all, len(lemmaRe.FindAllString(v.text(), -1))
}

var lemmaRe = regexp.MustCompile(`(?m)^pub (?:broadcast )?proof fn \w+`)
var declRe = regexp.MustCompile(`(?m)^pub (?:broadcast )?(?:axiom fn|uninterp spec fn|(?:open |closed )?spec fn) (\w+)`)
var trustedItem = regexp.MustCompile(`(?m)^pub (?:broadcast )?(axiom fn|uninterp spec fn) (\w+)`)
var extItem = regexp.MustCompile(`(?s)#\[verifier::external_body\]\s*pub (fn|struct) (\w+)`)

// trusted lists the assumptions the generated program rests on.
func trusted(t *Tr, v *VFile, pc PropConf) []string {
	text := v.text()
	count := func(n string) int {
		return len(regexp.MustCompile(`\b`+n+`\b`).FindAllString(text, 3))
	}
	var r []string
	var ax, ex []string
	for _, m := range trustedItem.FindAllStringSubmatch(text, -1) {
		if m[1] == "axiom fn" || count(m[2]) > 1 {
			ax = append(ax, m[2])
		}
	}
	known := map[string]bool{}
	for k := range t.fns {
		known[vname(k)] = true
	}
	for _, m := range extItem.FindAllStringSubmatch(text, -1) {
		if m[1] == "fn" && !known[m[2]] && count(m[2]) > 1 {
			ex = append(ex, m[2])
		}
	}
	r = append(r, "uninterpreted functions and axioms of specs/*.rs used here: "+strings.Join(ax, ", "))
	r = append(r, "assumed effects of the Go run time (specs/prelude.rs, external_body): "+strings.Join(ex, ", "))
	var ls []string
	for l := range libUsed {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	r = append(r, "assumed contracts of standard-library functions (govc/lib.go): "+strings.Join(ls, ", "))
	for _, a := range pc.Assume {
		if _, ok := t.done[a]; ok {
			r = append(r, "contract of "+a+" assumed here, discharged by the checks that list it as a root")
		}
	}
	for k, c := range t.cts {
		if _, ok := t.done[k]; ok && c.External {
			r = append(r, "contract of "+k+" assumed, never discharged: "+c.Why)
		}
	}
	r = append(r,
		"the translation of Go to ghost code (govc), cross-checked by the replay runs",
		"Go int (indices, lengths) is treated as a mathematical integer; int64, uint64 and byte arithmetic carries overflow obligations",
		"slices, maps and documents are treated as values; that no shared backing store is written is the separate ownership obligation (kind \"ownership\")",
		"no data races, no exhaustion of memory or of the call stack",
		"Verus, rustc and Z3")
	return r
}

func report(o Opts, pc PropConf) int {
	start := time.Now()
	work, err := os.MkdirTemp("", "govc-"+o.prop+"-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(work)
	evDir := filepath.Join(o.verif, "evidence")
	os.MkdirAll(evDir, 0o755)
	replayPath := filepath.Join("evidence", "replay_"+o.prop+".txt")
	os.Remove(filepath.Join(o.verif, replayPath))

	// replay, in parallel with the proof
	secs, more := 8.0, 60.0
	if o.tier == "thorough" {
		secs, more = 120, 300
		o.rlimit *= 4
		o.limit = 1200 * time.Second
	}
	targets := pc.Replay
	if len(targets) == 0 {
		targets = []string{o.prop}
	}
	type hres struct {
		reps []*HarnessReport
		bin  string
		err  error
	}
	hc := make(chan hres, 1)
	go func() {
		var h hres
		h.bin, h.err = buildHarness(o, work)
		if h.err == nil {
			for _, p := range targets {
				var r *HarnessReport
				if r, h.err = runHarness(h.bin, p, o.seed, secs/float64(len(targets)), work, "a"); h.err != nil {
					break
				}
				h.reps = append(h.reps, r)
			}
		}
		hc <- h
	}()

	w, err := loadWorld(o.repo, []string{"./internal/..."})
	if err != nil {
		<-hc
		fmt.Fprintf(os.Stderr, "the tree does not compile: %v\n", err)
		return 2
	}
	t, v, err := translate(o, w, pc, false)
	if err != nil {
		fatal("%v", err)
	}
	file := filepath.Join(work, "check.rs")
	os.WriteFile(file, []byte(v.text()), 0o644)

	// vacuity: every precondition must be satisfiable
	type sres struct {
		bad []string
		n   int
	}
	sc := make(chan sres, 1)
	go func() {
		var s sres
		ts, vs, err := translate(o, w, pc, true)
		if err == nil && len(ts.errs) == 0 {
			sf := filepath.Join(work, "smoke.rs")
			os.WriteFile(sf, []byte(vs.text()), 0o644)
			so := o
			so.rlimit = 10
			r := runVerus(sf, vs, so, 200)
			failed, gaveUp := map[*Obl]bool{}, map[string]bool{}
			for _, f := range r.fails {
				failed[f.Obl] = true
				if strings.Contains(f.Msg, "rlimit") { // not refuted: not unreachable
					gaveUp[f.Obl.Fn] = true
				}
			}
			seen, reached := map[*Obl]bool{}, map[string]bool{}
			for _, l := range vs.lines {
				if l.obl != nil && l.obl.Kind == "smoke" && !seen[l.obl] {
					seen[l.obl] = true
					s.n++
					reached[l.obl.Desc] = reached[l.obl.Desc] || failed[l.obl] || gaveUp[l.obl.Fn]
				}
			}
			for d, ok := range reached {
				if !ok && !r.crashed {
					s.bad = append(s.bad, d)
				}
			}
		}
		sc <- s
	}()

	var h hres
	got := false
	t, v, r, dropped := prove(o, w, pc, t, v, file, func() bool {
		h, got = <-hc, true
		for _, x := range h.reps {
			if x.Failed {
				return false
			}
		}
		return true
	})
	obls, lemmas := obligations(t, v, pc)
	failed := map[*Obl]*Failure{}
	for i := range r.fails {
		if failed[r.fails[i].Obl] == nil {
			failed[r.fails[i].Obl] = &r.fails[i]
		}
	}
	own := ownership(t, w, pc)
	sm := <-sc
	if !got {
		h = <-hc
	}

	var lines []string
	for _, e := range t.errs {
		lines = append(lines, "outside the translatable subset, obligations not discharged: "+e)
	}
	for _, e := range own.fails {
		lines = append(lines, "ownership: "+e)
	}
	for _, f := range r.fails {
		if failed[f.Obl].Text != f.Text {
			continue
		}
		lines = append(lines, fmt.Sprintf("%s [%s] %s\n  clause: %s\n  at %s\n%s", f.Obl.Fn, f.Obl.Kind, f.Msg, oneLine(f.Obl.Desc), f.Obl.Pos, indent(f.Text)))
	}
	if r.crashed {
		lines = append(lines, "the verifier ended without a verdict (counted as not discharged):\n"+indent(clipS(r.raw, 4000)))
	}
	for _, b := range sm.bad {
		lines = append(lines, "vacuous proof: no execution reaches "+b)
	}
	proofOK := len(lines) == 0

	var bad *HarnessReport
	for _, x := range h.reps {
		if x.Failed && bad == nil {
			bad = x
		}
	}
	if !proofOK && bad == nil && h.err == nil { // look harder for a failing input
		for k := uint64(1); k <= 1 && bad == nil; k++ {
			type one struct {
				r *HarnessReport
			}
			c := make(chan one, 16)
			n := 0
			for _, p := range targets {
				for j := uint64(0); j < 6; j++ {
					n++
					go func(p string, j uint64) {
						x, err := runHarness(h.bin, p, o.seed+1000*k+j, more/float64(len(targets)), work, fmt.Sprintf("%s_%d_%d", p, k, j))
						if err != nil {
							x = nil
						}
						c <- one{x}
					}(p, j)
				}
			}
			for ; n > 0; n-- {
				if x := <-c; x.r != nil {
					h.reps = append(h.reps, x.r)
					if x.r.Failed && (bad == nil || len(x.r.Input) < len(bad.Input)) {
						bad = x.r
					}
				}
			}
		}
	}

	// evidence
	total := len(obls) + lemmas + own.n + len(t.errs) + sm.n
	nfail := len(failed) + len(own.fails) + len(t.errs) + len(sm.bad)
	disch := total - nfail
	if r.crashed || disch < 0 {
		disch = 0
	}
	kinds := map[string]int{}
	fset := map[string]bool{}
	for _, ob := range obls {
		kinds[ob.Kind]++
	}
	contracts, bare, inl := []string{}, []string{}, []string{}
	skip := map[string]bool{}
	for _, a := range pc.Assume {
		skip[a] = true
	}
	for _, k := range t.order {
		fset[k] = true
		if skip[k] || t.cts[k] != nil && t.cts[k].External {
			continue
		}
		if t.cts[k] != nil {
			contracts = append(contracts, k)
		} else {
			bare = append(bare, k)
		}
	}
	for k := range t.inlined {
		inl = append(inl, k)
	}
	sort.Strings(inl)
	var ev uint64
	var dist int
	var samples []string
	for _, x := range h.reps {
		ev += x.Evaluations
		dist += x.Distinct
		samples = append(samples, x.Samples...)
	}
	cov := map[string]any{
		"obligations": total, "discharged": disch,
		"checker_cmd":              "verus check.rs --rlimit " + strconv.Itoa(o.rlimit) + " (generated from the current source by govc -prop " + o.prop + ")",
		"trusted_base":             trusted(t, v, pc),
		"functions_under_contract": contracts, "functions_without_contract": bare, "functions_inlined": inl,
		"obligation_kinds": kinds, "lemmas": lemmas, "vacuity_probes": sm.n, "ownership_obligations": own.n,
		"verifier_items_verified": r.verified, "back_end": "Verus (Z3)",
		"solver_ms": r.smtMs(), "verifier_wall_s": r.secs,
		"cross_check": map[string]any{"evaluations": ev, "distinct_sampled": dist, "rule": "random inputs and histories of growing size run against the real code and judged by oracles written without it; distinct_sampled counts different cases among every 16th", "samples": samples},
	}
	if len(dropped) > 0 {
		cov["dropped_hints"] = dropped
	}
	if pc.Note != "" {
		cov["note"] = pc.Note
	}
	if h.err != nil {
		cov["cross_check_error"] = clipS(h.err.Error(), 1500)
	}
	if len(lines) > 0 {
		cov["failed_obligations"] = len(lines)
	}
	evd := map[string]any{"property": o.prop, "tier": o.tier, "seed": o.seed, "level": "proof", "coverage": cov, "wall_s": time.Since(start).Seconds()}
	data, _ := json.MarshalIndent(evd, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, o.prop+".json"), append(data, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}

	fmt.Printf("%s: %d obligations, %d discharged; %d replay cases; %.1f s\n", o.prop, total, disch, ev, time.Since(start).Seconds())
	if proofOK && bad == nil {
		if h.err != nil {
			fmt.Println("note: no cross-check:", clipS(h.err.Error(), 300))
		}
		return 0
	}
	var b strings.Builder
	fmt.Fprintf(&b, "property %s\n\n", o.prop)
	if bad != nil {
		fmt.Fprintf(&b, "FAILING INPUT (found by replay against the real code)\n  reproduce: build the harness (%s) and run it with -prop %s -seed %d -only %d\n\n%s\n%s\n\n", "go build -overlay, see govc/report.go", bad.Property, bad.Seed, bad.Index, bad.Input, bad.Message)
	} else {
		fmt.Fprintf(&b, "no failing input found in %d replay cases\n\n", ev)
	}
	fmt.Fprintf(&b, "FAILED OBLIGATIONS: %d\n\n%s\n", len(lines), strings.Join(lines, "\n\n"))
	os.WriteFile(filepath.Join(o.verif, replayPath), []byte(b.String()), 0o644)
	for _, l := range lines {
		fmt.Println(clipS(strings.SplitN(l, "\n", 2)[0], 300))
	}
	if bad != nil {
		fmt.Println(clipS(bad.Message, 600))
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, filepath.Join(o.verif, replayPath))
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", o.prop, filepath.Join(o.verif, replayPath))
	}
	return 1
}

func oneLine(s string) string { return strings.Join(strings.Fields(s), " ") }
func indent(s string) string {
	return "    " + strings.ReplaceAll(strings.TrimRight(s, "\n"), "\n", "\n    ")
}

// verify runs the verifier. Proof hints and invariants are not part of any
// statement proved; those that no longer name anything in the current source
// are dropped, and the obligations decide without them. In a function whose
// hints were carried over to changed code (align.go), those that do not hold
// are dropped as well as long as nothing else fails.
//
// Rounds that change a few functions only verify these (part); the result that
// is accepted is always one of the whole file.
func verify(file string, v *VFile, t *Tr, o Opts, part map[string]bool, extra ...string) (VerusResult, []string) {
	var dropped []string
	first := map[*Obl]bool{}
	var r VerusResult
	start := time.Now()
	for k := 0; ; k++ {
		os.WriteFile(file, []byte(v.text()), 0o644)
		whole := len(part) == 0 || len(extra) > 0
		if !whole {
			r = runPart(file, v, o, part)
			if len(r.fails) == 0 && (!r.crashed || time.Since(start) < 150*time.Second) {
				part = nil
				k--
				continue
			}
		} else {
			r = runVerus(file, v, o, 20, extra...)
		}
		if os.Getenv("GOVC_DEBUG") != "" {
			for _, f := range r.fails {
				fmt.Println("ROUND", k, int(time.Since(start).Seconds()), part, f.Obl.Fn, f.Obl.Kind, f.Text)
			}
		}
		if len(r.fails) == 0 || r.crashed || k == 8+4*len(t.guess) || k > 0 && time.Since(start) > 150*time.Second {
			return r, dropped
		}
		broken := r.verified == 0 && r.errors == 0 // it does not compile
		drop := map[*Obl]bool{}
		others, guessed := false, false
		for _, f := range r.fails {
			switch f.Obl.Kind {
			case "guess", "proof step", "loop invariant", "loop termination", "loop exit condition":
				if t.guess[f.Obl.Fn] && f.Obl.Kind != "loop termination" {
					drop[f.Obl] = true
					guessed = true
					continue
				}
				if broken || t.aligned[f.Obl.Fn] != nil && f.Obl.Kind != "loop termination" {
					drop[f.Obl] = true
					continue
				}
			}
			if !broken {
				others = true
			}
		}
		if others && !guessed {
			return r, dropped
		}
		if len(drop) == 0 {
			return r, dropped
		}
		part = nil
		if !broken {
			part = failing(r, t)
		}
		for i, l := range v.lines {
			if l.obl != nil && drop[l.obl] {
				v.lines[i].text = ""
				if !first[l.obl] {
					first[l.obl] = true
					if l.obl.Kind == "guess" {
						v.lines[i].obl = nil
						continue
					}
					dropped = append(dropped, l.obl.Fn+": "+l.obl.Kind+" "+oneLine(l.obl.Desc))
					if l.obl.Kind == "loop termination" {
						v.lines[i].text = "decreases 0int"
						continue
					}
				}
				v.lines[i].obl = nil
			}
		}
	}
}

// failing lists the functions that fail, if these are a few functions of the program.
func failing(r VerusResult, t *Tr) map[string]bool {
	m := map[string]bool{}
	for _, f := range r.fails {
		if t.found[f.Obl.Fn] == nil {
			return nil
		}
		m[f.Obl.Fn] = true
	}
	if len(m) > 3 {
		return nil
	}
	return m
}

// runPart verifies some functions of the program.
func runPart(file string, v *VFile, o Opts, fns map[string]bool) VerusResult {
	c := make(chan VerusResult, len(fns))
	o.limit = 150 * time.Second
	for fn := range fns {
		go func() {
			c <- runVerus(file, v, o, 20, "--verify-root", "--verify-function", vname(fn))
		}()
	}
	var all VerusResult
	for range fns {
		r := <-c
		all.verified += r.verified
		all.errors += r.errors
		all.fails = append(all.fails, r.fails...)
		all.crashed = all.crashed || r.crashed
		all.raw += r.raw
		all.secs = max(all.secs, r.secs)
	}
	return all
}

// prove verifies the translation; where it fails for changed code, other ways
// of carrying hints and invariants over to it are tried.
func prove(o Opts, w *World, pc PropConf, t *Tr, v *VFile, file string, worth func() bool, extra ...string) (*Tr, *VFile, VerusResult, []string) {
	r, dropped := verify(file, v, t, o, nil, extra...)
	start := time.Now()
	fns := map[string]bool{}
	for _, f := range r.fails {
		if t.found[f.Obl.Fn] == nil {
			return t, v, r, dropped
		}
		fns[f.Obl.Fn] = true
	}
	if len(fns) == 0 || len(fns) > 2 || r.crashed || len(t.errs) > 0 || !worth() {
		return t, v, r, dropped
	}
	try := func(guess map[string]bool, shift map[string]map[string]int) (*Tr, *VFile, VerusResult, []string, bool) {
		if time.Since(start) > 150*time.Second {
			return nil, nil, r, nil, false
		}
		o := o
		o.guess, o.shift = guess, shift
		t2, v2, err := translate(o, w, pc, false)
		if err != nil || len(t2.errs) > 0 {
			return nil, nil, r, nil, false
		}
		if os.Getenv("GOVC_DEBUG") != "" {
			fmt.Println("TRY", guess, shift)
		}
		r2, dropped2 := verify(file, v2, t2, o, fns, extra...)
		return t2, v2, r2, dropped2, len(r2.fails) == 0 && !r2.crashed
	}
	type shift struct {
		v string
		d int
	}
	var sure, maybe []shift
	fn := ""
	for x := range fns {
		fn = x
	}
	if al := t.aligned[fn]; len(fns) == 1 && al != nil {
		for _, b := range al.base.Vars {
			c := al.fwd[b.Loop]
			if b.Kind != "forvar" || c == 0 || al.cur.Loops[c-1].Kind != "for" || al.vars[b.Name] == "" {
				continue
			}
			x, err := strconv.Atoi(al.base.Loops[b.Loop-1].Init)
			y, err2 := strconv.Atoi(al.cur.Loops[c-1].Init)
			for _, d := range []int{1, -1} {
				if err == nil && err2 == nil && x-y == d {
					sure = append(sure, shift{b.Name, d})
				} else {
					maybe = append(maybe, shift{b.Name, d})
				}
			}
		}
	}
	shifts := func(l []shift) (*Tr, *VFile, VerusResult, []string, bool) {
		for _, s := range l {
			if t2, v2, r2, d2, ok := try(nil, map[string]map[string]int{fn: {s.v: s.d}}); ok {
				return t2, v2, r2, d2, ok
			}
		}
		return nil, nil, r, nil, false
	}
	if os.Getenv("GOVC_DEBUG") != "" {
		fmt.Println("SHIFTS", fn, sure, maybe, t.aligned[fn] != nil)
	}
	if t2, v2, r2, d2, ok := shifts(sure); ok {
		return t2, v2, r2, d2
	}
	if t2, v2, r2, d2, ok := try(fns, nil); ok {
		return t2, v2, r2, d2
	}
	if t2, v2, r2, d2, ok := shifts(maybe); ok {
		return t2, v2, r2, d2
	}
	os.WriteFile(file, []byte(v.text()), 0o644)
	return t, v, r, dropped
}
