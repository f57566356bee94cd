package main

// Histories: a random sequence of calls on a Logument, mirrored by a model.

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
)

type Lg = logument.Logument
type Patch = tsonpatch.Patch

type H struct {
	c       *Case
	l       *Lg
	base    Val
	v0      uint64
	last    uint64
	patches map[uint64][]Op
	pool    []Op
	cur     Val
	tss     []int64
	held    []heldDoc
	caller  []callerData
	paths   []string
}

type heldDoc struct {
	v Val
	s string
	w string
}
type callerData struct {
	s    []Op // full capacity
	copy []Op
	what string
}

func (h *H) docAt(v uint64) (Val, bool) {
	d := h.base
	for i := h.v0 + 1; i <= v; i++ {
		var ok bool
		if d, ok = refFold(d, h.patches[i]); !ok {
			return nil, false
		}
	}
	return d, true
}

// tip: the last version with the pending changes
func (h *H) tip() Val {
	d, ok := h.docAt(h.last)
	if ok {
		d, ok = refFold(d, h.pool)
	}
	if !ok {
		return nil
	}
	return d
}

func (h *H) changes() []Op {
	var r []Op
	for v := h.v0; v <= h.last; v++ {
		r = append(r, h.patches[v]...)
	}
	return append(r, h.pool...)
}

func (h *H) docAtTime(t int64) (Val, bool) {
	var ops []Op
	for _, o := range h.changes() {
		if o.Timestamp <= t {
			ops = append(ops, o)
		}
	}
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].Timestamp < ops[j].Timestamp })
	return refFold(h.base, ops)
}

func clone(ops []Op) []Op { return append([]Op(nil), ops...) }

func newH(c *Case, opt hopt) *H {
	base := c.obj(c.size()+1, 3, true).(Obj)
	for _, k := range []string{"a", "b", "speed"} {
		if c.p(2, 3) {
			base[k] = c.leaf()
		}
	}
	h := &H{c: c, base: base, cur: base, patches: map[uint64][]Op{}}
	h.tss = []int64{0, 1, 2, 3, 5, 10, 100}
	if c.p(1, 4) {
		h.tss = append(h.tss, tsPool...)
	}
	c.noteF(func() string { return "new Logument with " + show(h.base) })
	var init any
	if opt.pool && c.p(1, 4) {
		ops := h.someOps(1 + c.n(3))
		h.pool = clone(ops)
		init = Patch(ops)
		c.note("  and initial changes %s", showOps(h.pool))
	}
	h.l = logument.NewLogument(deepCopy(base), init)
	return h
}

type hopt struct {
	pool    bool
	time    bool // only operations that can be carried out in any order
	pointer bool
}

func (h *H) ts() int64 { return pick(h.c, h.tss) }

// someOps generates n operations applicable one after another at the tip.
func (h *H) someOps(n int) []Op { return h.opsFor(n, hopt{}) }

func (h *H) opsFor(n int, opt hopt) []Op {
	var r []Op
	d := h.tip()
	for ; n > 0; n-- {
		var o Op
		switch {
		case opt.time:
			// total operations: set or remove a top-level member
			o = Op{Op: pick(h.c, []opType{"add", "replace", "replace", "remove"}), Path: "/" + esc(pick(h.c, []string{"a", "b", "c", "ab", "x/y"}))}
			if h.c.p(1, 3) {
				o.Path = "/" + pick(h.c, []string{"n", "m"}) + "/" + pick(h.c, []string{"a", "b"})
				if o.Op == "remove" {
					o.Op = "add"
				}
			}
			if o.Op != "remove" {
				o.Value = h.c.opValue()
			}
			if _, ok := refApply(d, o); !ok {
				o = Op{Op: "replace", Path: "/a", Value: float64(h.c.n(3))}
			}
		case len(h.paths) > 0 && h.c.p(1, 2):
			o = Op{Op: pick(h.c, []opType{"add", "replace", "replace"}), Path: pick(h.c, h.paths), Value: h.c.opValue()}
			if h.c.p(1, 8) {
				o.Op, o.Value = "remove", nil
			}
			if _, ok := refApply(d, o); !ok {
				o = h.c.goodOp(d)
			}
		default:
			o = h.c.goodOp(d)
		}
		if opt.pointer && o.Path != "" && o.Path[0] != '/' {
			o.Path = pointer(tokens(o.Path))
		}
		if o.Path == "" && h.c.p(9, 10) { // rarely replace the whole document
			o = Op{Op: "replace", Path: "/a", Value: float64(h.c.n(3))}
		}
		o.Timestamp = h.ts()
		nd, ok := refApply(d, o)
		if !ok {
			continue
		}
		d = nd
		r = append(r, o)
		h.paths = append(h.paths, o.Path)
	}
	return r
}

func opJSON(ops []Op) string {
	var xs []string
	for _, o := range ops {
		m := map[string]any{"op": string(o.Op), "path": o.Path, "timestamp": o.Timestamp}
		if o.Value != nil {
			m["value"] = o.Value
		}
		b, _ := json.Marshal(m)
		xs = append(xs, string(b))
	}
	return "[" + strings.Join(xs, ",") + "]"
}

// asJSON gives the operations as they read back from JSON (all numbers float64).
func asJSON(ops []Op) []Op {
	r := clone(ops)
	for i := range r {
		if x, ok := r[i].Value.(int); ok {
			r[i].Value = float64(x)
		}
	}
	return r
}

func (h *H) keep(ops []Op, what string) {
	full := ops[:cap(ops)]
	h.caller = append(h.caller, callerData{full, clone(full), what})
}

// store passes operations in a random accepted form; it returns what must be pending afterwards.
func (h *H) store(opt hopt) {
	c := h.c
	k := c.n(4)
	if c.p(1, 40) {
		k = 8 + c.n(40)
	}
	ops := h.opsFor(k, opt)
	spare := make([]Op, len(ops), len(ops)+c.n(4))
	copy(spare, ops)
	for i := len(spare); i < cap(spare); i++ {
		spare[:cap(spare)][i] = Op{Op: "add", Path: "/sentinel", Value: float64(i), Timestamp: 77}
	}
	form := c.n(6)
	if form == 3 && len(ops) != 1 {
		form = 2
	}
	switch form {
	case 0:
		s := opJSON(ops)
		ops = asJSON(ops)
		c.note("Store (string) %s", s)
		h.l.Store(s)
	case 1:
		s := []byte(opJSON(ops))
		ops = asJSON(ops)
		c.note("Store ([]byte) %s", string(s))
		h.l.Store(s)
		for i := range s {
			s[i] = 'x'
		}
	case 2:
		c.note("Store (Patch, capacity %d) %s", cap(spare), showOps(ops))
		h.keep(spare, "the stored patch")
		h.l.Store(Patch(spare))
	case 3:
		c.note("Store (Operation) %s", showOps(ops))
		h.l.Store(ops[0])
	case 4:
		c.note("Store ([]Operation, capacity %d) %s", cap(spare), showOps(ops))
		h.keep(spare, "the stored operations")
		h.l.Store(spare)
	case 5:
		// neighbouring pieces of one slice, now and then without some of them
		var pieces []Patch
		var kept []Op
		cut := func(drop bool) {
			pieces, kept = nil, nil
			for k := 0; k < len(spare); {
				n := 1 + c.n(len(spare)-k)
				if !drop || !c.p(1, 4) {
					pieces = append(pieces, Patch(spare[k:k+n]))
					kept = append(kept, ops[k:k+n]...)
				}
				k += n
			}
		}
		cut(!opt.time)
		if _, ok := refFold(h.tip(), kept); !ok {
			cut(false)
		}
		for c.p(1, 4) { // a piece without operations
			i := c.n(len(pieces) + 1)
			pieces = append(pieces[:i:i], append([]Patch{{}}, pieces[i:]...)...)
		}
		for _, p := range pieces {
			c.note("piece %s", showOps(p))
		}
		ops = kept
		c.note("Store ([]Patch) of %d pieces", len(pieces))
		h.keep(spare, "the stored patches")
		h.l.Store(pieces)
	}
	h.pool = append(clone(h.pool), ops...)
}

func (h *H) append_() error {
	h.c.note("Append")
	err := h.l.Append()
	if len(h.pool) > 0 {
		h.last++
		h.patches[h.last] = h.pool
		h.pool = nil
	}
	return err
}

func (h *H) version() uint64 { return h.v0 + uint64(h.c.n(int(h.last-h.v0)+1)) }

func (h *H) versions2() (uint64, uint64) {
	a, b := h.version(), h.version()
	if a > b {
		a, b = b, a
	}
	return a, b
}

func (h *H) time() int64 {
	t := h.ts()
	switch h.c.n(6) {
	case 0:
		t--
	case 1:
		t++
	}
	return t
}

func (h *H) times2() (int64, int64) {
	a, b := h.time(), h.time()
	if a > b {
		a, b = b, a
	}
	if h.c.p(1, 8) {
		a = -1 << 63
	}
	if h.c.p(1, 8) {
		b = 1<<63 - 1
	}
	return a, b
}

// setOp generates an operation that can be carried out on both the current document and the tip.
func (h *H) setOp(opt hopt) (Op, bool) {
	for i := 0; i < 20; i++ {
		var o Op
		if len(h.paths) > 0 && h.c.p(1, 2) {
			o = Op{Op: pick(h.c, []opType{"add", "replace", "replace"}), Path: pick(h.c, h.paths), Value: h.c.opValue()}
		} else if opt.time {
			ops := h.opsFor(1, opt)
			if len(ops) == 0 {
				continue
			}
			o = ops[0]
		} else {
			o = h.c.goodOp(h.cur)
		}
		o.Timestamp = h.ts()
		if o.Op == "remove" || o.Path == "" {
			continue
		}
		_, ok1 := refApply(h.cur, o)
		_, ok2 := refApply(h.tip(), o)
		if ok1 && ok2 {
			return o, true
		}
	}
	return Op{}, false
}

// set calls Set and follows it in the model.
func (h *H) set(opt hopt) {
	o, ok := h.setOp(opt)
	if !ok {
		return
	}
	h.c.note("Set %s", showOp(o))
	h.l.Set(h.last, o)
	h.cur, _ = refApply(h.cur, o)
	h.pool = append(clone(h.pool), o)
	h.paths = append(h.paths, o.Path)
}

func (h *H) hold(v Val, what string) { h.held = append(h.held, heldDoc{v, show(v), what}) }

// query makes a random read-only call; a panic is ignored when the model has no answer.
func (h *H) query() {
	c := h.c
	quiet := func(ok bool, f func()) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(failure); is || ok {
					panic(r)
				}
			}
		}()
		f()
	}
	switch c.n(6) {
	case 0, 1:
		v := h.version()
		c.note("Snapshot %d", v)
		_, ok := h.docAt(v)
		quiet(ok, func() { h.hold(h.l.Snapshot(v), fmt.Sprintf("Snapshot %d", v)) })
	case 2:
		t := h.time()
		c.note("TemporalSnapshot %d", t)
		_, ok := h.docAtTime(t)
		quiet(ok, func() { h.hold(h.l.TemporalSnapshot(t), fmt.Sprintf("TemporalSnapshot %d", t)) })
	case 3:
		a, b := h.versions2()
		c.note("Track %d %d", a, b)
		h.l.Track(a, b)
	case 4:
		a, b := h.times2()
		c.note("TemporalTrack %d %d", a, b)
		h.l.TemporalTrack(a, b)
	case 5:
		a, b := h.versions2()
		c.note("Slice %d %d", a, b)
		_, ok := h.docAt(b)
		quiet(ok, func() {
			s := h.l.Slice(a, b)
			h.hold(s.Snapshots[a], "base of a slice")
			h.hold(s.CurrentState, "current document of a slice")
		})
	}
}

func (h *H) timeSlice() {
	a, b := h.times2()
	_, ok1 := h.docAtTime(a)
	_, ok2 := h.docAtTime(b)
	if a > -1<<63 {
		_, ok1 = h.docAtTime(a - 1)
	}
	if !ok1 || !ok2 {
		return
	}
	h.c.note("TemporalSlice %d %d", a, b)
	s := h.l.TemporalSlice(a, b)
	h.hold(s.Snapshots[s.Version[0]], "base of a time slice")
	h.hold(s.CurrentState, "current document of a time slice")
}

// goSlice continues with a slice of the history.
func (h *H) goSlice() bool {
	a, b := h.versions2()
	base, ok := h.docAt(a)
	cur, ok2 := h.docAt(b)
	if !ok || !ok2 {
		return false
	}
	h.c.note("continue with Slice %d %d", a, b)
	h.l = h.l.Slice(a, b)
	p := map[uint64][]Op{}
	for v := a; v <= b; v++ {
		if x, ok := h.patches[v]; ok {
			p[v] = x
		}
	}
	h.base, h.cur, h.v0, h.last, h.patches, h.pool = base, cur, a, b, p, nil
	return true
}

// steps runs a history: mutate with interleaved queries, then the property's own step.
func (h *H) steps(n int, opt hopt, own func()) {
	for ; n > 0; n-- {
		if h.c.p(1, 100) { // many versions in a row
			for k := 6 + h.c.n(16); k > 0; k-- {
				h.store(opt)
				h.append_()
			}
		}
		switch h.c.n(10) {
		case 0, 1, 2:
			h.store(opt)
		case 3, 4:
			h.append_()
		case 5:
			h.set(opt)
		case 6:
			h.query()
		default:
			own()
		}
	}
	own()
}

// ---- state of the real object

func showState(l *Lg, snaps bool) string {
	s := fmt.Sprintf("versions %v changes %s pending %s current %s", l.Version, showPatches(l.Patches), showOps(l.PatchPool), show(l.CurrentState))
	if snaps {
		s += " documents " + showSnaps(l.Snapshots)
	}
	return s
}

func showSnaps(m map[uint64]tson.Tson) string {
	var ks []uint64
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	var xs []string
	for _, k := range ks {
		xs = append(xs, fmt.Sprintf("%d: %s", k, show(m[k])))
	}
	return "{" + strings.Join(xs, ", ") + "}"
}

func toPatches(m map[uint64][]Op) map[uint64]Patch {
	r := map[uint64]Patch{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func init() {
	props["C15"] = c15
	props["C16"] = c16
	props["C17"] = c17
	props["C18"] = c18
	props["C19"] = c19
	props["C20"] = c20
	props["C21"] = c21
	props["C22"] = c22
	props["C23"] = c23
	props["C24"] = c24
	props["C25"] = c25
	props["C26"] = c26
}

func c15(c *Case) {
	h := newH(c, hopt{pool: true})
	if fmt.Sprint(h.l.Version) != "[0]" || len(h.l.Patches) != 0 {
		c.fail("a new history has versions %v and changes %s", h.l.Version, showPatches(h.l.Patches))
	}
	if len(h.l.Snapshots) != 1 || !same(h.l.Snapshots[0], h.base) {
		c.fail("a new history has documents %s, want {0: %s}", showSnaps(h.l.Snapshots), show(h.base))
	}
	h.steps(2+c.n(c.size()+3), hopt{}, func() {
		l := h.l
		vs := append([]uint64(nil), l.Version...)
		ps := map[uint64]Patch{}
		for k, v := range l.Patches {
			ps[k] = clone(v)
		}
		pend := clone(l.PatchPool)
		snaps, cur := showSnaps(l.Snapshots), show(l.CurrentState)
		err := h.append_()
		if err != nil {
			c.fail("Append reports %v", err)
		}
		if len(pend) > 0 {
			n := vs[len(vs)-1] + 1
			vs = append(vs, n)
			ps[n] = pend
		}
		if fmt.Sprint(vs) != fmt.Sprint(l.Version) {
			c.fail("after Append the versions are %v, want %v", l.Version, vs)
		}
		if a, b := showPatches(l.Patches), showPatches(ps); a != b {
			c.fail("after Append the changes are %s\nwant %s", a, b)
		}
		if len(l.PatchPool) != 0 {
			c.fail("after Append these changes are still pending: %s", showOps(l.PatchPool))
		}
		if showSnaps(l.Snapshots) != snaps || show(l.CurrentState) != cur {
			c.fail("Append changed the documents from %s %s\nto %s %s", snaps, cur, showSnaps(l.Snapshots), show(l.CurrentState))
		}
		for i := 1; i < len(l.Version); i++ {
			if l.Version[i] != l.Version[i-1]+1 {
				c.fail("the versions have a gap: %v", l.Version)
			}
		}
		for v, ops := range h.patches { // nothing recorded is ever altered
			if showOps(l.Patches[v]) != showOps(ops) {
				c.fail("version %d holds %s, but %s was committed", v, showOps(l.Patches[v]), showOps(ops))
			}
		}
	})
}

func (h *H) checkCaller() {
	for _, d := range h.caller {
		if showOps(d.s) != showOps(d.copy) {
			h.c.fail("%s was modified from %s\nto %s", d.what, showOps(d.copy), showOps(d.s))
		}
	}
}

func c16(c *Case) {
	h := newH(c, hopt{pool: true})
	h.steps(2+c.n(c.size()+3), hopt{}, func() {
		l := h.l
		if showOps(l.PatchPool) != showOps(h.pool) {
			c.fail("pending are %s\nwant %s", showOps(l.PatchPool), showOps(h.pool))
		}
		pend, rest := clone(l.PatchPool), fmt.Sprintf("versions %v changes %s documents %s current %s", l.Version, showPatches(l.Patches), showSnaps(l.Snapshots), show(l.CurrentState))
		h.store(hopt{})
		want := append(pend, h.pool[len(h.pool)-(len(h.pool)-len(pend)):]...)
		if showOps(l.PatchPool) != showOps(want) {
			c.fail("after Store pending are %s\nwant %s", showOps(l.PatchPool), showOps(want))
		}
		if now := fmt.Sprintf("versions %v changes %s documents %s current %s", l.Version, showPatches(l.Patches), showSnaps(l.Snapshots), show(l.CurrentState)); now != rest {
			c.fail("Store changed more than the pending changes:\nfrom %s\nto %s", rest, now)
		}
		h.checkCaller()
		if c.p(1, 3) && len(h.caller) > 0 { // the caller goes on using its slice
			d := &h.caller[c.n(len(h.caller))]
			for i := range d.s {
				d.s[i] = Op{Op: "add", Path: "/overwritten", Value: true}
			}
			d.copy = clone(d.s)
			if showOps(l.PatchPool) != showOps(h.pool) {
				c.fail("pending follow the caller's slice: %s\nwant %s", showOps(l.PatchPool), showOps(h.pool))
			}
		}
	})
	h.checkCaller()
	for v, ops := range h.patches {
		if showOps(h.l.Patches[v]) != showOps(ops) {
			c.fail("version %d holds %s, but %s was stored", v, showOps(h.l.Patches[v]), showOps(ops))
		}
	}
}

func c17(c *Case) {
	h := newH(c, hopt{pool: true})
	own := func() {
		for i := 1 + c.n(3); i > 0; i-- {
			v := h.version()
			want, ok := h.docAt(v)
			if !ok {
				continue
			}
			c.note("Snapshot %d", v)
			for k := 0; k < 2; k++ {
				if got := h.l.Snapshot(v); !same(got, want) {
					c.fail("Snapshot(%d) is %s\nwant %s", v, show(got), show(want))
				}
			}
		}
		if c.p(1, 12) {
			h.goSlice()
		}
	}
	h.steps(3+c.n(c.size()+4), hopt{}, own)
}

func c18(c *Case) {
	opt := hopt{time: c.p(1, 2)}
	h := newH(c, hopt{pool: true})
	h.steps(3+c.n(c.size()+4), opt, func() {
		before, snaps := showState(h.l, false), map[uint64]string{}
		for k, v := range h.l.Snapshots {
			snaps[k] = show(v)
		}
		if c.p(1, 5) {
			h.timeSlice()
		} else {
			h.query()
		}
		if now := showState(h.l, false); now != before {
			c.fail("the query changed the history\nfrom %s\nto   %s", before, now)
		}
		for k, s := range snaps {
			if v, ok := h.l.Snapshots[k]; !ok || show(v) != s {
				c.fail("the query changed the remembered document of version %d from %s to %s", k, s, show(v))
			}
		}
		for k, v := range h.l.Snapshots {
			if _, ok := snaps[k]; !ok {
				if want, ok := h.docAt(k); !ok || !same(want, v) || k < h.v0 || k > h.last {
					c.fail("the query remembers for version %d the document %s", k, show(v))
				}
			}
		}
		for _, d := range h.held {
			if s := show(d.v); s != d.s {
				c.fail("the document of %s changed\nfrom %s\nto   %s", d.w, d.s, s)
			}
		}
	})
	for _, d := range h.held {
		if s := show(d.v); s != d.s {
			c.fail("the document of %s changed\nfrom %s\nto   %s", d.w, d.s, s)
		}
	}
}

// effective leaves out an operation that writes what the last kept operation of
// its path wrote, nothing having been removed since.
func effective(prev map[string]any, ops []Op, sel func(Op) bool, others bool) []Op {
	var r []Op
	for _, o := range ops {
		if o.Op == "remove" {
			if sel(o) || others {
				r = append(r, o)
				clear(prev)
			}
			continue
		}
		if !sel(o) {
			if others {
				r = append(r, o)
			}
			continue
		}
		if p, ok := prev[o.Path]; ok && reflect.DeepEqual(p, o.Value) {
			continue
		}
		prev[o.Path] = o.Value
		r = append(r, o)
	}
	return r
}

func history(c *Case, opt hopt) *H {
	h := newH(c, hopt{pool: true})
	if opt.time && c.p(1, 3) {
		opt.time = false
	}
	h.steps(4+c.n(c.size()+4), opt, func() {})
	if len(h.pool) > 0 && c.p(2, 3) {
		h.append_()
	}
	if c.p(1, 10) {
		h.goSlice()
		h.steps(3+c.n(4), opt, func() {})
	}
	return h
}

func c19(c *Case) {
	h := history(c, hopt{})
	for i := 3; i > 0; i-- {
		a, b := h.versions2()
		c.note("Track %d %d", a, b)
		want := map[uint64]Patch{}
		prev := map[string]any{}
		for v := a; v <= b; v++ {
			if ops, ok := h.patches[v]; ok {
				want[v] = effective(prev, ops, func(Op) bool { return true }, false)
			}
		}
		if got := h.l.Track(a, b); showPatches(got) != showPatches(want) {
			c.fail("Track(%d, %d) is %s\nwant %s", a, b, showPatches(got), showPatches(want))
		}
	}
}

func c20(c *Case) {
	h := history(c, hopt{})
	for i := 4; i > 0; i-- {
		a, b := h.times2()
		c.note("TemporalTrack %d %d", a, b)
		want := map[uint64]Patch{}
		prev := map[string]any{}
		for v := h.v0; v <= h.last; v++ {
			r := effective(prev, h.patches[v], func(o Op) bool { return a <= o.Timestamp && o.Timestamp <= b }, false)
			if len(r) > 0 {
				want[v] = r
			}
		}
		if got := h.l.TemporalTrack(a, b); showPatches(got) != showPatches(want) {
			c.fail("TemporalTrack(%d, %d) is %s\nwant %s", a, b, showPatches(got), showPatches(want))
		}
	}
}

// under: the location of path is target's or below it
func under(path, target string) bool {
	if target == "" || path == target {
		return true
	}
	if !strings.HasPrefix(path, target) {
		return false
	}
	switch path[len(target)] {
	case '/':
		return true
	case '.':
		return path[0] != '/'
	}
	return false
}

func (h *H) target() string {
	c := h.c
	p := ""
	if len(h.paths) > 0 {
		p = pick(c, h.paths)
	}
	switch c.n(5) {
	case 0:
		return ""
	case 1:
		if i := strings.LastIndexAny(p, "/."); i > 0 {
			return p[:i]
		}
	case 2:
		if len(p) > 1 {
			return p[:len(p)-1]
		}
	}
	return p
}

func c21(c *Case) {
	h := history(c, hopt{})
	for i := 1 + c.n(2); i > 0; i-- {
		t := h.target()
		c.note("Compact %q", t)
		before := fmt.Sprintf("%v %s %s %s", h.l.Version, showSnaps(h.l.Snapshots), showOps(h.l.PatchPool), show(h.l.CurrentState))
		prev := map[string]any{}
		want := map[uint64][]Op{}
		for v := h.v0; v <= h.last; v++ {
			if ops, ok := h.patches[v]; ok {
				want[v] = effective(prev, ops, func(o Op) bool { return under(o.Path, t) }, true)
			}
		}
		h.l.Compact(t)
		if a, b := showPatches(h.l.Patches), showPatches(toPatches(want)); a != b {
			c.fail("Compact(%q) leaves %s\nwant %s", t, a, b)
		}
		if now := fmt.Sprintf("%v %s %s %s", h.l.Version, showSnaps(h.l.Snapshots), showOps(h.l.PatchPool), show(h.l.CurrentState)); now != before {
			c.fail("Compact changed more than the changes\nfrom %s\nto   %s", before, now)
		}
		h.patches = want
	}
}

func c22(c *Case) {
	h := history(c, hopt{})
	for i := 2; i > 0; i-- {
		a, b := h.versions2()
		if _, ok := h.docAt(b); !ok {
			return
		}
		c.note("Slice %d %d", a, b)
		s := h.l.Slice(a, b)
		var vs []uint64
		ps := map[uint64]Patch{}
		for v := a; v <= b; v++ {
			vs = append(vs, v)
			if p, ok := h.patches[v]; ok {
				ps[v] = p
			}
		}
		if fmt.Sprint(s.Version) != fmt.Sprint(vs) {
			c.fail("Slice(%d, %d) has the versions %v", a, b, s.Version)
		}
		if showPatches(s.Patches) != showPatches(ps) {
			c.fail("Slice(%d, %d) has the changes %s\nwant %s", a, b, showPatches(s.Patches), showPatches(ps))
		}
		if len(s.PatchPool) != 0 {
			c.fail("Slice(%d, %d) has pending changes %s", a, b, showOps(s.PatchPool))
		}
		for k := 0; k < 3 || k <= int(b-a); k++ {
			v := a + uint64(c.n(int(b-a)+1))
			want, _ := h.docAt(v)
			if got := s.Snapshot(v); !same(got, want) {
				c.fail("version %d of Slice(%d, %d) is %s\nwant %s", v, a, b, show(got), show(want))
			}
		}
		for v, d := range s.Snapshots {
			if want, ok := h.docAt(v); !ok || v < a || v > b || !same(d, want) {
				c.fail("Slice(%d, %d) holds for version %d the document %s", a, b, v, show(d))
			}
		}
	}
}

func c23(c *Case) {
	h := history(c, hopt{time: true})
	for i := 4; i > 0; i-- {
		t := h.time()
		want, ok := h.docAtTime(t)
		if !ok {
			continue
		}
		c.note("TemporalSnapshot %d", t)
		if got := h.l.TemporalSnapshot(t); !same(got, want) {
			c.fail("TemporalSnapshot(%d) is %s\nwant %s", t, show(got), show(want))
		}
	}
}

func c24(c *Case) {
	h := history(c, hopt{time: true})
	for i := 3; i > 0; i-- {
		a, b := h.times2()
		base, ok1 := h.base, true
		if a > -1<<63 {
			base, ok1 = h.docAtTime(a - 1)
		}
		_, ok2 := h.docAtTime(b)
		if !ok1 || !ok2 {
			continue
		}
		c.note("TemporalSlice %d %d", a, b)
		s := h.l.TemporalSlice(a, b)
		want := map[uint64]Patch{}
		for v := h.v0; v <= h.last; v++ {
			for _, o := range h.patches[v] {
				if a <= o.Timestamp && o.Timestamp <= b {
					want[v] = append(want[v], o)
				}
			}
		}
		if showPatches(s.Patches) != showPatches(want) {
			c.fail("TemporalSlice(%d, %d) has the changes %s\nwant %s", a, b, showPatches(s.Patches), showPatches(want))
		}
		if len(s.PatchPool) != 0 {
			c.fail("TemporalSlice(%d, %d) has pending changes %s", a, b, showOps(s.PatchPool))
		}
		if len(s.Version) == 0 {
			c.fail("TemporalSlice(%d, %d) has no version", a, b)
		}
		for k, v := range s.Version {
			if v != s.Version[0]+uint64(k) {
				c.fail("TemporalSlice(%d, %d) has the versions %v", a, b, s.Version)
			}
		}
		for v := range want {
			if v <= s.Version[0] || v > s.Version[len(s.Version)-1] {
				c.fail("TemporalSlice(%d, %d) has the versions %v, which do not replay the changes of version %d", a, b, s.Version, v)
			}
		}
		d, ok := s.Snapshots[s.Version[0]]
		if !ok || !same(d, base) {
			c.fail("TemporalSlice(%d, %d) starts from %s\nwant %s", a, b, show(d), show(base))
		}
		for v := range s.Snapshots {
			if v != s.Version[0] {
				c.fail("TemporalSlice(%d, %d) holds a document for version %d: %s", a, b, v, showSnaps(s.Snapshots))
			}
		}
	}
}

func c25(c *Case) {
	h := history(c, hopt{pointer: true})
	for _, ops := range h.patches {
		for _, o := range ops {
			if o.Path != "" && o.Path[0] != '/' {
				return
			}
		}
	}
	t := h.target()
	c.note("History %q", t)
	prev := map[string]any{}
	var all []Op
	for v := h.v0; v <= h.last; v++ {
		for _, o := range effective(prev, h.patches[v], func(o Op) bool { return under(o.Path, t) }, true) {
			if under(o.Path, t) {
				all = append(all, o)
			}
		}
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].Timestamp < all[j].Timestamp })
	want := map[string][]Op{}
	for _, o := range all {
		if want[o.Path] == nil {
			if v, ok := lookup(h.base, tokens(o.Path)); ok && v != nil {
				want[o.Path] = []Op{{Op: "add", Path: o.Path, Value: v, Timestamp: 0}}
			}
		}
		want[o.Path] = append(want[o.Path], o)
	}
	got := h.l.History(t)
	render := func(m map[string][]Op) string {
		var xs []string
		for _, k := range keysOf(m) {
			xs = append(xs, fmt.Sprintf("%q: %s", k, showOps(m[k])))
		}
		return strings.Join(xs, "\n  ")
	}
	g := map[string][]Op{}
	for k, v := range got {
		g[k] = v
	}
	if render(g) != render(want) {
		c.fail("History(%q) is\n  %s\nwant\n  %s", t, render(g), render(want))
	}
}

func c26(c *Case) {
	h := newH(c, hopt{pool: true})
	h.steps(2+c.n(c.size()+4), hopt{pointer: true}, func() {
		l := h.l
		rest := fmt.Sprintf("%v %s %s", l.Version, showPatches(l.Patches), showSnaps(l.Snapshots))
		pend, cur := clone(l.PatchPool), l.CurrentState
		curS := show(cur)
		o := h.c.goodOp(cur)
		if c.p(1, 2) {
			// a value the current document may already hold
			t := c.walk(cur)
			o = Op{Op: pick(c, []opType{"add", "replace", "replace"}), Path: pointer(t), Timestamp: h.ts(), Value: c.opValue()}
			if v, ok := lookup(cur, t); ok && c.p(2, 3) {
				switch v := v.(type) {
				case LS:
					o.Value = v.Value
				case LF:
					o.Value = v.Value
					if v.Value == float64(int(v.Value)) && c.p(1, 3) {
						o.Value = int(v.Value)
					}
				case LB:
					o.Value = v.Value
				}
			}
		}
		if o.Path != "" && o.Path[0] != '/' {
			o.Path = pointer(tokens(o.Path))
		}
		if c.p(1, 10) {
			o.Op = pick(c, []opType{"remove", "move", "copy", "test", "x"})
		}
		if o.Path == "" && c.p(9, 10) {
			return
		}
		nd, ok := refApply(cur, o)
		sets := o.Op == "add" || o.Op == "replace"
		if sets && !ok {
			return
		}
		rec := o
		if c.p(1, 2) {
			c.note("TestSet %s", showOp(o))
			if sets && o.Op == "replace" {
				v, found := lookup(cur, tokens(o.Path))
				if !found {
					rec.Op = "add"
				} else if leaf, _ := opLeaf(o); sameLeaf(v, leaf) {
					sets = false
				}
			}
			l.TestSet(h.last, o)
		} else {
			c.note("Set %s", showOp(o))
			l.Set(h.last, o)
		}
		if !sets {
			nd = cur
		} else {
			pend = append(pend, rec)
		}
		if show(cur) != curS {
			c.fail("the document handed out before changed from %s\nto %s", curS, show(cur))
		}
		if !same(l.CurrentState, nd) {
			c.fail("the current document is %s\nwant %s", show(l.CurrentState), show(nd))
		}
		if showOps(l.PatchPool) != showOps(pend) {
			c.fail("pending are %s\nwant %s", showOps(l.PatchPool), showOps(pend))
		}
		if now := fmt.Sprintf("%v %s %s", l.Version, showPatches(l.Patches), showSnaps(l.Snapshots)); now != rest {
			c.fail("the call changed the history\nfrom %s\nto   %s", rest, now)
		}
		h.cur = nd
		h.pool = clone(pend)
		if _, ok := h.docAt(h.last); ok {
			if d, _ := h.docAt(h.last); d != nil {
				if _, ok := refFold(d, h.pool); !ok { // later steps need a replayable history
					h.pool = nil
					l.PatchPool = nil
				}
			}
		}
	})
}

// sameLeaf: equal kind and value (numbers as Go compares them), timestamps aside
func sameLeaf(a, b Val) bool {
	switch x := a.(type) {
	case LS:
		y, ok := b.(LS)
		return ok && x.Value == y.Value
	case LF:
		y, ok := b.(LF)
		return ok && x.Value == y.Value
	case LB:
		y, ok := b.(LB)
		return ok && x.Value == y.Value
	}
	return false
}
