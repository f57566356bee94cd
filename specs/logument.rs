// Histories of managed documents.

// ---- well-formed histories
pub open spec fn v0(l: Logument) -> int { l.Version[0] as int }
pub open spec fn vlast(l: Logument) -> int { l.Version[0] as int + l.Version.len() - 1 }

pub open spec fn wf(l: Logument) -> bool {
    &&& l.Version.len() >= 1
    &&& forall|i: int| 0 <= i < l.Version.len() ==> (#[trigger] l.Version[i]) as int == l.Version[0] as int + i
    &&& vlast(l) < u64::MAX
    &&& l.Snapshots.dom().contains(l.Version[0])
    &&& forall|v: u64| #[trigger] l.Snapshots.dom().contains(v) ==> v0(l) <= v <= vlast(l)
    &&& forall|v: u64| #[trigger] l.Patches.dom().contains(v) ==> v0(l) <= v <= vlast(l) && v > 0
}

// ---- reconstruction of a version
pub open spec fn patch_of(p: Map<u64, Seq<Operation>>, v: int) -> Seq<Operation> {
    if 0 <= v <= u64::MAX { mget(p, v as u64, Seq::empty()) } else { Seq::empty() }
}

// the document at version v: the base document with the changes of versions lo+1..=v in order
pub open spec fn replay(base: Val, p: Map<u64, Seq<Operation>>, lo: int, v: int) -> Option<Val>
    decreases v - lo,
{
    if v <= lo { Some(base) } else {
        match replay(base, p, lo, v - 1) {
            Some(d) => fold_ops(d, patch_of(p, v)),
            None => None,
        }
    }
}
pub open spec fn doc_at(l: Logument, v: int) -> Option<Val> { replay(l.Snapshots[l.Version[0]], l.Patches, v0(l), v) }

// every materialised document is the one its version denotes
pub open spec fn coherent(l: Logument) -> bool {
    forall|v: u64| #[trigger] l.Snapshots.dom().contains(v) ==> doc_at(l, v as int) == Some(l.Snapshots[v])
}

pub proof fn lemma_replay_prefix(base: Val, p: Map<u64, Seq<Operation>>, lo: int, v: int, w: int)
    requires v <= w, replay(base, p, lo, w) is Some,
    ensures replay(base, p, lo, v) is Some,
    decreases w - v,
{
    if v < w && w > lo { lemma_replay_prefix(base, p, lo, v, w - 1); }
}

pub proof fn lemma_replay_same(base: Val, p: Map<u64, Seq<Operation>>, q: Map<u64, Seq<Operation>>, lo: int, v: int)
    requires forall|i: int| lo < i <= v ==> #[trigger] patch_of(p, i) == patch_of(q, i),
    ensures replay(base, p, lo, v) == replay(base, q, lo, v),
    decreases v - lo,
{
    if v > lo {
        lemma_replay_same(base, p, q, lo, v - 1);
        assert(patch_of(p, v) == patch_of(q, v));
    }
}

// replay from a later base document
pub proof fn lemma_replay_rebase(base: Val, p: Map<u64, Seq<Operation>>, lo: int, mid: int, v: int)
    requires lo <= mid <= v, replay(base, p, lo, mid) is Some,
    ensures replay(base, p, lo, v) == replay(replay(base, p, lo, mid)->Some_0, p, mid, v),
    decreases v - mid,
{
    if v > mid { lemma_replay_rebase(base, p, lo, mid, v - 1); }
}

// ---- sorted keys
pub open spec fn ascending(s: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j] }
pub open spec fn keys_of<V>(s: Seq<u64>, m: Map<u64, V>) -> bool {
    &&& ascending(s)
    &&& forall|k: u64| #[trigger] s.contains(k) <==> m.dom().contains(k)
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains(#[trigger] s[i])
}
pub proof fn lemma_sorted_asc(s: Seq<u64>)
    requires s.no_duplicates(), forall|i: int, j: int| 0 <= i < j < s.len() ==> !(#[trigger] s[j] < #[trigger] s[i]),
    ensures ascending(s),
{
}
pub proof fn lemma_keys_of<V>(s: Seq<u64>, m: Map<u64, V>)
    requires s.no_duplicates(), forall|i: int, j: int| 0 <= i < j < s.len() ==> !(#[trigger] s[j] < #[trigger] s[i]),
        forall|k: u64| #[trigger] s.contains(k) <==> m.dom().contains(k),
    ensures keys_of(s, m),
{
    assert forall|i: int| 0 <= i < s.len() implies m.dom().contains(#[trigger] s[i]) by { assert(s.contains(s[i])); }
}
pub proof fn lemma_if_keys_of<V>(s: Seq<u64>, m: Map<u64, V>)
    ensures
        s.no_duplicates() && (forall|i: int, j: int| 0 <= i < j < s.len() ==> !(#[trigger] s[j] < #[trigger] s[i]))
            && (forall|k: u64| #[trigger] s.contains(k) <==> m.dom().contains(k)) ==> keys_of(s, m),
{
    if s.no_duplicates() && (forall|i: int, j: int| 0 <= i < j < s.len() ==> !(#[trigger] s[j] < #[trigger] s[i]))
        && (forall|k: u64| #[trigger] s.contains(k) <==> m.dom().contains(k)) {
        lemma_keys_of(s, m);
    }
}
// sorting an ascending sequence changes nothing
pub proof fn lemma_asc_unique(a: Seq<u64>, b: Seq<u64>)
    requires ascending(a), ascending(b), a.len() == b.len(), forall|x: u64| a.contains(x) <==> b.contains(x),
    ensures a =~= b,
    decreases a.len(),
{
    if a.len() > 0 {
        let n = a.len() - 1;
        assert(a.contains(a[n]));
        assert(b.contains(b[n]));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == a[n];
        let j = choose|j: int| 0 <= j < a.len() && a[j] == b[n];
        assert(a[n] == b[n]);
        let a1 = a.drop_last();
        let b1 = b.drop_last();
        assert forall|x: u64| a1.contains(x) <==> b1.contains(x) by {
            if a1.contains(x) {
                let k = choose|k: int| 0 <= k < a1.len() && a1[k] == x;
                assert(a[k] == x && a[k] < a[n]);
                assert(b.contains(x));
                let m = choose|m: int| 0 <= m < b.len() && b[m] == x;
                assert(b1[m] == x);
            }
            if b1.contains(x) {
                let k = choose|k: int| 0 <= k < b1.len() && b1[k] == x;
                assert(b[k] == x && b[k] < b[n]);
                assert(a.contains(x));
                let m = choose|m: int| 0 <= m < a.len() && a[m] == x;
                assert(a1[m] == x);
            }
        }
        lemma_asc_unique(a1, b1);
        assert forall|k: int| 0 <= k < a.len() implies a[k] == b[k] by {
            if k < n { assert(a1[k] == b1[k]); }
        }
    }
}

// ---- pending changes
pub open spec fn flat(ps: Seq<Seq<Operation>>) -> Seq<Operation>
    decreases ps.len(),
{
    if ps.len() == 0 { Seq::empty() } else { flat(ps.drop_last()) + ps.last() }
}
// the operations an accepted argument of Store denotes
pub open spec fn stored(a: Any) -> Option<Seq<Operation>> {
    match a {
        Any::Str(s) => patch_of_json(s),
        Any::Bytes(s) => patch_of_json(s),
        Any::Patch(p) => Some(p),
        Any::Ops(p) => Some(p),
        Any::Patches(ps) => Some(flat(ps)),
        Any::Op(o) => Some(seq![o[0]]),
        _ => None,
    }
}
// the document an accepted first argument of NewLogument denotes
pub open spec fn initial(a: Any) -> Option<Val> {
    match a {
        Any::Str(s) => parse_doc(s),
        Any::Bytes(s) => parse_doc(s),
        Any::V(v) => Some(v),
        _ => None,
    }
}

// ---- redundancy: an operation is left out exactly when it writes the value the
// last kept operation of the same path wrote, with no removal in between
pub open spec fn dd_keep(st: Map<Str, Any>, op: Operation) -> bool {
    op.Op =~= "remove" || !st.dom().contains(op.Path) || !go_deep_equal(st[op.Path], op.Value)
}
pub open spec fn dd_next(st: Map<Str, Any>, op: Operation) -> Map<Str, Any> {
    if op.Op =~= "remove" { Map::empty() } else if dd_keep(st, op) { st.insert(op.Path, op.Value) } else { st }
}
// state after ops, of which only the selected ones count; others: the rest is
// kept too, so that its removals count
pub open spec fn dd_st(st: Map<Str, Any>, sel: spec_fn(Operation) -> bool, others: bool, ops: Seq<Operation>) -> Map<Str, Any>
    decreases ops.len(),
{
    if ops.len() == 0 { st } else {
        let s = dd_st(st, sel, others, ops.drop_last());
        if sel(ops.last()) { dd_next(s, ops.last()) } else if others && ops.last().Op =~= "remove" { Map::empty() } else { s }
    }
}
// operations kept; those not selected are kept iff others
pub open spec fn dd_out(st: Map<Str, Any>, sel: spec_fn(Operation) -> bool, others: bool, ops: Seq<Operation>) -> Seq<Operation>
    decreases ops.len(),
{
    if ops.len() == 0 { ops } else {
        let out = dd_out(st, sel, others, ops.drop_last());
        let s = dd_st(st, sel, others, ops.drop_last());
        if (if sel(ops.last()) { dd_keep(s, ops.last()) } else { others }) { out.push(ops.last()) } else { out }
    }
}
// state before version v when the versions from lo on are processed in order
pub open spec fn dd_before(p: Map<u64, Seq<Operation>>, sel: spec_fn(Operation) -> bool, others: bool, lo: int, v: int) -> Map<Str, Any>
    decreases v - lo,
{
    if v <= lo { Map::empty() } else { dd_st(dd_before(p, sel, others, lo, v - 1), sel, others, patch_of(p, v - 1)) }
}
// what is kept of version v
pub open spec fn dd_at(p: Map<u64, Seq<Operation>>, sel: spec_fn(Operation) -> bool, others: bool, lo: int, v: int) -> Seq<Operation> {
    dd_out(dd_before(p, sel, others, lo, v), sel, others, patch_of(p, v))
}
// versions without changes do not matter
pub proof fn lemma_dd_gap(p: Map<u64, Seq<Operation>>, sel: spec_fn(Operation) -> bool, others: bool, lo: int, a: int, b: int)
    requires a <= b, forall|i: int| a <= i < b ==> #[trigger] patch_of(p, i).len() == 0,
    ensures dd_before(p, sel, others, lo, a) == dd_before(p, sel, others, lo, b),
    decreases b - a,
{
    if a < b {
        lemma_dd_gap(p, sel, others, lo, a, b - 1);
        assert(patch_of(p, b - 1).len() == 0);
    }
}
pub open spec fn every() -> spec_fn(Operation) -> bool { |o: Operation| true }

// no changes between neighbours of a sorted list ks of the keys lo..=hi of p
pub proof fn lemma_range_gap<V>(ks: Seq<u64>, q: Map<u64, V>, p: Map<u64, Seq<Operation>>, lo: int, hi: int, i: int)
    requires keys_of(ks, q), 0 <= i < ks.len(),
        forall|k: u64| #[trigger] q.dom().contains(k) <==> p.dom().contains(k) && lo <= k <= hi,
    ensures
        forall|v: int| (if i == 0 { lo } else { ks[i - 1] + 1 }) <= v < ks[i] ==> #[trigger] patch_of(p, v).len() == 0,
        i == ks.len() - 1 ==> forall|v: int| ks[i] < v <= hi ==> #[trigger] patch_of(p, v).len() == 0,
        patch_of(p, ks[i] as int) == p[ks[i]],
        lo <= ks[i] <= hi,
{
    assert(q.dom().contains(ks[i]));
    assert forall|v: int| ((if i == 0 { lo } else { ks[i - 1] + 1 }) <= v < ks[i]) || (i == ks.len() - 1 && ks[i] < v <= hi) implies #[trigger] patch_of(p, v).len() == 0 by {
        if 0 <= v <= u64::MAX && p.dom().contains(v as u64) {
            if i > 0 { assert(q.dom().contains(ks[i - 1])); }
            assert(q.dom().contains(v as u64));
            assert(ks.contains(v as u64));
            let j = choose|j: int| 0 <= j < ks.len() && ks[j] == v as u64;
            if j < i { if j < i - 1 { assert(ks[j] < ks[i - 1]); } } else if j > i { assert(ks[i] < ks[j]); }
        }
    }
}

// ---- all changes in recorded order
pub open spec fn cat(p: Map<u64, Seq<Operation>>, lo: int, v: int) -> Seq<Operation>
    decreases v - lo,
{
    if v <= lo { Seq::empty() } else { cat(p, lo, v - 1) + patch_of(p, v - 1) }
}
pub proof fn lemma_cat_gap(p: Map<u64, Seq<Operation>>, lo: int, a: int, b: int)
    requires a <= b, forall|i: int| a <= i < b ==> #[trigger] patch_of(p, i).len() == 0,
    ensures cat(p, lo, a) == cat(p, lo, b),
    decreases b - a,
{
    if a < b {
        lemma_cat_gap(p, lo, a, b - 1);
        assert(patch_of(p, b - 1).len() == 0);
        assert(cat(p, lo, b - 1) + patch_of(p, b - 1) =~= cat(p, lo, b - 1));
    }
}
pub open spec fn sel_ops(ops: Seq<Operation>, sel: spec_fn(Operation) -> bool) -> Seq<Operation>
    decreases ops.len(),
{
    if ops.len() == 0 { ops } else {
        let r = sel_ops(ops.drop_last(), sel);
        if sel(ops.last()) { r.push(ops.last()) } else { r }
    }
}
pub proof fn lemma_sel_cat(a: Seq<Operation>, b: Seq<Operation>, sel: spec_fn(Operation) -> bool)
    ensures sel_ops(a + b, sel) == sel_ops(a, sel) + sel_ops(b, sel),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(sel_ops(a, sel) + sel_ops(b, sel) =~= sel_ops(a, sel));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        lemma_sel_cat(a, b.drop_last(), sel);
        assert(sel_ops(a + b, sel) =~= sel_ops(a, sel) + sel_ops(b, sel));
    }
}
// facts about a sorted list of keys at position i: no changes strictly between neighbours
pub proof fn lemma_keys_gap(ks: Seq<u64>, p: Map<u64, Seq<Operation>>, i: int)
    requires keys_of(ks, p), 0 <= i < ks.len(),
    ensures
        i > 0 ==> forall|v: int| ks[i - 1] < v < ks[i] ==> #[trigger] patch_of(p, v).len() == 0,
        i == 0 ==> forall|v: int| v < ks[0] ==> #[trigger] patch_of(p, v).len() == 0,
        i == ks.len() - 1 ==> forall|v: int| v > ks[i] ==> #[trigger] patch_of(p, v).len() == 0,
        patch_of(p, ks[i] as int) == p[ks[i]],
{
    assert forall|v: int| (i > 0 && ks[i - 1] < v < ks[i]) || (i == 0 && v < ks[0]) || (i == ks.len() - 1 && v > ks[i]) implies #[trigger] patch_of(p, v).len() == 0 by {
        if 0 <= v <= u64::MAX && p.dom().contains(v as u64) {
            assert(ks.contains(v as u64));
            let j = choose|j: int| 0 <= j < ks.len() && ks[j] == v as u64;
            if j < i { if j < i - 1 { assert(ks[j] < ks[i - 1]); } } else if j > i { assert(ks[i] < ks[j]); }
        }
    }
}

pub proof fn lemma_keys_none(ks: Seq<u64>, p: Map<u64, Seq<Operation>>)
    requires keys_of(ks, p), ks.len() == 0,
    ensures forall|v: int| #[trigger] patch_of(p, v).len() == 0,
{
    assert forall|v: int| #[trigger] patch_of(p, v).len() == 0 by {
        if 0 <= v <= u64::MAX && p.dom().contains(v as u64) { assert(ks.contains(v as u64)); }
    }
}

// ---- reconstruction of a point in time
pub open spec fn ts_less() -> spec_fn(Operation, Operation) -> bool { |a: Operation, b: Operation| a.Timestamp < b.Timestamp }
pub open spec fn upto(ts: int) -> spec_fn(Operation) -> bool { |o: Operation| o.Timestamp <= ts }
pub open spec fn within(a: int, b: int) -> spec_fn(Operation) -> bool { |o: Operation| a <= o.Timestamp <= b }
pub open spec fn all_changes(l: Logument) -> Seq<Operation> { cat(l.Patches, v0(l), vlast(l) + 1) + l.PatchPool }
pub open spec fn doc_at_time(l: Logument, ts: int) -> Option<Val> {
    fold_ops(l.Snapshots[l.Version[0]], ssort(sel_ops(all_changes(l), upto(ts)), ts_less()))
}

// ---- locations at or below a path (JSON Pointer, or else dotted)
pub open spec fn is_under(path: Str, target: Str) -> bool {
    has_prefix(path, target) && (target.len() == 0 || path.len() == target.len() || path[target.len() as int] == 47
        || (path[target.len() as int] == 46 && !has_prefix(path, "/")))
}
pub open spec fn under(target: Str) -> spec_fn(Operation) -> bool { |o: Operation| is_under(o.Path, target) }

// ---- the changes of a version that lie in a period
pub open spec fn in_period(p: Map<u64, Seq<Operation>>, v: int, a: int, b: int) -> Seq<Operation> {
    sel_ops(patch_of(p, v), within(a, b))
}
pub proof fn lemma_none_before(ops: Seq<Operation>, ts: int)
    requires ts < i64::MIN,
    ensures sel_ops(ops, upto(ts)) =~= Seq::empty(),
    decreases ops.len(),
{
    if ops.len() > 0 { lemma_none_before(ops.drop_last(), ts); }
}

// ---- setting values
pub open spec fn set_spec(l: Logument, op: Operation) -> Logument {
    Logument { CurrentState: apply_op(l.CurrentState, op)->Some_0, PatchPool: l.PatchPool.push(op), ..l }
}
// the leaf holds the value given with an operation
pub open spec fn leaf_holds(leaf: Val, value: Any) -> bool {
    match (leaf, value) {
        (Val::LS(l), Any::Str(s)) => str_eq(l.Value, s),
        (Val::LF(l), Any::F(x)) => f64_eq(l.Value, x),
        (Val::LF(l), Any::Int(i)) => f64_eq(l.Value, f64_of_int(i)),
        (Val::LB(l), Any::B(b)) => l.Value == b,
        _ => false,
    }
}
// what a conditional set carries out
pub open spec fn test_sets(cur: Val, op: Operation) -> Option<Operation> {
    if op.Op =~= "add" { Some(op) } else if op.Op =~= "replace" {
        match get_value(cur, op.Path) {
            None => Some(Operation { Op: "add", Path: op.Path, Value: op.Value, Timestamp: op.Timestamp }),
            Some(v) => if leaf_holds(v, op.Value) { None } else { Some(op) },
        }
    } else { None }
}

// ---- history of a path
pub open spec fn changes_under(l: Logument, target: Str) -> Seq<Operation> {
    ssort(sel_ops(cat(l.Patches, v0(l), vlast(l) + 1), under(target)), ts_less())
}
pub open spec fn at_path(ops: Seq<Operation>, p: Str) -> Seq<Operation> { sel_ops(ops, |o: Operation| o.Path =~= p) }
pub open spec fn initial_op(base: Val, p: Str) -> Seq<Operation> {
    match get_value(base, p) {
        Some(v) => if v is Nil { Seq::empty() } else { seq![Operation { Op: "add", Path: p, Value: any_of_val(v), Timestamp: 0 }] },
        None => Seq::empty(),
    }
}
