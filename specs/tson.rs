// Documents: lookup by path, latest timestamp.

// reference tokens of a JSON Pointer
pub open spec fn ptr_parts(path: Str) -> Seq<Str> {
    split(path.skip(1), 47u8).map_values(|p: Str| unescape(p))
}
pub open spec fn lookup(doc: Val, parts: Seq<Str>) -> Option<Val>
    decreases parts.len(),
{
    if parts.len() == 0 { Some(doc) } else {
        match doc {
            Val::Obj(m) => if m.dom().contains(parts[0]) { lookup(m[parts[0]], parts.skip(1)) } else { None },
            Val::Arr(a) => match idx_of(parts[0]) {
                Some(i) => if i < a.len() { lookup(a[i], parts.skip(1)) } else { None },
                None => None,
            },
            _ => None,
        }
    }
}
pub open spec fn get_value(doc: Val, path: Str) -> Option<Val> {
    if path.len() == 0 { Some(doc) } else if has_prefix(path, "/") { lookup(doc, ptr_parts(path)) } else { None }
}
pub proof fn lemma_split_head(s: Str, b: u8)
    ensures s.len() > 0 && s[0] == b ==> split(s, b) =~= seq![Seq::<u8>::empty()] + split(s.skip(1), b),
        split(s, b).len() >= 1,
{
    if s.len() > 0 && s[0] == b {
        assert(s.contains(b));
        s.index_of_first_ensures(b);
        assert(s.index_of_first(b) == Some(0int));
        assert(s.take(0) =~= Seq::<u8>::empty());
    }
}

// every leaf of d, at any depth, has a timestamp of at most x
pub open spec fn ts_le(d: Val, x: int) -> bool
    decreases d,
{
    match d {
        Val::Nil => true,
        Val::LS(l) => l.Timestamp <= x,
        Val::LF(l) => l.Timestamp <= x,
        Val::LB(l) => l.Timestamp <= x,
        Val::Obj(m) => forall|k: Str| #[trigger] m.dom().contains(k) ==> ts_le(m[k], x),
        Val::Arr(a) => forall|i: int| 0 <= i < a.len() ==> ts_le(#[trigger] a[i], x),
    }
}
// some leaf of d has timestamp x
pub open spec fn ts_has(d: Val, x: int) -> bool
    decreases d,
{
    match d {
        Val::Nil => false,
        Val::LS(l) => l.Timestamp == x,
        Val::LF(l) => l.Timestamp == x,
        Val::LB(l) => l.Timestamp == x,
        Val::Obj(m) => exists|k: Str| #[trigger] m.dom().contains(k) && ts_has(m[k], x),
        Val::Arr(a) => exists|i: int| 0 <= i < a.len() && ts_has(#[trigger] a[i], x),
    }
}
// x is the latest timestamp of d: a leaf's own; the greatest within a container, and 0 at least
pub open spec fn is_latest(d: Val, x: int) -> bool {
    match d {
        Val::Nil => x == -1,
        Val::LS(l) => l.Timestamp == x,
        Val::LF(l) => l.Timestamp == x,
        Val::LB(l) => l.Timestamp == x,
        _ => x >= 0 && ts_le(d, x) && (x == 0 || ts_has(d, x)),
    }
}
pub proof fn lemma_ts_le_mono(d: Val, x: int, y: int)
    requires ts_le(d, x), x <= y,
    ensures ts_le(d, y),
    decreases d,
{
    match d {
        Val::Obj(m) => {
            assert forall|k: Str| #[trigger] m.dom().contains(k) implies ts_le(m[k], y) by { lemma_ts_le_mono(m[k], x, y); }
        },
        Val::Arr(a) => {
            assert forall|i: int| 0 <= i < a.len() implies ts_le(#[trigger] a[i], y) by { lemma_ts_le_mono(a[i], x, y); }
        },
        _ => {},
    }
}
pub proof fn lemma_latest(d: Val, x: int)
    ensures forall|y: int| is_latest(d, y) && y <= x && x >= 0 ==> ts_le(d, x),
        forall|y: int| is_latest(d, y) && y > 0 ==> ts_has(d, y),
{
    assert forall|y: int| is_latest(d, y) && y <= x && x >= 0 implies ts_le(d, x) by { if !(d is Nil) { lemma_ts_le_mono(d, y, x); } }
}
