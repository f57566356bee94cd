// Equality of documents.

// same structure and values, and (if ts) the same timestamps
pub open spec fn same_doc(a: Val, b: Val, ts: bool) -> bool
    decreases a,
{
    match (a, b) {
        (Val::Nil, Val::Nil) => true,
        (Val::LS(x), Val::LS(y)) => x.Value == y.Value && (ts ==> x.Timestamp == y.Timestamp),
        (Val::LF(x), Val::LF(y)) => f64_eq(x.Value, y.Value) && (ts ==> x.Timestamp == y.Timestamp),
        (Val::LB(x), Val::LB(y)) => x.Value == y.Value && (ts ==> x.Timestamp == y.Timestamp),
        (Val::Obj(x), Val::Obj(y)) => {
            &&& forall|k: Str| #[trigger] x.dom().contains(k) <==> y.dom().contains(k)
            &&& forall|k: Str| #[trigger] x.dom().contains(k) ==> same_doc(x[k], y[k], ts)
        },
        (Val::Arr(x), Val::Arr(y)) => x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> same_doc(#[trigger] x[i], y[i], ts),
        _ => false,
    }
}
pub proof fn lemma_ok_finite(v: Val)
    ensures doc_ok(v) ==> finite_doc(v),
    decreases v,
{
    if doc_ok(v) {
        match v {
            Val::Obj(m) => { assert forall|k: Str| #[trigger] m.dom().contains(k) implies finite_doc(m[k]) by { lemma_ok_finite(m[k]); } },
            Val::Arr(a) => { assert forall|i: int| 0 <= i < a.len() implies finite_doc(#[trigger] a[i]) by { lemma_ok_finite(a[i]); } },
            _ => {},
        }
    }
}
pub proof fn lemma_same_obj(x: Map<Str, Val>, y: Map<Str, Val>, ts: bool)
    ensures
        same_doc(Val::Obj(x), Val::Obj(y), ts) ==> (forall|k: Str| #[trigger] x.dom().contains(k) <==> y.dom().contains(k)) && (forall|k: Str| #[trigger] x.dom().contains(k) ==> same_doc(x[k], y[k], ts)),
        (forall|k: Str| #[trigger] x.dom().contains(k) <==> y.dom().contains(k)) && (forall|k: Str| #[trigger] x.dom().contains(k) ==> same_doc(x[k], y[k], ts)) ==> same_doc(Val::Obj(x), Val::Obj(y), ts),
{
    let a = Val::Obj(x);
    let b = Val::Obj(y);
    if same_doc(a, b, ts) {
        assert(match (a, b) {
        (Val::Obj(x), Val::Obj(y)) => {
            &&& forall|k: Str| #[trigger] x.dom().contains(k) <==> y.dom().contains(k)
            &&& forall|k: Str| #[trigger] x.dom().contains(k) ==> same_doc(x[k], y[k], ts)
        }, _ => false });
    }
}
// a finite document equals itself
pub proof fn lemma_same_refl(v: Val, ts: bool)
    requires finite_doc(v),
    ensures same_doc(v, v, ts),
    decreases v,
{
    broadcast use ax_f64_eq;
    match v {
        Val::Obj(m) => { assert forall|k: Str| #[trigger] m.dom().contains(k) implies same_doc(m[k], m[k], ts) by { lemma_same_refl(m[k], ts); } },
        Val::Arr(a) => { assert forall|i: int| 0 <= i < a.len() implies same_doc(#[trigger] a[i], a[i], ts) by { lemma_same_refl(a[i], ts); } },
        _ => {},
    }
}
pub proof fn lemma_same_weaken(a: Val, b: Val)
    ensures same_doc(a, b, true) ==> same_doc(a, b, false),
    decreases a,
{
    if same_doc(a, b, true) {
        match (a, b) {
            (Val::Obj(x), Val::Obj(y)) => { assert forall|k: Str| #[trigger] x.dom().contains(k) implies same_doc(x[k], y[k], false) by { lemma_same_weaken(x[k], y[k]); } },
            (Val::Arr(x), Val::Arr(y)) => { assert forall|i: int| 0 <= i < x.len() implies same_doc(#[trigger] x[i], y[i], false) by { lemma_same_weaken(x[i], y[i]); } },
            _ => {},
        }
    }
}
pub open spec fn same_json(a: Any, b: Any) -> bool
    decreases a,
{
    match (a, b) {
        (Any::Nil, Any::Nil) => true,
        (Any::Str(x), Any::Str(y)) => x == y,
        (Any::F(x), Any::F(y)) => f64_eq(x, y),
        (Any::B(x), Any::B(y)) => x == y,
        (Any::M(x), Any::M(y)) => {
            &&& forall|k: Str| #[trigger] x.dom().contains(k) <==> y.dom().contains(k)
            &&& forall|k: Str| #[trigger] x.dom().contains(k) ==> same_json(x[k], y[k])
        },
        (Any::S(x), Any::S(y)) => x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> same_json(#[trigger] x[i], y[i]),
        _ => false,
    }
}
// reflect.DeepEqual compares documents and decoded JSON structurally (no NaN, no nil containers)
pub axiom fn ax_deep_equal_doc(a: Val, b: Val)
    requires finite_doc(a), finite_doc(b),
    ensures go_deep_equal(any_of_val(a), any_of_val(b)) == same_doc(a, b, true),
;
pub axiom fn ax_deep_equal_json(a: Any, b: Any)
    requires plain_json(a), plain_json(b), json_ok(a), json_ok(b),
    ensures go_deep_equal(a, b) == same_json(a, b),
;
pub proof fn lemma_same_plain(a: Val, b: Val)
    ensures same_json(strip(a), strip(b)) == same_doc(a, b, false),
    decreases a,
{
    match (a, b) {
        (Val::Obj(x), Val::Obj(y)) => {
            let p = strip(a)->M_0;
            let q = strip(b)->M_0;
            assert forall|k: Str| #[trigger] x.dom().contains(k) && y.dom().contains(k) implies same_json(p[k], q[k]) == same_doc(x[k], y[k], false) by { lemma_same_plain(x[k], y[k]); }
            assert(forall|k: Str| #[trigger] p.dom().contains(k) <==> x.dom().contains(k));
            assert(forall|k: Str| #[trigger] q.dom().contains(k) <==> y.dom().contains(k));
            if same_json(strip(a), strip(b)) {
                assert forall|k: Str| #[trigger] x.dom().contains(k) implies y.dom().contains(k) && same_doc(x[k], y[k], false) by { assert(p.dom().contains(k)); }
                assert forall|k: Str| #[trigger] y.dom().contains(k) implies x.dom().contains(k) by { assert(q.dom().contains(k)); }
            }
            if same_doc(a, b, false) {
                assert forall|k: Str| #[trigger] p.dom().contains(k) implies q.dom().contains(k) && same_json(p[k], q[k]) by { assert(x.dom().contains(k)); }
                assert forall|k: Str| #[trigger] q.dom().contains(k) implies p.dom().contains(k) by { assert(y.dom().contains(k)); }
            }
        },
        (Val::Arr(x), Val::Arr(y)) => {
            let p = strip(a)->S_0;
            let q = strip(b)->S_0;
            assert forall|i: int| 0 <= i < x.len() && i < y.len() implies same_json(#[trigger] p[i], q[i]) == same_doc(x[i], y[i], false) by { lemma_same_plain(x[i], y[i]); }
            if same_json(strip(a), strip(b)) {
                assert forall|i: int| 0 <= i < x.len() implies same_doc(#[trigger] x[i], y[i], false) by { assert(same_json(p[i], q[i])); }
            }
            if same_doc(a, b, false) {
                assert forall|i: int| 0 <= i < p.len() implies same_json(#[trigger] p[i], q[i]) by { assert(same_doc(x[i], y[i], false)); }
            }
        },
        _ => {},
    }
}
