// JSON forms of documents, and encoding/json.

// ---- the plain form: every leaf replaced by its value
pub open spec fn strip(v: Val) -> Any
    decreases v,
{
    match v {
        Val::Nil => Any::Nil,
        Val::LS(l) => Any::Str(l.Value),
        Val::LF(l) => Any::F(l.Value),
        Val::LB(l) => Any::B(l.Value),
        Val::Obj(m) => Any::M(Map::new(m.dom(), |k: Str| if m.dom().contains(k) { strip(m[k]) } else { Any::Nil })),
        Val::Arr(a) => Any::S(Seq::new(a.len(), |i: int| if 0 <= i < a.len() { strip(a[i]) } else { Any::Nil })),
    }
}
// a plain JSON value as encoding/json decodes it
pub open spec fn plain_json(a: Any) -> bool
    decreases a,
{
    match a {
        Any::Nil | Any::Str(_) | Any::F(_) | Any::B(_) => true,
        Any::M(m) => forall|k: Str| #[trigger] m.dom().contains(k) ==> plain_json(m[k]),
        Any::S(s) => forall|i: int| 0 <= i < s.len() ==> plain_json(#[trigger] s[i]),
        _ => false,
    }
}
// the document of a plain JSON value: every scalar becomes a leaf without a timestamp
pub open spec fn wrap(a: Any) -> Val
    decreases a,
{
    match a {
        Any::Str(s) => Val::LS(LeafS { Value: s, Timestamp: -1i64 }),
        Any::F(x) => Val::LF(LeafF { Value: x, Timestamp: -1i64 }),
        Any::B(b) => Val::LB(LeafB { Value: b, Timestamp: -1i64 }),
        Any::M(m) => Val::Obj(Map::new(m.dom(), |k: Str| if m.dom().contains(k) { wrap(m[k]) } else { Val::Nil })),
        Any::S(s) => Val::Arr(Seq::new(s.len(), |i: int| if 0 <= i < s.len() { wrap(s[i]) } else { Val::Nil })),
        _ => Val::Nil,
    }
}
// C07: JSON to TSON to JSON is the identity
pub proof fn theorem_json_identity(a: Any)
    requires plain_json(a),
    ensures strip(wrap(a)) == a,
    decreases a,
{
    match a {
        Any::M(m) => {
            assert forall|k: Str| #[trigger] m.dom().contains(k) implies strip(wrap(m[k])) == m[k] by { theorem_json_identity(m[k]); }
            assert(strip(wrap(a))->M_0 =~= m);
        },
        Any::S(s) => {
            assert forall|i: int| 0 <= i < s.len() implies strip(wrap(#[trigger] s[i])) == s[i] by { theorem_json_identity(s[i]); }
            assert(strip(wrap(a))->S_0 =~= s);
        },
        _ => {},
    }
}
pub proof fn lemma_strip_plain(v: Val)
    ensures plain_json(strip(v)),
    decreases v,
{
    match v {
        Val::Obj(m) => {
            assert forall|k: Str| #[trigger] strip(v)->M_0.dom().contains(k) implies plain_json(strip(v)->M_0[k]) by { lemma_strip_plain(m[k]); }
        },
        Val::Arr(a) => {
            assert forall|i: int| 0 <= i < a.len() implies plain_json(#[trigger] strip(v)->S_0[i]) by { lemma_strip_plain(a[i]); }
        },
        _ => {},
    }
}
// ---- documents the JSON form can carry: Unicode text, finite numbers
pub uninterp spec fn utf8(s: Str) -> bool;
pub open spec fn doc_ok(v: Val) -> bool
    decreases v,
{
    match v {
        Val::Nil | Val::LB(_) => true,
        Val::LS(l) => utf8(l.Value),
        Val::LF(l) => f64_finite(l.Value),
        Val::Obj(m) => forall|k: Str| #[trigger] m.dom().contains(k) ==> utf8(k) && doc_ok(m[k]),
        Val::Arr(a) => forall|i: int| 0 <= i < a.len() ==> doc_ok(#[trigger] a[i]),
    }
}
// values json.Marshal is assumed to write faithfully
pub open spec fn json_ok(a: Any) -> bool
    decreases a,
{
    match a {
        Any::Nil | Any::B(_) | Any::Int(_) | Any::I64(_) | Any::U64(_) => true,
        Any::V(v) => doc_ok(v),
        Any::Str(s) => utf8(s),
        Any::Kind(s) => utf8(s),
        Any::F(x) => f64_finite(x),
        Any::M(m) => forall|k: Str| #[trigger] m.dom().contains(k) ==> utf8(k) && json_ok(m[k]),
        Any::S(s) => forall|i: int| 0 <= i < s.len() ==> json_ok(#[trigger] s[i]),
        _ => false,
    }
}

// ---- encoding/json
// jn(text): the value a JSON text denotes, numbers kept as their text (json.Number)
pub uninterp spec fn jn(s: Str) -> Option<Any>;
pub uninterp spec fn f64_json(x: F64) -> Str;   // how encoding/json writes a number
pub open spec fn num_tree(a: Any) -> bool
    decreases a,
{
    match a {
        Any::Nil | Any::Str(_) | Any::Num(_) | Any::B(_) => true,
        Any::M(m) => forall|k: Str| #[trigger] m.dom().contains(k) ==> num_tree(m[k]),
        Any::S(s) => forall|i: int| 0 <= i < s.len() ==> num_tree(#[trigger] s[i]),
        _ => false,
    }
}
// every number of the tree is in the range of float64
pub open spec fn nums_ok(a: Any) -> bool
    decreases a,
{
    match a {
        Any::Num(s) => parse_f64_err(s) is Nil,
        Any::M(m) => forall|k: Str| #[trigger] m.dom().contains(k) ==> nums_ok(m[k]),
        Any::S(s) => forall|i: int| 0 <= i < s.len() ==> nums_ok(#[trigger] s[i]),
        _ => true,
    }
}
pub open spec fn floats(a: Any) -> Any
    decreases a,
{
    match a {
        Any::Num(s) => Any::F(parse_f64_val(s)),
        Any::M(m) => Any::M(Map::new(m.dom(), |k: Str| if m.dom().contains(k) { floats(m[k]) } else { Any::Nil })),
        Any::S(s) => Any::S(Seq::new(s.len(), |i: int| if 0 <= i < s.len() { floats(s[i]) } else { Any::Nil })),
        _ => a,
    }
}
// json.Unmarshal into an interface value
pub open spec fn json_value(s: Str) -> Option<Any> {
    match jn(s) { Some(a) => if nums_ok(a) { Some(floats(a)) } else { None }, None => None }
}
// what json.Marshal writes for a document: a leaf is an object with two members (struct tags)
pub open spec fn leaf_tree(v: Any, ts: i64) -> Any {
    Any::M(Map::<Str, Any>::empty().insert(leaf_value_key(), v).insert(leaf_timestamp_key(), Any::Num(dec_str(ts as int))))
}
pub open spec fn val_tree(v: Val) -> Any
    decreases v,
{
    match v {
        Val::Nil => Any::Nil,
        Val::LS(l) => leaf_tree(Any::Str(l.Value), l.Timestamp),
        Val::LF(l) => leaf_tree(Any::Num(f64_json(l.Value)), l.Timestamp),
        Val::LB(l) => leaf_tree(Any::B(l.Value), l.Timestamp),
        Val::Obj(m) => Any::M(Map::new(m.dom(), |k: Str| if m.dom().contains(k) { val_tree(m[k]) } else { Any::Nil })),
        Val::Arr(a) => Any::S(Seq::new(a.len(), |i: int| if 0 <= i < a.len() { val_tree(a[i]) } else { Any::Nil })),
    }
}
pub open spec fn any_tree(a: Any) -> Any
    decreases a,
{
    match a {
        Any::V(v) => val_tree(v),
        Any::Kind(s) => Any::Str(s),
        Any::F(x) => Any::Num(f64_json(x)),
        Any::Int(n) => Any::Num(dec_str(n)),
        Any::I64(n) => Any::Num(dec_str(n as int)),
        Any::U64(n) => Any::Num(dec_str(n as int)),
        Any::M(m) => Any::M(Map::new(m.dom(), |k: Str| if m.dom().contains(k) { any_tree(m[k]) } else { Any::Nil })),
        Any::S(s) => Any::S(Seq::new(s.len(), |i: int| if 0 <= i < s.len() { any_tree(s[i]) } else { Any::Nil })),
        _ => a,
    }
}
pub broadcast axiom fn ax_json_marshal(a: Any)
    requires json_ok(a),
    ensures #[trigger] json_text_err(a) is Nil, jn(json_text(a)) == Some(any_tree(a)),
;
pub broadcast axiom fn ax_json_tree(s: Str)
    ensures #[trigger] jn(s) is Some ==> num_tree(jn(s)->Some_0),
;
pub broadcast axiom fn ax_json_number(x: F64)
    requires f64_finite(x),
    ensures parse_f64_err(#[trigger] f64_json(x)) is Nil, parse_f64_val(f64_json(x)) == x,
;
// a 64-bit integer is a JSON number in the range of float64
pub broadcast axiom fn ax_json_int(n: int)
    ensures i64::MIN <= n <= i64::MAX ==> parse_f64_err(#[trigger] dec_str(n)) is Nil && f64_finite(parse_f64_val(dec_str(n))),
;
#[verifier::external_body]
pub fn json_unmarshal_any(Ghost(b): Ghost<Str>, Ghost(old): Ghost<Any>) -> (r: Ghost<(Err, Any)>)
    ensures match json_value(b) { Some(a) => r@.0 is Nil && r@.1 == a, None => r@.0 is E },
{ unimplemented!() }
// Decoder.Decode reads the first value of its input, and leaves the rest
pub uninterp spec fn json_first(s: Str) -> Option<Any>;
#[verifier::external_body]
pub fn json_decode_any(Ghost(d): Ghost<JDec>, Ghost(old): Ghost<Any>) -> (r: Ghost<(Err, Any)>)
    ensures
        !d.used && d.numbers ==> match json_first(d.input) { Some(a) => r@.0 is Nil && r@.1 == a, None => r@.0 is E },
        !d.used && jn(d.input) is Some ==> json_first(d.input) == jn(d.input),
{ unimplemented!() }

pub proof fn lemma_floats_strip(v: Val)
    requires doc_ok(v),
    ensures json_ok(strip(v)), nums_ok(any_tree(strip(v))), floats(any_tree(strip(v))) == strip(v),
    decreases v,
{
    broadcast use ax_json_number;
    match v {
        Val::Obj(m) => {
            let s = strip(v)->M_0;
            assert forall|k: Str| #[trigger] m.dom().contains(k) implies json_ok(s[k]) && nums_ok(any_tree(s[k])) && floats(any_tree(s[k])) == s[k] by { lemma_floats_strip(m[k]); }
            assert(floats(any_tree(strip(v)))->M_0 =~= s);
        },
        Val::Arr(a) => {
            let s = strip(v)->S_0;
            assert forall|i: int| 0 <= i < a.len() implies json_ok(#[trigger] s[i]) && nums_ok(any_tree(s[i])) && floats(any_tree(s[i])) == s[i] by { lemma_floats_strip(a[i]); }
            assert(floats(any_tree(strip(v)))->S_0 =~= s);
        },
        _ => {},
    }
}
pub proof fn lemma_value_plain(a: Any)
    requires num_tree(a),
    ensures plain_json(floats(a)),
    decreases a,
{
    match a {
        Any::M(m) => {
            assert forall|k: Str| #[trigger] floats(a)->M_0.dom().contains(k) implies plain_json(floats(a)->M_0[k]) by { assert(m.dom().contains(k)); lemma_value_plain(m[k]); }
        },
        Any::S(s) => {
            assert forall|i: int| 0 <= i < s.len() implies plain_json(#[trigger] floats(a)->S_0[i]) by { assert(num_tree(s[i])); lemma_value_plain(s[i]); }
        },
        _ => {},
    }
}
