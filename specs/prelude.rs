// Vocabulary of the translation: ghost types for Go values, and the assumed
// contracts of the Go standard library.  Everything marked external_body or
// uninterp here is an assumption; the evidence lists each one that a run uses.

pub type Str = Seq<u8>;

// ---- numbers of type float64: opaque
#[verifier::external_body]
pub struct F64 { x: f64 }
pub uninterp spec fn f64_zero() -> F64;
pub uninterp spec fn f64_of_int(i: int) -> F64;
pub uninterp spec fn f64_of_bits(i: u64) -> F64;
pub uninterp spec fn f64_to_i64(x: F64) -> i64;
pub uninterp spec fn f64_eq(a: F64, b: F64) -> bool;      // Go's ==
pub uninterp spec fn f64_lt(a: F64, b: F64) -> bool;
pub uninterp spec fn f64_add(a: F64, b: F64) -> F64;
pub uninterp spec fn f64_sub(a: F64, b: F64) -> F64;
pub uninterp spec fn f64_mul(a: F64, b: F64) -> F64;
pub uninterp spec fn f64_div(a: F64, b: F64) -> F64;
pub uninterp spec fn f64_neg(a: F64) -> F64;
pub uninterp spec fn f64_nan(a: F64) -> bool;
pub uninterp spec fn f64_finite(a: F64) -> bool;
pub uninterp spec fn f64_fmt(a: F64) -> Str;              // fmt %v
pub uninterp spec fn parse_f64_val(s: Str) -> F64;        // strconv.ParseFloat(s, 64)
pub uninterp spec fn parse_f64_err(s: Str) -> Err;
pub uninterp spec fn any_fmt_other(a: Any) -> Str;
pub open spec fn any_fmt(a: Any) -> Str {                 // fmt %v
    match a {
        Any::Str(s) => s,
        Any::Int(i) => dec_str(i),
        Any::I64(i) => dec_str(i as int),
        Any::U64(i) => dec_str(i as int),
        Any::Uint(i) => dec_str(i as int),
        Any::F(x) => f64_fmt(x),
        Any::B(b) => bool_str(b),
        _ => any_fmt_other(a),
    }
}
pub open spec fn any_fmt_s(a: Any) -> Str { match a { Any::Str(s) => s, Any::Kind(s) => s, _ => any_fmt_other(a) } }   // fmt %s
pub open spec fn any_fmt_d(a: Any) -> Str {                 // fmt %d
    match a { Any::Int(_) | Any::I64(_) | Any::U64(_) | Any::Uint(_) => any_fmt(a), _ => any_fmt_other(a) }
}
pub uninterp spec fn any_type_fmt(a: Any) -> Str;
pub uninterp spec fn err_text(e: Err) -> Str;

pub broadcast axiom fn ax_f64_eq(a: F64, b: F64)
    ensures
        f64_finite(a) ==> !f64_nan(a),
        #[trigger] f64_eq(a, b) ==> f64_eq(b, a),
        a == b && !f64_nan(a) ==> f64_eq(a, b),
        f64_eq(a, b) ==> !f64_nan(a) && !f64_nan(b),
;
pub axiom fn ax_f64_eq_trans(a: F64, b: F64, c: F64)
    requires f64_eq(a, b), f64_eq(b, c),
    ensures f64_eq(a, c),
;

pub enum Err { Nil, E }

pub struct LeafS { pub Value: Str, pub Timestamp: i64 }
pub struct LeafF { pub Value: F64, pub Timestamp: i64 }
pub struct LeafB { pub Value: bool, pub Timestamp: i64 }

// tson.Value
pub enum Val {
    Nil,
    LS(LeafS),
    LF(LeafF),
    LB(LeafB),
    Obj(Map<Str, Val>),
    Arr(Seq<Val>),
}

// interface{}: the dynamic types the code distinguishes
pub enum Any {
    Nil,
    V(Val),                  // a non-nil tson.Value
    Str(Str),
    Kind(Str),               // tsonpatch.OpType
    F(F64),
    B(bool),
    Int(int),
    I64(i64),
    U64(u64),
    Uint(u64),
    Num(Str),                // json.Number
    M(Map<Str, Any>),        // map[string]any
    S(Seq<Any>),             // []any
    Bytes(Str),
    Op(Seq<Operation>),       // tsonpatch.Operation (always one element)
    Ops(Seq<Operation>),     // []tsonpatch.Operation
    Patch(Seq<Operation>),   // tsonpatch.Patch
    Patches(Seq<Seq<Operation>>),
    Other(int),
}

pub open spec fn any_of_val(v: Val) -> Any { if v is Nil { Any::Nil } else { Any::V(v) } }

// ---- collections
pub open spec fn mget<K, V>(m: Map<K, V>, k: K, z: V) -> V { if m.dom().contains(k) { m[k] } else { z } }
pub open spec fn seq_fill<T>(n: int, z: T) -> Seq<T> { Seq::new(n as nat, |i: int| z) }
pub open spec fn seq_min(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn seq_copy<T>(d: Seq<T>, s: Seq<T>) -> Seq<T> {
    if s.len() <= d.len() { s + d.skip(s.len() as int) } else { s.take(d.len() as int) }
}

#[verifier::external_body]
pub fn cond(Ghost(b): Ghost<bool>) -> (r: bool) ensures r == b { unimplemented!() }
#[verifier::external_body]
pub fn arbitrary() -> (r: bool) { unimplemented!() }
pub uninterp spec fn arbitrary_bool() -> bool;

// iteration order of a map: some permutation of its keys
#[verifier::external_body]
pub fn any_order<K, V>(Ghost(m): Ghost<Map<K, V>>) -> (r: Ghost<Seq<K>>)
    ensures
        r@.no_duplicates(),
        r@.len() == m.dom().len(),
        forall|k: K| #[trigger] r@.contains(k) <==> m.dom().contains(k),
        forall|i: int| 0 <= i < r@.len() ==> m.dom().contains(#[trigger] r@[i]),
{ unimplemented!() }

// ---- strings
pub open spec fn str_eq(a: Str, b: Str) -> bool { a =~= b }
pub open spec fn has_prefix(s: Str, p: Str) -> bool { p.len() <= s.len() && s.take(p.len() as int) =~= p }
pub open spec fn has_suffix(s: Str, p: Str) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) =~= p }
pub open spec fn replace_byte(s: Str, a: u8, b: u8) -> Str { s.map_values(|c: u8| if c == a { b } else { c }) }
pub open spec fn bool_str(b: bool) -> Str { if b { "true" } else { "false" } }
pub open spec fn str_lt(a: Str, b: Str) -> bool
    decreases a.len(),
{
    if b.len() == 0 { false } else if a.len() == 0 { true } else if a[0] != b[0] { a[0] < b[0] } else { str_lt(a.skip(1), b.skip(1)) }
}
pub broadcast proof fn lemma_str_lt_irr(a: Str)
    ensures !#[trigger] str_lt(a, a),
    decreases a.len(),
{
    if a.len() > 0 { lemma_str_lt_irr(a.skip(1)); }
}
pub broadcast proof fn lemma_str_lt_trans(a: Str, b: Str, c: Str)
    ensures
        #[trigger] str_lt(a, b) && #[trigger] str_lt(b, c) ==> str_lt(a, c),
        !str_lt(a, b) && !str_lt(b, c) ==> !str_lt(a, c),
    decreases a.len() + b.len() + c.len(),
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 { lemma_str_lt_trans(a.skip(1), b.skip(1), c.skip(1)); }
}
pub proof fn lemma_str_eq()
    ensures forall|a: Str, b: Str| #[trigger] str_eq(a, b) <==> a == b, forall|a: Str, b: Str| !#[trigger] str_lt(a, b) && !str_lt(b, a) ==> a == b,
{
    assert forall|a: Str, b: Str| !#[trigger] str_lt(a, b) && !str_lt(b, a) implies a == b by { lemma_str_total(a, b); }
}
pub proof fn lemma_str_total(a: Str, b: Str)
    requires !str_lt(a, b), !str_lt(b, a),
    ensures a == b,
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 {
        lemma_str_total(a.skip(1), b.skip(1));
        assert(a =~= seq![a[0]] + a.skip(1));
        assert(b =~= seq![b[0]] + b.skip(1));
    } else {
        assert(a =~= b);
    }
}
pub broadcast group group_str_lt { lemma_str_lt_irr, lemma_str_lt_trans }

pub open spec fn seq_index<T>(s: Seq<T>, x: T) -> int { if s.contains(x) { s.index_of_first(x)->Some_0 } else { -1 } }
pub open spec fn str_index(s: Str, b: u8) -> int { seq_index(s, b) }
pub open spec fn str_last_index(s: Str, b: u8) -> int { if s.contains(b) { s.index_of_last(b)->Some_0 } else { -1 } }
pub open spec fn str_contains(s: Str, p: Str) -> bool { exists|i: int| 0 <= i <= s.len() && has_prefix(#[trigger] s.skip(i), p) }
pub open spec fn seq_index_where<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> int
    decreases s.len(),
{
    if s.len() == 0 { -1 } else if p(s[0]) { 0 } else { let r = seq_index_where(s.skip(1), p); if r < 0 { -1 } else { r + 1 } }
}

// strings.Split(s, sep) for a one-byte separator
pub open spec fn split(s: Str, b: u8) -> Seq<Str>
    decreases s.len(),
{
    if !s.contains(b) { seq![s] } else {
        let i = s.index_of_first(b)->Some_0;
        if 0 <= i < s.len() { seq![s.take(i)] + split(s.skip(i + 1), b) } else { seq![s] }
    }
}
pub open spec fn join(xs: Seq<Str>, sep: Str) -> Str
    decreases xs.len(),
{
    if xs.len() == 0 { Seq::empty() } else if xs.len() == 1 { xs[0] } else { xs[0] + sep + join(xs.skip(1), sep) }
}
// strings.Replacer: at each position the first pattern of the table that matches
pub open spec fn repl_match(t: Seq<(Str, Str)>, s: Str) -> int
    decreases t.len(),
{
    if t.len() == 0 { -1 } else if has_prefix(s, t[0].0) { 0 } else { let r = repl_match(t.skip(1), s); if r < 0 { -1 } else { r + 1 } }
}
pub open spec fn replacer(t: Seq<(Str, Str)>, s: Str) -> Str
    decreases s.len(),
{
    if s.len() == 0 { s } else {
        let k = repl_match(t, s);
        if 0 <= k < t.len() && 0 < t[k].0.len() <= s.len() {
            t[k].1 + replacer(t, s.skip(t[k].0.len() as int))
        } else {
            seq![s[0]] + replacer(t, s.skip(1))
        }
    }
}

// ---- decimal numbers
pub open spec fn is_digit(b: u8) -> bool { 48 <= b <= 57 }
pub open spec fn all_digits(s: Str) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
pub open spec fn dec_val(s: Str) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { dec_val(s.drop_last()) * 10 + (s.last() - 48) }
}
pub open spec fn dec_nat(n: nat) -> Str
    decreases n,
{
    if n < 10 { seq![(48 + n) as u8] } else { dec_nat(n / 10).push((48 + n % 10) as u8) }
}
pub open spec fn dec_str(n: int) -> Str { if n < 0 { seq![45u8] + dec_nat((-n) as nat) } else { dec_nat(n as nat) } }
pub proof fn lemma_dec_nat(n: nat)
    ensures dec_nat(n).len() > 0, all_digits(dec_nat(n)), dec_val(dec_nat(n)) == n,
    decreases n,
{
    if n < 10 {
        assert(dec_nat(n).drop_last() =~= Seq::<u8>::empty());
        reveal_with_fuel(dec_val, 2);
    } else {
        lemma_dec_nat(n / 10);
        assert(dec_nat(n).drop_last() =~= dec_nat(n / 10));
    }
}
// strconv.Atoi / ParseInt(s, 10, 64): optional sign, digits, in range of 64 bits
pub open spec fn int_syntax(s: Str) -> bool {
    if s.len() > 0 && (s[0] == 43 || s[0] == 45) { s.len() > 1 && all_digits(s.skip(1)) } else { s.len() > 0 && all_digits(s) }
}
pub open spec fn int_val(s: Str) -> int {
    if s.len() > 0 && s[0] == 45 { -dec_val(s.skip(1)) } else if s.len() > 0 && s[0] == 43 { dec_val(s.skip(1)) } else { dec_val(s) }
}
pub open spec fn int_ok(s: Str) -> bool { int_syntax(s) && i64::MIN <= int_val(s) <= i64::MAX }
pub open spec fn atoi_err(s: Str) -> Err { if int_ok(s) { Err::Nil } else { Err::E } }
pub uninterp spec fn atoi_bad(s: Str) -> int;
pub open spec fn atoi_val(s: Str) -> int { if int_ok(s) { int_val(s) } else { atoi_bad(s) } }
pub open spec fn parse_int_err(s: Str) -> Err { atoi_err(s) }
pub open spec fn parse_int_val(s: Str) -> i64 { if int_ok(s) { int_val(s) as i64 } else { atoi_bad(s) as i64 } }

// ---- sorting
#[verifier::opaque]
pub open spec fn strict_weak<T>(less: spec_fn(T, T) -> bool) -> bool {
    &&& forall|a: T| !#[trigger] less(a, a)
    &&& forall|a: T, b: T, c: T| #[trigger] less(a, b) && #[trigger] less(b, c) ==> less(a, c)
    &&& forall|a: T, b: T, c: T| !#[trigger] less(a, b) && !#[trigger] less(b, c) ==> !less(a, c)
}
pub open spec fn sorted_by<T>(s: Seq<T>, less: spec_fn(T, T) -> bool) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> !less(#[trigger] s[j], #[trigger] s[i])
}
// insertion sort from the right: stable
pub open spec fn sinsert<T>(x: T, s: Seq<T>, less: spec_fn(T, T) -> bool) -> Seq<T>
    decreases s.len(),
{
    if s.len() == 0 { seq![x] } else if !less(s[0], x) { seq![x] + s } else { seq![s[0]] + sinsert(x, s.skip(1), less) }
}
pub open spec fn ssort<T>(s: Seq<T>, less: spec_fn(T, T) -> bool) -> Seq<T>
    decreases s.len(),
{
    if s.len() == 0 { s } else { sinsert(s[0], ssort(s.skip(1), less), less) }
}
#[verifier::external_body]
pub fn sort_any<T>(Ghost(s): Ghost<Seq<T>>, Ghost(less): Ghost<spec_fn(T, T) -> bool>) -> (r: Ghost<(Seq<T>,)>)
    requires strict_weak(less),
    ensures r@.0.to_multiset() == s.to_multiset(), r@.0.len() == s.len(), sorted_by(r@.0, less),
        forall|x: T| #[trigger] r@.0.contains(x) <==> s.contains(x),
        s.no_duplicates() ==> r@.0.no_duplicates(),
{ unimplemented!() }
#[verifier::external_body]
pub fn sort_stable_lib<T>(Ghost(s): Ghost<Seq<T>>, Ghost(less): Ghost<spec_fn(T, T) -> bool>) -> (r: Ghost<(Seq<T>,)>)
    requires strict_weak(less),
    ensures r@.0 == ssort(s, less),
{ unimplemented!() }
// the same, for every way to write the comparison
pub fn sort_stable<T>(Ghost(s): Ghost<Seq<T>>, Ghost(less): Ghost<spec_fn(T, T) -> bool>) -> (r: Ghost<(Seq<T>,)>)
    requires strict_weak(less),
    ensures
        r@.0 == ssort(s, less),
        forall|l: spec_fn(T, T) -> bool| (forall|a: T, b: T| #[trigger] l(a, b) == less(a, b)) ==> r@.0 == #[trigger] ssort(s, l),
{
    let r = sort_stable_lib(Ghost(s), Ghost(less));
    proof {
        assert forall|l: spec_fn(T, T) -> bool| (forall|a: T, b: T| #[trigger] l(a, b) == less(a, b)) implies r@.0 == #[trigger] ssort(s, l) by {
            lemma_ssort_same(s, less, l);
        }
    }
    r
}
pub proof fn lemma_sinsert_same<T>(x: T, s: Seq<T>, less: spec_fn(T, T) -> bool, l: spec_fn(T, T) -> bool)
    requires forall|a: T, b: T| #[trigger] l(a, b) == less(a, b),
    ensures sinsert(x, s, less) == sinsert(x, s, l),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(l(s[0], x) == less(s[0], x));
        lemma_sinsert_same(x, s.skip(1), less, l);
    }
}
pub proof fn lemma_ssort_same<T>(s: Seq<T>, less: spec_fn(T, T) -> bool, l: spec_fn(T, T) -> bool)
    requires forall|a: T, b: T| #[trigger] l(a, b) == less(a, b),
    ensures ssort(s, less) == ssort(s, l),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_ssort_same(s.skip(1), less, l);
        lemma_sinsert_same(s[0], ssort(s.skip(1), less), less, l);
    }
}
pub proof fn lemma_prefix1(s: Str, p: Str)
    requires p.len() == 1,
    ensures has_prefix(s, p) <==> s.len() > 0 && s[0] == p[0], has_suffix(s, p) <==> s.len() > 0 && s.last() == p[0],
{
    if has_prefix(s, p) { assert(s.take(1)[0] == s[0]); }
    if has_suffix(s, p) { assert(s.skip(s.len() - 1)[0] == s.last()); }
}
#[verifier::external_body]
pub fn sort_search(Ghost(n): Ghost<int>, Ghost(p): Ghost<spec_fn(int) -> bool>, Ghost(ok): Ghost<spec_fn(int) -> bool>) -> (r: Ghost<(int,)>)
    requires
        0 <= n,
        forall|i: int| 0 <= i < n ==> #[trigger] ok(i),
        forall|i: int, j: int| 0 <= i <= j < n && #[trigger] p(i) ==> #[trigger] p(j),
    ensures
        0 <= r@.0 <= n,
        forall|i: int| 0 <= i < r@.0 ==> !#[trigger] p(i),
        r@.0 < n ==> p(r@.0),
        r@.0 > 0 ==> !p(r@.0 - 1),
{ unimplemented!() }

// ---- reflect
pub open spec fn val_tag(v: Val) -> int {
    match v { Val::Nil => 0, Val::LS(_) => 1, Val::LF(_) => 2, Val::LB(_) => 3, Val::Obj(_) => 4, Val::Arr(_) => 5 }
}
pub uninterp spec fn any_tag(a: Any) -> int;
pub uninterp spec fn go_deep_equal(a: Any, b: Any) -> bool;   // reflect.DeepEqual on interface values

// ---- encoding/json (see also specs/json.rs)
pub uninterp spec fn json_text(a: Any) -> Str;
pub uninterp spec fn json_text_err(a: Any) -> Err;
pub uninterp spec fn patch_of_json(s: Str) -> Option<Seq<Operation>>;  // []Operation a JSON text decodes to
pub struct JDec { pub input: Str, pub numbers: bool, pub used: bool }
#[verifier::external_body]
pub fn json_unmarshal_patch(Ghost(b): Ghost<Str>, Ghost(old): Ghost<Seq<Operation>>) -> (r: Ghost<(Err, Seq<Operation>)>)
    ensures
        match patch_of_json(b) {
            Some(p) => r@.0 is Nil && (old.len() == 0 ==> r@.1 == p),
            None => r@.0 is E,
        },
{ unimplemented!() }

pub proof fn lemma_push_contains<T>(s: Seq<T>, x: T)
    ensures forall|k: T| #[trigger] s.push(x).contains(k) <==> s.contains(k) || k == x,
{
    assert forall|k: T| #[trigger] s.push(x).contains(k) <==> s.contains(k) || k == x by {
        if s.contains(k) { let i = choose|i: int| 0 <= i < s.len() && s[i] == k; assert(s.push(x)[i] == k); }
        if k == x { assert(s.push(x)[s.len() as int] == k); }
        if s.push(x).contains(k) { let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == k; if i < s.len() { assert(s[i] == k); } }
    }
}

#[verifier::external_body]
pub fn absurd<T>() -> T requires false { unimplemented!() }
// every number is finite
pub open spec fn finite_doc(v: Val) -> bool
    decreases v,
{
    match v {
        Val::LF(l) => f64_finite(l.Value),
        Val::Obj(m) => forall|k: Str| #[trigger] m.dom().contains(k) ==> finite_doc(m[k]),
        Val::Arr(a) => forall|i: int| 0 <= i < a.len() ==> finite_doc(#[trigger] a[i]),
        _ => true,
    }
}
// arrays a Go program can hold
pub open spec fn sized(v: Val) -> bool
    decreases v,
{
    match v {
        Val::Obj(m) => forall|k: Str| #[trigger] m.dom().contains(k) ==> sized(m[k]),
        Val::Arr(a) => a.len() <= i64::MAX && forall|i: int| 0 <= i < a.len() ==> sized(#[trigger] a[i]),
        _ => true,
    }
}
pub open spec fn gen_doc(v: Val) -> bool { finite_doc(v) && sized(v) }
pub open spec fn is_leaf(v: Val) -> bool { v is LS || v is LF || v is LB }
