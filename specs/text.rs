// The TSON text grammar as a function from texts to documents, and its inverse.

// ---- tokens; every function takes the text still to be read
pub open spec fn is_ws(b: u8) -> bool { b == 32 || b == 9 || b == 10 || b == 13 }
#[verifier::opaque]
pub open spec fn trim(s: Str) -> Str
    decreases s.len(),
{
    if s.len() > 0 && is_ws(s[0]) { trim(s.skip(1)) } else { s }
}
pub open spec fn at(s: Str, b: u8) -> bool { s.len() > 0 && s[0] == b }

// white space
pub open spec fn escaped(b: u8) -> Option<u8> {
    if b == 34 || b == 92 || b == 47 || b == 39 { Some(b) }    // " \ / '
    else if b == 98 { Some(8u8) }                              // b
    else if b == 102 { Some(12u8) }                            // f
    else if b == 110 { Some(10u8) }                            // n
    else if b == 114 { Some(13u8) }                            // r
    else if b == 116 { Some(9u8) }                             // t
    else { None }
}
// the rest of a string after its opening quote: its content and the text after it
#[verifier::opaque]
pub open spec fn sbody(s: Str) -> Option<(Str, Str)>
    decreases s.len(),
{
    if s.len() == 0 { None }
    else if s[0] == 34 { Some((Seq::empty(), s.skip(1))) }
    else if s[0] == 92 {
        if s.len() < 2 { None } else {
            match escaped(s[1]) { Some(c) => scons(c, sbody(s.skip(2))), None => None }
        }
    } else { scons(s[0], sbody(s.skip(1))) }
}
pub open spec fn scons(c: u8, r: Option<(Str, Str)>) -> Option<(Str, Str)> {
    match r { Some((t, x)) => Some((seq![c] + t, x)), None => None }
}
pub open spec fn sprep(c: Str, r: Option<(Str, Str)>) -> Option<(Str, Str)> {
    match r { Some((t, x)) => Some((c + t, x)), None => None }
}
// digits: how many stand at the front
#[verifier::opaque]
pub open spec fn ndig(s: Str) -> int
    decreases s.len(),
{
    if s.len() > 0 && is_digit(s[0]) { 1 + ndig(s.skip(1)) } else { 0 }
}
// number: -? digits* (. digits*)? ([eE] [+-]? digits*)?, its length
#[verifier::opaque]
pub open spec fn nfrac(s: Str) -> int { if at(s, 46) { 1 + ndig(s.skip(1)) } else { 0 } }
#[verifier::opaque]
pub open spec fn nexp(s: Str) -> int {
    if at(s, 101) || at(s, 69) {
        let r = s.skip(1);
        if at(r, 43) || at(r, 45) { 2 + ndig(r.skip(1)) } else { 1 + ndig(r) }
    } else { 0 }
}
#[verifier::opaque]
pub open spec fn nsign(s: Str) -> int { if at(s, 45) { 1 } else { 0 } }
#[verifier::opaque]
pub open spec fn nlen(s: Str) -> int {
    let a = nsign(s);
    let b = a + ndig(s.skip(a));
    let c = b + nfrac(s.skip(b));
    c + nexp(s.skip(c))
}
pub open spec fn num(s: Str) -> Option<(F64, Str)> {
    let n = nlen(s);
    if parse_f64_err(s.take(n)) is Nil { Some((parse_f64_val(s.take(n)), s.skip(n))) } else { None }
}
// <digits> or <>
pub open spec fn stamp(s: Str) -> Option<(i64, Str)> {
    if !at(s, 60) { None }
    else if at(s.skip(1), 62) { Some((-1i64, s.skip(2))) }
    else {
        let r = s.skip(1);
        let n = ndig(r);
        if n == 0 || !int_ok(r.take(n)) { None } else {
            let q = trim(r.skip(n));
            if at(q, 62) { Some((int_val(r.take(n)) as i64, q.skip(1))) } else { None }
        }
    }
}
pub open spec fn opt_stamp(s: Str) -> Option<(i64, Str)> { if at(s, 60) { stamp(s) } else { Some((-1i64, s)) } }

pub open spec fn leaf(a: Any, ts: i64) -> Val {
    match a {
        Any::Str(s) => Val::LS(LeafS { Value: s, Timestamp: ts }),
        Any::F(x) => Val::LF(LeafF { Value: x, Timestamp: ts }),
        Any::B(b) => Val::LB(LeafB { Value: b, Timestamp: ts }),
        _ => Val::Nil,
    }
}
// a timestamp of at least 0 written before a leaf wins over one written after it
pub open spec fn stamped(v: Val, ts: i64) -> Val {
    if ts < 0 { v } else {
        match v {
            Val::LS(l) => Val::LS(LeafS { Value: l.Value, Timestamp: ts }),
            Val::LF(l) => Val::LF(LeafF { Value: l.Value, Timestamp: ts }),
            Val::LB(l) => Val::LB(LeafB { Value: l.Value, Timestamp: ts }),
            _ => v,
        }
    }
}
// string or number
pub open spec fn is_prim(s: Str) -> bool { s.len() > 0 && (s[0] == 34 || s[0] == 45 || is_digit(s[0])) }
pub open spec fn prim(s: Str) -> Option<(Any, Str)> {
    if at(s, 34) { match sbody(s.skip(1)) { Some((t, r)) => Some((Any::Str(t), r)), None => None } }
    else if is_prim(s) { match num(s) { Some((x, r)) => Some((Any::F(x), r)), None => None } }
    else { None }
}
// the timestamp that may follow a leaf
pub open spec fn postfix(a: Any, s: Str) -> Option<(Val, Str)> {
    match opt_stamp(trim(s)) { Some((ts, r)) => Some((leaf(a, ts), trim(r))), None => None }
}
// value, members of an object, elements of an array: s has no white space in
// front, nor has the text left over
#[verifier::opaque]
pub open spec fn value(s: Str) -> Option<(Val, Str)>
    decreases s.len(), 1int,
{
    if at(s, 60) {
        match stamp(s) {
            Some((ts, r)) => match prim(trim(r)) { Some((a, r)) => Some((leaf(a, ts), trim(r))), None => None },
            None => None,
        }
    } else if at(s, 123) {
        let r = trim(s.skip(1));
        if r.len() >= s.len() { None }
        else if at(r, 125) { Some((Val::Obj(Map::empty()), trim(r.skip(1)))) }
        else { match members(r, Map::empty()) { Some((m, r)) => Some((Val::Obj(m), r)), None => None } }
    } else if at(s, 91) {
        let r = trim(s.skip(1));
        if r.len() >= s.len() { None }
        else if at(r, 93) { Some((Val::Arr(Seq::empty()), trim(r.skip(1)))) }
        else { match elements(r, Seq::empty()) { Some((a, r)) => Some((Val::Arr(a), r)), None => None } }
    } else if is_prim(s) {
        match prim(s) { Some((a, r)) => postfix(a, r), None => None }
    } else if has_prefix(s, "true") { postfix(Any::B(true), s.skip(4)) }
    else if has_prefix(s, "false") { postfix(Any::B(false), s.skip(5)) }
    else if has_prefix(s, "null") { Some((Val::Nil, trim(s.skip(4)))) }
    else { None }
}
#[verifier::opaque]
pub open spec fn members(s: Str, m: Map<Str, Val>) -> Option<(Map<Str, Val>, Str)>
    decreases s.len(), 0int,
{
    match member(s) {
        Some((key, ts, q)) => if q.len() >= s.len() { None } else {
            match value(q) {
                Some((v, r)) => {
                    let n = m.insert(key, stamped(v, ts));
                    if at(r, 44) { let t = trim(r.skip(1)); if t.len() >= s.len() { None } else { members(t, n) } }
                    else if at(r, 125) { Some((n, trim(r.skip(1)))) }
                    else { None }
                },
                None => None,
            }
        },
        None => None,
    }
}
// "key" <ts>? : up to the value
pub open spec fn member(s: Str) -> Option<(Str, i64, Str)> {
    if !at(s, 34) { None } else {
        match sbody(s.skip(1)) {
            Some((key, r)) => match opt_stamp(trim(r)) {
                Some((ts, r)) => if at(trim(r), 58) { Some((key, ts, trim(trim(r).skip(1)))) } else { None },
                None => None,
            },
            None => None,
        }
    }
}
#[verifier::opaque]
pub open spec fn elements(s: Str, a: Seq<Val>) -> Option<(Seq<Val>, Str)>
    decreases s.len(), 2int,
{
    match opt_stamp(s) {
        Some((ts, q)) => if trim(q).len() > s.len() { None } else {
            match value(trim(q)) {
                Some((v, r)) => {
                    let b = a.push(stamped(v, ts));
                    if at(r, 44) { let t = trim(r.skip(1)); if t.len() >= s.len() { None } else { elements(t, b) } }
                    else if at(r, 93) { Some((b, trim(r.skip(1)))) }
                    else { None }
                },
                None => None,
            }
        },
        None => None,
    }
}
pub open spec fn parse_doc(s: Str) -> Option<Val> {
    match value(trim(s)) { Some((v, r)) => if r.len() == 0 { Some(v) } else { None }, None => None }
}

// a string token: white space, quote, body
pub open spec fn stoken(s: Str) -> Option<(Str, Str)> { if at(trim(s), 34) { sbody(trim(s).skip(1)) } else { None } }
pub open spec fn obj_of(r: Option<(Map<Str, Val>, Str)>) -> Option<(Val, Str)> {
    match r { Some((m, x)) => Some((Val::Obj(m), x)), None => None }
}
pub open spec fn arr_of(r: Option<(Seq<Val>, Str)>) -> Option<(Val, Str)> {
    match r { Some((a, x)) => Some((Val::Arr(a), x)), None => None }
}

pub broadcast proof fn lemma_skip_skip(s: Str, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len(),
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b),
{
    assert(s.skip(a).skip(b) =~= s.skip(a + b));
}
pub broadcast proof fn lemma_skip_zero(s: Str)
    ensures #[trigger] s.skip(0) == s,
{
    assert(s.skip(0) =~= s);
}
pub broadcast group group_skip { lemma_skip_skip, lemma_skip_zero }

// ---- sizes
// no white space in front
pub open spec fn trimmed(s: Str) -> bool { s.len() > 0 ==> !is_ws(s[0]) }
pub broadcast proof fn lemma_trim(s: Str)
    ensures (#[trigger] trim(s)).len() <= s.len(), trimmed(trim(s)), trimmed(s) ==> trim(s) == s,
    decreases s.len(),
{
    reveal(trim);
    if s.len() > 0 && is_ws(s[0]) { lemma_trim(s.skip(1)); }
}
pub broadcast proof fn lemma_ndig(s: Str)
    ensures 0 <= #[trigger] ndig(s) <= s.len(), all_digits(s.take(ndig(s))), ndig(s) < s.len() ==> !is_digit(s[ndig(s)]),
    decreases s.len(),
{
    reveal(ndig);
    if s.len() > 0 && is_digit(s[0]) {
        lemma_ndig(s.skip(1));
        assert forall|i: int| 0 <= i < ndig(s) implies is_digit(#[trigger] s.take(ndig(s))[i]) by {
            if i > 0 { assert(s.skip(1).take(ndig(s.skip(1)))[i - 1] == s[i]); }
        }
    }
}
pub broadcast proof fn lemma_sbody(s: Str)
    ensures #[trigger] sbody(s) is Some ==> sbody(s)->Some_0.1.len() < s.len(),
    decreases s.len(),
{
    reveal(sbody);
    if s.len() > 0 && s[0] != 34 {
        if s[0] == 92 { if s.len() >= 2 { lemma_sbody(s.skip(2)); } } else { lemma_sbody(s.skip(1)); }
    }
}
pub broadcast proof fn lemma_nlen(s: Str)
    ensures 0 <= #[trigger] nlen(s) <= s.len(), is_prim(s) && !at(s, 34) ==> nlen(s) > 0,
{
    reveal(ndig); reveal(nfrac); reveal(nexp); reveal(nsign); reveal(nlen);
    broadcast use lemma_ndig;
    let a = nsign(s);
    let b = a + ndig(s.skip(a));
    let c = b + nfrac(s.skip(b));
    if at(s, 45) { } else if is_prim(s) && !at(s, 34) { assert(s.skip(0) =~= s); assert(ndig(s) >= 1) by { lemma_ndig(s.skip(1)); } }
}
pub broadcast proof fn lemma_stamp(s: Str)
    ensures #[trigger] stamp(s) is Some ==> stamp(s)->Some_0.1.len() < s.len(),
{
    broadcast use {lemma_ndig, lemma_trim};
}
pub broadcast proof fn lemma_prim(s: Str)
    ensures #[trigger] prim(s) is Some ==> prim(s)->Some_0.1.len() < s.len(),
{
    broadcast use {lemma_sbody, lemma_nlen};
}
pub proof fn lemma_ndig_at(s: Str, x: int)
    requires 0 <= x <= s.len(),
    ensures
        x < s.len() && is_digit(s[x]) ==> ndig(s.skip(x)) == 1 + ndig(s.skip(x + 1)),
        x == s.len() || !is_digit(s[x]) ==> ndig(s.skip(x)) == 0,
{
    reveal(ndig);
    if x < s.len() { assert(s.skip(x).skip(1) =~= s.skip(x + 1)); }
}
// the parts of the number that stands at x: where its sign, integer, fraction and exponent end
pub struct NumParts { pub a: int, pub b: int, pub c: int, pub d: int }
pub open spec fn num_parts(s: Str, x: int) -> NumParts {
    let a = x + if x < s.len() && s[x] == 45 { 1int } else { 0 };
    let b = a + ndig(s.skip(a));
    let c = if b < s.len() && s[b] == 46 { b + 1 + ndig(s.skip(b + 1)) } else { b };
    let d = if c < s.len() && (s[c] == 101 || s[c] == 69) {
        let r = c + 1;
        if r < s.len() && (s[r] == 43 || s[r] == 45) { r + 1 + ndig(s.skip(r + 1)) } else { r + ndig(s.skip(r)) }
    } else { c };
    NumParts { a, b, c, d }
}
pub proof fn lemma_num_parts(s: Str, x: int)
    requires 0 <= x <= s.len(),
    ensures ({
        let n = num_parts(s, x);
        &&& x <= n.a <= n.b <= n.c <= n.d <= s.len()
        &&& nlen(s.skip(x)) == n.d - x
        &&& s.skip(x).take(n.d - x) == s.subrange(x, n.d)
        &&& s.skip(x).skip(n.d - x) == s.skip(n.d)
    }),
{
    reveal(nlen); reveal(nsign); reveal(nfrac); reveal(nexp);
    let t = s.skip(x);
    let n = num_parts(s, x);
    lemma_skip_skip(s, x, n.a - x);
    lemma_ndig(s.skip(n.a));
    lemma_skip_skip(s, x, n.b - x);
    if n.b < s.len() { lemma_skip_skip(s, n.b, 1); lemma_ndig(s.skip(n.b + 1)); }
    lemma_skip_skip(s, x, n.c - x);
    if n.c < s.len() {
        lemma_skip_skip(s, n.c, 1);
        lemma_ndig(s.skip(n.c + 1));
        if n.c + 1 < s.len() { lemma_skip_skip(s, n.c + 1, 1); lemma_ndig(s.skip(n.c + 2)); }
    }
    lemma_skip_skip(s, x, n.d - x);
    assert(t.take(n.d - x) =~= s.subrange(x, n.d));
}
#[verifier::opaque]
pub open spec fn shorter(r: Str, s: Str) -> bool { r.len() < s.len() && trimmed(r) }
pub proof fn lemma_value(s: Str)
    ensures value(s) is Some ==> shorter(value(s)->Some_0.1, s),
    decreases s.len(), 1int,
{
    reveal(value); reveal(members); reveal(elements);
    reveal(shorter);
    broadcast use {lemma_trim, lemma_stamp, lemma_prim};
    let r = trim(s.skip(1));
    if s.len() > 0 && r.len() < s.len() {
        if at(s, 123) { lemma_members(r, Map::empty()); }
        if at(s, 91) { lemma_elements(r, Seq::empty()); }
    }
}
pub proof fn lemma_members(s: Str, m: Map<Str, Val>)
    ensures members(s, m) is Some ==> shorter(members(s, m)->Some_0.1, s),
    decreases s.len(), 0int,
{
    reveal(value); reveal(members); reveal(elements);
    reveal(shorter);
    broadcast use lemma_trim;
    if let Some((key, ts, q)) = member(s) {
        if q.len() < s.len() {
            lemma_value(q);
            if let Some((v, r)) = value(q) {
                let t = trim(r.skip(1));
                if at(r, 44) && t.len() < s.len() { lemma_members(t, m.insert(key, stamped(v, ts))); }
            }
        }
    }
}
pub proof fn lemma_elements(s: Str, a: Seq<Val>)
    ensures elements(s, a) is Some ==> shorter(elements(s, a)->Some_0.1, s),
    decreases s.len(), 2int,
{
    reveal(value); reveal(members); reveal(elements);
    reveal(shorter);
    broadcast use lemma_trim;
    if let Some((ts, q)) = opt_stamp(s) {
        let q = trim(q);
        if q.len() <= s.len() {
            lemma_value(q);
            if let Some((v, r)) = value(q) {
                let t = trim(r.skip(1));
                if at(r, 44) && t.len() < s.len() { lemma_elements(t, a.push(stamped(v, ts))); }
            }
        }
    }
}
pub proof fn lemma_sprep_empty(r: Option<(Str, Str)>)
    ensures sprep(Seq::empty(), r) == r,
{
    if let Some((t, x)) = r { assert(Seq::<u8>::empty() + t =~= t); }
}
pub proof fn lemma_sprep_push(a: Str, c: u8, r: Option<(Str, Str)>)
    ensures sprep(a, scons(c, r)) == sprep(a.push(c), r),
{
    if let Some((t, x)) = r { assert(a + (seq![c] + t) =~= a.push(c) + t); }
}
// reading one more character of a string
pub proof fn lemma_sbody_step(s: Str, a: Str)
    ensures
        s.len() == 0 ==> sprep(a, sbody(s)) is None,
        s.len() > 0 && s[0] == 34 ==> sprep(a, sbody(s)) == Some((a, s.skip(1))),
        s.len() > 0 && s[0] != 34 && s[0] != 92 ==> sprep(a, sbody(s)) == sprep(a.push(s[0]), sbody(s.skip(1))),
        s.len() == 1 && s[0] == 92 ==> sprep(a, sbody(s)) is None,
        s.len() >= 2 && s[0] == 92 && escaped(s[1]) is Some ==> sprep(a, sbody(s)) == sprep(a.push(escaped(s[1])->Some_0), sbody(s.skip(2))),
        s.len() >= 2 && s[0] == 92 && escaped(s[1]) is None ==> sprep(a, sbody(s)) is None,
{
    reveal(sbody);
    if s.len() > 0 {
        if s[0] == 34 { assert(a + Seq::<u8>::empty() =~= a); }
        else if s[0] == 92 {
            if s.len() >= 2 && escaped(s[1]) is Some { lemma_sprep_push(a, escaped(s[1])->Some_0, sbody(s.skip(2))); }
        } else { lemma_sprep_push(a, s[0], sbody(s.skip(1))); }
    }
}
// ---- the grammar, one step at a time
pub proof fn lemma_trim_step(s: Str)
    ensures s.len() > 0 && is_ws(s[0]) ==> trim(s) == trim(s.skip(1)), s.len() == 0 || !is_ws(s[0]) ==> trim(s) == s,
{
    reveal(trim);
}
pub proof fn lemma_ndig_step(s: Str)
    ensures s.len() > 0 && is_digit(s[0]) ==> ndig(s) == 1 + ndig(s.skip(1)), s.len() == 0 || !is_digit(s[0]) ==> ndig(s) == 0,
{
    reveal(ndig);
}
pub proof fn lemma_value_object(s: Str)
    requires at(s, 123),
    ensures
        trim(s) == s,
        value(s) == if at(trim(s.skip(1)), 125) { Some((Val::Obj(Map::empty()), trim(trim(s.skip(1)).skip(1)))) } else { obj_of(members(trim(s.skip(1)), Map::empty())) },
{
    broadcast use lemma_trim;
    reveal(value); reveal(members); reveal(elements);
}
pub proof fn lemma_value_array(s: Str)
    requires at(s, 91),
    ensures
        trim(s) == s,
        value(s) == if at(trim(s.skip(1)), 93) { Some((Val::Arr(Seq::empty()), trim(trim(s.skip(1)).skip(1)))) } else { arr_of(elements(trim(s.skip(1)), Seq::empty())) },
{
    broadcast use lemma_trim;
    reveal(value); reveal(members); reveal(elements);
}
pub proof fn lemma_value_other(s: Str)
    requires !at(s, 123), !at(s, 91),
    ensures
        value(s) == if at(s, 60) {
            match stamp(s) {
                Some((ts, r)) => match prim(trim(r)) { Some((a, r)) => Some((leaf(a, ts), trim(r))), None => None },
                None => None,
            }
        } else if is_prim(s) {
            match prim(s) { Some((a, r)) => postfix(a, r), None => None }
        } else if has_prefix(s, "true") { postfix(Any::B(true), s.skip(4)) }
        else if has_prefix(s, "false") { postfix(Any::B(false), s.skip(5)) }
        else if has_prefix(s, "null") { Some((Val::Nil, trim(s.skip(4)))) }
        else { None },
{
    reveal(value); reveal(members); reveal(elements);
}
// what follows a member of an object, an element of an array
pub open spec fn after_member(r: Str, m: Map<Str, Val>) -> Option<(Map<Str, Val>, Str)> {
    if at(r, 44) { members(trim(r.skip(1)), m) } else if at(r, 125) { Some((m, trim(r.skip(1)))) } else { None }
}
pub open spec fn after_element(r: Str, a: Seq<Val>) -> Option<(Seq<Val>, Str)> {
    if at(r, 44) { elements(trim(r.skip(1)), a) } else if at(r, 93) { Some((a, trim(r.skip(1)))) } else { None }
}
pub proof fn lemma_member_size(s: Str)
    ensures member(s) is Some ==> member(s)->Some_0.2.len() < s.len() && trimmed(member(s)->Some_0.2),
{
    broadcast use {lemma_trim, lemma_stamp, lemma_sbody};
}
pub proof fn lemma_members_step(s: Str, m: Map<Str, Val>)
    ensures
        members(s, m) == match member(s) {
            Some((key, ts, q)) => match value(q) { Some((v, r)) => after_member(r, m.insert(key, stamped(v, ts))), None => None },
            None => None,
        },
{
    reveal(value); reveal(members); reveal(elements); reveal(shorter);
    if let Some((key, ts, q)) = member(s) {
        lemma_member_size(s);
        lemma_value(q);
        if let Some((v, r)) = value(q) { if at(r, 44) { lemma_trim(r.skip(1)); } }
    }
}
pub proof fn lemma_elements_step(s: Str, a: Seq<Val>)
    ensures
        elements(s, a) == match opt_stamp(s) {
            Some((ts, q)) => match value(trim(q)) { Some((v, r)) => after_element(r, a.push(stamped(v, ts))), None => None },
            None => None,
        },
{
    reveal(value); reveal(members); reveal(elements); reveal(shorter);
    if let Some((ts, q)) = opt_stamp(s) {
        lemma_stamp(s);
        lemma_trim(q);
        lemma_value(trim(q));
        if let Some((v, r)) = value(trim(q)) { if at(r, 44) { lemma_trim(r.skip(1)); } }
    }
}
pub broadcast group group_text { lemma_trim, lemma_ndig, lemma_sbody, lemma_nlen, lemma_stamp, lemma_prim }

// ---- writing
pub open spec fn norm_ts(ts: i64) -> i64 { if ts < 0 { -1i64 } else { ts } }
// a document as it reads back: every negative timestamp is -1
pub open spec fn norm(v: Val) -> Val
    decreases v,
{
    match v {
        Val::Nil => Val::Nil,
        Val::LS(l) => Val::LS(LeafS { Value: l.Value, Timestamp: norm_ts(l.Timestamp) }),
        Val::LF(l) => Val::LF(LeafF { Value: l.Value, Timestamp: norm_ts(l.Timestamp) }),
        Val::LB(l) => Val::LB(LeafB { Value: l.Value, Timestamp: norm_ts(l.Timestamp) }),
        Val::Obj(m) => Val::Obj(Map::new(m.dom(), |k: Str| if m.dom().contains(k) { norm(m[k]) } else { Val::Nil })),
        Val::Arr(a) => Val::Arr(Seq::new(a.len(), |i: int| if 0 <= i < a.len() { norm(a[i]) } else { Val::Nil })),
    }
}
pub open spec fn leaf_ts(v: Val) -> i64 { match v { Val::LS(l) => l.Timestamp, Val::LF(l) => l.Timestamp, Val::LB(l) => l.Timestamp, _ => -1i64 } }
pub open spec fn leaf_any(v: Val) -> Any { match v { Val::LS(l) => Any::Str(l.Value), Val::LF(l) => Any::F(l.Value), Val::LB(l) => Any::B(l.Value), _ => Any::Nil } }
pub open spec fn bare(v: Val) -> Val { if is_leaf(v) { leaf(leaf_any(v), -1i64) } else { norm(v) } }
// texts after which a document, a member or an element may end
pub open spec fn ends(r: Str) -> bool { trim(r).len() == 0 || at(trim(r), 44) || at(trim(r), 125) || at(trim(r), 93) }
pub open spec fn element(s: Str) -> Option<(Val, Str)> {
    match opt_stamp(s) {
        Some((ts, q)) => match value(trim(q)) { Some((v, r)) => Some((stamped(v, ts), r)), None => None },
        None => None,
    }
}
// a text that reads as v when it stands on its own (0), as the value of a member
// (1; the timestamp of a leaf stands with the key) or as an element (2), whatever follows
#[verifier::opaque]
pub open spec fn reads(s: Str, v: Val, ctx: int) -> bool {
    forall|r: Str| #[trigger] ends(r) ==> {
        if ctx == 2 { element(trim(s + r)) == Some((norm(v), trim(r))) }
        else { value(trim(s + r)) == Some((if ctx == 1 { bare(v) } else { norm(v) }, trim(r))) }
    }
}
// w is the text of the members d of an object, without the braces
#[verifier::opaque]
pub open spec fn wrote_members(w: Str, d: Map<Str, Val>) -> bool {
    forall|r: Str, m: Map<Str, Val>| #[trigger] ends(r) ==> #[trigger] members(trim(w + r), m) == after_member(trim(r), m.union_prefer_right(d))
}
#[verifier::opaque]
pub open spec fn wrote_elements(w: Str, d: Seq<Val>) -> bool {
    forall|r: Str, a: Seq<Val>| #[trigger] ends(r) ==> #[trigger] elements(trim(w + r), a) == after_element(trim(r), a + d)
}

// string literals
pub open spec fn esc1(b: u8) -> Str {
    if b == 34 || b == 92 { seq![92u8, b] }
    else if b == 8 { seq![92u8, 98u8] }
    else if b == 12 { seq![92u8, 102u8] }
    else if b == 10 { seq![92u8, 110u8] }
    else if b == 13 { seq![92u8, 114u8] }
    else if b == 9 { seq![92u8, 116u8] }
    else { seq![b] }
}
pub open spec fn esc_all(s: Str) -> Str
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { esc_all(s.drop_last()) + esc1(s.last()) }
}
pub open spec fn quoted(s: Str) -> Str { seq![34u8] + esc_all(s) + seq![34u8] }
pub proof fn lemma_sprep_sprep(a: Str, b: Str, r: Option<(Str, Str)>)
    ensures sprep(a, sprep(b, r)) == sprep(a + b, r),
{
    if let Some((t, x)) = r { assert(a + (b + t) =~= (a + b) + t); }
}
pub proof fn lemma_esc(s: Str, r: Str)
    ensures sbody(esc_all(s) + r) == sprep(s, sbody(r)),
    decreases s.len(),
{
    if s.len() == 0 {
        lemma_sprep_empty(sbody(r));
        assert(esc_all(s) + r =~= r);
        assert(s =~= Seq::<u8>::empty());
    } else {
        let b = s.last();
        let x = esc1(b) + r;
        lemma_esc(s.drop_last(), x);
        assert(esc_all(s) + r =~= esc_all(s.drop_last()) + x);
        reveal(sbody);
        assert(x.len() >= 1);
        if x[0] == 92 {
            assert(x.skip(2) =~= r);
            assert(sbody(x) == scons(b, sbody(r)));
        } else {
            assert(x.skip(1) =~= r);
            assert(sbody(x) == scons(b, sbody(r)));
        }
        lemma_sprep_push(s.drop_last(), b, sbody(r));
        assert(s.drop_last().push(b) =~= s);
    }
}
pub proof fn lemma_quoted(s: Str, r: Str)
    ensures quoted(s).len() >= 2, quoted(s)[0] == 34, sbody((quoted(s) + r).skip(1)) == Some((s, r)),
{
    let x = seq![34u8] + r;
    assert((quoted(s) + r).skip(1) =~= esc_all(s) + x);
    lemma_esc(s, x);
    reveal(sbody);
    assert(x.skip(1) =~= r);
    assert(s + Seq::<u8>::empty() =~= s);
}

// numbers: strconv writes a finite number as a text of the number grammar that
// reads back as the same number
pub axiom fn ax_f64_text(x: F64)
    requires f64_finite(x),
    ensures
        f64_fmt(x).len() > 0,
        f64_fmt(x)[0] == 45 || is_digit(f64_fmt(x)[0]),
        nlen(f64_fmt(x)) == f64_fmt(x).len(),
        parse_f64_err(f64_fmt(x)) is Nil,
        parse_f64_val(f64_fmt(x)) == x,
;
// a text that cannot go on a number
pub open spec fn stops(r: Str) -> bool { r.len() == 0 || is_ws(r[0]) || r[0] == 44 || r[0] == 125 || r[0] == 93 }
pub proof fn lemma_ends_stops(r: Str)
    ensures ends(r) ==> stops(r),
{
    lemma_trim_step(r);
}
pub proof fn lemma_ndig_stop(x: Str, r: Str)
    requires stops(r),
    ensures ndig(x + r) == ndig(x),
    decreases x.len(),
{
    reveal(ndig);
    if x.len() > 0 && is_digit(x[0]) {
        lemma_ndig_stop(x.skip(1), r);
        assert((x + r).skip(1) =~= x.skip(1) + r);
    } else if x.len() == 0 { assert(x + r =~= r); }
}
pub proof fn lemma_skip_app(x: Str, r: Str, n: int)
    requires 0 <= n <= x.len(),
    ensures (x + r).skip(n) == x.skip(n) + r,
{
    assert((x + r).skip(n) =~= x.skip(n) + r);
}
pub proof fn lemma_nfrac_stop(x: Str, r: Str)
    requires stops(r),
    ensures nfrac(x + r) == nfrac(x),
{
    reveal(nfrac);
    if x.len() > 0 { lemma_skip_app(x, r, 1); lemma_ndig_stop(x.skip(1), r); } else { assert(x + r =~= r); }
}
pub proof fn lemma_nexp_stop(x: Str, r: Str)
    requires stops(r),
    ensures nexp(x + r) == nexp(x),
{
    reveal(nexp);
    if x.len() > 0 {
        lemma_skip_app(x, r, 1);
        let y = x.skip(1);
        lemma_ndig_stop(y, r);
        if y.len() > 0 { lemma_skip_app(y, r, 1); lemma_ndig_stop(y.skip(1), r); } else { assert(y + r =~= r); }
    } else { assert(x + r =~= r); }
}
pub proof fn lemma_nlen_stop(x: Str, r: Str)
    requires stops(r), nlen(x) == x.len(), x.len() > 0,
    ensures nlen(x + r) == x.len(),
{
    reveal(nlen); reveal(nsign);
    let a = nsign(x);
    lemma_ndig(x.skip(a));
    let b = a + ndig(x.skip(a));
    lemma_skip_app(x, r, a);
    lemma_ndig_stop(x.skip(a), r);
    lemma_skip_app(x, r, b);
    lemma_nfrac_stop(x.skip(b), r);
    let c = b + nfrac(x.skip(b));
    assert(0 <= c <= x.len()) by { reveal(nfrac); if x.skip(b).len() > 0 { lemma_ndig(x.skip(b).skip(1)); } }
    lemma_skip_app(x, r, c);
    lemma_nexp_stop(x.skip(c), r);
}

// the text of a scalar
pub open spec fn prim_text(a: Any) -> Str {
    match a { Any::Str(s) => quoted(s), Any::F(x) => f64_fmt(x), Any::B(b) => bool_str(b), _ => Seq::empty() }
}
pub open spec fn prim_ok(a: Any) -> bool { match a { Any::Str(_) | Any::B(_) => true, Any::F(x) => f64_finite(x), _ => false } }
pub proof fn lemma_prim_text(a: Any, r: Str)
    requires prim_ok(a), stops(r),
    ensures
        prim_text(a).len() > 0, !is_ws(prim_text(a)[0]), prim_text(a)[0] != 60,
        trim(prim_text(a) + r) == prim_text(a) + r,
        value(prim_text(a) + r) == postfix(a, r),
{
    let t = prim_text(a);
    let x = t + r;
    broadcast use lemma_trim;
    match a {
        Any::Str(s) => { lemma_quoted(s, r); assert(x[0] == t[0]); lemma_value_other(x); },
        Any::F(f) => {
            ax_f64_text(f);
            lemma_nlen_stop(t, r);
            assert(x[0] == t[0]);
            assert(x.take(t.len() as int) =~= t);
            assert(x.skip(t.len() as int) =~= r);
            lemma_value_other(x);
        },
        Any::B(b) => {
            assert(x[0] == t[0]);
            assert(x.take(t.len() as int) =~= t);
            assert(x.skip(t.len() as int) =~= r);
            lemma_value_other(x);
            if !b { assert(x.take(4)[0] == 102u8); assert(!(has_prefix(x, "true"))); }
        },
        _ => {},
    }
}
// <ts> or <>
pub open spec fn stamp_text(ts: i64) -> Str { if ts >= 0 { "<" + dec_str(ts as int) + ">" } else { "<>" } }
pub proof fn lemma_ndig_all(x: Str, r: Str)
    requires all_digits(x), r.len() > 0, !is_digit(r[0]),
    ensures ndig(x + r) == x.len(),
    decreases x.len(),
{
    reveal(ndig);
    if x.len() > 0 { assert(is_digit(x[0])); lemma_ndig_all(x.skip(1), r); assert((x + r).skip(1) =~= x.skip(1) + r); } else { assert(x + r =~= r); }
}
pub proof fn lemma_stamp_text(ts: i64, r: Str)
    ensures stamp(stamp_text(ts) + r) == Some((norm_ts(ts), r)), at(stamp_text(ts) + r, 60), trim(stamp_text(ts) + r) == stamp_text(ts) + r,
{
    broadcast use lemma_trim;
    let s = stamp_text(ts) + r;
    if ts < 0 {
        assert(s.skip(1)[0] == 62u8);
        assert(s.skip(2) =~= r);
    } else {
        let d = dec_str(ts as int);
        lemma_dec_nat(ts as nat);
        let y = seq![62u8] + r;
        lemma_ndig_all(d, y);
        assert(s.skip(1) =~= d + y);
        assert((d + y).take(d.len() as int) =~= d);
        assert((d + y).skip(d.len() as int) =~= y);
        assert(is_digit(d[0]));
        assert(y.skip(1) =~= r);
        assert(s[0] == 60u8);
    }
}
pub open spec fn all_ws(z: Str) -> bool { forall|i: int| 0 <= i < z.len() ==> is_ws(#[trigger] z[i]) }
pub proof fn lemma_trim_ws(z: Str, x: Str)
    requires all_ws(z),
    ensures trim(z + x) == trim(x),
    decreases z.len(),
{
    lemma_trim_step(z + x);
    if z.len() > 0 {
        assert(is_ws(z[0]));
        lemma_trim_ws(z.skip(1), x);
        assert((z + x).skip(1) =~= z.skip(1) + x);
    } else { assert(z + x =~= x); }
}
pub proof fn lemma_trim_app(s: Str, r: Str)
    ensures s.len() > 0 && !is_ws(s[0]) ==> trim(s + r) == s + r,
{
    broadcast use lemma_trim;
}

// the text of a leaf
pub open spec fn leaf_text(v: Val, ctx: int) -> Str {
    let t = prim_text(leaf_any(v));
    let ts = leaf_ts(v);
    if ctx == 1 { t }
    else if ctx == 2 { if ts >= 0 { "<" + dec_str(ts as int) + "> " + t } else { "<> " + t } }
    else if ts >= 0 { t + " <" + dec_str(ts as int) + ">" }
    else { t + " <>" }
}
pub proof fn lemma_leaf_text(v: Val)
    ensures
        leaf_text(v, 2) == stamp_text(leaf_ts(v)) + " " + leaf_text(v, 1),
        leaf_text(v, 0) == leaf_text(v, 1) + " " + stamp_text(leaf_ts(v)),
{
    assert(leaf_text(v, 2) =~= stamp_text(leaf_ts(v)) + " " + leaf_text(v, 1));
    assert(leaf_text(v, 0) =~= leaf_text(v, 1) + " " + stamp_text(leaf_ts(v)));
}
pub proof fn lemma_leaf_reads(v: Val, ctx: int)
    requires is_leaf(v), prim_ok(leaf_any(v)),
    ensures reads(leaf_text(v, ctx), v, ctx),
{
    reveal(reads);
    lemma_leaf_text(v);
    let a = leaf_any(v);
    let t = prim_text(a);
    let ts = leaf_ts(v);
    let s = leaf_text(v, ctx);
    assert forall|r: Str| #[trigger] ends(r) implies {
        if ctx == 2 { element(trim(s + r)) == Some((norm(v), trim(r))) }
        else { value(trim(s + r)) == Some((if ctx == 1 { bare(v) } else { norm(v) }, trim(r))) }
    } by {
        broadcast use lemma_trim;
        lemma_ends_stops(r);
        if ctx == 1 {
            lemma_prim_text(a, r);
        } else if ctx == 2 {
            lemma_prim_text(a, r);
            let y = " " + (t + r);
            lemma_stamp_text(ts, y);
            lemma_trim_ws(" ", t + r);
            assert(s + r =~= stamp_text(ts) + y);
        } else {
            let y = " " + (stamp_text(ts) + r);
            lemma_prim_text(a, y);
            lemma_stamp_text(ts, r);
            lemma_trim_ws(" ", stamp_text(ts) + r);
            assert(s + r =~= t + y);
        }
    }
}
pub proof fn lemma_nil_reads(ctx: int)
    ensures reads("null", Val::Nil, ctx),
{
    reveal(reads);
    let s: Str = "null";
    assert forall|r: Str| #[trigger] ends(r) implies {
        if ctx == 2 { element(trim(s + r)) == Some((norm(Val::Nil), trim(r))) }
        else { value(trim(s + r)) == Some((if ctx == 1 { bare(Val::Nil) } else { norm(Val::Nil) }, trim(r))) }
    } by {
        broadcast use lemma_trim;
        let x = s + r;
        assert(x[0] == 110u8);
        assert(x.take(4) =~= s);
        assert(x.skip(4) =~= r);
        assert(x.take(4)[0] == 110u8);
        assert(x.len() >= 5 ==> x.take(5)[0] == 110u8);
        lemma_value_other(x);
    }
}

// members
pub open spec fn key_text(k: Str, v: Val) -> Str { if is_leaf(v) { quoted(k) + " " + stamp_text(leaf_ts(v)) } else { quoted(k) } }
pub proof fn lemma_member_piece(k: Str, v: Val, t: Str)
    requires reads(t, v, 1),
    ensures wrote_members(key_text(k, v) + ": " + t, Map::empty().insert(k, norm(v))),
{
    reveal(wrote_members);
    reveal(reads);
    let w = key_text(k, v) + ": " + t;
    let d = Map::<Str, Val>::empty().insert(k, norm(v));
    assert forall|r: Str, m: Map<Str, Val>| #[trigger] ends(r) implies #[trigger] members(trim(w + r), m) == after_member(trim(r), m.union_prefer_right(d)) by {
        broadcast use lemma_trim;
        let y: Str = ": " + (t + r);
        let z: Str = " " + (stamp_text(leaf_ts(v)) + y);
        if is_leaf(v) {
            assert(w + r =~= quoted(k) + z);
            lemma_quoted(k, z);
            lemma_trim_ws(" ", stamp_text(leaf_ts(v)) + y);
            lemma_stamp_text(leaf_ts(v), y);
        } else {
            assert(w + r =~= quoted(k) + y);
            lemma_quoted(k, y);
            assert(at(y, 58));
        }
        assert((w + r)[0] == 34u8);
        assert(y.skip(1) =~= " " + (t + r));
        lemma_trim_ws(" ", t + r);
        lemma_members_step(w + r, m);
        assert(m.union_prefer_right(d) =~= m.insert(k, norm(v)));
    }
}
pub proof fn lemma_members_ws(z: Str, w: Str, d: Map<Str, Val>)
    requires all_ws(z), wrote_members(w, d),
    ensures wrote_members(z + w, d),
{
    reveal(wrote_members);
    assert forall|r: Str, m: Map<Str, Val>| #[trigger] ends(r) implies #[trigger] members(trim((z + w) + r), m) == after_member(trim(r), m.union_prefer_right(d)) by {
        assert((z + w) + r =~= z + (w + r));
        lemma_trim_ws(z, w + r);
        assert(members(trim(w + r), m) == after_member(trim(r), m.union_prefer_right(d)));
    }
}
pub proof fn lemma_members_join(w: Str, d: Map<Str, Val>, z: Str, q: Str, e: Map<Str, Val>)
    requires wrote_members(w, d), wrote_members(q, e), all_ws(z),
    ensures wrote_members(w + ("," + z) + q, d.union_prefer_right(e)),
{
    reveal(wrote_members);
    let x: Str = w + ("," + z) + q;
    let f = d.union_prefer_right(e);
    assert forall|r: Str, m: Map<Str, Val>| #[trigger] ends(r) implies #[trigger] members(trim(x + r), m) == after_member(trim(r), m.union_prefer_right(f)) by {
        broadcast use lemma_trim;
        let y: Str = "," + (z + (q + r));
        assert(x + r =~= w + y);
        assert(at(y, 44));
        assert(ends(y));
        assert(members(trim(w + y), m) == after_member(trim(y), m.union_prefer_right(d)));
        assert(y.skip(1) =~= z + (q + r));
        lemma_trim_ws(z, q + r);
        assert(members(trim(q + r), m.union_prefer_right(d)) == after_member(trim(r), m.union_prefer_right(d).union_prefer_right(e)));
        assert(m.union_prefer_right(d).union_prefer_right(e) =~= m.union_prefer_right(f));
    }
}
pub proof fn lemma_object_reads(w: Str, d: Map<Str, Val>, z: Str, v: Map<Str, Val>, ctx: int)
    requires wrote_members(w, d), all_ws(z), norm(Val::Obj(v)) == Val::Obj(d),
    ensures reads("{" + w + z + "}", Val::Obj(v), ctx),
{
    reveal(reads);
    let s: Str = "{" + w + z + "}";
    let o = Val::Obj(v);
    assert forall|r: Str| #[trigger] ends(r) implies {
        if ctx == 2 { element(trim(s + r)) == Some((norm(o), trim(r))) }
        else { value(trim(s + r)) == Some((if ctx == 1 { bare(o) } else { norm(o) }, trim(r))) }
    } by {
        broadcast use lemma_trim;
        let x = s + r;
        let y: Str = z + ("}" + r);
        assert(x[0] == 123u8);
        assert(x.skip(1) =~= w + y);
        lemma_trim_ws(z, "}" + r);
        assert(at("}" + r, 125));
        assert(ends(y));
        assert(("}" + r).skip(1) =~= r);
        lemma_value_object(x);
        reveal(wrote_members);
        let em = Map::<Str, Val>::empty();
        assert(members(trim(w + y), em) == after_member(trim(y), em.union_prefer_right(d)));
        assert(em.union_prefer_right(d) =~= d);
        if at(trim(w + y), 125) { lemma_members_step(trim(w + y), em); assert(member(trim(w + y)) is None); assert(false); }
    }
}
pub proof fn lemma_object_empty(z: Str, v: Map<Str, Val>, ctx: int)
    requires all_ws(z), forall|k: Str| !#[trigger] v.dom().contains(k),
    ensures reads("{" + z + "}", Val::Obj(v), ctx),
{
    reveal(reads);
    let s: Str = "{" + z + "}";
    let o = Val::Obj(v);
    assert forall|r: Str| #[trigger] ends(r) implies {
        if ctx == 2 { element(trim(s + r)) == Some((norm(o), trim(r))) }
        else { value(trim(s + r)) == Some((if ctx == 1 { bare(o) } else { norm(o) }, trim(r))) }
    } by {
        broadcast use lemma_trim;
        let x = s + r;
        assert(x[0] == 123u8);
        assert(x.skip(1) =~= z + ("}" + r));
        lemma_trim_ws(z, "}" + r);
        assert(at("}" + r, 125));
        assert(("}" + r).skip(1) =~= r);
        lemma_value_object(x);
        assert(norm(o)->Obj_0 =~= Map::<Str, Val>::empty());
    }
}
// elements
pub proof fn lemma_element_piece(t: Str, v: Val)
    requires reads(t, v, 2),
    ensures wrote_elements(t, seq![norm(v)]),
{
    reveal(wrote_elements);
    reveal(reads);
    assert forall|r: Str, a: Seq<Val>| #[trigger] ends(r) implies #[trigger] elements(trim(t + r), a) == after_element(trim(r), a + seq![norm(v)]) by {
        lemma_elements_step(trim(t + r), a);
        assert(element(trim(t + r)) == Some((norm(v), trim(r))));
        assert(a + seq![norm(v)] =~= a.push(norm(v)));
    }
}
pub proof fn lemma_elements_ws(z: Str, w: Str, d: Seq<Val>)
    requires all_ws(z), wrote_elements(w, d),
    ensures wrote_elements(z + w, d),
{
    reveal(wrote_elements);
    assert forall|r: Str, a: Seq<Val>| #[trigger] ends(r) implies #[trigger] elements(trim((z + w) + r), a) == after_element(trim(r), a + d) by {
        assert((z + w) + r =~= z + (w + r));
        lemma_trim_ws(z, w + r);
        assert(elements(trim(w + r), a) == after_element(trim(r), a + d));
    }
}
pub proof fn lemma_elements_join(w: Str, d: Seq<Val>, z: Str, q: Str, e: Seq<Val>)
    requires wrote_elements(w, d), wrote_elements(q, e), all_ws(z),
    ensures wrote_elements(w + ("," + z) + q, d + e),
{
    reveal(wrote_elements);
    let x: Str = w + ("," + z) + q;
    assert forall|r: Str, a: Seq<Val>| #[trigger] ends(r) implies #[trigger] elements(trim(x + r), a) == after_element(trim(r), a + (d + e)) by {
        broadcast use lemma_trim;
        let y: Str = "," + (z + (q + r));
        assert(x + r =~= w + y);
        assert(at(y, 44));
        assert(ends(y));
        assert(elements(trim(w + y), a) == after_element(trim(y), a + d));
        assert(y.skip(1) =~= z + (q + r));
        lemma_trim_ws(z, q + r);
        assert(elements(trim(q + r), a + d) == after_element(trim(r), (a + d) + e));
        assert((a + d) + e =~= a + (d + e));
    }
}
pub proof fn lemma_array_reads(w: Str, d: Seq<Val>, z: Str, v: Seq<Val>, ctx: int)
    requires wrote_elements(w, d), all_ws(z), norm(Val::Arr(v)) == Val::Arr(d),
    ensures reads("[" + w + z + "]", Val::Arr(v), ctx),
{
    reveal(reads);
    let s: Str = "[" + w + z + "]";
    let o = Val::Arr(v);
    assert forall|r: Str| #[trigger] ends(r) implies {
        if ctx == 2 { element(trim(s + r)) == Some((norm(o), trim(r))) }
        else { value(trim(s + r)) == Some((if ctx == 1 { bare(o) } else { norm(o) }, trim(r))) }
    } by {
        broadcast use lemma_trim;
        let x = s + r;
        let y: Str = z + ("]" + r);
        assert(x[0] == 91u8);
        assert(x.skip(1) =~= w + y);
        lemma_trim_ws(z, "]" + r);
        assert(at("]" + r, 93));
        assert(ends(y));
        assert(("]" + r).skip(1) =~= r);
        lemma_value_array(x);
        reveal(wrote_elements);
        let em = Seq::<Val>::empty();
        assert(elements(trim(w + y), em) == after_element(trim(y), em + d));
        assert(em + d =~= d);
        if at(trim(w + y), 93) { lemma_elements_step(trim(w + y), em); lemma_value_other(trim(w + y)); assert(false); }
    }
}
pub proof fn lemma_array_empty(z: Str, ctx: int)
    requires all_ws(z),
    ensures reads("[" + z + "]", Val::Arr(Seq::empty()), ctx),
{
    reveal(reads);
    let s: Str = "[" + z + "]";
    let o = Val::Arr(Seq::empty());
    assert forall|r: Str| #[trigger] ends(r) implies {
        if ctx == 2 { element(trim(s + r)) == Some((norm(o), trim(r))) }
        else { value(trim(s + r)) == Some((if ctx == 1 { bare(o) } else { norm(o) }, trim(r))) }
    } by {
        broadcast use lemma_trim;
        let x = s + r;
        assert(x[0] == 91u8);
        assert(x.skip(1) =~= z + ("]" + r));
        lemma_trim_ws(z, "]" + r);
        assert(at("]" + r, 93));
        assert(("]" + r).skip(1) =~= r);
        lemma_value_array(x);
        assert(norm(o)->Arr_0 =~= Seq::<Val>::empty());
    }
}
pub proof fn lemma_reads_parse(s: Str, v: Val)
    requires reads(s, v, 0),
    ensures parse_doc(s) == Some(norm(v)),
{
    reveal(reads);
    broadcast use lemma_trim;
    let e = Seq::<u8>::empty();
    assert(s + e =~= s);
    assert(trim(e) =~= e);
    assert(ends(e));
}
// the members of m under the keys ks, as they read back
pub open spec fn norm_keys(m: Map<Str, Val>, ks: Seq<Str>) -> Map<Str, Val> {
    Map::new(ks.to_set(), |k: Str| norm(m[k]))
}
pub open spec fn norm_seq(a: Seq<Val>) -> Seq<Val> { a.map_values(|v: Val| norm(v)) }

pub proof fn lemma_norm_keys_step(m: Map<Str, Val>, ks: Seq<Str>, i: int)
    requires 0 <= i < ks.len(),
    ensures norm_keys(m, ks.take(i + 1)) == norm_keys(m, ks.take(i)).union_prefer_right(Map::empty().insert(ks[i], norm(m[ks[i]]))),
{
    let a = norm_keys(m, ks.take(i + 1));
    let b = norm_keys(m, ks.take(i)).union_prefer_right(Map::empty().insert(ks[i], norm(m[ks[i]])));
    assert forall|k: Str| a.dom().contains(k) == #[trigger] b.dom().contains(k) by {
        if ks.take(i + 1).contains(k) {
            let j = choose|j: int| 0 <= j < i + 1 && #[trigger] ks.take(i + 1)[j] == k;
            if j < i { assert(ks.take(i)[j] == k); }
        }
        if ks.take(i).contains(k) {
            let j = choose|j: int| 0 <= j < i && #[trigger] ks.take(i)[j] == k;
            assert(ks.take(i + 1)[j] == k);
        }
        assert(ks.take(i + 1)[i] == ks[i]);
    }
    assert(a =~= b);
}
pub proof fn lemma_norm_keys_all(m: Map<Str, Val>, ks: Seq<Str>)
    requires forall|k: Str| #[trigger] ks.contains(k) <==> m.dom().contains(k),
    ensures norm(Val::Obj(m)) == Val::Obj(norm_keys(m, ks)), ks.len() == 0 ==> (forall|k: Str| !#[trigger] m.dom().contains(k)),
{
    assert(norm(Val::Obj(m))->Obj_0 =~= norm_keys(m, ks));
}
pub proof fn lemma_norm_seq_step(a: Seq<Val>, i: int)
    requires 0 <= i < a.len(),
    ensures norm_seq(a.take(i + 1)) == norm_seq(a.take(i)) + seq![norm(a[i])],
{
    assert(norm_seq(a.take(i + 1)) =~= norm_seq(a.take(i)) + seq![norm(a[i])]);
}
pub proof fn lemma_norm_seq_all(a: Seq<Val>)
    ensures norm(Val::Arr(a)) == Val::Arr(norm_seq(a)), a.take(a.len() as int) == a,
{
    assert(norm(Val::Arr(a))->Arr_0 =~= norm_seq(a));
    assert(a.take(a.len() as int) =~= a);
}
// the text so far of an object written member by member: brace, opening white space, members
#[verifier::opaque]
pub open spec fn obj_text(s: Str, z: Str, m: Map<Str, Val>, ks: Seq<Str>) -> bool {
    if ks.len() == 0 { s == "{" + z } else { exists|w: Str| s == "{" + w && #[trigger] wrote_members(w, norm_keys(m, ks)) }
}
pub proof fn lemma_obj_text_start(s: Str, z: Str, m: Map<Str, Val>, ks: Seq<Str>)
    requires s =~= "{" + z,
    ensures obj_text(s, z, m, ks.take(0)),
{
    reveal(obj_text);
}
// one more member, lead: what stands between the one before (or the brace) and the key
pub proof fn lemma_obj_text_step(s: Str, n: Str, lead: Str, z: Str, m: Map<Str, Val>, ks: Seq<Str>, i: int, t: Str)
    requires
        0 <= i < ks.len(),
        obj_text(s, z, m, ks.take(i)),
        reads(t, m[ks[i]], 1),
        all_ws(z), all_ws(lead),
        n =~= s + (if i > 0 { "," + lead } else { Seq::empty() }) + key_text(ks[i], m[ks[i]]) + ": " + t
          || (i == 0 && n =~= s + lead + key_text(ks[i], m[ks[i]]) + ": " + t),
    ensures
        obj_text(n, z, m, ks.take(i + 1)),
{
    reveal(obj_text);
    let k = ks[i];
    let d = Map::<Str, Val>::empty().insert(k, norm(m[k]));
    let p = key_text(k, m[k]) + ": " + t;
    lemma_member_piece(k, m[k], t);
    lemma_norm_keys_step(m, ks, i);
    if i > 0 {
        let w = choose|w: Str| s == "{" + w && #[trigger] wrote_members(w, norm_keys(m, ks.take(i)));
        lemma_members_join(w, norm_keys(m, ks.take(i)), lead, p, d);
        assert(n =~= "{" + (w + ("," + lead) + p));
    } else {
        assert(norm_keys(m, ks.take(0)).union_prefer_right(d) =~= d);
        lemma_members_ws(z, p, d);
        lemma_members_ws(lead, p, d);
        lemma_members_ws(z, lead + p, d);
        if n =~= s + lead + key_text(k, m[k]) + ": " + t { assert(n =~= "{" + (z + (lead + p))); } else { assert(n =~= "{" + (z + p)); }
    }
}
pub proof fn lemma_obj_text_done(s: Str, n: Str, z: Str, y: Str, m: Map<Str, Val>, ks: Seq<Str>, ctx: int)
    requires
        obj_text(s, z, m, ks.take(ks.len() as int)),
        forall|k: Str| #[trigger] ks.contains(k) <==> m.dom().contains(k),
        all_ws(z), all_ws(y),
        n =~= s + y + "}",
    ensures
        reads(n, Val::Obj(m), ctx),
{
    reveal(obj_text);
    assert(ks.take(ks.len() as int) =~= ks);
    lemma_norm_keys_all(m, ks);
    if ks.len() == 0 {
        let x: Str = z + y;
        assert(all_ws(x));
        lemma_object_empty(x, m, ctx);
        assert(n =~= "{" + x + "}");
    } else {
        let w = choose|w: Str| s == "{" + w && #[trigger] wrote_members(w, norm_keys(m, ks));
        lemma_object_reads(w, norm_keys(m, ks), y, m, ctx);
        assert(n =~= "{" + w + y + "}");
    }
}
// the same of an array
#[verifier::opaque]
pub open spec fn arr_text(s: Str, z: Str, a: Seq<Val>) -> bool {
    if a.len() == 0 { s == "[" + z } else { exists|w: Str| s == "[" + w && #[trigger] wrote_elements(w, norm_seq(a)) }
}
pub proof fn lemma_arr_text_start(s: Str, z: Str, a: Seq<Val>)
    requires s =~= "[" + z,
    ensures arr_text(s, z, a.take(0)),
{
    reveal(arr_text);
}
pub proof fn lemma_arr_text_step(s: Str, n: Str, lead: Str, z: Str, a: Seq<Val>, i: int, t: Str)
    requires
        0 <= i < a.len(),
        arr_text(s, z, a.take(i)),
        reads(t, a[i], 2),
        all_ws(z), all_ws(lead),
        n =~= s + (if i > 0 { "," + lead } else { Seq::empty() }) + t
          || (i == 0 && n =~= s + lead + t),
    ensures
        arr_text(n, z, a.take(i + 1)),
{
    reveal(arr_text);
    let d = seq![norm(a[i])];
    lemma_element_piece(t, a[i]);
    lemma_norm_seq_step(a, i);
    if i > 0 {
        let w = choose|w: Str| s == "[" + w && #[trigger] wrote_elements(w, norm_seq(a.take(i)));
        lemma_elements_join(w, norm_seq(a.take(i)), lead, t, d);
        assert(n =~= "[" + (w + ("," + lead) + t));
    } else {
        assert(norm_seq(a.take(0)) + d =~= d);
        lemma_elements_ws(z, t, d);
        lemma_elements_ws(lead, t, d);
        lemma_elements_ws(z, lead + t, d);
        if n =~= s + lead + t { assert(n =~= "[" + (z + (lead + t))); } else { assert(n =~= "[" + (z + t)); }
    }
}
pub proof fn lemma_arr_text_done(s: Str, n: Str, z: Str, y: Str, a: Seq<Val>, ctx: int)
    requires
        arr_text(s, z, a.take(a.len() as int)),
        all_ws(z), all_ws(y),
        n =~= s + y + "]",
    ensures
        reads(n, Val::Arr(a), ctx),
{
    reveal(arr_text);
    lemma_norm_seq_all(a);
    if a.len() == 0 {
        let x: Str = z + y;
        assert(all_ws(x));
        lemma_array_empty(x, ctx);
        assert(n =~= "[" + x + "]");
        assert(a =~= Seq::<Val>::empty());
    } else {
        let w = choose|w: Str| s == "[" + w && #[trigger] wrote_elements(w, norm_seq(a));
        lemma_array_reads(w, norm_seq(a), y, a, ctx);
        assert(n =~= "[" + w + y + "]");
    }
}
// a document as a value of type any
pub open spec fn doc_value(v: Any) -> bool { v is Nil || v is V && !(v->V_0 is Nil) }
pub open spec fn any_doc(v: Any) -> Val { match v { Any::V(d) => d, _ => Val::Nil } }
pub proof fn lemma_ws_app(a: Str, b: Str)
    ensures all_ws(a) && all_ws(b) ==> all_ws(a + b),
{
}
pub broadcast proof fn lemma_left(a: Str, b: Str, c: Str)
    ensures #[trigger] (a + (b + c)) == (a + b) + c,
{
    assert((a + (b + c)) =~= (a + b) + c);
}
// a member on a line of its own: the text before, then comma and line break (unless it is the
// first), indentation, key and value
pub open spec fn sep(was: Str, i: int) -> Str { if i > 0 { was + ",\n" } else { was } }
pub open spec fn member_line(key: Str, v: Val) -> Str {
    if !is_leaf(v) { key + ": " } else if leaf_ts(v) >= 0 { key + " <" + dec_str(leaf_ts(v) as int) + ">: " } else { key + " <" + ">: " }
}
pub proof fn lemma_obj_text_line(was: Str, n: Str, lead: Str, m: Map<Str, Val>, ks: Seq<Str>, i: int, t: Str)
    requires
        0 <= i < ks.len(),
        obj_text(was, "\n", m, ks.take(i)),
        all_ws(lead),
        reads(t, m[ks[i]], 1),
        n == member_line(sep(was, i) + lead + quoted(ks[i]), m[ks[i]]) + t,
    ensures
        obj_text(n, "\n", m, ks.take(i + 1)),
{
    let z: Str = if i > 0 { "\n" + lead } else { lead };
    let nl: Str = "\n";
    assert(all_ws(nl));
    assert(all_ws(z));
    if i > 0 { assert(n =~= was + ("," + z) + key_text(ks[i], m[ks[i]]) + ": " + t); }
    else { assert(n =~= was + z + key_text(ks[i], m[ks[i]]) + ": " + t); }
    lemma_obj_text_step(was, n, z, nl, m, ks, i, t);
}
pub proof fn lemma_arr_text_line(was: Str, n: Str, lead: Str, a: Seq<Val>, i: int, t: Str)
    requires
        0 <= i < a.len(),
        arr_text(was, "\n", a.take(i)),
        all_ws(lead),
        reads(t, a[i], 2),
        n == sep(was, i) + lead + t,
    ensures
        arr_text(n, "\n", a.take(i + 1)),
{
    let z: Str = if i > 0 { "\n" + lead } else { lead };
    let nl: Str = "\n";
    assert(all_ws(nl));
    assert(all_ws(z));
    if i > 0 { assert(n =~= was + ("," + z) + t); }
    lemma_arr_text_step(was, n, z, nl, a, i, t);
}
