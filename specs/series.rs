// Series of vehicle data sets and the change lists between them (C27).

pub open spec fn set_doc(a: Any) -> Val { form_doc(any_tree(a)) }
pub open spec fn op_any(o: Operation) -> Any {
    Any::M(Map::<Str, Any>::empty().insert(op_op_key(), Any::Str(o.Op)).insert(op_path_key(), Any::Str(o.Path)).insert(val_key(), o.Value).insert(ts_key(), Any::I64(o.Timestamp)))
}
pub open spec fn list_any(p: Seq<Operation>) -> Seq<Any> { p.map_values(|o: Operation| op_any(o)) }
pub open spec fn replays(a: Val, p: Seq<Operation>, b: Val) -> bool {
    match fold_ops(a, p) { Some(x) => same_doc(x, b, true), None => false }
}
// c is the list of changes that turn a into b
pub open spec fn change_list_is(c: Any, p: Seq<Operation>, a: Val, b: Val) -> bool {
    c == Any::S(list_any(p)) && ops_ok(p) && norm_ops(p) == p && named(p) && replays(a, p, b)
}
pub open spec fn change_list(c: Any, a: Val, b: Val) -> bool { exists|p: Seq<Operation>| change_list_is(c, p, a, b) }
pub open spec fn named(p: Seq<Operation>) -> bool {
    forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).Op =~= "add" || p[i].Op =~= "replace" || p[i].Op =~= "remove"
}
// b has no level a does not have
pub open spec fn slim(a: Any, b: Any) -> bool { forall|p: Seq<Str>| #[trigger] inner(b, p) ==> inner(a, p) }

pub proof fn lemma_changes_push(p: Seq<Operation>, i: int)
    requires 0 <= i < p.len(),
    ensures list_any(p.take(i + 1)) == list_any(p.take(i)).push(op_any(p[i])),
{
    assert(list_any(p.take(i + 1)) =~= list_any(p.take(i)).push(op_any(p[i])));
}
pub proof fn lemma_changes_all(p: Seq<Operation>)
    ensures list_any(p.take(0)) == Seq::<Any>::empty(), list_any(p.take(p.len() as int)) == list_any(p),
{
    assert(list_any(p.take(0)) =~= Seq::<Any>::empty());
    assert(p.take(p.len() as int) =~= p);
}

pub proof fn lemma_slim(r: Seq<Map<Str, Any>>, a: Any, b: Any)
    requires
        tree(a), tree(b), lists(r, a, Seq::empty(), None),
        forall|p: Seq<Str>| #[trigger] inner(b, p) && p.len() > 0 ==> leads(r, p, r.len() as int),
        forall|p: Seq<Str>| #[trigger] sig(a, p) is Some ==> sig(b, p) is Some,
    ensures slim(a, b),
{
    reveal(lists);
    assert forall|p: Seq<Str>| #[trigger] inner(b, p) implies inner(a, p) by {
        if p.len() > 0 {
            let j = choose|j: int| 0 <= j < r.len() && path_prefix(p, lk(#[trigger] r[j]));
            let q = lk(r[j]);
            assert(q.skip(0) =~= q);
            assert(sig(a, q) is Some);
            if p.len() < q.len() { lemma_above(a, p, q); } else { assert(q.take(p.len() as int) =~= q); lemma_not_both(b, p); }
        }
    }
}
pub proof fn lemma_not_both(a: Any, p: Seq<Str>)
    ensures !(inner(a, p) && sig(a, p) is Some),
    decreases p.len(),
{
    if p.len() > 0 && interior(a) && a->M_0.dom().contains(p[0]) { lemma_not_both(a->M_0[p[0]], p.skip(1)); }
}
pub proof fn lemma_above(a: Any, p: Seq<Str>, q: Seq<Str>)
    requires sig(a, q) is Some, path_prefix(p, q), p.len() < q.len(),
    ensures inner(a, p),
    decreases p.len(),
{
    if p.len() > 0 {
        assert(p[0] == q.take(p.len() as int)[0]);
        lemma_prefix_step(p, q);
        lemma_above(a->M_0[p[0]], p.skip(1), q.skip(1));
    }
}

// ---- the document of a data set
pub proof fn lemma_set_ok(a: Any)
    requires tree(a) || signal(a),
    ensures doc_ok(set_doc(a)),
    decreases a,
{
    broadcast use ax_json_int;
    broadcast use ax_json_number;
    lemma_lits();
    if leaf_m(a) {
        lemma_set_leaf(a);
        let v = a->M_0[val_key()];
        if v is Int { assert(any_tree(v) == Any::Num(dec_str(v->Int_0))); }
    } else if a is S {
        let s = any_tree(a)->S_0;
        assert forall|i: int| 0 <= i < s.len() implies doc_ok(form_doc(#[trigger] s[i])) by { lemma_set_ok(a->S_0[i]); }
    } else {
        lemma_set_obj(a);
        let m = a->M_0;
        assert forall|k: Str| #[trigger] m.dom().contains(k) implies doc_ok(set_doc(m[k])) && utf8(k) by { lemma_set_ok(m[k]); }
    }
}
pub proof fn lemma_set_leaf(a: Any)
    requires leaf_m(a),
    ensures any_tree(a) is M, leaf_of(any_tree(a)->M_0) == Some((any_tree(a->M_0[val_key()]), a->M_0[ts_key()]->I64_0)),
{
    lemma_lits();
    let m = a->M_0;
    let v = m[val_key()];
    let ts = m[ts_key()]->I64_0;
    assert(val_key() =~= leaf_value_key() && ts_key() =~= leaf_timestamp_key());
    assert(val_key().len() != ts_key().len());
    assert(any_tree(Any::I64(ts)) == Any::Num(dec_str(ts as int)));
    assert(any_tree(a)->M_0 =~= leaf_tree(any_tree(v), ts)->M_0);
    lemma_leaf_tree(any_tree(v), ts);
}
pub proof fn lemma_set_obj(a: Any)
    requires interior(a),
    ensures
        set_doc(a) is Obj,
        forall|k: Str| #[trigger] set_doc(a)->Obj_0.dom().contains(k) <==> a->M_0.dom().contains(k),
        forall|k: Str| a->M_0.dom().contains(k) ==> set_doc(a)->Obj_0[k] == set_doc(#[trigger] a->M_0[k]),
{
    lemma_lits();
    assert(ts_key() =~= leaf_timestamp_key());
    let t = any_tree(a)->M_0;
    assert(!t.dom().contains(leaf_timestamp_key()));
    assert(leaf_of(t) is None);
}
// a data set is generated from the one before with the same levels and kinds of signals
pub proof fn lemma_next_can(a: Any, b: Any, ts: i64)
    requires tree(a), tree(b), next_set(a, b, ts), slim(a, b),
    ensures can_gen(set_doc(a), set_doc(b)),
    decreases b,
{
    lemma_set_obj(a);
    lemma_set_obj(b);
    let x = a->M_0;
    let y = b->M_0;
    assert forall|k: Str| #[trigger] y.dom().contains(k) implies x.dom().contains(k) && can_gen(set_doc(x[k]), set_doc(y[k])) by {
        let q = seq![k];
        assert(q.skip(1) =~= Seq::<Str>::empty());
        assert(sig(b, q) == sig(y[k], Seq::empty()));
        assert(inner(b, q) == inner(y[k], Seq::empty()));
        if tree(y[k]) {
            assert(inner(b, q));
            assert(inner(a, q));
            assert(x.dom().contains(k));
            assert(inner(x[k], Seq::empty()));
            assert(tree(x[k]));
            assert forall|p: Seq<Str>| match (#[trigger] sig(x[k], p), sig(y[k], p)) { (Some(u), Some(v)) => next_sig(u, v, ts), (None, None) => true, _ => false } by {
                let r = seq![k] + p;
                assert(r.skip(1) =~= p);
                assert(sig(a, r) == sig(x[k], p));
                assert(sig(b, r) == sig(y[k], p));
            }
            assert forall|p: Seq<Str>| #[trigger] inner(y[k], p) implies inner(x[k], p) by {
                let r = seq![k] + p;
                assert(r.skip(1) =~= p);
                assert(inner(b, r));
                assert(inner(a, r));
            }
            lemma_next_can(x[k], y[k], ts);
        } else {
            assert(signal(y[k]));
            assert(!interior(y[k]));
            assert(sig(b, q) == Some(y[k]));
            assert(sig(a, q) is Some);
            assert(sig(a, q) == sig(x[k], Seq::empty()));
            assert(next_sig(x[k], y[k], ts));
            assert(x.dom().contains(k) && !interior(x[k]));
            assert(signal(x[k]) || tree(x[k]));
            if tree(x[k]) { assert(interior(x[k])); }
            assert(signal(x[k]));
            lemma_sig_can(x[k], y[k], ts);
        }
    }
}
pub proof fn lemma_leaf_can(x: Any, y: Any, ts: i64)
    requires leaf_m(x), leaf_m(y), y == x || restamped(x, y, ts),
    ensures val_tag(set_doc(x)) == val_tag(set_doc(y)), !(set_doc(x) is Obj), !(set_doc(x) is Arr), can_gen(set_doc(x), set_doc(y)),
{
    lemma_set_leaf(x);
    lemma_set_leaf(y);
}
pub proof fn lemma_sig_can(x: Any, y: Any, ts: i64)
    requires signal(x), signal(y), next_sig(x, y, ts),
    ensures can_gen(set_doc(x), set_doc(y)),
{
    if leaf_m(x) && leaf_m(y) { lemma_leaf_can(x, y, ts); } else {
        let (s, t) = (x->S_0, y->S_0);
        assert(set_doc(x)->Arr_0.len() == s.len() && set_doc(y)->Arr_0.len() == t.len());
        assert forall|i: int| 0 <= i < t.len() implies can_gen(set_doc(x)->Arr_0[i], #[trigger] set_doc(y)->Arr_0[i]) by {
            assert(leaf_m(t[i]) && leaf_m(s[i]));
            lemma_leaf_can(s[i], t[i], ts);
        }
    }
}
// the text of a data set in JSON is read as its document
pub proof fn lemma_set_read(a: Any)
    requires tree(a),
    ensures json_text_err(a) is Nil, read_form(json_text(a)) == Some(set_doc(a)), gen_doc(set_doc(a)), doc_ok(set_doc(a)),
{
    lemma_tree_form(a);
    lemma_set_ok(a);
    ax_json_marshal(a);
}

// ---- the paths of generated operations are Unicode text
pub axiom fn ax_utf8(a: Str, b: Str)
    ensures
        utf8(a) && utf8(b) ==> utf8(a + b),
        (forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] < 128) ==> utf8(a),
;
// an ASCII byte is a character of its own
pub axiom fn ax_utf8_cut(s: Str, i: int)
    requires 0 <= i < s.len(), s[i] < 128, utf8(s),
    ensures utf8(s.take(i)), utf8(s.skip(i + 1)),
;
pub open spec fn plain_byte(c: u8) -> bool { c != 126 && c != 47 }
pub open spec fn first_special(s: Str) -> int
    decreases s.len(),
{
    if s.len() == 0 || !plain_byte(s[0]) { 0 } else { 1 + first_special(s.skip(1)) }
}
pub proof fn lemma_first_special(s: Str)
    ensures
        0 <= first_special(s) <= s.len(),
        first_special(s) < s.len() ==> !plain_byte(s[first_special(s)]),
        escape(s) == s.take(first_special(s)) + escape(s.skip(first_special(s))),
    decreases s.len(),
{
    if s.len() == 0 || !plain_byte(s[0]) {
        assert(s.take(0) =~= Seq::<u8>::empty());
        assert(s.skip(0) =~= s);
        assert(escape(s) =~= s.take(0) + escape(s.skip(0)));
    } else {
        let n = first_special(s.skip(1));
        lemma_first_special(s.skip(1));
        assert(s.skip(1).skip(n) =~= s.skip(n + 1));
        assert(escape(s) =~= s.take(n + 1) + escape(s.skip(n + 1)));
    }
}
pub proof fn lemma_escape_utf8(s: Str)
    requires utf8(s),
    ensures utf8(escape(s)),
    decreases s.len(),
{
    let n = first_special(s);
    lemma_first_special(s);
    if n == s.len() {
        assert(s.skip(n) =~= Seq::<u8>::empty());
        assert(escape(s) =~= s);
    } else {
        ax_utf8_cut(s, n);
        let r = s.skip(n);
        assert(r.skip(1) =~= s.skip(n + 1));
        lemma_escape_utf8(s.skip(n + 1));
        let e: Str = if r[0] == 126 { seq![126u8, 48u8] } else { seq![126u8, 49u8] };
        assert(escape(r) == e + escape(r.skip(1)));
        ax_utf8(e, escape(r.skip(1)));
        assert(forall|i: int| 0 <= i < e.len() ==> #[trigger] e[i] < 128);
        ax_utf8(s.take(n), escape(r));
    }
}
pub proof fn lemma_enc_utf8(p: Seq<Str>)
    requires forall|i: int| 0 <= i < p.len() ==> utf8(#[trigger] p[i]),
    ensures utf8(enc(p)),
    decreases p.len(),
{
    if p.len() == 0 {
        assert(enc(p).len() == 0);
        ax_utf8(enc(p), enc(p));
    } else {
        assert(utf8(p[0]));
        lemma_escape_utf8(p[0]);
        let r = p.skip(1);
        assert forall|i: int| 0 <= i < r.len() implies utf8(#[trigger] r[i]) by { assert(r[i] == p[i + 1]); }
        lemma_enc_utf8(r);
        let s: Str = seq![47u8];
        assert(forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 128);
        ax_utf8(s, escape(p[0]));
        ax_utf8(s + escape(p[0]), enc(r));
    }
}
pub proof fn lemma_digits_ascii(s: Str)
    requires int_syntax(s),
    ensures forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 128,
{
    let t = s.skip(1);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] < 128 by {
        if s[0] == 45 || s[0] == 43 { if i > 0 { assert(t[i - 1] == s[i]); assert(is_digit(t[i - 1])); } } else { assert(is_digit(s[i])); }
    }
}
pub proof fn lemma_found_utf8(d: Val, p: Seq<Str>)
    requires doc_ok(d), lookup(d, p) is Some,
    ensures forall|i: int| 0 <= i < p.len() ==> utf8(#[trigger] p[i]), doc_ok(lookup(d, p)->Some_0),
    decreases p.len(),
{
    if p.len() > 0 {
        match d {
            Val::Obj(m) => { assert(m.dom().contains(p[0])); lemma_found_utf8(m[p[0]], p.skip(1)); },
            Val::Arr(a) => { let i = idx_of(p[0])->Some_0; lemma_digits_ascii(p[0]); ax_utf8(p[0], p[0]); lemma_found_utf8(a[i], p.skip(1)); },
            _ => {},
        }
        assert forall|i: int| 0 <= i < p.len() implies utf8(#[trigger] p[i]) by { if i > 0 { assert(p[i] == p.skip(1)[i - 1]); } }
    }
}
// operations generated for documents that can be written in JSON can be written in JSON,
// and read back as they are
pub proof fn lemma_ops_ok(a: Val, b: Val, p: Seq<Operation>)
    requires doc_ok(a), doc_ok(b), records(a, b, p, 0, true), all_under(p, Seq::empty()),
    ensures
        ops_ok(p), norm_ops(p) == p, named(p),
{
    reveal(records);
    reveal(all_under);
    lemma_lits();
    assert forall|i: int| 0 <= i < p.len() implies op_ok(#[trigger] p[i]) && norm_op(p[i]) == p[i] && (p[i].Op =~= "add" || p[i].Op =~= "replace" || p[i].Op =~= "remove") by {
        let o = p[i];
        assert(records_op(a, b, o, 0));
        assert(under(o, Seq::empty()));
        assert(rel(o, 0) =~= tok(o.Path));
        if op_sets(o) { lemma_found_utf8(b, tok(o.Path)); } else { lemma_found_utf8(a, tok(o.Path)); }
        lemma_enc_utf8(tok(o.Path));
        ax_utf8(o.Op, o.Op);
    }
    assert(norm_ops(p) =~= p);
}
