
// ---- C06: the JSON form that keeps timestamps
pub open spec fn leaf_of(m: Map<Str, Any>) -> Option<(Any, i64)> {
    if m.dom().len() == 2 && m.dom().contains(leaf_value_key()) && m.dom().contains(leaf_timestamp_key()) {
        match m[leaf_timestamp_key()] {
            Any::Num(s) => if parse_int_err(s) is Nil { Some((m[leaf_value_key()], parse_int_val(s))) } else { None },
            _ => None,
        }
    } else { None }
}
// the decoded JSON a is the form of a document
pub open spec fn is_form(a: Any) -> bool
    decreases a,
{
    match a {
        Any::Nil => true,
        Any::M(m) => match leaf_of(m) {
            Some((v, ts)) => v is Nil || v is Str || v is B || v is Num && parse_f64_err(v->Num_0) is Nil,
            None => forall|k: Str| #[trigger] m.dom().contains(k) ==> is_form(m[k]),
        },
        Any::S(s) => forall|i: int| 0 <= i < s.len() ==> is_form(#[trigger] s[i]),
        _ => false,
    }
}
pub open spec fn form_doc(a: Any) -> Val
    decreases a,
{
    match a {
        Any::M(m) => match leaf_of(m) {
            Some((v, ts)) => match v {
                Any::Str(s) => Val::LS(LeafS { Value: s, Timestamp: ts }),
                Any::B(b) => Val::LB(LeafB { Value: b, Timestamp: ts }),
                Any::Num(s) => Val::LF(LeafF { Value: parse_f64_val(s), Timestamp: ts }),
                _ => Val::Nil,
            },
            None => Val::Obj(Map::new(m.dom(), |k: Str| if m.dom().contains(k) { form_doc(m[k]) } else { Val::Nil })),
        },
        Any::S(s) => Val::Arr(Seq::new(s.len(), |i: int| if 0 <= i < s.len() { form_doc(s[i]) } else { Val::Nil })),
        _ => Val::Nil,
    }
}
pub open spec fn read_form(s: Str) -> Option<Val> {
    if json_value(s) is Some && is_form(jn(s)->Some_0) { Some(form_doc(jn(s)->Some_0)) } else { None }
}
pub proof fn lemma_dec_str(n: int)
    ensures i64::MIN <= n <= i64::MAX ==> parse_int_err(dec_str(n)) is Nil && parse_int_val(dec_str(n)) == n as i64,
{
    if n < 0 {
        lemma_dec_nat((-n) as nat);
        assert(dec_str(n).skip(1) =~= dec_nat((-n) as nat));
    } else {
        lemma_dec_nat(n as nat);
        assert(is_digit(dec_nat(n as nat)[0]));
    }
}
pub proof fn lemma_leaf_tree(v: Any, ts: i64)
    ensures
        leaf_tree(v, ts) is M,
        leaf_of(leaf_tree(v, ts)->M_0) == Some((v, ts)),
        v is Num && parse_f64_err(v->Num_0) is Nil || v is Str || v is B ==> nums_ok(leaf_tree(v, ts)),
{
    broadcast use ax_json_int;
    lemma_lits();
    lemma_dec_str(ts as int);
    let e = Map::<Str, Any>::empty().insert(leaf_value_key(), v);
    let m = e.insert(leaf_timestamp_key(), Any::Num(dec_str(ts as int)));
    assert(leaf_value_key() != leaf_timestamp_key());
    assert(Map::<Str, Any>::empty().dom().len() == 0);
    assert(e.dom() =~= Map::<Str, Any>::empty().dom().insert(leaf_value_key()));
    assert(m.dom() =~= e.dom().insert(leaf_timestamp_key()));
    assert(m.dom().len() == 2);
    assert(nums_ok(Any::Num(dec_str(ts as int))));
    if v is Num && parse_f64_err(v->Num_0) is Nil || v is Str || v is B { assert(nums_ok(v)); }
}
// C06: the JSON form of a document reads back as that document
pub proof fn theorem_form(v: Val)
    requires doc_ok(v),
    ensures nums_ok(val_tree(v)), is_form(val_tree(v)), form_doc(val_tree(v)) == v,
    decreases v,
{
    broadcast use ax_json_number;
    match v {
        Val::LS(l) => { lemma_leaf_tree(Any::Str(l.Value), l.Timestamp); },
        Val::LF(l) => { lemma_leaf_tree(Any::Num(f64_json(l.Value)), l.Timestamp); },
        Val::LB(l) => { lemma_leaf_tree(Any::B(l.Value), l.Timestamp); },
        Val::Obj(m) => {
            let t = val_tree(v)->M_0;
            assert forall|k: Str| #[trigger] t.dom().contains(k) implies nums_ok(t[k]) && is_form(t[k]) && form_doc(t[k]) == m[k] && !(t[k] is Num) by {
                assert(m.dom().contains(k));
                theorem_form(m[k]);
            }
            assert(leaf_of(t) is None);
            assert(form_doc(val_tree(v))->Obj_0 =~= m);
        },
        Val::Arr(a) => {
            let t = val_tree(v)->S_0;
            assert forall|i: int| 0 <= i < t.len() implies nums_ok(#[trigger] t[i]) && is_form(t[i]) && form_doc(t[i]) == a[i] by { theorem_form(a[i]); }
            assert(form_doc(val_tree(v))->Arr_0 =~= a);
        },
        _ => {},
    }
}
// the same content as Go maps and slices, timestamps kept as int64
pub open spec fn leaf_map(v: Any, ts: i64) -> Any {
    Any::M(Map::<Str, Any>::empty().insert(leaf_value_key(), v).insert(leaf_timestamp_key(), Any::I64(ts)))
}
pub open spec fn val_map(v: Val) -> Any
    decreases v,
{
    match v {
        Val::Nil => Any::Nil,
        Val::LS(l) => leaf_map(Any::Str(l.Value), l.Timestamp),
        Val::LF(l) => leaf_map(Any::F(l.Value), l.Timestamp),
        Val::LB(l) => leaf_map(Any::B(l.Value), l.Timestamp),
        Val::Obj(m) => Any::M(Map::new(m.dom(), |k: Str| if m.dom().contains(k) { val_map(m[k]) } else { Any::Nil })),
        Val::Arr(a) => Any::S(Seq::new(a.len(), |i: int| if 0 <= i < a.len() { val_map(a[i]) } else { Any::Nil })),
    }
}
pub proof fn lemma_leaf_map(v: Any, ts: i64)
    requires v is Str || v is F || v is B,
    ensures
        any_tree(leaf_map(v, ts)) == leaf_tree(any_tree(v), ts),
        json_ok(v) ==> json_ok(leaf_map(v, ts)),
{
    lemma_lits();
    ax_utf8_keys();
    let m = leaf_map(v, ts)->M_0;
    assert(leaf_value_key() != leaf_timestamp_key());
    assert(any_tree(Any::I64(ts)) == Any::Num(dec_str(ts as int)));
    assert(json_ok(Any::I64(ts)));
    assert(any_tree(v) == any_tree(m[leaf_value_key()]));
    assert(any_tree(leaf_map(v, ts))->M_0 =~= leaf_tree(any_tree(v), ts)->M_0);
}
pub axiom fn ax_utf8_keys()
    ensures utf8(leaf_value_key()), utf8(leaf_timestamp_key()),
;
pub proof fn lemma_val_map(v: Val)
    ensures any_tree(val_map(v)) == val_tree(v), doc_ok(v) ==> json_ok(val_map(v)),
    decreases v,
{
    match v {
        Val::LS(l) => { lemma_leaf_map(Any::Str(l.Value), l.Timestamp); },
        Val::LF(l) => { lemma_leaf_map(Any::F(l.Value), l.Timestamp); },
        Val::LB(l) => { lemma_leaf_map(Any::B(l.Value), l.Timestamp); },
        Val::Obj(m) => {
            let t = val_map(v)->M_0;
            assert forall|k: Str| #[trigger] t.dom().contains(k) implies any_tree(t[k]) == val_tree(m[k]) && (doc_ok(m[k]) ==> json_ok(t[k])) by { assert(m.dom().contains(k)); lemma_val_map(m[k]); }
            assert(any_tree(val_map(v))->M_0 =~= val_tree(v)->M_0);
            if doc_ok(v) { assert forall|k: Str| #[trigger] t.dom().contains(k) implies utf8(k) && json_ok(t[k]) by { assert(m.dom().contains(k)); } }
        },
        Val::Arr(a) => {
            let t = val_map(v)->S_0;
            assert forall|i: int| 0 <= i < t.len() implies any_tree(#[trigger] t[i]) == val_tree(a[i]) && (doc_ok(a[i]) ==> json_ok(t[i])) by { lemma_val_map(a[i]); }
            assert(any_tree(val_map(v))->S_0 =~= val_tree(v)->S_0);
            if doc_ok(v) { assert forall|i: int| 0 <= i < t.len() implies json_ok(#[trigger] t[i]) by { assert(doc_ok(a[i])); } }
        },
        _ => {},
    }
}
pub proof fn lemma_num_member(a: Any, k: Str)
    requires a is M, num_tree(a), a->M_0.dom().contains(k),
    ensures num_tree(a->M_0[k]),
{
}
