// Generated patches: paths and what their operations do to a document.

// ---- escaping of reference tokens
pub open spec fn escape(s: Str) -> Str
    decreases s.len(),
{
    if s.len() == 0 { s } else {
        (if s[0] == 126 { seq![126u8, 48u8] } else if s[0] == 47 { seq![126u8, 49u8] } else { seq![s[0]] }) + escape(s.skip(1))
    }
}
pub proof fn lemma_encoder(s: Str)
    ensures replacer(Seq::<(Str, Str)>::empty().push(("~", "~0")).push(("/", "~1")), s) == escape(s),
    decreases s.len(),
{
    let t = Seq::<(Str, Str)>::empty().push(("~", "~0")).push(("/", "~1"));
    lemma_lits();
    reveal_with_fuel(repl_match, 3);
    assert(t.skip(1) =~= seq![("/", "~1")]);
    assert(t.skip(1).skip(1) =~= Seq::empty());
    if s.len() > 0 {
        assert(t[0] == ("~", "~0") && t[1] == ("/", "~1"));
        assert(has_prefix(s, "~") <==> s[0] == 126) by {
            if s[0] == 126 { assert(s.take(1) =~= "~"); }
            if has_prefix(s, "~") { assert(s.take(1)[0] == 126); }
        }
        assert(has_prefix(s, "/") <==> s[0] == 47) by {
            if s[0] == 47 { assert(s.take(1) =~= "/"); }
            if has_prefix(s, "/") { assert(s.take(1)[0] == 47); }
        }
        assert(seq![126u8, 48u8] =~= "~0");
        assert(seq![126u8, 49u8] =~= "~1");
        lemma_encoder(s.skip(1));
    }
}
pub proof fn lemma_unescape(s: Str)
    ensures unescape(escape(s)) == s, !escape(s).contains(47u8),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_unescape(s.skip(1));
        let e = escape(s.skip(1));
        let x = escape(s);
        if s[0] == 126 || s[0] == 47 {
            assert(x.skip(2) =~= e);
            assert(x[0] == 126);
            assert(x[1] == (if s[0] == 126 { 48u8 } else { 49u8 }));
            assert forall|i: int| 0 <= i < x.len() implies x[i] != 47 by { if i >= 2 { assert(x[i] == e[i - 2]); assert(e.contains(e[i - 2])); } }
        } else {
            assert(x.skip(1) =~= e);
            assert(x[0] == s[0]);
            assert forall|i: int| 0 <= i < x.len() implies x[i] != 47 by { if i >= 1 { assert(x[i] == e[i - 1]); assert(e.contains(e[i - 1])); } }
        }
        assert(seq![s[0]] + s.skip(1) =~= s);
    }
}

// ---- paths
pub open spec fn enc(parts: Seq<Str>) -> Str
    decreases parts.len(),
{
    if parts.len() == 0 { Seq::empty() } else { seq![47u8] + escape(parts[0]) + enc(parts.skip(1)) }
}
// reference tokens of a path, none for the whole document
pub open spec fn tok(path: Str) -> Seq<Str> { if path.len() == 0 { Seq::empty() } else { path_parts(path) } }
pub open spec fn canon(path: Str) -> bool { path == enc(tok(path)) }

pub proof fn lemma_enc_push(parts: Seq<Str>, t: Str)
    ensures enc(parts.push(t)) == enc(parts) + seq![47u8] + escape(t),
    decreases parts.len(),
{
    let q = parts.push(t);
    if parts.len() == 0 {
        assert(q.skip(1) =~= Seq::empty());
        assert(enc(q.skip(1)) =~= Seq::empty());
        assert(enc(parts) =~= Seq::empty());
        assert(enc(q) =~= enc(parts) + seq![47u8] + escape(t));
    } else {
        assert(q.skip(1) =~= parts.skip(1).push(t));
        lemma_enc_push(parts.skip(1), t);
        assert(enc(q) =~= enc(parts) + seq![47u8] + escape(t));
    }
}
pub proof fn lemma_split_enc(parts: Seq<Str>)
    requires parts.len() > 0,
    ensures split(enc(parts).skip(1), 47u8) == parts.map_values(|p: Str| escape(p)),
    decreases parts.len(),
{
    let e = escape(parts[0]);
    let rest = enc(parts.skip(1));
    let body = enc(parts).skip(1);
    lemma_unescape(parts[0]);
    assert(body =~= e + rest);
    if parts.len() == 1 {
        assert(body =~= e);
        assert(split(body, 47u8) =~= parts.map_values(|p: Str| escape(p)));
    } else {
        assert(rest[0] == 47);
        assert(body[e.len() as int] == 47);
        assert(body.contains(47u8));
        body.index_of_first_ensures(47u8);
        let i = body.index_of_first(47u8)->Some_0;
        assert(i == e.len()) by {
            if i < e.len() { assert(body[i] == e[i]); assert(e.contains(e[i])); }
        }
        assert(body.take(i) =~= e);
        assert(body.skip(i + 1) =~= rest.skip(1));
        lemma_split_enc(parts.skip(1));
        assert(split(body, 47u8) =~= parts.map_values(|p: Str| escape(p))) by {
            let r = parts.skip(1).map_values(|p: Str| escape(p));
            assert(split(body, 47u8) =~= seq![e] + r);
            assert(seq![e] + r =~= parts.map_values(|p: Str| escape(p)));
        }
    }
}
pub proof fn lemma_tok_enc(parts: Seq<Str>)
    ensures tok(enc(parts)) == parts, canon(enc(parts)),
{
    if parts.len() > 0 {
        lemma_split_enc(parts);
        lemma_lits();
        assert(enc(parts).take(1) =~= "/");
        assert forall|i: int| 0 <= i < parts.len() implies unescape(#[trigger] escape(parts[i])) == parts[i] by { lemma_unescape(parts[i]); }
        assert(tok(enc(parts)) =~= parts);
    }
}
// the path one token below another
pub proof fn lemma_below(path: Str, t: Str)
    requires canon(path),
    ensures canon(path + seq![47u8] + escape(t)), tok(path + seq![47u8] + escape(t)) == tok(path).push(t),
{
    lemma_enc_push(tok(path), t);
    lemma_tok_enc(tok(path).push(t));
}

// ---- generated operations, relative to a path of n tokens
pub open spec fn rel(op: Operation, n: nat) -> Seq<Str> { tok(op.Path).skip(n as int) }
pub open spec fn rel_apply(d: Val, parts: Seq<Str>, op: Operation) -> Option<Val> {
    if parts.len() == 0 {
        if op_sets(op) { op_leaf(op) } else { None }
    } else {
        apply_parts(d, parts, op)
    }
}
pub open spec fn fold_rel(d: Val, ops: Seq<Operation>, n: nat) -> Option<Val>
    decreases ops.len(),
{
    if ops.len() == 0 { Some(d) } else {
        match fold_rel(d, ops.drop_last(), n) {
            Some(x) => rel_apply(x, rel(ops.last(), n), ops.last()),
            None => None,
        }
    }
}
// op addresses the location path or one below it
pub open spec fn under(op: Operation, path: Seq<Str>) -> bool {
    canon(op.Path) && path.len() <= tok(op.Path).len() && tok(op.Path).take(path.len() as int) == path
}
#[verifier::opaque]
pub open spec fn all_under(ops: Seq<Operation>, path: Seq<Str>) -> bool {
    forall|i: int| 0 <= i < ops.len() ==> under(#[trigger] ops[i], path)
}

// every added or retyped member is a leaf
pub open spec fn can_gen(a: Val, b: Val) -> bool
    decreases b,
{
    match (a, b) {
        (Val::Obj(x), Val::Obj(y)) => forall|k: Str| #[trigger] y.dom().contains(k) ==> if x.dom().contains(k) { can_gen(x[k], y[k]) } else { is_leaf(y[k]) },
        (Val::Arr(x), Val::Arr(y)) => forall|i: int| 0 <= i < y.len() ==> if i < x.len() { can_gen(x[i], #[trigger] y[i]) } else { is_leaf(y[i]) },
        _ => val_tag(a) == val_tag(b) || is_leaf(b),
    }
}
pub proof fn lemma_fold_rel_add(d: Val, a: Seq<Operation>, b: Seq<Operation>, n: nat)
    requires fold_rel(d, a, n) is Some,
    ensures fold_rel(d, a + b, n) == fold_rel(fold_rel(d, a, n)->Some_0, b, n),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        lemma_fold_rel_add(d, a, b.drop_last(), n);
    }
}
// operations on the member k of an object
pub proof fn lemma_lift_obj(m: Map<Str, Val>, k: Str, ops: Seq<Operation>, path: Seq<Str>)
    requires m.dom().contains(k) || ops.len() > 0, all_under(ops, path.push(k)), fold_rel(mget(m, k, Val::Nil), ops, (path.len() + 1) as nat) is Some,
    ensures fold_rel(Val::Obj(m), ops, path.len()) == Some(Val::Obj(m.insert(k, fold_rel(mget(m, k, Val::Nil), ops, (path.len() + 1) as nat)->Some_0))),
    decreases ops.len(),
{
    reveal(all_under);
    let n = path.len();
    let x = mget(m, k, Val::Nil);
    if ops.len() == 0 {
        assert(m.insert(k, m[k]) =~= m);
    } else {
        let o = ops.last();
        let p = rel(o, n);
        assert(under(o, path.push(k)));
        assert(p[0] == k) by { assert(tok(o.Path).take(n as int + 1)[n as int] == k); }
        assert(p.skip(1) =~= rel(o, (n + 1) as nat));
        let c2 = fold_rel(x, ops, (n + 1) as nat)->Some_0;
        if ops.len() == 1 {
            assert(ops.drop_last() =~= Seq::empty());
            assert(fold_rel(x, ops.drop_last(), (n + 1) as nat) == Some(x));
            assert(fold_rel(Val::Obj(m), ops.drop_last(), n) == Some(Val::Obj(m)));
        } else {
            lemma_lift_obj(m, k, ops.drop_last(), path);
            let c = fold_rel(x, ops.drop_last(), (n + 1) as nat)->Some_0;
            assert(m.insert(k, c)[k] == c);
            assert(m.insert(k, c).insert(k, c2) =~= m.insert(k, c2));
        }
    }
}
// operations on the element i of an array
pub proof fn lemma_lift_arr(a: Seq<Val>, i: int, ops: Seq<Operation>, path: Seq<Str>)
    requires 0 <= i < a.len(), i <= i64::MAX, all_under(ops, path.push(dec_str(i))), fold_rel(a[i], ops, (path.len() + 1) as nat) is Some,
    ensures fold_rel(Val::Arr(a), ops, path.len()) == Some(Val::Arr(a.update(i, fold_rel(a[i], ops, (path.len() + 1) as nat)->Some_0))),
    decreases ops.len(),
{
    reveal(all_under);
    let n = path.len();
    if ops.len() == 0 {
        assert(a.update(i, a[i]) =~= a);
    } else {
        let k = dec_str(i);
        let o = ops.last();
        lemma_lift_arr(a, i, ops.drop_last(), path);
        lemma_idx(i);
        let c = fold_rel(a[i], ops.drop_last(), (n + 1) as nat)->Some_0;
        let p = rel(o, n);
        assert(under(o, path.push(k)));
        assert(p[0] == k) by { assert(tok(o.Path).take(n as int + 1)[n as int] == k); }
        assert(p.skip(1) =~= rel(o, (n + 1) as nat));
        let c2 = fold_rel(a[i], ops, (n + 1) as nat)->Some_0;
        assert(a.update(i, c).update(i, c2) =~= a.update(i, c2));
    }
}
pub proof fn lemma_idx(i: int)
    requires 0 <= i <= i64::MAX,
    ensures idx_of(dec_str(i)) == Some(i),
{
    lemma_dec_nat(i as nat);
}
// at the root, the relative reading is the patch's meaning
pub proof fn lemma_fold_root(d: Val, ops: Seq<Operation>)
    requires fold_rel(d, ops, 0) is Some,
    ensures fold_ops(d, ops) == fold_rel(d, ops, 0),
    decreases ops.len(),
{
    if ops.len() > 0 {
        lemma_fold_root(d, ops.drop_last());
        assert(rel(ops.last(), 0) =~= tok(ops.last().Path));
        let o = ops.last();
        if o.Path.len() > 0 { lemma_split_some(o.Path); }
    }
}
pub proof fn lemma_split_some(s: Str)
    ensures path_parts(s).len() > 0,
{
    let b = if has_prefix(s, "/") { s.skip(1) } else { replace_byte(s, 46u8, 47u8) };
    assert(split(b, 47u8).len() > 0);
}

// ---- C12: what the operations generated so far do
#[verifier::opaque]
pub open spec fn yields(a: Val, b: Val, q: Seq<Operation>, n: nat, ts: bool) -> bool {
    fold_rel(a, q, n) is Some && same_doc(fold_rel(a, q, n)->Some_0, b, ts)
}
// the members in s have been dealt with, those in r removed unless b has them
pub open spec fn gone(r: Seq<Str>, b: Map<Str, Val>, k: Str) -> bool { r.contains(k) && !b.dom().contains(k) }
#[verifier::opaque]
pub open spec fn obj12(a: Map<Str, Val>, b: Map<Str, Val>, q: Seq<Operation>, n: nat, s: Seq<Str>, r: Seq<Str>, ts: bool) -> bool {
    match fold_rel(Val::Obj(a), q, n) {
        Some(Val::Obj(m)) => {
            &&& forall|k: Str| #[trigger] m.dom().contains(k) <==> s.contains(k) || a.dom().contains(k) && !gone(r, b, k)
            &&& forall|k: Str| #[trigger] m.dom().contains(k) ==> if s.contains(k) { same_doc(m[k], b[k], ts) } else { m[k] == a[k] }
        },
        _ => false,
    }
}
pub proof fn lemma_obj12_step(a: Map<Str, Val>, b: Map<Str, Val>, q: Seq<Operation>, q1: Seq<Operation>, k: Str, path: Seq<Str>, s: Seq<Str>, r: Seq<Str>, ts: bool)
    requires
        obj12(a, b, q, path.len(), s, r, ts), !s.contains(k), !r.contains(k), a.dom().contains(k) || q1.len() > 0,
        all_under(q1, path.push(k)), yields(mget(a, k, Val::Nil), b[k], q1, (path.len() + 1) as nat, ts),
    ensures obj12(a, b, q + q1, path.len(), s.push(k), r, ts),
{
    reveal(obj12);
    reveal(yields);
    reveal(all_under);
    let n = path.len();
    let m = fold_rel(Val::Obj(a), q, n)->Some_0->Obj_0;
    lemma_push_contains(s, k);
    assert(m.dom().contains(k) <==> a.dom().contains(k));
    assert(mget(m, k, Val::Nil) == mget(a, k, Val::Nil));
    lemma_lift_obj(m, k, q1, path);
    lemma_fold_rel_add(Val::Obj(a), q, q1, n);
}
pub proof fn lemma_obj12_remove(a: Map<Str, Val>, b: Map<Str, Val>, q: Seq<Operation>, o: Operation, k: Str, path: Seq<Str>, s: Seq<Str>, r: Seq<Str>, ts: bool)
    requires
        obj12(a, b, q, path.len(), s, r, ts), !s.contains(k), a.dom().contains(k), !r.contains(k), !b.dom().contains(k),
        tok(o.Path) == path.push(k), op_removes(o), !op_sets(o),
    ensures obj12(a, b, q.push(o), path.len(), s, r.push(k), ts),
{
    reveal(obj12);
    let n = path.len();
    lemma_push_contains(r, k);
    assert(q.push(o).drop_last() =~= q);
    assert(rel(o, n) =~= seq![k]);
    let m = fold_rel(Val::Obj(a), q, n)->Some_0->Obj_0;
    assert(fold_rel(Val::Obj(a), q.push(o), n) == Some(Val::Obj(m.remove(k))));
    assert forall|x: Str| #[trigger] m.remove(k).dom().contains(x) <==> s.contains(x) || a.dom().contains(x) && !gone(r.push(k), b, x) by {
        assert(m.dom().contains(x) <==> s.contains(x) || a.dom().contains(x) && !gone(r, b, x));
        assert(r.push(k).contains(x) <==> r.contains(x) || x == k);
    }
}
pub proof fn lemma_obj12_keep(a: Map<Str, Val>, b: Map<Str, Val>, q: Seq<Operation>, k: Str, n: nat, s: Seq<Str>, r: Seq<Str>, ts: bool)
    requires obj12(a, b, q, n, s, r, ts), b.dom().contains(k),
    ensures obj12(a, b, q, n, s, r.push(k), ts),
{
    reveal(obj12);
    lemma_push_contains(r, k);
    let m = fold_rel(Val::Obj(a), q, n)->Some_0->Obj_0;
    assert forall|x: Str| #[trigger] m.dom().contains(x) <==> s.contains(x) || a.dom().contains(x) && !gone(r.push(k), b, x) by {
        assert(r.push(k).contains(x) <==> r.contains(x) || x == k);
        assert(gone(r.push(k), b, x) == gone(r, b, x));
    }
}
pub proof fn lemma_obj12_end(a: Map<Str, Val>, b: Map<Str, Val>, q: Seq<Operation>, n: nat, s: Seq<Str>, r: Seq<Str>, ts: bool)
    requires
        obj12(a, b, q, n, s, r, ts),
        forall|k: Str| #[trigger] s.contains(k) <==> b.dom().contains(k),
        forall|k: Str| #[trigger] r.contains(k) <==> a.dom().contains(k),
    ensures yields(Val::Obj(a), Val::Obj(b), q, n, ts),
{
    reveal(obj12);
    reveal(yields);
    let m = fold_rel(Val::Obj(a), q, n)->Some_0->Obj_0;
    assert forall|k: Str| #[trigger] m.dom().contains(k) <==> b.dom().contains(k) by { assert(s.contains(k) <==> b.dom().contains(k)); assert(r.contains(k) <==> a.dom().contains(k)); }
}
// the elements before i have been dealt with
#[verifier::opaque]
pub open spec fn arr12(a: Seq<Val>, b: Seq<Val>, q: Seq<Operation>, n: nat, i: int, ts: bool) -> bool {
    match fold_rel(Val::Arr(a), q, n) {
        Some(Val::Arr(m)) => {
            &&& m.len() == a.len()
            &&& forall|j: int| 0 <= j < m.len() ==> if j < i { same_doc(#[trigger] m[j], b[j], ts) } else { m[j] == a[j] }
        },
        _ => false,
    }
}
pub proof fn lemma_arr12_step(a: Seq<Val>, b: Seq<Val>, q: Seq<Operation>, q1: Seq<Operation>, i: int, path: Seq<Str>, ts: bool)
    requires
        arr12(a, b, q, path.len(), i, ts), 0 <= i < a.len(), i <= i64::MAX,
        all_under(q1, path.push(dec_str(i))), yields(a[i], b[i], q1, (path.len() + 1) as nat, ts),
    ensures arr12(a, b, q + q1, path.len(), i + 1, ts),
{
    reveal(arr12);
    reveal(yields);
    reveal(all_under);
    let n = path.len();
    let m = fold_rel(Val::Arr(a), q, n)->Some_0->Arr_0;
    assert(m[i] == a[i]);
    lemma_lift_arr(m, i, q1, path);
    lemma_fold_rel_add(Val::Arr(a), q, q1, n);
}
// the document q turns a into is an array like b of l elements
#[verifier::opaque]
pub open spec fn part12(a: Seq<Val>, b: Seq<Val>, q: Seq<Operation>, n: nat, l: int, ts: bool) -> bool {
    match fold_rel(Val::Arr(a), q, n) {
        Some(Val::Arr(m)) => {
            &&& m.len() == l
            &&& forall|j: int| 0 <= j < m.len() && j < b.len() ==> same_doc(#[trigger] m[j], b[j], ts)
        },
        _ => false,
    }
}
pub proof fn lemma_part12_remove(a: Seq<Val>, b: Seq<Val>, q: Seq<Operation>, o: Operation, i: int, path: Seq<Str>, ts: bool)
    requires
        part12(a, b, q, path.len(), i + 1, ts), b.len() <= i <= i64::MAX,
        tok(o.Path) == path.push(dec_str(i)), op_removes(o), !op_sets(o),
    ensures part12(a, b, q.push(o), path.len(), i, ts),
{
    reveal(part12);
    let n = path.len();
    lemma_idx(i);
    assert(q.push(o).drop_last() =~= q);
    assert(rel(o, n) =~= seq![dec_str(i)]);
}
pub proof fn lemma_part12_add(a: Seq<Val>, b: Seq<Val>, q: Seq<Operation>, o: Operation, i: int, path: Seq<Str>, ts: bool)
    requires
        part12(a, b, q, path.len(), i, ts), 0 <= i < b.len(), i <= i64::MAX,
        tok(o.Path) == path.push(dec_str(i)), op_sets(o), op_leaf(o) is Some, same_doc(op_leaf(o)->Some_0, b[i], ts),
    ensures part12(a, b, q.push(o), path.len(), i + 1, ts),
{
    reveal(part12);
    let n = path.len();
    lemma_idx(i);
    assert(q.push(o).drop_last() =~= q);
    assert(rel(o, n) =~= seq![dec_str(i)]);
    let m = fold_rel(Val::Arr(a), q, n)->Some_0->Arr_0;
    let l = op_leaf(o)->Some_0;
    assert(fold_rel(Val::Arr(a), q.push(o), n) == Some(Val::Arr(m.push(l))));
}
pub proof fn lemma_part12_end(a: Seq<Val>, b: Seq<Val>, q: Seq<Operation>, n: nat, ts: bool)
    requires part12(a, b, q, n, b.len() as int, ts),
    ensures yields(Val::Arr(a), Val::Arr(b), q, n, ts),
{
    reveal(part12);
    reveal(yields);
}
// a single operation that writes b
pub proof fn lemma_one12(a: Val, b: Val, o: Operation, path: Seq<Str>, ts: bool)
    requires canon(o.Path), tok(o.Path) == path, op_sets(o), op_leaf(o) == Some(b), finite_doc(b),
    ensures yields(a, b, seq![o], path.len(), ts), all_under(seq![o], path),
{
    reveal(yields);
    reveal(all_under);
    assert(seq![o].drop_last() =~= Seq::empty());
    assert(fold_rel(a, seq![o].drop_last(), path.len()) == Some(a));
    assert(rel(o, path.len()) =~= Seq::empty());
    lemma_same_refl(b, ts);
    assert(path.take(path.len() as int) =~= path);
}
pub proof fn lemma_under_below(q: Seq<Operation>, path: Seq<Str>, k: Str)
    ensures all_under(q, path.push(k)) ==> all_under(q, path),
{
    reveal(all_under);
    if all_under(q, path.push(k)) {
        assert forall|i: int| 0 <= i < q.len() implies under(#[trigger] q[i], path) by {
            assert(under(q[i], path.push(k)));
            assert(tok(q[i].Path).take(path.len() as int) =~= path.push(k).take(path.len() as int));
            assert(path.push(k).take(path.len() as int) =~= path);
        }
    }
}
pub proof fn lemma_under_add(q: Seq<Operation>, q1: Seq<Operation>, path: Seq<Str>)
    requires all_under(q, path), all_under(q1, path),
    ensures all_under(q + q1, path),
{
    reveal(all_under);
}

// ---- C13: what the operations generated so far record
// a removal carries no value, any other operation a plain one
pub open spec fn drops(o: Operation) -> bool { op_removes(o) && !op_sets(o) && o.Value is Nil }
pub open spec fn given(o: Operation) -> bool { o.Value is Str || o.Value is F || o.Value is B }
pub open spec fn records_op(a: Val, b: Val, o: Operation, n: nat) -> bool {
    if op_sets(o) { op_leaf(o) is Some && lookup(b, rel(o, n)) == op_leaf(o) && given(o) } else { drops(o) && lookup(b, rel(o, n)) is None && lookup(a, rel(o, n)) is Some }
}
pub open spec fn carries(a: Val, b: Val, q: Seq<Operation>, n: nat) -> bool {
    forall|i: int| 0 <= i < q.len() ==> records_op(a, b, #[trigger] q[i], n)
}
pub open spec fn distinct_paths(q: Seq<Operation>) -> bool {
    forall|i: int, j: int| 0 <= i < j < q.len() ==> (#[trigger] q[i]).Path != (#[trigger] q[j]).Path
}
#[verifier::opaque]
pub open spec fn records(a: Val, b: Val, q: Seq<Operation>, n: nat, ts: bool) -> bool {
    carries(a, b, q, n) && distinct_paths(q) && ((q.len() == 0) == same_doc(a, b, ts))
}
pub open spec fn head_tok(o: Operation, n: nat) -> Str { tok(o.Path)[n as int] }
pub proof fn lemma_distinct_add(q: Seq<Operation>, q1: Seq<Operation>, path: Seq<Str>, k: Str)
    requires
        distinct_paths(q), distinct_paths(q1), all_under(q1, path.push(k)),
        forall|i: int| 0 <= i < q.len() ==> head_tok(#[trigger] q[i], path.len()) != k,
    ensures
        distinct_paths(q + q1),
        forall|i: int| 0 <= i < q1.len() ==> head_tok(#[trigger] q1[i], path.len()) == k && tok(q1[i].Path).len() > path.len(),
{
    reveal(all_under);
    let n = path.len();
    assert forall|i: int| 0 <= i < q1.len() implies head_tok(#[trigger] q1[i], n) == k && tok(q1[i].Path).len() > n by {
        assert(under(q1[i], path.push(k)));
        assert(tok(q1[i].Path).take(n as int + 1)[n as int] == path.push(k)[n as int]);
    }
    let t = q + q1;
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).Path != (#[trigger] t[j]).Path by {
        if i < q.len() && j >= q.len() { assert(t[j] == q1[j - q.len()]); assert(t[i] == q[i]); }
        else if j < q.len() { assert(t[i] == q[i] && t[j] == q[j]); }
        else { assert(t[i] == q1[i - q.len()] && t[j] == q1[j - q.len()]); }
    }
}
#[verifier::opaque]
pub open spec fn obj13(a: Map<Str, Val>, b: Map<Str, Val>, q: Seq<Operation>, path: Seq<Str>, s: Seq<Str>, r: Seq<Str>, ts: bool) -> bool {
    let n = path.len();
    &&& forall|i: int| 0 <= i < q.len() ==> s.contains(head_tok(#[trigger] q[i], n)) || gone(r, b, head_tok(q[i], n))
    &&& carries(Val::Obj(a), Val::Obj(b), q, n)
    &&& distinct_paths(q)
    &&& q.len() == 0 ==> (forall|k: Str| #[trigger] s.contains(k) ==> a.dom().contains(k) && same_doc(a[k], b[k], ts)) && (forall|k: Str| #[trigger] r.contains(k) ==> b.dom().contains(k))
    &&& q.len() > 0 ==> (exists|k: Str| #[trigger] s.contains(k) && !(a.dom().contains(k) && same_doc(a[k], b[k], ts))) || (exists|k: Str| #[trigger] r.contains(k) && !b.dom().contains(k))
}
pub proof fn lemma_obj13_step(a: Map<Str, Val>, b: Map<Str, Val>, q: Seq<Operation>, q1: Seq<Operation>, k: Str, path: Seq<Str>, s: Seq<Str>, ts: bool)
    requires
        obj13(a, b, q, path, s, Seq::empty(), ts), !s.contains(k), a.dom().contains(k) || q1.len() > 0, b.dom().contains(k),
        all_under(q1, path.push(k)), records(mget(a, k, Val::Nil), b[k], q1, (path.len() + 1) as nat, ts),
    ensures obj13(a, b, q + q1, path, s.push(k), Seq::empty(), ts),
{
    reveal(obj13);
    reveal(records);
    reveal(all_under);
    let n = path.len();
    let r = Seq::<Str>::empty();
    lemma_push_contains(s, k);
    assert(s.push(k).contains(k));
    lemma_distinct_add(q, q1, path, k);
    let t = q + q1;
    assert forall|i: int| 0 <= i < t.len() implies s.push(k).contains(head_tok(#[trigger] t[i], n)) && records_op(Val::Obj(a), Val::Obj(b), t[i], n) by {
        if i < q.len() { assert(t[i] == q[i]); assert(s.contains(head_tok(q[i], n))); assert(records_op(Val::Obj(a), Val::Obj(b), q[i], n)); } else {
            let o = q1[i - q.len()];
            assert(t[i] == o);
            assert(head_tok(o, n) == k);
            assert(rel(o, n).skip(1) =~= rel(o, (n + 1) as nat));
            assert(rel(o, n)[0] == k);
            assert(records_op(mget(a, k, Val::Nil), b[k], o, (n + 1) as nat));
        }
    }
    if q1.len() > 0 { assert(s.push(k).contains(k) && !(a.dom().contains(k) && same_doc(a[k], b[k], ts))); }
    else if q.len() > 0 { assert(t =~= q); let x = choose|x: Str| #[trigger] s.contains(x) && !(a.dom().contains(x) && same_doc(a[x], b[x], ts)); assert(s.push(k).contains(x)); }
}
pub proof fn lemma_obj13_remove(a: Map<Str, Val>, b: Map<Str, Val>, q: Seq<Operation>, o: Operation, k: Str, path: Seq<Str>, s: Seq<Str>, r: Seq<Str>, ts: bool)
    requires
        obj13(a, b, q, path, s, r, ts), !s.contains(k), a.dom().contains(k), !r.contains(k), !b.dom().contains(k),
        canon(o.Path), tok(o.Path) == path.push(k), drops(o),
    ensures obj13(a, b, q.push(o), path, s, r.push(k), ts),
{
    reveal(obj13);
    reveal(all_under);
    let n = path.len();
    lemma_push_contains(r, k);
    assert(path.push(k).take(n as int + 1) =~= path.push(k));
    assert(all_under(seq![o], path.push(k)));
    assert forall|i: int| 0 <= i < q.len() implies head_tok(#[trigger] q[i], n) != k by {}
    lemma_distinct_add(q, seq![o], path, k);
    assert(q + seq![o] =~= q.push(o));
    assert(rel(o, n) =~= seq![k]);
    assert(lookup(a[k], seq![k].skip(1)) == Some(a[k]));
    assert(r.push(k).contains(k));
}
pub proof fn lemma_obj13_keep(a: Map<Str, Val>, b: Map<Str, Val>, q: Seq<Operation>, k: Str, path: Seq<Str>, s: Seq<Str>, r: Seq<Str>, ts: bool)
    requires obj13(a, b, q, path, s, r, ts), b.dom().contains(k),
    ensures obj13(a, b, q, path, s, r.push(k), ts),
{
    reveal(obj13);
    lemma_push_contains(r, k);
    if exists|x: Str| #[trigger] r.contains(x) && !b.dom().contains(x) { let x = choose|x: Str| #[trigger] r.contains(x) && !b.dom().contains(x); assert(r.push(k).contains(x)); }
    assert forall|i: int| 0 <= i < q.len() implies s.contains(head_tok(#[trigger] q[i], path.len())) || gone(r.push(k), b, head_tok(q[i], path.len())) by {}
}
pub proof fn lemma_obj13_end(a: Map<Str, Val>, b: Map<Str, Val>, q: Seq<Operation>, path: Seq<Str>, s: Seq<Str>, r: Seq<Str>, ts: bool)
    requires
        obj13(a, b, q, path, s, r, ts),
        forall|k: Str| #[trigger] s.contains(k) <==> b.dom().contains(k),
        forall|k: Str| #[trigger] r.contains(k) <==> a.dom().contains(k),
    ensures records(Val::Obj(a), Val::Obj(b), q, path.len(), ts),
{
    reveal(obj13);
    reveal(records);
    lemma_same_obj(a, b, ts);
    if q.len() == 0 {
        assert forall|k: Str| #[trigger] a.dom().contains(k) implies b.dom().contains(k) && same_doc(a[k], b[k], ts) by { assert(r.contains(k)); assert(s.contains(k)); }
        assert forall|k: Str| #[trigger] b.dom().contains(k) implies a.dom().contains(k) by { assert(s.contains(k)); }
    } else if same_doc(Val::Obj(a), Val::Obj(b), ts) {
        if exists|k: Str| #[trigger] s.contains(k) && !(a.dom().contains(k) && same_doc(a[k], b[k], ts)) {
            let k = choose|k: Str| #[trigger] s.contains(k) && !(a.dom().contains(k) && same_doc(a[k], b[k], ts));
            assert(b.dom().contains(k)); assert(a.dom().contains(k));
        } else {
            let k = choose|k: Str| #[trigger] r.contains(k) && !b.dom().contains(k);
            assert(a.dom().contains(k));
        }
    }
}
// elements of two arrays: those below x and those in y..z have been dealt with
pub open spec fn dealt(j: int, x: int, y: int, z: int) -> bool { 0 <= j < x || y <= j < z }
pub open spec fn agree(a: Seq<Val>, b: Seq<Val>, j: int, ts: bool) -> bool { 0 <= j < a.len() && j < b.len() && same_doc(a[j], b[j], ts) }
#[verifier::opaque]
pub open spec fn arr13(a: Seq<Val>, b: Seq<Val>, q: Seq<Operation>, path: Seq<Str>, x: int, y: int, z: int, ts: bool) -> bool {
    let n = path.len();
    &&& forall|i: int| 0 <= i < q.len() ==> idx_of(head_tok(#[trigger] q[i], n)) is Some && dealt(idx_of(head_tok(q[i], n))->Some_0, x, y, z)
    &&& carries(Val::Arr(a), Val::Arr(b), q, n)
    &&& distinct_paths(q)
    &&& q.len() == 0 ==> forall|j: int| #[trigger] dealt(j, x, y, z) ==> agree(a, b, j, ts)
    &&& q.len() > 0 ==> exists|j: int| #[trigger] dealt(j, x, y, z) && !agree(a, b, j, ts)
}
pub proof fn lemma_arr13_step(a: Seq<Val>, b: Seq<Val>, q: Seq<Operation>, q1: Seq<Operation>, j: int, path: Seq<Str>, x: int, y: int, z: int, x1: int, y1: int, ts: bool)
    requires
        arr13(a, b, q, path, x, y, z, ts), !dealt(j, x, y, z), 0 <= j <= i64::MAX,
        x1 == x && j == y1 == y - 1 && j < z || y1 == y && j == x == x1 - 1,
        all_under(q1, path.push(dec_str(j))), distinct_paths(q1), (q1.len() == 0) == agree(a, b, j, ts),
        if j < a.len() && j < b.len() { carries(a[j], b[j], q1, (path.len() + 1) as nat) } else { carries(Val::Arr(a), Val::Arr(b), q1, path.len()) },
    ensures arr13(a, b, q + q1, path, x1, y1, z, ts),
{
    reveal(arr13);
    reveal(all_under);
    let n = path.len();
    let k = dec_str(j);
    lemma_idx(j);
    assert forall|i: int| 0 <= i < q.len() implies head_tok(#[trigger] q[i], n) != k by { assert(idx_of(head_tok(q[i], n)) is Some && dealt(idx_of(head_tok(q[i], n))->Some_0, x, y, z)); }
    lemma_distinct_add(q, q1, path, k);
    let t = q + q1;
    assert forall|i: int| 0 <= i < t.len() implies idx_of(head_tok(#[trigger] t[i], n)) is Some && dealt(idx_of(head_tok(t[i], n))->Some_0, x1, y1, z) && records_op(Val::Arr(a), Val::Arr(b), t[i], n) by {
        if i < q.len() {
            assert(t[i] == q[i]);
            assert(records_op(Val::Arr(a), Val::Arr(b), q[i], n));
            assert(dealt(idx_of(head_tok(q[i], n))->Some_0, x, y, z));
        } else {
            let o = q1[i - q.len()];
            assert(t[i] == o);
            assert(head_tok(o, n) == k);
            if j < a.len() && j < b.len() {
                assert(rel(o, n).skip(1) =~= rel(o, (n + 1) as nat));
                assert(rel(o, n)[0] == k);
                assert(records_op(a[j], b[j], o, (n + 1) as nat));
            } else {
                assert(records_op(Val::Arr(a), Val::Arr(b), o, n));
            }
        }
    }
    assert(dealt(j, x1, y1, z));
    assert forall|i: int| #[trigger] dealt(i, x1, y1, z) <==> dealt(i, x, y, z) || i == j by {}
    if q1.len() > 0 { assert(dealt(j, x1, y1, z) && !agree(a, b, j, ts)); }
    else if q.len() > 0 { assert(t =~= q); let i = choose|i: int| #[trigger] dealt(i, x, y, z) && !agree(a, b, i, ts); assert(dealt(i, x1, y1, z)); }
    else {
        assert forall|i: int| #[trigger] dealt(i, x1, y1, z) implies agree(a, b, i, ts) by { if i != j { assert(dealt(i, x, y, z)); } }
    }
}
// an element only one of the arrays has
pub proof fn lemma_arr13_one(a: Seq<Val>, b: Seq<Val>, o: Operation, j: int, path: Seq<Str>, ts: bool)
    requires
        0 <= j <= i64::MAX, canon(o.Path), tok(o.Path) == path.push(dec_str(j)),
        b.len() <= j < a.len() && drops(o) || a.len() <= j < b.len() && op_sets(o) && op_leaf(o) == Some(b[j]) && given(o),
    ensures
        all_under(seq![o], path.push(dec_str(j))), carries(Val::Arr(a), Val::Arr(b), seq![o], path.len()), distinct_paths(seq![o]), !agree(a, b, j, ts),
{
    reveal(all_under);
    lemma_idx(j);
    assert(rel(o, path.len()) =~= seq![dec_str(j)]);
    assert(rel(o, path.len()).skip(1) =~= Seq::empty());
    if j < a.len() { assert(lookup(a[j], Seq::empty()) == Some(a[j])); } else { assert(lookup(b[j], Seq::empty()) == Some(b[j])); }
    assert(records_op(Val::Arr(a), Val::Arr(b), o, path.len()));
    assert(path.push(dec_str(j)).take(path.len() as int + 1) =~= path.push(dec_str(j)));
}
pub proof fn lemma_arr13_end(a: Seq<Val>, b: Seq<Val>, q: Seq<Operation>, path: Seq<Str>, x: int, y: int, z: int, ts: bool)
    requires
        arr13(a, b, q, path, x, y, z, ts),
        forall|j: int| #[trigger] dealt(j, x, y, z) <==> 0 <= j < a.len() || 0 <= j < b.len(),
    ensures records(Val::Arr(a), Val::Arr(b), q, path.len(), ts),
{
    reveal(arr13);
    reveal(records);
    if q.len() == 0 {
        assert forall|j: int| 0 <= j < a.len() implies j < b.len() && same_doc(#[trigger] a[j], b[j], ts) by { assert(dealt(j, x, y, z)); assert(agree(a, b, j, ts)); }
        if b.len() > a.len() { assert(dealt(a.len() as int, x, y, z)); assert(agree(a, b, a.len() as int, ts)); }
        if b.len() < a.len() { assert(dealt(b.len() as int, x, y, z)); assert(agree(a, b, b.len() as int, ts)); }
    } else if same_doc(Val::Arr(a), Val::Arr(b), ts) {
        let j = choose|j: int| #[trigger] dealt(j, x, y, z) && !agree(a, b, j, ts);
        assert(same_doc(a[j], b[j], ts));
    }
}
// a single operation that writes b
pub proof fn lemma_one13(a: Val, b: Val, o: Operation, path: Seq<Str>, ts: bool)
    requires canon(o.Path), tok(o.Path) == path, op_sets(o), op_leaf(o) == Some(b), given(o), !same_doc(a, b, ts),
    ensures records(a, b, seq![o], path.len(), ts),
{
    reveal(records);
    assert(rel(o, path.len()) =~= Seq::empty());
}
// ---- arrays of different length
pub open spec fn is_resize(q: Seq<Operation>, l: int, b: Seq<Val>, path: Seq<Str>) -> bool {
    if l > b.len() {
        q.len() == l - b.len() && forall|i: int| 0 <= i < q.len() ==> canon((#[trigger] q[i]).Path) && tok(q[i].Path) == path.push(dec_str(l - 1 - i)) && drops(q[i])
    } else {
        q.len() == b.len() - l && forall|i: int| 0 <= i < q.len() ==> canon((#[trigger] q[i]).Path) && tok(q[i].Path) == path.push(dec_str(l + i)) && op_sets(q[i]) && op_leaf(q[i]) == Some(b[l + i]) && given(q[i])
    }
}
pub proof fn lemma_resize_under(q: Seq<Operation>, l: int, b: Seq<Val>, path: Seq<Str>)
    requires is_resize(q, l, b, path),
    ensures all_under(q, path),
{
    reveal(all_under);
    assert forall|i: int| 0 <= i < q.len() implies under(#[trigger] q[i], path) by {
        let k = if l > b.len() { dec_str(l - 1 - i) } else { dec_str(l + i) };
        assert(path.push(k).take(path.len() as int) =~= path);
    }
}
pub proof fn lemma_resize12(a: Seq<Val>, b: Seq<Val>, q0: Seq<Operation>, q: Seq<Operation>, path: Seq<Str>, i: int, ts: bool)
    requires
        arr12(a, b, q0, path.len(), seq_min(a.len() as int, b.len() as int), ts), is_resize(q, a.len() as int, b, path), 0 <= i <= q.len(),
        sized(Val::Arr(a)), sized(Val::Arr(b)), finite_doc(Val::Arr(b)),
    ensures part12(a, b, q0 + q.take(i), path.len(), if a.len() > b.len() { a.len() - i } else { a.len() + i }, ts),
    decreases i,
{
    reveal(arr12);
    reveal(part12);
    if i == 0 {
        assert(q0 + q.take(0) =~= q0);
    } else {
        lemma_resize12(a, b, q0, q, path, i - 1, ts);
        assert(q0 + q.take(i) =~= (q0 + q.take(i - 1)).push(q[i - 1]));
        if a.len() > b.len() {
            lemma_part12_remove(a, b, q0 + q.take(i - 1), q[i - 1], a.len() - i, path, ts);
        } else {
            lemma_same_refl(b[a.len() + i - 1], ts);
            lemma_part12_add(a, b, q0 + q.take(i - 1), q[i - 1], a.len() + i - 1, path, ts);
        }
    }
}
pub proof fn lemma_resize13(a: Seq<Val>, b: Seq<Val>, q0: Seq<Operation>, q: Seq<Operation>, path: Seq<Str>, i: int, ts: bool)
    requires
        arr13(a, b, q0, path, seq_min(a.len() as int, b.len() as int), a.len() as int, a.len() as int, ts), is_resize(q, a.len() as int, b, path), 0 <= i <= q.len(),
        sized(Val::Arr(a)), sized(Val::Arr(b)),
    ensures if a.len() > b.len() { arr13(a, b, q0 + q.take(i), path, b.len() as int, a.len() - i, a.len() as int, ts) } else { arr13(a, b, q0 + q.take(i), path, a.len() + i, a.len() as int, a.len() as int, ts) },
    decreases i,
{
    reveal(arr13);
    if i == 0 {
        assert(q0 + q.take(0) =~= q0);
    } else {
        lemma_resize13(a, b, q0, q, path, i - 1, ts);
        assert(q0 + q.take(i) =~= q0 + q.take(i - 1) + seq![q[i - 1]]);
        let (j, x, y, x1, y1) = if a.len() > b.len() { (a.len() - i, b.len() as int, a.len() - i + 1, b.len() as int, a.len() - i) } else { (a.len() + i - 1, a.len() + i - 1, a.len() as int, a.len() + i, a.len() as int) };
        lemma_arr13_one(a, b, q[i - 1], j, path, ts);
        lemma_arr13_step(a, b, q0 + q.take(i - 1), seq![q[i - 1]], j, path, x, y, a.len() as int, x1, y1, ts);
    }
}
// timestamps of two leaves
pub open spec fn same_ts(a: Val, b: Val) -> bool {
    match (a, b) {
        (Val::LS(x), Val::LS(y)) => x.Timestamp == y.Timestamp,
        (Val::LF(x), Val::LF(y)) => x.Timestamp == y.Timestamp,
        (Val::LB(x), Val::LB(y)) => x.Timestamp == y.Timestamp,
        _ => false,
    }
}

// ---- patches that extend another
#[verifier::opaque]
pub open spec fn ext(p: Seq<Operation>, base: Seq<Operation>) -> bool { base.len() <= p.len() && p == base + p.skip(base.len() as int) }
pub open spec fn news(p: Seq<Operation>, base: Seq<Operation>) -> Seq<Operation> { p.skip(base.len() as int) }
pub proof fn lemma_ext_none(p: Seq<Operation>, path: Seq<Str>)
    ensures ext(p, p), news(p, p) == Seq::<Operation>::empty(), all_under(Seq::<Operation>::empty(), path),
{
    reveal(ext); reveal(all_under);
    assert(news(p, p) =~= Seq::<Operation>::empty());
    assert(p + p.skip(p.len() as int) =~= p);
}
pub proof fn lemma_ext_push(p: Seq<Operation>, o: Operation)
    ensures ext(p.push(o), p), news(p.push(o), p) == seq![o],
{
    reveal(ext);
    assert(news(p.push(o), p) =~= seq![o]);
    assert(p + seq![o] =~= p.push(o));
}
pub proof fn lemma_ext_trans(a: Seq<Operation>, b: Seq<Operation>, c: Seq<Operation>)
    requires ext(b, a), ext(c, b),
    ensures ext(c, a), news(c, a) == news(b, a) + news(c, b),
{
    reveal(ext);
    assert(news(c, a) =~= news(b, a) + news(c, b));
    assert(c =~= a + news(c, a));
}
pub proof fn lemma_ext_empty(p: Seq<Operation>)
    ensures news(p, Seq::empty()) == p,
{
    assert(news(p, Seq::empty()) =~= p);
}
// the operations generated from one member, added to those generated before it
pub proof fn lemma_gen_step(base: Seq<Operation>, p0: Seq<Operation>, p1: Seq<Operation>, path: Seq<Str>, k: Str)
    requires ext(p0, base), ext(p1, p0), all_under(news(p0, base), path), all_under(news(p1, p0), path.push(k)),
    ensures ext(p1, base), news(p1, base) == news(p0, base) + news(p1, p0), all_under(news(p1, base), path),
{
    lemma_ext_trans(base, p0, p1);
    lemma_under_below(news(p1, p0), path, k);
    lemma_under_add(news(p0, base), news(p1, p0), path);
}
pub proof fn lemma_gen_remove(base: Seq<Operation>, p0: Seq<Operation>, o: Operation, path: Seq<Str>, k: Str)
    requires ext(p0, base), all_under(news(p0, base), path), canon(o.Path), tok(o.Path) == path.push(k),
    ensures ext(p0.push(o), base), news(p0.push(o), base) == news(p0, base).push(o), all_under(news(p0.push(o), base), path),
{
    reveal(all_under);
    lemma_ext_push(p0, o);
    assert(path.push(k).take(path.len() as int + 1) =~= path.push(k));
    lemma_gen_step(base, p0, p0.push(o), path, k);
    assert(news(p0, base) + seq![o] =~= news(p0, base).push(o));
}
pub proof fn lemma_obj_start(a: Map<Str, Val>, b: Map<Str, Val>, path: Seq<Str>, ts: bool)
    ensures obj12(a, b, Seq::empty(), path.len(), Seq::empty(), Seq::empty(), ts), obj13(a, b, Seq::empty(), path, Seq::empty(), Seq::empty(), ts),
{
    reveal(obj12); reveal(obj13);
}
pub proof fn lemma_arr_start(a: Seq<Val>, b: Seq<Val>, path: Seq<Str>, ts: bool)
    ensures arr12(a, b, Seq::empty(), path.len(), 0, ts), arr13(a, b, Seq::empty(), path, 0, a.len() as int, a.len() as int, ts),
{
    reveal(arr12); reveal(arr13);
}
pub proof fn lemma_arr12_end(a: Seq<Val>, b: Seq<Val>, q: Seq<Operation>, n: nat, ts: bool)
    requires arr12(a, b, q, n, a.len() as int, ts), a.len() == b.len(),
    ensures yields(Val::Arr(a), Val::Arr(b), q, n, ts),
{
    reveal(arr12); reveal(yields);
}
pub proof fn lemma_nothing(a: Val, b: Val, n: nat, ts: bool)
    ensures same_doc(a, b, ts) ==> yields(a, b, Seq::empty(), n, ts) && records(a, b, Seq::empty(), n, ts),
{
    reveal(yields); reveal(records);
}
pub proof fn lemma_arr13_rec(a: Seq<Val>, b: Seq<Val>, q: Seq<Operation>, q1: Seq<Operation>, j: int, path: Seq<Str>, ts: bool)
    requires
        arr13(a, b, q, path, j, a.len() as int, a.len() as int, ts), 0 <= j < a.len(), j < b.len(), sized(Val::Arr(a)),
        all_under(q1, path.push(dec_str(j))), records(a[j], b[j], q1, (path.len() + 1) as nat, ts),
    ensures arr13(a, b, q + q1, path, j + 1, a.len() as int, a.len() as int, ts),
{
    reveal(records);
    lemma_arr13_step(a, b, q, q1, j, path, j, a.len() as int, a.len() as int, j + 1, a.len() as int, ts);
}
pub proof fn lemma_can_obj(a: Map<Str, Val>, b: Map<Str, Val>, k: Str)
    requires b.dom().contains(k),
    ensures
        can_gen(Val::Obj(a), Val::Obj(b)) ==> if a.dom().contains(k) { can_gen(a[k], b[k]) } else { is_leaf(b[k]) },
        a.dom().contains(k) && can_gen(a[k], b[k]) && val_tag(a[k]) != val_tag(b[k]) ==> is_leaf(b[k]),
        gen_doc(Val::Obj(b)) ==> gen_doc(b[k]),
{
    let x = Val::Obj(a);
    let y = Val::Obj(b);
    if can_gen(x, y) {
        assert(match (x, y) {
            (Val::Obj(x), Val::Obj(y)) => forall|k: Str| #[trigger] y.dom().contains(k) ==> if x.dom().contains(k) { can_gen(x[k], y[k]) } else { is_leaf(y[k]) },
            _ => true,
        });
    }
}
pub proof fn lemma_can_arr(a: Seq<Val>, b: Seq<Val>, i: int)
    requires 0 <= i < b.len(),
    ensures
        can_gen(Val::Arr(a), Val::Arr(b)) ==> if i < a.len() { can_gen(a[i], b[i]) } else { is_leaf(b[i]) },
        gen_doc(Val::Arr(b)) ==> gen_doc(b[i]),
{
    let x = Val::Arr(a);
    let y = Val::Arr(b);
    if can_gen(x, y) {
        assert(match (x, y) {
            (Val::Arr(x), Val::Arr(y)) => forall|i: int| 0 <= i < y.len() ==> if i < x.len() { can_gen(x[i], #[trigger] y[i]) } else { is_leaf(y[i]) },
            _ => true,
        });
    }
}
