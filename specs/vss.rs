// Vehicle data sets: nested maps whose leaves are signals (C28).

// ---- library: random draws and the clock are arbitrary values
pub uninterp spec fn f64_unit(x: F64) -> bool;   // 0 <= x < 1
#[verifier::external_body]
pub fn rand_float() -> (r: Ghost<(F64,)>) ensures f64_unit(r@.0), f64_finite(r@.0) { unimplemented!() }
pub axiom fn ax_unit_percent()
    ensures forall|x: F64| f64_unit(x) ==> f64_finite(#[trigger] f64_mul(x, f64_of_int(100int))),
;
#[verifier::external_body]
pub fn rand_intn(Ghost(n): Ghost<int>) -> (r: Ghost<(int,)>) requires n > 0, ensures 0 <= r@.0 < n { unimplemented!() }
pub uninterp spec fn clock(t: i64) -> bool;   // t was read from the clock
#[verifier::external_body]
pub fn time_now() -> (r: Ghost<(i64,)>) ensures clock(r@.0) { unimplemented!() }
#[verifier::external_body]
pub fn table_string() -> (r: Ghost<(Str,)>) ensures utf8(r@.0) { unimplemented!() }

// ---- data sets
pub open spec fn ts_key() -> Str { "timestamp" }
pub open spec fn val_key() -> Str { "value" }
pub open spec fn toks(s: Str) -> Seq<Str> { if s.len() == 0 { Seq::empty() } else { split(s, 46u8) } }
pub open spec fn key_ok(k: Str) -> bool { k.len() > 0 && !k.contains(46u8) && k != "children" && k != ts_key() && utf8(k) }
pub open spec fn scalar(v: Any) -> bool {
    match v {
        Any::Nil | Any::B(_) => true,
        Any::Str(s) => utf8(s),
        Any::F(x) => f64_finite(x),
        Any::Int(n) => i64::MIN <= n <= i64::MAX,
        _ => false,
    }
}
// a value with its timestamp
pub open spec fn leaf_m(a: Any) -> bool {
    a is M && a->M_0.dom() == Set::<Str>::empty().insert(val_key()).insert(ts_key()) && scalar(a->M_0[val_key()]) && a->M_0[ts_key()] is I64
}
pub open spec fn signal(a: Any) -> bool { leaf_m(a) || a is S && a->S_0.len() <= i64::MAX && forall|i: int| 0 <= i < a->S_0.len() ==> leaf_m(#[trigger] a->S_0[i]) }
pub open spec fn interior(a: Any) -> bool { a is M && !a->M_0.dom().contains(ts_key()) }
pub open spec fn tree(a: Any) -> bool
    decreases a,
{
    match a {
        Any::M(m) => !m.dom().contains(ts_key()) && forall|k: Str| #[trigger] m.dom().contains(k) ==> key_ok(k) && (signal(m[k]) || tree(m[k])),
        _ => false,
    }
}
// the signal at a path
pub open spec fn sig(a: Any, p: Seq<Str>) -> Option<Any>
    decreases p.len(),
{
    if p.len() == 0 { if interior(a) { None } else { Some(a) } }
    else if interior(a) && a->M_0.dom().contains(p[0]) { sig(a->M_0[p[0]], p.skip(1)) }
    else { None }
}
// p leads to a map that is not a signal
pub open spec fn inner(a: Any, p: Seq<Str>) -> bool
    decreases p.len(),
{
    if p.len() == 0 { interior(a) } else { interior(a) && a->M_0.dom().contains(p[0]) && inner(a->M_0[p[0]], p.skip(1)) }
}

// ---- lists of signals
pub open spec fn single(m: Map<Str, Any>) -> bool { exists|k: Str| m == Map::<Str, Any>::empty().insert(k, #[trigger] m[k]) }
pub open spec fn the_key(m: Map<Str, Any>) -> Str { choose|k: Str| m.dom().contains(k) }
pub open spec fn lk(m: Map<Str, Any>) -> Seq<Str> { toks(the_key(m)) }
pub open spec fn lv(m: Map<Str, Any>) -> Any { m[the_key(m)] }
pub open spec fn one(k: Str, v: Any) -> Map<Str, Any> { Map::<Str, Any>::empty().insert(k, v) }
pub open spec fn at_index(r: Seq<Map<Str, Any>>, q: Seq<Str>, i: int) -> bool { 0 <= i < r.len() && lk(r[i]) == q }
pub open spec fn listed(r: Seq<Map<Str, Any>>, q: Seq<Str>) -> bool { exists|i: int| at_index(r, q, i) }
// r lists the signals of a, each once, under its path behind t; only those whose path starts in ks
#[verifier::opaque]
pub open spec fn lists(r: Seq<Map<Str, Any>>, a: Any, t: Seq<Str>, ks: Option<Seq<Str>>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> entry(#[trigger] r[i], a, t, ks)
    &&& forall|p: Seq<Str>| #[trigger] sig(a, p) is Some && (ks is Some ==> p.len() > 0 && ks->Some_0.contains(p[0])) ==> listed(r, t + p)
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> lk(#[trigger] r[i]) != lk(#[trigger] r[j])
}
pub open spec fn entry(x: Map<Str, Any>, a: Any, t: Seq<Str>, ks: Option<Seq<Str>>) -> bool {
    let q = lk(x);
    single(x) && path_prefix(t, q) && sig(a, q.skip(t.len() as int)) == Some(lv(x))
        && (ks is Some ==> q.len() > t.len() && ks->Some_0.contains(q[t.len() as int]))
}
pub proof fn lemma_one(k: Str, v: Any)
    ensures single(one(k, v)), the_key(one(k, v)) == k, lv(one(k, v)) == v, lk(one(k, v)) == toks(k),
{
    let m = one(k, v);
    assert(m.dom().contains(k));
    assert(m.dom().contains(the_key(m)));
    assert(m[k] == v);
    assert(m == Map::<Str, Any>::empty().insert(k, m[k]));
}
pub proof fn lemma_single(m: Map<Str, Any>)
    requires single(m),
    ensures m == one(the_key(m), lv(m)), m.dom().len() == 1, forall|k: Str| m.dom().contains(k) <==> k == the_key(m),
{
    let k = choose|k: Str| m == Map::<Str, Any>::empty().insert(k, #[trigger] m[k]);
    lemma_one(k, m[k]);
    assert(m.dom() =~= Set::<Str>::empty().insert(k));
}
pub proof fn lemma_list_one(k: Str, v: Any)
    requires !interior(v),
    ensures lists(seq![one(k, v)], v, toks(k), None), lists(Seq::<Map<Str, Any>>::empty().push(one(k, v)), v, toks(k), None),
{
    reveal(lists);
    lemma_one(k, v);
    let r = seq![one(k, v)];
    let t = toks(k);
    assert(r =~= Seq::<Map<Str, Any>>::empty().push(one(k, v)));
    assert(t.take(t.len() as int) =~= t);
    assert(t.skip(t.len() as int) =~= Seq::<Str>::empty());
    assert(r[0] == one(k, v));
    assert forall|p: Seq<Str>| #[trigger] sig(v, p) is Some implies listed(r, t + p) by {
        assert(p.len() == 0);
        assert(t + p =~= t);
        assert(at_index(r, t + p, 0));
    }
}
pub proof fn lemma_list_none(a: Any, t: Seq<Str>)
    ensures lists(Seq::empty(), a, t, Some(Seq::empty())),
{
    reveal(lists);
}
pub proof fn lemma_add_skip<T>(r: Seq<T>)
    ensures forall|x: Seq<T>| (#[trigger] (r + x)).skip(r.len() as int) == x,
{
    assert forall|x: Seq<T>| (#[trigger] (r + x)).skip(r.len() as int) == x by { assert((r + x).skip(r.len() as int) =~= x); }
}
pub proof fn lemma_list_all(r: Seq<Map<Str, Any>>, a: Any, t: Seq<Str>, ks: Seq<Str>)
    requires lists(r, a, t, Some(ks)), interior(a), forall|k: Str| #[trigger] ks.contains(k) <==> a->M_0.dom().contains(k),
    ensures lists(r, a, t, None),
{
    reveal(lists);
    assert forall|p: Seq<Str>| #[trigger] sig(a, p) is Some implies listed(r, t + p) by {
        assert(p.len() > 0);
        assert(ks.contains(p[0]));
    }
}
// the signals below one more key
pub proof fn lemma_entry_keep(x: Map<Str, Any>, a: Any, t: Seq<Str>, ks: Seq<Str>, k: Str)
    requires entry(x, a, t, Some(ks)),
    ensures entry(x, a, t, Some(ks.push(k))),
{
    lemma_push_contains(ks, k);
}
pub proof fn lemma_entry_down(x: Map<Str, Any>, a: Any, t: Seq<Str>, ks: Seq<Str>, k: Str)
    requires interior(a), a->M_0.dom().contains(k), entry(x, a->M_0[k], t.push(k), None),
    ensures entry(x, a, t, Some(ks.push(k))), lk(x)[t.len() as int] == k,
{
    lemma_push_contains(ks, k);
    let n = t.len() as int;
    let q = lk(x);
    assert(q.take(n + 1) =~= t.push(k));
    assert(q.take(n) =~= q.take(n + 1).take(n));
    assert(t.push(k).take(n) =~= t);
    assert(q[n] == q.take(n + 1)[n]);
    let p = q.skip(n);
    assert(p[0] == k);
    assert(p.skip(1) =~= q.skip(n + 1));
}
pub proof fn lemma_list_more(r: Seq<Map<Str, Any>>, rs: Seq<Map<Str, Any>>, a: Any, t: Seq<Str>, ks: Seq<Str>, k: Str)
    requires
        interior(a), a->M_0.dom().contains(k), !ks.contains(k),
        lists(r, a, t, Some(ks)),
        lists(rs, a->M_0[k], t.push(k), None),
    ensures lists(r + rs, a, t, Some(ks.push(k))), rs.len() == 1 ==> lists(r.push(rs[0]), a, t, Some(ks.push(k))),
{
    let w = r + rs;
    if rs.len() == 1 { assert(r.push(rs[0]) =~= w); }
    assert(forall|i: int| 0 <= i < r.len() ==> entry(#[trigger] r[i], a, t, Some(ks))) by { reveal(lists); }
    assert(forall|i: int| 0 <= i < rs.len() ==> entry(#[trigger] rs[i], a->M_0[k], t.push(k), None)) by { reveal(lists); }
    assert(forall|i: int, j: int| 0 <= i < j < r.len() ==> lk(#[trigger] r[i]) != lk(#[trigger] r[j])) by { reveal(lists); }
    assert(forall|i: int, j: int| 0 <= i < j < rs.len() ==> lk(#[trigger] rs[i]) != lk(#[trigger] rs[j])) by { reveal(lists); }
    assert forall|i: int| 0 <= i < w.len() implies entry(#[trigger] w[i], a, t, Some(ks.push(k))) by {
        if i < r.len() {
            lemma_entry_keep(r[i], a, t, ks, k);
        } else {
            lemma_entry_down(rs[i - r.len()], a, t, ks, k);
        }
    }
    lemma_list_full(r, rs, a, t, ks, k);
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies lk(#[trigger] w[i]) != lk(#[trigger] w[j]) by {
        if j < r.len() {
            assert(w[i] == r[i] && w[j] == r[j]);
        } else if i >= r.len() {
            assert(w[i] == rs[i - r.len()] && w[j] == rs[j - r.len()]);
        } else {
            assert(w[i] == r[i] && w[j] == rs[j - r.len()]);
            assert(entry(r[i], a, t, Some(ks)));
            lemma_entry_down(rs[j - r.len()], a, t, ks, k);
        }
    }
    reveal(lists);
}
pub open spec fn full(w: Seq<Map<Str, Any>>, a: Any, t: Seq<Str>, ks: Seq<Str>) -> bool {
    forall|p: Seq<Str>| #[trigger] sig(a, p) is Some && p.len() > 0 && ks.contains(p[0]) ==> listed(w, t + p)
}
pub proof fn lemma_list_full(r: Seq<Map<Str, Any>>, rs: Seq<Map<Str, Any>>, a: Any, t: Seq<Str>, ks: Seq<Str>, k: Str)
    requires
        interior(a), a->M_0.dom().contains(k),
        lists(r, a, t, Some(ks)),
        lists(rs, a->M_0[k], t.push(k), None),
    ensures full(r + rs, a, t, ks.push(k)),
{
    let w = r + rs;
    lemma_push_contains(ks, k);
    assert forall|p: Seq<Str>| #[trigger] sig(a, p) is Some && p.len() > 0 && ks.push(k).contains(p[0]) implies listed(w, t + p) by {
        if p[0] == k {
            assert(sig(a->M_0[k], p.skip(1)) is Some);
            assert(listed(rs, t.push(k) + p.skip(1))) by { reveal(lists); }
            let i = choose|i: int| at_index(rs, t.push(k) + p.skip(1), i);
            assert(at_index(rs, t.push(k) + p.skip(1), i));
            assert(t.push(k) + p.skip(1) =~= t + p);
            assert(w[r.len() + i] == rs[i]);
            assert(at_index(w, t + p, r.len() + i));
        } else {
            assert(listed(r, t + p)) by { reveal(lists); }
            let i = choose|i: int| at_index(r, t + p, i);
            assert(at_index(r, t + p, i));
            assert(w[i] == r[i]);
            assert(at_index(w, t + p, i));
        }
    }
}

// ---- dotted names
pub proof fn lemma_split_dotless(s: Str, b: u8)
    requires !s.contains(b),
    ensures split(s, b) == seq![s],
{
}
// splitting a dotted name: the last part behind the others
pub proof fn lemma_split_push(s: Str, k: Str)
    requires !k.contains(46u8),
    ensures split(s + seq![46u8] + k, 46u8) == split(s, 46u8).push(k),
    decreases s.len(),
{
    let w = s + seq![46u8] + k;
    assert(w[s.len() as int] == 46u8);
    assert(w.contains(46u8));
    w.index_of_first_ensures(46u8);
    let i = w.index_of_first(46u8)->Some_0;
    if s.contains(46u8) {
        s.index_of_first_ensures(46u8);
        let j = s.index_of_first(46u8)->Some_0;
        assert(w[j] == s[j]);
        assert(i == j) by {
            if i < j { assert(w[i] == s[i]); }
        }
        assert(w.take(i) =~= s.take(i));
        assert(w.skip(i + 1) =~= s.skip(i + 1) + seq![46u8] + k);
        lemma_split_push(s.skip(i + 1), k);
        assert(split(w, 46u8) =~= split(s, 46u8).push(k));
    } else {
        assert(i == s.len()) by {
            if i < s.len() { assert(w[i] == s[i]); assert(s.contains(46u8)); }
        }
        assert(w.take(i) =~= s);
        assert(w.skip(i + 1) =~= k);
        lemma_split_dotless(k, 46u8);
        assert(split(w, 46u8) =~= split(s, 46u8).push(k));
    }
}
pub open spec fn full_key(parent: Str, k: Str) -> Str { if parent.len() == 0 { k } else { parent + seq![46u8] + k } }
pub proof fn lemma_full_key(parent: Str, k: Str)
    requires key_ok(k),
    ensures
        toks(full_key(parent, k)) == toks(parent).push(k),
        parent.len() > 0 ==> full_key(parent, k) == parent + "." + k,
{
    lemma_lits();
    if parent.len() == 0 {
        lemma_split_dotless(k, 46u8);
        assert(seq![k] =~= Seq::<Str>::empty().push(k));
    } else {
        lemma_split_push(parent, k);
        assert(seq![46u8] =~= ".");
    }
}

// ---- trees under writes through a cursor
pub proof fn lemma_prefix_step(p: Seq<Str>, q: Seq<Str>)
    ensures
        p.len() > 0 && q.len() > 0 ==> (path_prefix(p, q) <==> p[0] == q[0] && path_prefix(p.skip(1), q.skip(1))),
        p.len() == 0 ==> path_prefix(p, q),
{
    if p.len() > 0 && q.len() > 0 {
        if path_prefix(p, q) {
            assert(q.take(p.len() as int)[0] == q[0]);
            assert(q.skip(1).take(p.len() - 1) =~= q.take(p.len() as int).skip(1));
        }
        if p[0] == q[0] && path_prefix(p.skip(1), q.skip(1)) {
            assert(q.take(p.len() as int) =~= seq![q[0]] + q.skip(1).take(p.len() - 1));
            assert(p =~= seq![p[0]] + p.skip(1));
        }
    } else if p.len() == 0 {
        assert(q.take(0) =~= p);
    }
}
pub proof fn lemma_put(m: Map<Str, Any>, path: Seq<Str>, k: Str, v: Any, p: Seq<Str>)
    requires inner(Any::M(m), path), k != ts_key(),
    ensures
        ({
            let w = Any::M(put_at(m, path, k, v));
            let q = path.push(k);
            let rest = p.skip(q.len() as int);
            &&& interior(w)
            &&& path_prefix(q, p) ==> sig(w, p) == sig(v, rest) && inner(w, p) == inner(v, rest)
            &&& !path_prefix(q, p) ==> sig(w, p) == sig(Any::M(m), p) && inner(w, p) == inner(Any::M(m), p)
        }),
    decreases path.len(),
{
    let w = put_at(m, path, k, v);
    let q = path.push(k);
    assert(q[0] == if path.len() == 0 { k } else { path[0] });
    if path.len() > 0 {
        let c = m[path[0]];
        assert(mget(m, path[0], Any::Nil) == c);
        assert(c is M) by { reveal_with_fuel(inner, 2); }
        assert(path.skip(1).push(k) =~= q.skip(1));
        if p.len() > 0 {
            lemma_prefix_step(q, p);
            if path_prefix(q, p) { assert(p.skip(1).skip(path.len() as int) =~= p.skip(q.len() as int)); }
            if p[0] == path[0] {
                lemma_put(c->M_0, path.skip(1), k, v, p.skip(1));
                assert(Any::M(c->M_0) == c);
            }
        } else {
            assert(path[0] != ts_key() || !m.dom().contains(path[0]));
            assert(!path_prefix(q, p));
        }
        assert(w.dom() =~= m.dom());
    } else {
        assert(w == m.insert(k, v));
        if p.len() > 0 {
            lemma_prefix_step(q, p);
            lemma_prefix_step(q.skip(1), p.skip(1));
            assert(q.skip(1).len() == 0);
            assert(p.skip(1) =~= p.skip(q.len() as int));
        } else {
            assert(!path_prefix(q, p));
        }
    }
}
pub proof fn lemma_put_walk(m: Map<Str, Any>, path: Seq<Str>, k: Str, v: Any, v2: Any)
    ensures
        walk(put_at(m, path, k, v), path) == walk(m, path).insert(k, v),
        put_at(put_at(m, path, k, v), path, k, v2) == put_at(m, path, k, v2),
    decreases path.len(),
{
    if path.len() > 0 {
        let c = mget(m, path[0], Any::Nil)->M_0;
        lemma_put_walk(c, path.skip(1), k, v, v2);
        let w = put_at(m, path, k, v);
        assert(mget(w, path[0], Any::Nil)->M_0 == put_at(c, path.skip(1), k, v));
        assert(put_at(w, path, k, v2) =~= put_at(m, path, k, v2));
    } else {
        assert(m.insert(k, v).insert(k, v2) =~= m.insert(k, v2));
    }
}
pub proof fn lemma_put_tree(m: Map<Str, Any>, path: Seq<Str>, k: Str, v: Any)
    requires tree(Any::M(m)), inner(Any::M(m), path), key_ok(k), signal(v) || tree(v),
    ensures tree(Any::M(put_at(m, path, k, v))),
    decreases path.len(),
{
    let w = put_at(m, path, k, v);
    if path.len() > 0 {
        let c = m[path[0]];
        assert(c is M && tree(c)) by { reveal_with_fuel(inner, 2); assert(!leaf_m(c)); }
        lemma_put_tree(c->M_0, path.skip(1), k, v);
        assert forall|x: Str| #[trigger] w.dom().contains(x) implies key_ok(x) && (signal(w[x]) || tree(w[x])) by { assert(m.dom().contains(x)); }
    } else {
        assert forall|x: Str| #[trigger] w.dom().contains(x) implies key_ok(x) && (signal(w[x]) || tree(w[x])) by { if x != k { assert(m.dom().contains(x)); } }
    }
}
// what is found one step below a path
pub open spec fn off(m: Map<Str, Any>, q: Seq<Str>) -> bool {
    forall|p: Seq<Str>| path_prefix(q, p) ==> (#[trigger] sig(Any::M(m), p)) is None && !inner(Any::M(m), p)
}
pub proof fn lemma_walk(m: Map<Str, Any>, path: Seq<Str>, k: Str)
    requires tree(Any::M(m)), inner(Any::M(m), path),
    ensures
        tree(Any::M(walk(m, path))),
        walk(m, path).dom().contains(k) ==> sig(Any::M(m), path.push(k)) == sig(walk(m, path)[k], Seq::empty()),
        walk(m, path).dom().contains(k) ==> inner(Any::M(m), path.push(k)) == interior(walk(m, path)[k]),
        walk(m, path).dom().contains(k) ==> interior(walk(m, path)[k]) || signal(walk(m, path)[k]),
        !walk(m, path).dom().contains(k) ==> off(m, path.push(k)),
        !walk(m, path).dom().contains(k) ==> !inner(Any::M(m), path.push(k)),
    decreases path.len(),
{
    let q = path.push(k);
    let a = Any::M(m);
    if path.len() == 0 {
        assert(q[0] == k);
        assert(q.skip(1) =~= Seq::<Str>::empty());
        assert(walk(m, path) == m);
        assert(inner(m[k], q.skip(1)) == interior(m[k]));
        assert(sig(m[k], q.skip(1)) == sig(m[k], Seq::empty()));
        if m.dom().contains(k) && !signal(m[k]) { assert(tree(m[k])); }
        if !m.dom().contains(k) { assert forall|p: Seq<Str>| path_prefix(q, p) implies (#[trigger] sig(a, p)) is None && !inner(a, p) by {
            lemma_prefix_step(q, p);
        } }
    } else {
        let c = m[path[0]];
        assert(c is M && tree(c)) by { reveal_with_fuel(inner, 2); assert(!leaf_m(c)); }
        let d = walk(m, path);
        assert(mget(m, path[0], Any::Nil) == c);
        assert(d == walk(c->M_0, path.skip(1)));
        lemma_walk(c->M_0, path.skip(1), k);
        assert(q[0] == path[0]);
        assert(q.skip(1) =~= path.skip(1).push(k));
        assert(Any::M(c->M_0) == c);
        assert(sig(a, q) == sig(c, q.skip(1)));
        assert(inner(a, q) == inner(c, q.skip(1)));
        if !d.dom().contains(k) { assert forall|p: Seq<Str>| path_prefix(q, p) implies (#[trigger] sig(a, p)) is None && !inner(a, p) by {
            lemma_prefix_step(q, p);
            assert(sig(Any::M(c->M_0), p.skip(1)) is None);
        } }
    }
}
pub proof fn lemma_prefix_free(a: Any, p: Seq<Str>, q: Seq<Str>)
    requires path_prefix(p, q),
    ensures sig(a, p) is Some && sig(a, q) is Some ==> p == q, inner(a, q) ==> sig(a, p) is None,
    decreases p.len(),
{
    if p.len() > 0 {
        lemma_prefix_step(p, q);
        if interior(a) && a->M_0.dom().contains(p[0]) { lemma_prefix_free(a->M_0[p[0]], p.skip(1), q.skip(1)); }
        if p.skip(1) == q.skip(1) {
            assert(p =~= seq![p[0]] + p.skip(1));
            assert(q =~= seq![q[0]] + q.skip(1));
        }
    } else if q.len() == 0 {
        assert(p =~= q);
    }
}
// the names on the path of a signal
pub proof fn lemma_sig_keys(a: Any, p: Seq<Str>)
    requires tree(a), sig(a, p) is Some,
    ensures p.len() > 0, forall|i: int| 0 <= i < p.len() ==> key_ok(#[trigger] p[i]), signal(sig(a, p)->Some_0),
    decreases p.len(),
{
    if p.len() > 0 {
        let c = a->M_0[p[0]];
        assert(a->M_0.dom().contains(p[0]));
        if tree(c) {
            lemma_sig_keys(c, p.skip(1));
            assert forall|i: int| 0 <= i < p.len() implies key_ok(#[trigger] p[i]) by { if i > 0 { assert(p[i] == p.skip(1)[i - 1]); } }
        } else {
            assert(p.skip(1).len() == 0) by { if p.skip(1).len() > 0 { assert(leaf_m(c) ==> !interior(c)); } }
        }
    }
}

// ---- the next data set
pub open spec fn same_kind(x: Any, y: Any) -> bool {
    match x {
        Any::Nil => y is Nil,
        Any::Str(_) => y is Str,
        Any::F(_) => y is F,
        Any::B(_) => y is B,
        Any::Int(_) => y is Int,
        _ => false,
    }
}
pub open spec fn restamped(x: Any, y: Any, ts: i64) -> bool {
    leaf_m(x) && leaf_m(y) && same_kind(x->M_0[val_key()], y->M_0[val_key()]) && y->M_0[ts_key()] == Any::I64(ts)
}
pub open spec fn next_sig(x: Any, y: Any, ts: i64) -> bool {
    ||| y == x
    ||| restamped(x, y, ts)
    ||| x is S && y is S && x->S_0.len() == y->S_0.len() && forall|i: int| 0 <= i < x->S_0.len() ==> restamped(x->S_0[i], #[trigger] y->S_0[i], ts)
}
// b has the signals of a, each kept or with the new timestamp
pub open spec fn next_set(a: Any, b: Any, ts: i64) -> bool {
    forall|p: Seq<Str>| match (#[trigger] sig(a, p), sig(b, p)) {
        (Some(x), Some(y)) => next_sig(x, y, ts),
        (None, None) => true,
        _ => false,
    }
}
// the first n signals of the list have been written
#[verifier::opaque]
pub open spec fn part(m: Map<Str, Any>, own: Set<Seq<Str>>, r: Seq<Map<Str, Any>>, n: int, ts: i64) -> bool {
    &&& tree(Any::M(m))
    &&& forall|p: Seq<Str>| #[trigger] sig(Any::M(m), p) is Some ==> early(r, p, n)
    &&& forall|j: int| 0 <= j < n ==> written(m, #[trigger] r[j], ts)
    &&& forall|p: Seq<Str>| #[trigger] inner(Any::M(m), p) && p.len() > 0 ==> own.contains(p) && leads(r, p, n)
}
pub open spec fn early(r: Seq<Map<Str, Any>>, p: Seq<Str>, n: int) -> bool { exists|j: int| 0 <= j < n && at_index(r, p, j) }
pub open spec fn leads(r: Seq<Map<Str, Any>>, p: Seq<Str>, n: int) -> bool { exists|j: int| 0 <= j < n && path_prefix(p, lk(#[trigger] r[j])) }
pub open spec fn written(m: Map<Str, Any>, x: Map<Str, Any>, ts: i64) -> bool {
    sig(Any::M(m), lk(x)) is Some && next_sig(lv(x), sig(Any::M(m), lk(x))->Some_0, ts)
}
// while one signal is being written at t: m0 was before, d maps of its path are there
#[verifier::opaque]
pub open spec fn way(m0: Map<Str, Any>, m: Map<Str, Any>, own: Set<Seq<Str>>, t: Seq<Str>, d: int) -> bool {
    &&& tree(Any::M(m))
    &&& forall|p: Seq<Str>| #[trigger] sig(Any::M(m), p) == sig(Any::M(m0), p)
    &&& forall|p: Seq<Str>| #[trigger] inner(Any::M(m), p) && !inner(Any::M(m0), p) ==> path_prefix(p, t) && p.len() <= d
    &&& forall|p: Seq<Str>| #[trigger] inner(Any::M(m), p) && p.len() > 0 ==> own.contains(p)
}
// nothing of m0 lies on t
pub open spec fn clear(m0: Map<Str, Any>, t: Seq<Str>) -> bool {
    &&& t.len() > 0
    &&& forall|i: int| 0 <= i < t.len() ==> key_ok(#[trigger] t[i])
    &&& forall|p: Seq<Str>| path_prefix(p, t) || path_prefix(t, p) ==> (#[trigger] sig(Any::M(m0), p)) is None
    &&& !inner(Any::M(m0), t)
}
pub proof fn lemma_clear(m: Map<Str, Any>, own: Set<Seq<Str>>, r: Seq<Map<Str, Any>>, n: int, ts: i64, a: Any)
    requires part(m, own, r, n, ts), lists(r, a, Seq::empty(), None), 0 <= n < r.len(), tree(a),
    ensures
        clear(m, lk(r[n])), way(m, m, own, lk(r[n]), 0), inner(Any::M(m), Seq::empty()),
        sig(a, lk(r[n])) == Some(lv(r[n])), signal(lv(r[n])), single(r[n]),
{
    reveal(part);
    reveal(way);
    reveal(lists);
    let t = lk(r[n]);
    assert forall|i: int| 0 <= i < r.len() implies sig(a, lk(#[trigger] r[i])) == Some(lv(r[i])) by { assert(lk(r[i]).skip(0) =~= lk(r[i])); }
    lemma_sig_keys(a, t);
    assert forall|p: Seq<Str>| path_prefix(p, t) || path_prefix(t, p) implies (#[trigger] sig(Any::M(m), p)) is None by {
        if sig(Any::M(m), p) is Some {
            let j = choose|j: int| 0 <= j < n && at_index(r, p, j);
            assert(lk(r[j]) == p);
            if path_prefix(p, t) { lemma_prefix_free(a, p, t); } else { lemma_prefix_free(a, t, p); }
            assert(lk(r[j]) == lk(r[n]));
        }
    }
    if inner(Any::M(m), t) {
        let j = choose|j: int| 0 <= j < n && path_prefix(t, lk(#[trigger] r[j]));
        lemma_prefix_free(a, t, lk(r[j]));
        assert(lk(r[j]) == lk(r[n]));
    }
}
// one step down the path of the signal: into a map that is there, or into a new one
pub proof fn lemma_way(m0: Map<Str, Any>, m: Map<Str, Any>, own: Set<Seq<Str>>, t: Seq<Str>, d: int)
    requires clear(m0, t), way(m0, m, own, t, d), 0 <= d < t.len(), inner(Any::M(m), t.take(d)),
    ensures
        ({
            let c = walk(m, t.take(d));
            let q = t.take(d).push(t[d]);
            let w = put_at(m, t.take(d), t[d], Any::M(Map::empty()));
            &&& q == t.take(d + 1)
            &&& c.dom().contains(t[d]) ==> d + 1 < t.len() && c[t[d]] is M && own.contains(q) && inner(Any::M(m), q) && way(m0, m, own, t, d + 1)
            &&& !c.dom().contains(t[d]) ==> inner(Any::M(w), q) && inner(Any::M(w), t.take(d)) && way(m0, w, own_cut(own, q).insert(q), t, d + 1)
                && walk(w, t.take(d)) == c.insert(t[d], Any::M(Map::empty()))
        }),
{
    reveal(way);
    let path = t.take(d);
    let k = t[d];
    let c = walk(m, path);
    let q = path.push(k);
    assert(q =~= t.take(d + 1));
    assert(path_prefix(q, t));
    lemma_walk(m, path, k);
    if c.dom().contains(k) {
        if !interior(c[k]) {
            assert(sig(Any::M(m), q) is Some);
            assert(false);
        }
        if d + 1 == t.len() {
            assert(q =~= t);
            assert(inner(Any::M(m), t));
            assert(false) by { assert(!inner(Any::M(m0), t)); assert(t.len() <= d); }
        }
    } else {
        let e = Any::M(Map::<Str, Any>::empty());
        let w = put_at(m, path, k, e);
        assert(tree(e));
        assert(key_ok(k));
        lemma_put_tree(m, path, k, e);
        lemma_put_walk(m, path, k, e, e);
        assert forall|p: Seq<Str>| #[trigger] sig(Any::M(w), p) == sig(Any::M(m0), p) by {
            lemma_put(m, path, k, e, p);
            if path_prefix(q, p) {
                assert(sig(e, p.skip(q.len() as int)) is None);
                assert(sig(Any::M(m), p) is None);
            }
            assert(sig(Any::M(m), p) == sig(Any::M(m0), p));
        }
        assert forall|p: Seq<Str>| #[trigger] inner(Any::M(w), p) implies (p == q || inner(Any::M(m), p) && !path_prefix(q, p)) by {
            lemma_put(m, path, k, e, p);
            if path_prefix(q, p) {
                let rest = p.skip(q.len() as int);
                assert(inner(e, rest));
                assert(rest.len() == 0);
                assert(p =~= p.take(q.len() as int));
            }
        }
        lemma_put(m, path, k, e, q);
        assert(q.take(q.len() as int) =~= q);
        assert(inner(e, q.skip(q.len() as int)));
        lemma_put(m, path, k, e, path);
        assert(!path_prefix(q, path));
    }
}
// writing the signal
#[verifier::opaque]
pub open spec fn put_done(m0: Map<Str, Any>, w: Map<Str, Any>, own: Set<Seq<Str>>, t: Seq<Str>, v: Any) -> bool {
    &&& tree(Any::M(w))
    &&& forall|p: Seq<Str>| #[trigger] sig(Any::M(w), p) == if p == t { Some(v) } else { sig(Any::M(m0), p) }
    &&& forall|p: Seq<Str>| #[trigger] inner(Any::M(w), p) && p.len() > 0 ==> (inner(Any::M(m0), p) || path_prefix(p, t)) && own.contains(p) && !path_prefix(t, p)
}
pub proof fn lemma_done(m0: Map<Str, Any>, m: Map<Str, Any>, own: Set<Seq<Str>>, t: Seq<Str>)
    requires clear(m0, t), way(m0, m, own, t, t.len() as int), inner(Any::M(m), t.take(t.len() - 1)),
    ensures
        forall|v: Any| signal(v) ==> put_done(m0, #[trigger] put_at(m, t.take(t.len() - 1), t.last(), v), own, t, v)
            && sig(Any::M(put_at(m, t.take(t.len() - 1), t.last(), v)), t) == Some(v),
{
    reveal(way);
    reveal(put_done);
    let path = t.take(t.len() - 1);
    let k = t.last();
    assert(path.push(k) =~= t);
    assert(key_ok(t[t.len() - 1]));
    assert forall|v: Any| signal(v) implies put_done(m0, #[trigger] put_at(m, path, k, v), own, t, v) && sig(Any::M(put_at(m, path, k, v)), t) == Some(v) by {
        let w = put_at(m, path, k, v);
        lemma_put_tree(m, path, k, v);
        assert(!interior(v));
        assert forall|p: Seq<Str>| #[trigger] sig(Any::M(w), p) == if p == t { Some(v) } else { sig(Any::M(m0), p) } by {
            lemma_put(m, path, k, v, p);
            if path_prefix(t, p) {
                let rest = p.skip(t.len() as int);
                if rest.len() == 0 { assert(p =~= p.take(t.len() as int)); assert(p == t); }
                if p == t { assert(rest =~= Seq::<Str>::empty()); }
                assert(sig(Any::M(m0), p) is None);
            } else {
                assert(t.take(t.len() as int) =~= t);
                assert(p != t);
            }
            assert(sig(Any::M(m), p) == sig(Any::M(m0), p));
        }
        assert forall|p: Seq<Str>| #[trigger] inner(Any::M(w), p) && p.len() > 0 implies (inner(Any::M(m0), p) || path_prefix(p, t)) && own.contains(p) && !path_prefix(t, p) by {
            lemma_put(m, path, k, v, p);
            assert(!inner(v, p.skip(t.len() as int)));
        }
    }
}
pub proof fn lemma_part(m0: Map<Str, Any>, own0: Set<Seq<Str>>, m: Map<Str, Any>, own: Set<Seq<Str>>, own1: Set<Seq<Str>>, r: Seq<Map<Str, Any>>, n: int, ts: i64, v: Any, a: Any)
    requires
        part(m0, own0, r, n, ts), 0 <= n < r.len(), lists(r, a, Seq::empty(), None),
        put_done(m0, m, own1, lk(r[n]), v),
        next_sig(lv(r[n]), v, ts),
        forall|p: Seq<Str>| own1.contains(p) && !path_prefix(lk(r[n]), p) ==> #[trigger] own.contains(p),
    ensures part(m, own, r, n + 1, ts),
{
    reveal(part);
    reveal(put_done);
    assert(forall|i: int, j: int| 0 <= i < j < r.len() ==> lk(#[trigger] r[i]) != lk(#[trigger] r[j])) by { reveal(lists); }
    let t = lk(r[n]);
    assert forall|p: Seq<Str>| #[trigger] sig(Any::M(m), p) is Some implies early(r, p, n + 1) by {
        if p == t { assert(at_index(r, p, n)); } else {
            assert(early(r, p, n));
            let j = choose|j: int| 0 <= j < n && at_index(r, p, j);
            assert(0 <= j < n + 1 && at_index(r, p, j));
        }
    }
    assert forall|j: int| 0 <= j < n + 1 implies written(m, #[trigger] r[j], ts) by {
        if j < n { assert(written(m0, r[j], ts)); assert(lk(r[j]) != lk(r[n])); assert(sig(Any::M(m), lk(r[j])) == sig(Any::M(m0), lk(r[j]))); }
        else { assert(sig(Any::M(m), t) == Some(v)); }
    }
    assert forall|p: Seq<Str>| #[trigger] inner(Any::M(m), p) && p.len() > 0 implies own.contains(p) && leads(r, p, n + 1) by {
        assert(own1.contains(p) && !path_prefix(t, p));
        if path_prefix(p, t) { assert(path_prefix(p, lk(r[n]))); } else {
            assert(inner(Any::M(m0), p));
            assert(leads(r, p, n));
            let j = choose|j: int| 0 <= j < n && path_prefix(p, lk(#[trigger] r[j]));
            assert(path_prefix(p, lk(r[j])));
        }
    }
}
pub proof fn lemma_part_start(own: Set<Seq<Str>>, r: Seq<Map<Str, Any>>, ts: i64)
    ensures part(Map::empty(), own, r, 0, ts),
{
    reveal(part);
    let e = Any::M(Map::<Str, Any>::empty());
    assert forall|p: Seq<Str>| (#[trigger] sig(e, p)) is None by { }
    assert forall|p: Seq<Str>| #[trigger] inner(e, p) implies p.len() == 0 by { }
}
pub proof fn lemma_part_end(m: Map<Str, Any>, own: Set<Seq<Str>>, r: Seq<Map<Str, Any>>, ts: i64, a: Any)
    requires part(m, own, r, r.len() as int, ts), lists(r, a, Seq::empty(), None),
    ensures
        next_set(a, Any::M(m), ts), tree(Any::M(m)),
        forall|p: Seq<Str>| #[trigger] inner(Any::M(m), p) && p.len() > 0 ==> leads(r, p, r.len() as int),
{
    reveal(part);
    reveal(lists);
    assert forall|i: int| 0 <= i < r.len() implies sig(a, lk(#[trigger] r[i])) == Some(lv(r[i])) by { assert(lk(r[i]).skip(0) =~= lk(r[i])); }
    assert forall|p: Seq<Str>| match (#[trigger] sig(a, p), sig(Any::M(m), p)) { (Some(x), Some(y)) => next_sig(x, y, ts), (None, None) => true, _ => false } by {
        if sig(a, p) is Some {
            assert(listed(r, Seq::<Str>::empty() + p));
            assert(Seq::<Str>::empty() + p =~= p);
            let j = choose|j: int| at_index(r, p, j);
            assert(at_index(r, p, j));
            assert(lk(r[j]) == p);
        }
        if sig(Any::M(m), p) is Some {
            let j = choose|j: int| 0 <= j < r.len() && at_index(r, p, j);
            assert(lk(r[j]) == p);
        }
    }
}
pub proof fn lemma_restamp(t: Any)
    requires t is I64,
    ensures
        forall|x: Any| scalar(x) ==> leaf_m(Any::M(#[trigger] Map::<Str, Any>::empty().insert(val_key(), x).insert(ts_key(), t))),
        forall|x: Any| #[trigger] Map::<Str, Any>::empty().insert(ts_key(), t).insert(val_key(), x) == Map::<Str, Any>::empty().insert(val_key(), x).insert(ts_key(), t),
{
    lemma_lits();
    assert(val_key().len() != ts_key().len());
    assert forall|x: Any| scalar(x) implies leaf_m(Any::M(#[trigger] Map::<Str, Any>::empty().insert(val_key(), x).insert(ts_key(), t))) by {
        let m = Map::<Str, Any>::empty().insert(val_key(), x).insert(ts_key(), t);
        assert(m.dom() =~= Set::<Str>::empty().insert(val_key()).insert(ts_key()));
    }
    assert forall|x: Any| #[trigger] Map::<Str, Any>::empty().insert(ts_key(), t).insert(val_key(), x) == Map::<Str, Any>::empty().insert(val_key(), x).insert(ts_key(), t) by {
        assert(Map::<Str, Any>::empty().insert(ts_key(), t).insert(val_key(), x) =~= Map::<Str, Any>::empty().insert(val_key(), x).insert(ts_key(), t));
    }
}
// an array signal with n values restamped
pub open spec fn stamped_n(x: Seq<Any>, n: int, ts: i64) -> Seq<Any> {
    Seq::new(n as nat, |i: int| Any::M(Map::<Str, Any>::empty().insert(val_key(), x[i]->M_0[val_key()]).insert(ts_key(), Any::I64(ts))))
}

// ---- a data set can be written as JSON and read as a document
pub proof fn lemma_leaf_form(a: Any)
    requires leaf_m(a),
    ensures json_ok(a), nums_ok(any_tree(a)), is_form(any_tree(a)), gen_doc(form_doc(any_tree(a))),
{
    broadcast use ax_json_number, ax_json_int;
    lemma_lits();
    ax_utf8_keys();
    let m = a->M_0;
    let v = m[val_key()];
    let ts = m[ts_key()]->I64_0;
    assert(val_key() =~= leaf_value_key() && ts_key() =~= leaf_timestamp_key());
    assert(val_key().len() != ts_key().len());
    assert(json_ok(v) && json_ok(Any::I64(ts)));
    assert(any_tree(a)->M_0 =~= leaf_tree(any_tree(v), ts)->M_0);
    if v is Int { assert(any_tree(v) == Any::Num(dec_str(v->Int_0))); }
    lemma_leaf_tree(any_tree(v), ts);
    if v is Nil {
        let w = any_tree(a)->M_0;
        assert(nums_ok(w[leaf_value_key()]));
        assert(any_tree(Any::I64(ts)) == Any::Num(dec_str(ts as int)));
        assert(nums_ok(w[leaf_timestamp_key()]));
    }
}
pub proof fn lemma_signal_form(a: Any)
    requires signal(a),
    ensures json_ok(a), nums_ok(any_tree(a)), is_form(any_tree(a)), gen_doc(form_doc(any_tree(a))),
{
    if leaf_m(a) { lemma_leaf_form(a); } else {
        let s = any_tree(a)->S_0;
        assert forall|i: int| 0 <= i < s.len() implies nums_ok(#[trigger] s[i]) && is_form(s[i]) && gen_doc(form_doc(s[i])) by { lemma_leaf_form(a->S_0[i]); }
        assert forall|i: int| 0 <= i < a->S_0.len() implies json_ok(#[trigger] a->S_0[i]) by { lemma_leaf_form(a->S_0[i]); }
    }
}
pub proof fn lemma_tree_form(a: Any)
    requires tree(a),
    ensures json_ok(a), nums_ok(any_tree(a)), is_form(any_tree(a)), gen_doc(form_doc(any_tree(a))),
    decreases a,
{
    lemma_lits();
    let m = a->M_0;
    let t = any_tree(a)->M_0;
    assert forall|k: Str| #[trigger] m.dom().contains(k) implies json_ok(m[k]) && nums_ok(any_tree(m[k])) && is_form(any_tree(m[k])) && gen_doc(form_doc(any_tree(m[k]))) by {
        if tree(m[k]) { lemma_tree_form(m[k]); } else { lemma_signal_form(m[k]); }
    }
    assert(ts_key() =~= leaf_timestamp_key());
    assert forall|k: Str| #[trigger] t.dom().contains(k) implies nums_ok(t[k]) && is_form(t[k]) && gen_doc(form_doc(t[k])) by { assert(m.dom().contains(k)); }
    assert(leaf_of(t) is None);
    let o = form_doc(any_tree(a))->Obj_0;
    assert forall|k: Str| #[trigger] o.dom().contains(k) implies finite_doc(o[k]) && sized(o[k]) by { assert(t.dom().contains(k)); }
}
// the text of a data set is read as a document
pub proof fn lemma_set_text(a: Any)
    requires tree(a),
    ensures json_text_err(a) is Nil, read_form(json_text(a)) is Some && gen_doc(read_form(json_text(a))->Some_0),
{
    lemma_tree_form(a);
    ax_json_marshal(a);
}
// one signal of the next data set
pub proof fn lemma_sigval(x: Any, ts: i64)
    requires leaf_m(x),
    ensures
        x->M_0.dom().contains(val_key()),
        scalar(x->M_0[val_key()]),
        forall|y: Any| scalar(y) && same_kind(x->M_0[val_key()], y) ==> restamped(x, Any::M(#[trigger] Map::<Str, Any>::empty().insert(val_key(), y).insert(ts_key(), Any::I64(ts))), ts),
        forall|y: Any| leaf_m(y) ==> !interior(y),
{
    lemma_restamp(Any::I64(ts));
    assert(val_key().len() != ts_key().len()) by { lemma_lits(); }
}
pub proof fn lemma_stamped(x: Seq<Any>, n: int, ts: i64)
    requires signal(Any::S(x)), 0 <= n <= x.len(),
    ensures
        signal(Any::S(stamped_n(x, n, ts))),
        n == x.len() ==> next_sig(Any::S(x), Any::S(stamped_n(x, n, ts)), ts),
        n < x.len() ==> leaf_m(x[n]) && stamped_n(x, n + 1, ts) == stamped_n(x, n, ts).push(Any::M(Map::<Str, Any>::empty().insert(val_key(), x[n]->M_0[val_key()]).insert(ts_key(), Any::I64(ts)))),
        n == 0 ==> stamped_n(x, 0, ts) == Seq::<Any>::empty(),
{
    let s = stamped_n(x, n, ts);
    assert forall|i: int| 0 <= i < n implies leaf_m(#[trigger] s[i]) && restamped(x[i], s[i], ts) by { lemma_sigval(x[i], ts); }
    if n < x.len() {
        assert(stamped_n(x, n + 1, ts) =~= s.push(Any::M(Map::<Str, Any>::empty().insert(val_key(), x[n]->M_0[val_key()]).insert(ts_key(), Any::I64(ts)))));
    }
    if n == 0 { assert(s =~= Seq::<Any>::empty()); }
}
