// What apply_parts means for lookups in the result.

// the child an operation descends into, created when missing
pub open spec fn step_into(child: Val, next: Str, op: Operation) -> Val {
    if child is Nil && op_sets(op) { new_container(next) } else { child }
}
// location q lies outside what an operation at location p of doc writes
pub open spec fn apart(doc: Val, p: Seq<Str>, q: Seq<Str>, op: Operation) -> bool
    decreases p.len(),
{
    p.len() > 0 && q.len() > 0 && match doc {
        Val::Obj(m) => p[0] != q[0] || p.len() > 1 && apart(step_into(mget(m, p[0], Val::Nil), p[1], op), p.skip(1), q.skip(1), op),
        Val::Arr(a) => idx_of(p[0]) is Some && idx_of(q[0]) is Some && {
            let i = idx_of(p[0])->Some_0;
            let j = idx_of(q[0])->Some_0;
            if i != j { j < i || !(op_removes(op) && p.len() == 1) } // elements after a removed one move up
            else { p.len() > 1 && i < a.len() && apart(a[i], p.skip(1), q.skip(1), op) }
        },
        _ => false,
    }
}

pub proof fn lemma_set_effect(doc: Val, p: Seq<Str>, op: Operation)
    requires op_sets(op), p.len() > 0, apply_parts(doc, p, op) is Some,
    ensures op_leaf(op) is Some, lookup(apply_parts(doc, p, op)->Some_0, p) == op_leaf(op),
    decreases p.len(),
{
    reveal_with_fuel(lookup, 3);
    let d = apply_parts(doc, p, op)->Some_0;
    match doc {
        Val::Obj(m) => {
            if p.len() == 1 {
                let l = op_leaf(op)->Some_0;
                assert(d == Val::Obj(m.insert(p[0], l)));
                assert(p.skip(1).len() == 0);
                assert(lookup(l, p.skip(1)) == Some(l));
                assert(lookup(d, p) == op_leaf(op));
            } else {
                let c = step_into(mget(m, p[0], Val::Nil), p[1], op);
                lemma_set_effect(c, p.skip(1), op);
                assert(d == Val::Obj(m.insert(p[0], apply_parts(c, p.skip(1), op)->Some_0)));
                assert(lookup(d, p) == op_leaf(op));
            }
        },
        Val::Arr(a) => {
            let i = idx_of(p[0])->Some_0;
            if p.len() == 1 {
                let l = op_leaf(op)->Some_0;
                assert(p.skip(1).len() == 0);
                assert(lookup(l, p.skip(1)) == Some(l));
                if i == a.len() { assert(d == Val::Arr(a.push(l))); assert(a.push(l)[i] == l); } else { assert(d == Val::Arr(a.update(i, l))); assert(a.update(i, l)[i] == l); }
                assert(d->Arr_0[i] == l);
                assert(lookup(d, p) == op_leaf(op));
            } else {
                lemma_set_effect(a[i], p.skip(1), op);
                let c = apply_parts(a[i], p.skip(1), op)->Some_0;
                assert(d == Val::Arr(a.update(i, c)));
                assert(a.update(i, c)[i] == c);
                assert(lookup(d, p) == op_leaf(op));
            }
        },
        _ => {},
    }
}

// the container of a removed member or element has lost it, and only it
pub open spec fn without(c: Val, k: Str) -> Option<Val> {
    match c {
        Val::Obj(m) => Some(Val::Obj(m.remove(k))),
        Val::Arr(a) => if idx_of(k) is Some && idx_of(k)->Some_0 < a.len() { Some(Val::Arr(a.remove(idx_of(k)->Some_0))) } else { None },
        _ => None,
    }
}
pub proof fn lemma_remove_effect(doc: Val, p: Seq<Str>, op: Operation)
    requires op_removes(op), p.len() > 0, apply_parts(doc, p, op) is Some,
    ensures ({
        let d = apply_parts(doc, p, op)->Some_0;
        let c = lookup(doc, p.drop_last());
        &&& c is Some && without(c->Some_0, p.last()) is Some
        &&& lookup(d, p.drop_last()) == without(c->Some_0, p.last())
        &&& c->Some_0 is Obj ==> lookup(d, p) is None
    }),
    decreases p.len(),
{
    lemma_lits();
    assert(!op_sets(op)) by { assert(op.Op.len() == 6); assert(op.Op =~= "replace" ==> op.Op.len() == 7); assert(op.Op =~= "add" ==> op.Op.len() == 3); }
    let d = apply_parts(doc, p, op)->Some_0;
    if p.len() == 1 {
        assert(p.drop_last() =~= Seq::<Str>::empty());
        assert(p.last() == p[0]);
    } else {
        assert(p.drop_last().skip(1) =~= p.skip(1).drop_last());
        assert(p.drop_last()[0] == p[0]);
        assert(p.skip(1).last() == p.last());
        match doc {
            Val::Obj(m) => { lemma_remove_effect(mget(m, p[0], Val::Nil), p.skip(1), op); },
            Val::Arr(a) => { lemma_remove_effect(a[idx_of(p[0])->Some_0], p.skip(1), op); },
            _ => {},
        }
    }
}

pub proof fn lemma_apart(doc: Val, p: Seq<Str>, q: Seq<Str>, op: Operation)
    requires p.len() > 0, apply_parts(doc, p, op) is Some, apart(doc, p, q, op),
    ensures lookup(apply_parts(doc, p, op)->Some_0, q) == lookup(doc, q),
    decreases p.len(),
{
    let d = apply_parts(doc, p, op)->Some_0;
    match doc {
        Val::Obj(m) => {
            if p[0] == q[0] {
                let child = mget(m, p[0], Val::Nil);
                let c = step_into(child, p[1], op);
                lemma_apart(c, p.skip(1), q.skip(1), op);
                assert(q.skip(1).len() > 0); // from apart below
                if child is Nil && op_sets(op) {
                    assert(lookup(child, q.skip(1)) is None);
                    assert(lookup(c, q.skip(1)) is None);
                }
            }
        },
        Val::Arr(a) => {
            let i = idx_of(p[0])->Some_0;
            let j = idx_of(q[0])->Some_0;
            if i == j { lemma_apart(a[i], p.skip(1), q.skip(1), op); }
            else if p.len() == 1 && op_removes(op) && !op_sets(op) { assert(j < i); if j < a.len() { assert(a.remove(i)[j] == a[j]); } }
        },
        _ => {},
    }
}

pub proof fn lemma_effect(doc: Val, p: Seq<Str>, op: Operation)
    requires p.len() > 0, apply_parts(doc, p, op) is Some,
    ensures
        op_sets(op) ==> op_leaf(op) is Some && lookup(apply_parts(doc, p, op)->Some_0, p) == op_leaf(op),
        op_removes(op) ==> removed(doc, apply_parts(doc, p, op)->Some_0, p),
        forall|q: Seq<Str>| #[trigger] apart(doc, p, q, op) ==> lookup(apply_parts(doc, p, op)->Some_0, q) == lookup(doc, q),
{
    if op_sets(op) { lemma_set_effect(doc, p, op); }
    if op_removes(op) { lemma_remove_effect(doc, p, op); }
    assert forall|q: Seq<Str>| #[trigger] apart(doc, p, q, op) implies lookup(apply_parts(doc, p, op)->Some_0, q) == lookup(doc, q) by { lemma_apart(doc, p, q, op); }
}
pub open spec fn removed(doc: Val, d: Val, p: Seq<Str>) -> bool {
    let c = lookup(doc, p.drop_last());
    &&& c is Some && without(c->Some_0, p.last()) is Some
    &&& lookup(d, p.drop_last()) == without(c->Some_0, p.last())
    &&& c->Some_0 is Obj ==> lookup(d, p) is None
}
