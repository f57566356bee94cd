// What applying an operation means, independent of the code.

pub open spec fn op_sets(op: Operation) -> bool { op.Op =~= "add" || op.Op =~= "replace" }
pub open spec fn op_removes(op: Operation) -> bool { op.Op =~= "remove" }

// the leaf an add or replace operation writes
pub open spec fn op_leaf(op: Operation) -> Option<Val> {
    match op.Value {
        Any::Str(s) => Some(Val::LS(LeafS { Value: s, Timestamp: op.Timestamp })),
        Any::F(x) => Some(Val::LF(LeafF { Value: x, Timestamp: op.Timestamp })),
        Any::Int(i) => Some(Val::LF(LeafF { Value: f64_of_int(i), Timestamp: op.Timestamp })),
        Any::B(b) => Some(Val::LB(LeafB { Value: b, Timestamp: op.Timestamp })),
        _ => None,
    }
}

// array index written in a path
pub open spec fn idx_of(part: Str) -> Option<int> {
    if int_ok(part) && int_val(part) >= 0 { Some(int_val(part)) } else { None }
}

pub open spec fn new_container(next: Str) -> Val {
    if idx_of(next) is Some { Val::Arr(Seq::empty()) } else { Val::Obj(Map::empty()) }
}

pub open spec fn apply_parts(doc: Val, parts: Seq<Str>, op: Operation) -> Option<Val>
    decreases parts.len(),
{
    if parts.len() == 0 {
        Some(doc)
    } else {
        let k = parts[0];
        match doc {
            Val::Obj(m) => {
                if parts.len() == 1 {
                    if op_sets(op) {
                        match op_leaf(op) {
                            Some(l) => Some(Val::Obj(m.insert(k, l))),
                            None => None,
                        }
                    } else if op_removes(op) {
                        Some(Val::Obj(m.remove(k)))
                    } else {
                        None
                    }
                } else {
                    let child = mget(m, k, Val::Nil);
                    if child is Obj || child is Arr {
                        match apply_parts(child, parts.skip(1), op) {
                            Some(c) => Some(Val::Obj(m.insert(k, c))),
                            None => None,
                        }
                    } else if child is Nil && op_sets(op) {
                        match apply_parts(new_container(parts[1]), parts.skip(1), op) {
                            Some(c) => Some(Val::Obj(m.insert(k, c))),
                            None => None,
                        }
                    } else {
                        None
                    }
                }
            },
            Val::Arr(a) => {
                match idx_of(k) {
                    None => None,
                    Some(i) => {
                        if i > a.len() || (i == a.len() && !op_sets(op)) {
                            None
                        } else if parts.len() == 1 {
                            if op_sets(op) {
                                match op_leaf(op) {
                                    Some(l) => if i == a.len() { Some(Val::Arr(a.push(l))) } else { Some(Val::Arr(a.update(i, l))) },
                                    None => None,
                                }
                            } else if op_removes(op) {
                                Some(Val::Arr(a.remove(i)))
                            } else {
                                None
                            }
                        } else if i == a.len() {
                            None
                        } else {
                            match apply_parts(a[i], parts.skip(1), op) {
                                Some(c) => Some(Val::Arr(a.update(i, c))),
                                None => None,
                            }
                        }
                    },
                }
            },
            _ => None,
        }
    }
}

// RFC 6901 unescaping: "~1" is '/', "~0" is '~'
pub open spec fn unescape(s: Str) -> Str
    decreases s.len(),
{
    if s.len() == 0 {
        s
    } else if s.len() >= 2 && s[0] == 126 && s[1] == 49 {
        seq![47u8] + unescape(s.skip(2))
    } else if s.len() >= 2 && s[0] == 126 && s[1] == 48 {
        seq![126u8] + unescape(s.skip(2))
    } else {
        seq![s[0]] + unescape(s.skip(1))
    }
}

pub proof fn lemma_decoder(s: Str)
    ensures replacer(Seq::<(Str, Str)>::empty().push(("~1", "/")).push(("~0", "~")), s) == unescape(s),
    decreases s.len(),
{
    let t = Seq::<(Str, Str)>::empty().push(("~1", "/")).push(("~0", "~"));
    lemma_lits();
    reveal_with_fuel(repl_match, 3);
    assert(t.skip(1) =~= seq![("~0", "~")]);
    assert(t.skip(1).skip(1) =~= Seq::empty());
    if s.len() > 0 {
        assert(t[0] == ("~1", "/") && t[1] == ("~0", "~"));
        if s.len() >= 2 {
            assert(has_prefix(s, "~1") <==> s[0] == 126 && s[1] == 49) by {
                if s[0] == 126 && s[1] == 49 { assert(s.take(2) =~= "~1"); }
                if has_prefix(s, "~1") { assert(s.take(2)[0] == 126 && s.take(2)[1] == 49); }
            }
            assert(has_prefix(s, "~0") <==> s[0] == 126 && s[1] == 48) by {
                if s[0] == 126 && s[1] == 48 { assert(s.take(2) =~= "~0"); }
                if has_prefix(s, "~0") { assert(s.take(2)[0] == 126 && s.take(2)[1] == 48); }
            }
            lemma_decoder(s.skip(2));
        }
        lemma_decoder(s.skip(1));
        assert(seq![47u8] =~= "/");
        assert(seq![126u8] =~= "~");
    }
}

// reference tokens of a path: a JSON Pointer, or else a dotted path
pub open spec fn path_parts(path: Str) -> Seq<Str> {
    let body = if has_prefix(path, "/") { path.skip(1) } else { replace_byte(path, 46u8, 47u8) };
    split(body, 47u8).map_values(|p: Str| unescape(p))
}

pub open spec fn apply_op(doc: Val, op: Operation) -> Option<Val> {
    if op.Path.len() == 0 {
        if op_sets(op) { op_leaf(op) } else if op_removes(op) { Some(Val::Nil) } else { None }
    } else {
        apply_parts(doc, path_parts(op.Path), op)
    }
}

// operations in order, each applied to the result of the one before
pub open spec fn fold_ops(doc: Val, ops: Seq<Operation>) -> Option<Val>
    decreases ops.len(),
{
    if ops.len() == 0 { Some(doc) } else {
        match fold_ops(doc, ops.drop_last()) {
            Some(d) => apply_op(d, ops.last()),
            None => None,
        }
    }
}

pub proof fn lemma_fold_prefix(doc: Val, ops: Seq<Operation>, n: int)
    requires 0 <= n <= ops.len(), fold_ops(doc, ops.take(n)) is None,
    ensures fold_ops(doc, ops) is None,
    decreases ops.len() - n,
{
    if n < ops.len() {
        assert(ops.take(n + 1).drop_last() =~= ops.take(n));
        lemma_fold_prefix(doc, ops, n + 1);
    } else {
        assert(ops.take(n) =~= ops);
    }
}

// an addition and a replacement of the same value do the same
pub proof fn lemma_sets_alike(doc: Val, parts: Seq<Str>, a: Operation, b: Operation)
    requires op_sets(a), op_sets(b), op_leaf(a) == op_leaf(b),
    ensures apply_parts(doc, parts, a) == apply_parts(doc, parts, b),
    decreases parts.len(),
{
    if parts.len() > 1 {
        let k = parts[0];
        match doc {
            Val::Obj(m) => {
                let child = mget(m, k, Val::Nil);
                lemma_sets_alike(child, parts.skip(1), a, b);
                lemma_sets_alike(new_container(parts[1]), parts.skip(1), a, b);
            },
            Val::Arr(v) => {
                if idx_of(k) is Some && idx_of(k)->Some_0 < v.len() { lemma_sets_alike(v[idx_of(k)->Some_0], parts.skip(1), a, b); }
            },
            _ => {},
        }
    }
}
