// JSON texts put together from parts (RFC 8259), and operations in JSON form.

pub open spec fn json_ws(s: Str) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 32 || s[i] == 10 || s[i] == 13 || s[i] == 9 }
// a list of members (without the braces), a list of elements (without the brackets)
pub uninterp spec fn jmembers(s: Str) -> Option<Seq<(Str, Any)>>;
pub uninterp spec fn jelems(s: Str) -> Option<Seq<Any>>;
pub open spec fn members_map(ms: Seq<(Str, Any)>) -> Map<Str, Any>
    decreases ms.len(),
{
    if ms.len() == 0 { Map::empty() } else { members_map(ms.drop_last()).insert(ms.last().0, ms.last().1) }
}
pub axiom fn ax_ws(w: Str, s: Str, z: Str)
    requires json_ws(w), json_ws(z),
    ensures
        jn(s) is Some ==> jn(w + s + z) == jn(s),
        jmembers(s) is Some ==> jmembers(w + s + z) == jmembers(s),
        jelems(s) is Some ==> jelems(w + s + z) == jelems(s),
;
pub axiom fn ax_member(kt: Str, vt: Str)
    requires jn(kt) is Some, jn(kt)->Some_0 is Str, jn(vt) is Some,
    ensures jmembers(kt + ":" + vt) == Some(seq![(jn(kt)->Some_0->Str_0, jn(vt)->Some_0)]),
;
pub axiom fn ax_members(a: Str, b: Str)
    requires jmembers(a) is Some, jmembers(b) is Some,
    ensures jmembers(a + "," + b) == Some(jmembers(a)->Some_0 + jmembers(b)->Some_0),
;
pub axiom fn ax_object(s: Str)
    requires jmembers(s) is Some,
    ensures jn("{" + s + "}") == Some(Any::M(members_map(jmembers(s)->Some_0))),
;
pub axiom fn ax_elem(s: Str)
    requires jn(s) is Some,
    ensures jelems(s) == Some(seq![jn(s)->Some_0]),
;
pub axiom fn ax_elems(a: Str, b: Str)
    requires jelems(a) is Some, jelems(b) is Some,
    ensures jelems(a + "," + b) == Some(jelems(a)->Some_0 + jelems(b)->Some_0),
;
pub axiom fn ax_array(s: Str)
    ensures
        jelems(s) is Some ==> jn("[" + s + "]") == Some(Any::S(jelems(s)->Some_0)),
        json_ws(s) ==> jn("[" + s + "]") == Some(Any::S(Seq::empty())),
;
// a string of ASCII letters stands for itself, an integer for a number
pub axiom fn ax_plain_string(s: Str)
    requires forall|i: int| 0 <= i < s.len() ==> 97 <= #[trigger] s[i] <= 122,
    ensures jn("\"" + s + "\"") == Some(Any::Str(s)),
;
pub axiom fn ax_plain_int(n: int)
    ensures jn(dec_str(n)) == Some(Any::Num(dec_str(n))),
;
pub axiom fn ax_int_value(n: int)
    requires i64::MIN <= n <= i64::MAX,
    ensures parse_f64_val(dec_str(n)) == f64_of_int(n),
;

// ---- operations
pub open spec fn norm_value(a: Any) -> Any { if a is Int { Any::F(f64_of_int(a->Int_0)) } else { a } }
pub open spec fn norm_op(op: Operation) -> Operation { Operation { Value: norm_value(op.Value), ..op } }
pub open spec fn op_ok(op: Operation) -> bool {
    utf8(op.Op) && utf8(op.Path) && (plain_json(op.Value) && json_ok(op.Value) || op.Value is Int && i64::MIN <= op.Value->Int_0 <= i64::MAX)
}
pub open spec fn ops_ok(ops: Seq<Operation>) -> bool { forall|i: int| 0 <= i < ops.len() ==> op_ok(#[trigger] ops[i]) }
pub open spec fn norm_ops(ops: Seq<Operation>) -> Seq<Operation> { ops.map_values(|o: Operation| norm_op(o)) }
// the operation a JSON object describes
pub open spec fn tree_op(t: Any) -> Option<Operation> {
    match t {
        Any::M(m) =>
            if m.dom().contains(op_op_key()) && m[op_op_key()] is Str && m.dom().contains(op_path_key()) && m[op_path_key()] is Str
                && m.dom().contains(op_timestamp_key()) && m[op_timestamp_key()] is Num && parse_int_err(m[op_timestamp_key()]->Num_0) is Nil
                && (m.dom().contains(op_value_key()) ==> nums_ok(m[op_value_key()]))
                && (forall|k: Str| #[trigger] m.dom().contains(k) ==> k == op_op_key() || k == op_path_key() || k == op_value_key() || k == op_timestamp_key())
            {
                Some(Operation {
                    Op: m[op_op_key()]->Str_0,
                    Path: m[op_path_key()]->Str_0,
                    Value: if m.dom().contains(op_value_key()) { floats(m[op_value_key()]) } else { Any::Nil },
                    Timestamp: parse_int_val(m[op_timestamp_key()]->Num_0),
                })
            } else { None },
        _ => None,
    }
}
// the text s is JSON that describes exactly op
pub open spec fn reads_op(s: Str, op: Operation) -> bool { jn(s) is Some && tree_op(jn(s)->Some_0) == Some(op) }
// json.Unmarshal into a Patch, for arrays of such objects
pub axiom fn ax_patch_decode(s: Str, ops: Seq<Operation>)
    requires
        jn(s) is Some,
        jn(s)->Some_0 is S,
        jn(s)->Some_0->S_0.len() == ops.len(),
        forall|i: int| 0 <= i < ops.len() ==> tree_op(jn(s)->Some_0->S_0[i]) == Some(#[trigger] ops[i]),
    ensures patch_of_json(s) == Some(ops),
;

pub proof fn lemma_floats_plain(a: Any)
    requires plain_json(a), json_ok(a),
    ensures nums_ok(any_tree(a)), floats(any_tree(a)) == a,
    decreases a,
{
    broadcast use ax_json_number;
    match a {
        Any::M(m) => {
            let t = any_tree(a)->M_0;
            assert forall|k: Str| #[trigger] t.dom().contains(k) implies nums_ok(t[k]) && floats(t[k]) == m[k] by { assert(m.dom().contains(k)); lemma_floats_plain(m[k]); }
            assert(floats(any_tree(a))->M_0 =~= m);
        },
        Any::S(s) => {
            let t = any_tree(a)->S_0;
            assert forall|i: int| 0 <= i < t.len() implies nums_ok(#[trigger] t[i]) && floats(t[i]) == s[i] by { assert(plain_json(s[i])); assert(json_ok(s[i])); lemma_floats_plain(s[i]); }
            assert(floats(any_tree(a))->S_0 =~= s);
        },
        _ => {},
    }
}
pub proof fn lemma_value_text(op: Operation)
    requires op_ok(op),
    ensures
        json_text_err(op.Value) is Nil, json_text_err(Any::Kind(op.Op)) is Nil, json_text_err(Any::Str(op.Path)) is Nil,
        jn(json_text(op.Value)) is Some, nums_ok(jn(json_text(op.Value))->Some_0), floats(jn(json_text(op.Value))->Some_0) == norm_value(op.Value),
        jn(json_text(Any::Kind(op.Op))) == Some(Any::Str(op.Op)),
        jn(json_text(Any::Str(op.Path))) == Some(Any::Str(op.Path)),
{
    broadcast use ax_json_marshal;
    assert(json_ok(Any::Kind(op.Op)));
    assert(json_ok(Any::Str(op.Path)));
    assert(json_ok(op.Value));
    assert(json_text_err(op.Value) is Nil && json_text_err(Any::Kind(op.Op)) is Nil && json_text_err(Any::Str(op.Path)) is Nil);
    if op.Value is Int {
        broadcast use ax_json_int;
        let n = op.Value->Int_0;
        ax_int_value(n);
        assert(any_tree(op.Value) == Any::Num(dec_str(n)));
        assert(parse_f64_err(dec_str(n)) is Nil);
    } else { lemma_floats_plain(op.Value); }
}
pub open spec fn mem_text(k: Str, t: Str) -> Str { " \"" + k + "\": " + t }
pub proof fn lemma_mem_text(k: Str, t: Str)
    requires jn(t) is Some, forall|i: int| 0 <= i < k.len() ==> 97 <= #[trigger] k[i] <= 122,
    ensures jmembers(mem_text(k, t)) == Some(seq![(k, jn(t)->Some_0)]),
{
    lemma_lits();
    ax_plain_string(k);
    let kt = "\"" + k + "\"";
    let e = Seq::<u8>::empty();
    ax_ws(" ", t, e);
    assert(" " + t + e =~= " " + t);
    ax_member(kt, " " + t);
    ax_ws(" ", kt + ":" + (" " + t), e);
    assert(" \"" =~= " " + "\"");
    assert("\": " =~= "\"" + ":" + " ");
    assert(mem_text(k, t) =~= " " + (kt + ":" + (" " + t)) + e);
}
pub proof fn lemma_op_parts(op: Operation, ot: Str, pt: Str, vt: Str, dt: Str)
    requires jn(ot) == Some(Any::Str(op.Op)), jn(pt) == Some(Any::Str(op.Path)), dt == dec_str(op.Timestamp as int),
        jn(vt) is Some ==> nums_ok(jn(vt)->Some_0) && floats(jn(vt)->Some_0) == op.Value,
    ensures
        jn(vt) is Some ==> reads_op("{" + (mem_text(op_op_key(), ot) + "," + mem_text(op_path_key(), pt) + "," + mem_text(op_value_key(), vt) + "," + (mem_text(op_timestamp_key(), dt) + " ")) + "}", op),
        op.Value is Nil ==> reads_op("{" + (mem_text(op_op_key(), ot) + "," + mem_text(op_path_key(), pt) + "," + (mem_text(op_timestamp_key(), dt) + " ")) + "}", op),
{
    lemma_lits();
    let (ko, kp, kv, kt) = (op_op_key(), op_path_key(), op_value_key(), op_timestamp_key());
    let e = Seq::<u8>::empty();
    ax_plain_int(op.Timestamp as int);
    lemma_dec_str(op.Timestamp as int);
    lemma_mem_text(ko, ot);
    lemma_mem_text(kp, pt);
    lemma_mem_text(kt, dt);
    let (a, b, d) = (mem_text(ko, ot), mem_text(kp, pt), mem_text(kt, dt) + " ");
    ax_ws(e, mem_text(kt, dt), " ");
    assert(e + mem_text(kt, dt) + " " =~= d);
    ax_members(a, b);
    let (mo, mp, mt) = (jn(ot)->Some_0, jn(pt)->Some_0, jn(dt)->Some_0);
    let ab = seq![(ko, mo)] + seq![(kp, mp)];
    if op.Value is Nil {
        ax_members(a + "," + b, d);
        let l = ab + seq![(kt, mt)];
        ax_object(a + "," + b + "," + d);
        assert(l.drop_last() =~= ab);
        assert(ab.drop_last() =~= seq![(ko, mo)]);
        assert(seq![(ko, mo)].drop_last() =~= Seq::empty());
        reveal_with_fuel(members_map, 4);
        assert(members_map(l) == Map::empty().insert(ko, mo).insert(kp, mp).insert(kt, mt));
    }
    if jn(vt) is Some {
        lemma_mem_text(kv, vt);
        let c = mem_text(kv, vt);
        let mv = jn(vt)->Some_0;
        ax_members(a + "," + b, c);
        ax_members(a + "," + b + "," + c, d);
        ax_object(a + "," + b + "," + c + "," + d);
        let abc = ab + seq![(kv, mv)];
        let l = abc + seq![(kt, mt)];
        assert(l.drop_last() =~= abc);
        assert(abc.drop_last() =~= ab);
        assert(ab.drop_last() =~= seq![(ko, mo)]);
        assert(seq![(ko, mo)].drop_last() =~= Seq::empty());
        reveal_with_fuel(members_map, 5);
        assert(members_map(l) == Map::empty().insert(ko, mo).insert(kp, mp).insert(kv, mv).insert(kt, mt));
    }
}
// what encoding/json writes for an operation (struct tags)
pub open spec fn op_tree(op: Operation) -> Any {
    let m = Map::<Str, Any>::empty().insert(op_op_key(), Any::Str(op.Op)).insert(op_path_key(), Any::Str(op.Path)).insert(op_timestamp_key(), Any::Num(dec_str(op.Timestamp as int)));
    Any::M(if op_value_omitempty() && op.Value is Nil { m } else { m.insert(op_value_key(), any_tree(op.Value)) })
}
pub broadcast axiom fn ax_json_marshal_ops(a: Any)
    requires
        a is Ops || a is Patch,
        a is Ops ==> ops_ok(a->Ops_0),
        a is Patch ==> ops_ok(a->Patch_0),
    ensures
        #[trigger] json_text_err(a) is Nil,
        a is Ops ==> jn(json_text(a)) == Some(Any::S(a->Ops_0.map_values(|o: Operation| op_tree(o)))),
        a is Patch ==> jn(json_text(a)) == Some(Any::S(a->Patch_0.map_values(|o: Operation| op_tree(o)))),
;
pub proof fn lemma_op_tree(op: Operation)
    requires op_ok(op),
    ensures tree_op(op_tree(op)) == Some(norm_op(op)),
{
    lemma_lits();
    lemma_dec_str(op.Timestamp as int);
    if op.Value is Int {
        broadcast use ax_json_int;
        ax_int_value(op.Value->Int_0);
        assert(parse_f64_err(dec_str(op.Value->Int_0)) is Nil);
    } else { lemma_floats_plain(op.Value); }
}
pub proof fn theorem_patch_json(ops: Seq<Operation>, s: Str)
    requires ops_ok(ops), jn(s) == Some(Any::S(ops.map_values(|o: Operation| op_tree(o)))),
    ensures patch_of_json(s) == Some(norm_ops(ops)),
{
    let n = norm_ops(ops);
    assert forall|i: int| 0 <= i < n.len() implies tree_op(jn(s)->Some_0->S_0[i]) == Some(#[trigger] n[i]) by { lemma_op_tree(ops[i]); }
    ax_patch_decode(s, n);
}
// lines joined by ",\n" between brackets form an array
pub proof fn lemma_join_elems(lines: Seq<Str>)
    requires lines.len() > 0, forall|i: int| 0 <= i < lines.len() ==> jn(#[trigger] lines[i]) is Some,
    ensures jelems(join(lines, ",\n")) == Some(lines.map_values(|l: Str| jn(l)->Some_0)),
    decreases lines.len(),
{
    lemma_lits();
    ax_elem(lines[0]);
    let v = lines.map_values(|l: Str| jn(l)->Some_0);
    if lines.len() == 1 {
        assert(v =~= seq![jn(lines[0])->Some_0]);
    } else {
        let rest = lines.skip(1);
        assert forall|i: int| 0 <= i < rest.len() implies jn(#[trigger] rest[i]) is Some by { assert(rest[i] == lines[i + 1]); }
        lemma_join_elems(rest);
        let e = Seq::<u8>::empty();
        ax_ws("\n", join(rest, ",\n"), e);
        assert("\n" + join(rest, ",\n") + e =~= "\n" + join(rest, ",\n"));
        ax_elems(lines[0], "\n" + join(rest, ",\n"));
        assert(",\n" =~= "," + "\n");
        assert(lines[0] + "," + ("\n" + join(rest, ",\n")) =~= lines[0] + ",\n" + join(rest, ",\n"));
        assert(v =~= seq![jn(lines[0])->Some_0] + rest.map_values(|l: Str| jn(l)->Some_0));
    }
}
pub proof fn lemma_patch_text(ops: Seq<Operation>, lines: Seq<Str>)
    requires lines.len() == ops.len(), forall|i: int| 0 <= i < ops.len() ==> reads_op(#[trigger] lines[i], ops[i]),
    ensures patch_of_json("[\n" + join(lines, ",\n") + "\n]") == Some(ops),
{
    lemma_lits();
    let e = Seq::<u8>::empty();
    let j = join(lines, ",\n");
    assert("[\n" =~= "[" + "\n");
    assert("\n]" =~= "\n" + "]");
    let s = "[" + ("\n" + j + "\n") + "]";
    assert(s =~= "[\n" + j + "\n]");
    if lines.len() == 0 {
        ax_array("\n" + j + "\n");
    } else {
        assert forall|i: int| 0 <= i < lines.len() implies jn(#[trigger] lines[i]) is Some by { assert(reads_op(lines[i], ops[i])); }
        lemma_join_elems(lines);
        ax_ws("\n", j, "\n");
        ax_array("\n" + j + "\n");
    }
    assert forall|i: int| 0 <= i < ops.len() implies tree_op(jn(s)->Some_0->S_0[i]) == Some(#[trigger] ops[i]) by { assert(reads_op(lines[i], ops[i])); }
    ax_patch_decode(s, ops);
}
pub open spec fn op_string(ot: Str, pt: Str, vt: Str, dt: Str) -> Str {
    "{ \"op\": " + ot + ", \"path\": " + pt + ", \"value\": " + vt + ", \"timestamp\": " + dt + " }"
}
pub proof fn lemma_op_string(ot: Str, pt: Str, vt: Str, dt: Str)
    ensures
        "{" + (mem_text(op_op_key(), ot) + "," + mem_text(op_path_key(), pt) + "," + mem_text(op_value_key(), vt) + "," + (mem_text(op_timestamp_key(), dt) + " ")) + "}" == op_string(ot, pt, vt, dt),
        "{" + (mem_text(op_op_key(), ot) + "," + mem_text(op_path_key(), pt) + "," + (mem_text(op_timestamp_key(), dt) + " ")) + "}" == "{ \"op\": " + ot + ", \"path\": " + pt + ", \"timestamp\": " + dt + " }",
{
    lemma_lits();
    assert("{ \"op\": " =~= "{" + (" \"" + op_op_key() + "\": "));
    assert(", \"path\": " =~= "," + (" \"" + op_path_key() + "\": "));
    assert(", \"value\": " =~= "," + (" \"" + op_value_key() + "\": "));
    assert(", \"timestamp\": " =~= "," + (" \"" + op_timestamp_key() + "\": "));
    assert(" }" =~= " " + "}");
    assert("{" + (mem_text(op_op_key(), ot) + "," + mem_text(op_path_key(), pt) + "," + mem_text(op_value_key(), vt) + "," + (mem_text(op_timestamp_key(), dt) + " ")) + "}" =~= op_string(ot, pt, vt, dt));
    assert("{" + (mem_text(op_op_key(), ot) + "," + mem_text(op_path_key(), pt) + "," + (mem_text(op_timestamp_key(), dt) + " ")) + "}" =~= "{ \"op\": " + ot + ", \"path\": " + pt + ", \"timestamp\": " + dt + " }");
}
pub proof fn lemma_indent(line: Str, op: Operation)
    ensures forall|s: Str| line == "    " + s && reads_op(s, op) ==> reads_op(line, op),
{
    lemma_lits();
    let e = Seq::<u8>::empty();
    assert forall|s: Str| line == "    " + s && reads_op(s, op) implies reads_op(line, op) by {
        ax_ws("    ", s, e);
        assert("    " + s + e =~= line);
    }
}
