// Data sets and change lists as texts in files (C27).

// ---- the text of a data set: the text of a value, and where its timestamp stands
// a value that can stand after a timestamp of its own
pub open spec fn takes_stamp(v: Val, ts: i64) -> bool { stamped(bare(v), norm_ts(ts)) == norm(v) }
pub proof fn lemma_stamped_element(t: Str, v: Val, ts: i64)
    requires reads(t, v, 1), takes_stamp(v, ts), t.len() > 0, !is_ws(t[0]),
    ensures reads(stamp_text(ts) + " " + t, v, 2),
{
    reveal(reads);
    let s: Str = stamp_text(ts) + " " + t;
    assert forall|r: Str| #[trigger] ends(r) implies element(trim(s + r)) == Some((norm(v), trim(r))) by {
        broadcast use lemma_trim;
        let y: Str = " " + (t + r);
        lemma_stamp_text(ts, y);
        lemma_trim_ws(" ", t + r);
        assert(s + r =~= stamp_text(ts) + y);
        lemma_trim_app(t, r);
        assert(value(trim(t + r)) == Some((bare(v), trim(r))));
    }
}
pub proof fn lemma_stamped_member(k: Str, t: Str, v: Val, ts: i64)
    requires reads(t, v, 1), takes_stamp(v, ts),
    ensures wrote_members(quoted(k) + " " + stamp_text(ts) + ": " + t, Map::empty().insert(k, norm(v))),
{
    reveal(wrote_members);
    reveal(reads);
    let w: Str = quoted(k) + " " + stamp_text(ts) + ": " + t;
    let d = Map::<Str, Val>::empty().insert(k, norm(v));
    assert forall|r: Str, m: Map<Str, Val>| #[trigger] ends(r) implies #[trigger] members(trim(w + r), m) == after_member(trim(r), m.union_prefer_right(d)) by {
        broadcast use lemma_trim;
        let y: Str = ": " + (t + r);
        let z: Str = " " + (stamp_text(ts) + y);
        assert(w + r =~= quoted(k) + z);
        lemma_quoted(k, z);
        lemma_trim_ws(" ", stamp_text(ts) + y);
        lemma_stamp_text(ts, y);
        assert((w + r)[0] == 34u8);
        assert(y.skip(1) =~= " " + (t + r));
        lemma_trim_ws(" ", t + r);
        lemma_members_step(w + r, m);
        assert(m.union_prefer_right(d) =~= m.insert(k, norm(v)));
    }
}
pub proof fn lemma_nlen_nat(d: Str, r: Str)
    requires all_digits(d), d.len() > 0, stops(r),
    ensures ndig(d) == d.len(), ndig(d + r) == d.len(),
    decreases d.len(),
{
    assert(is_digit(d[0]));
    let q = d.skip(1);
    assert((d + r).skip(1) =~= q + r);
    assert forall|i: int| 0 <= i < q.len() implies is_digit(#[trigger] q[i]) by { assert(q[i] == d[i + 1]); }
    if d.len() > 1 { lemma_nlen_nat(q, r); } else { assert(q + r =~= r); reveal(ndig); assert(ndig(r) == 0); assert(ndig(q) == 0); }
    reveal(ndig);
}
pub proof fn lemma_nlen_int(n: int)
    ensures
        nlen(dec_str(n)) == dec_str(n).len(),
        dec_str(n).len() > 0,
        dec_str(n)[0] == 45 || is_digit(dec_str(n)[0]),
{
    reveal(nlen); reveal(nsign); reveal(nfrac); reveal(nexp);
    let s = dec_str(n);
    let d = dec_nat((if n < 0 { -n } else { n }) as nat);
    let e = Seq::<u8>::empty();
    lemma_dec_nat((if n < 0 { -n } else { n }) as nat);
    lemma_nlen_nat(d, e);
    assert(is_digit(d[0]));
    if n < 0 { assert(s.skip(1) =~= d); } else { assert(s.skip(0) =~= d); }
    let a = nsign(s);
    assert(s.skip(a) == d);
    assert(s.skip(s.len() as int) =~= e);
}
// the text of a scalar of a data set
pub open spec fn raw_text(v: Any) -> Str { match v { Any::Nil => "null", Any::Int(n) => dec_str(n), _ => prim_text(v) } }
pub proof fn lemma_raw_text(a: Any)
    requires leaf_m(a),
    ensures
        reads(raw_text(a->M_0[val_key()]), set_doc(a), 1),
        takes_stamp(set_doc(a), a->M_0[ts_key()]->I64_0),
        raw_text(a->M_0[val_key()]).len() > 0,
        !is_ws(raw_text(a->M_0[val_key()])[0]),
        !(set_doc(a) is Obj || set_doc(a) is Arr),
{
    broadcast use ax_json_number;
    broadcast use ax_json_int;
    lemma_set_leaf(a);
    let v = a->M_0[val_key()];
    let ts = a->M_0[ts_key()]->I64_0;
    let d = set_doc(a);
    let e = Seq::<u8>::empty();
    match v {
        Any::Nil => { lemma_nil_reads(1); },
        Any::Int(n) => {
            ax_int_value(n);
            lemma_nlen_int(n);
            assert(any_tree(v) == Any::Num(dec_str(n)));
            let x = f64_of_int(n);
            assert(d == Val::LF(LeafF { Value: x, Timestamp: ts }));
            let t = dec_str(n);
            reveal(reads);
            assert forall|r: Str| #[trigger] ends(r) implies value(trim(t + r)) == Some((bare(d), trim(r))) by {
                broadcast use lemma_trim;
                lemma_ends_stops(r);
                lemma_nlen_stop(t, r);
                let y = t + r;
                assert(y[0] == t[0]);
                assert(y.take(t.len() as int) =~= t);
                assert(y.skip(t.len() as int) =~= r);
                lemma_value_other(y);
            }
        },
        _ => {
            assert(is_leaf(d) && leaf_any(d) == v);
            lemma_leaf_reads(d, 1);
            lemma_prim_text(v, e);
        },
    }
}
// a member with a timestamp, on a line of its own
pub proof fn lemma_obj_text_stamp(was: Str, n: Str, lead: Str, m: Map<Str, Val>, ks: Seq<Str>, i: int, t: Str, ts: i64)
    requires
        0 <= i < ks.len(),
        obj_text(was, "\n", m, ks.take(i)),
        all_ws(lead),
        reads(t, m[ks[i]], 1), takes_stamp(m[ks[i]], ts),
        n =~= sep(was, i) + lead + quoted(ks[i]) + " " + stamp_text(ts) + ": " + t,
    ensures
        obj_text(n, "\n", m, ks.take(i + 1)),
{
    reveal(obj_text);
    let k = ks[i];
    let nl: Str = "\n";
    let z: Str = nl + lead;
    let d = Map::<Str, Val>::empty().insert(k, norm(m[k]));
    let p: Str = quoted(k) + " " + stamp_text(ts) + ": " + t;
    assert(all_ws(nl));
    assert(all_ws(z));
    lemma_stamped_member(k, t, m[k], ts);
    lemma_norm_keys_step(m, ks, i);
    if i > 0 {
        let w = choose|w: Str| was == "{" + w && #[trigger] wrote_members(w, norm_keys(m, ks.take(i)));
        lemma_members_join(w, norm_keys(m, ks.take(i)), z, p, d);
        assert(n =~= "{" + (w + ("," + z) + p));
    } else {
        assert(norm_keys(m, ks.take(0)).union_prefer_right(d) =~= d);
        lemma_members_ws(z, p, d);
        assert(n =~= "{" + (z + p));
    }
}
// a member without timestamp of its own, on a line of its own
pub proof fn lemma_obj_text_plain(was: Str, n: Str, lead: Str, m: Map<Str, Val>, ks: Seq<Str>, i: int, t: Str)
    requires
        0 <= i < ks.len(),
        obj_text(was, "\n", m, ks.take(i)),
        all_ws(lead),
        reads(t, m[ks[i]], 1), !is_leaf(m[ks[i]]),
        n =~= sep(was, i) + lead + quoted(ks[i]) + ": " + t,
    ensures
        obj_text(n, "\n", m, ks.take(i + 1)),
{
    assert(n =~= member_line(sep(was, i) + lead + quoted(ks[i]), m[ks[i]]) + t);
    lemma_obj_text_line(was, n, lead, m, ks, i, t);
}

// ---- files: texts by name, and directories
// Assumptions: a file whose directory is there can be written, MkdirAll makes its directory, and
// neither touches another file.
pub struct Disk { pub files: Map<Str, Str>, pub dirs: Set<Str> }
pub uninterp spec fn path_join(a: Str, b: Str) -> Str;
pub open spec fn has_file(disk: Disk, f: Str) -> bool { disk.files.dom().contains(f) }
pub open spec fn writable(disk: Disk, f: Str) -> bool { exists|d: Str, n: Str| f == #[trigger] path_join(d, n) && one_name(n) && disk.dirs.contains(d) }
// a name that leads into the directory itself
pub open spec fn one_name(n: Str) -> bool { n.len() > 2 && !n.contains(47u8) }
pub open spec fn wrote(disk: Disk, disk2: Disk, f: Str) -> bool { disk2.files == disk.files.insert(f, disk2.files[f]) && disk2.dirs == disk.dirs }
#[verifier::external_body]
pub fn os_write_file(Ghost(disk): Ghost<Disk>, Ghost(f): Ghost<Str>, Ghost(data): Ghost<Str>) -> (r: Ghost<(Err, Disk)>)
    ensures writable(disk, f) ==> r@.0 is Nil && r@.1.files == disk.files.insert(f, data) && r@.1.dirs == disk.dirs,
{ unimplemented!() }
#[verifier::external_body]
pub fn os_mkdir(Ghost(disk): Ghost<Disk>, Ghost(d): Ghost<Str>) -> (r: Ghost<(Err, Disk)>)
    ensures r@.1.files == disk.files, disk.dirs.subset_of(r@.1.dirs), !has_file(disk, d) ==> r@.0 is Nil && r@.1.dirs.contains(d),
{ unimplemented!() }
// os.Mkdir: not without the directory above
#[verifier::external_body]
pub fn os_mkdir_one(Ghost(disk): Ghost<Disk>, Ghost(d): Ghost<Str>) -> (r: Ghost<(Err, Disk)>)
    ensures r@.1.files == disk.files, disk.dirs.subset_of(r@.1.dirs), r@.0 is Nil ==> r@.1.dirs.contains(d),
{ unimplemented!() }
#[verifier::external_body]
pub fn os_remove(Ghost(disk): Ghost<Disk>, Ghost(d): Ghost<Str>) -> (r: Ghost<(Err, Disk)>)
    ensures true,
{ unimplemented!() }
#[verifier::external_body]
pub fn os_stat(Ghost(disk): Ghost<Disk>, Ghost(d): Ghost<Str>) -> (r: Ghost<(int, Err)>)
    ensures r@.1 is Nil <==> disk.dirs.contains(d) || has_file(disk, d),
{ unimplemented!() }

// ---- the text of a list of changes
pub open spec fn list_form(c: Any, p: Seq<Operation>) -> bool { c == Any::S(list_any(p)) && ops_ok(p) && norm_ops(p) == p && named(p) }
pub proof fn lemma_list_any(p: Seq<Operation>, q: Seq<Operation>)
    requires list_any(p) == list_any(q),
    ensures p == q,
{
    lemma_lits();
    assert(list_any(p).len() == p.len() && list_any(q).len() == q.len());
    assert forall|i: int| 0 <= i < p.len() implies p[i] == q[i] by {
        assert(list_any(p)[i] == op_any(p[i]));
        assert(list_any(q)[i] == op_any(q[i]));
        let m = op_any(p[i])->M_0;
        assert(m[op_op_key()] == Any::Str(p[i].Op) && m[op_path_key()] == Any::Str(p[i].Path) && m[val_key()] == p[i].Value && m[ts_key()] == Any::I64(p[i].Timestamp));
        assert(m[op_op_key()] == Any::Str(q[i].Op) && m[op_path_key()] == Any::Str(q[i].Path) && m[val_key()] == q[i].Value && m[ts_key()] == Any::I64(q[i].Timestamp));
    }
    assert(p =~= q);
}
// what the parts of one change are, and the text that follows from them
pub proof fn lemma_change_parts(p: Seq<Operation>, i: int)
    requires 0 <= i < p.len(), ops_ok(p), norm_ops(p) == p, named(p),
    ensures
        list_any(p)[i] == op_any(p[i]),
        op_any(p[i])->M_0[op_op_key()] == Any::Str(p[i].Op),
        op_any(p[i])->M_0[op_path_key()] == Any::Str(p[i].Path),
        op_any(p[i])->M_0[val_key()] == p[i].Value,
        op_any(p[i])->M_0[ts_key()] == Any::I64(p[i].Timestamp),
        reads_op(op_string("\"" + p[i].Op + "\"", json_text(Any::Str(p[i].Path)), json_text(p[i].Value), dec_str(p[i].Timestamp as int)), p[i]),
{
    lemma_lits();
    let o = p[i];
    assert(op_ok(o));
    assert(norm_ops(p)[i] == norm_op(o));
    lemma_value_text(o);
    ax_plain_string(o.Op);
    let (ot, pt, vt, dt) = ("\"" + o.Op + "\"", json_text(Any::Str(o.Path)), json_text(o.Value), dec_str(o.Timestamp as int));
    lemma_op_parts(o, ot, pt, vt, dt);
    lemma_op_string(ot, pt, vt, dt);
}

// ---- data sets whose timestamps were read from a clock
pub axiom fn ax_clock(t: i64) ensures clock(t) ==> t >= 0;   // the clock stands after 1970
pub open spec fn dated_leaf(x: Any) -> bool { x->M_0[ts_key()]->I64_0 >= 0 }
pub open spec fn dated_sig(x: Any) -> bool { (leaf_m(x) ==> dated_leaf(x)) && (x is S ==> forall|i: int| 0 <= i < x->S_0.len() ==> dated_leaf(#[trigger] x->S_0[i])) }
pub open spec fn dated(a: Any) -> bool { forall|p: Seq<Str>| (#[trigger] sig(a, p)) is Some ==> dated_sig(sig(a, p)->Some_0) }
pub proof fn lemma_dated_next(a: Any, b: Any, ts: i64)
    requires next_set(a, b, ts), clock(ts),
    ensures dated(a) ==> dated(b),
{
    ax_clock(ts);
    if dated(a) {
        assert forall|p: Seq<Str>| (#[trigger] sig(b, p)) is Some implies dated_sig(sig(b, p)->Some_0) by {
            assert(sig(a, p) is Some);
        }
    }
}
pub proof fn lemma_dated_norm(a: Any)
    requires tree(a) || signal(a), tree(a) ==> dated(a), signal(a) ==> dated_sig(a),
    ensures norm(set_doc(a)) == set_doc(a),
    decreases a,
{
    if leaf_m(a) { lemma_set_leaf(a); }
    else if a is S {
        let d = set_doc(a)->Arr_0;
        assert forall|i: int| 0 <= i < d.len() implies norm(#[trigger] d[i]) == d[i] by { assert(leaf_m(a->S_0[i])); assert(dated_leaf(a->S_0[i])); lemma_dated_norm(a->S_0[i]); }
        assert(norm(set_doc(a))->Arr_0 =~= d);
    } else {
        lemma_set_obj(a);
        let m = a->M_0;
        let d = set_doc(a)->Obj_0;
        assert forall|k: Str| #[trigger] d.dom().contains(k) implies norm(d[k]) == d[k] by {
            assert(m.dom().contains(k));
            let q = seq![k];
            assert(q.skip(1) =~= Seq::<Str>::empty());
            if tree(m[k]) {
                assert forall|p: Seq<Str>| (#[trigger] sig(m[k], p)) is Some implies dated_sig(sig(m[k], p)->Some_0) by {
                    let r = seq![k] + p;
                    assert(r.skip(1) =~= p);
                    assert(sig(a, r) == sig(m[k], p));
                }
            } else {
                assert(sig(a, q) == sig(m[k], Seq::empty()));
                assert(!interior(m[k]));
            }
            lemma_dated_norm(m[k]);
        }
        assert(norm(set_doc(a))->Obj_0 =~= d);
    }
}

// ---- the files of a series
// filepath.Join: what stands before a relative name, for names without empty parts, "." and ".."
pub uninterp spec fn path_prefix_of(d: Str) -> Str;
pub axiom fn ax_path_join(d: Str, r: Str, n: Str)
    requires rel_name(r), rel_name(n),
    ensures
        path_join(d, r) == path_prefix_of(d) + r,
        path_join(path_join(d, r), n) == path_prefix_of(d) + r + "/" + n,
;
// a relative name every part of which starts with a letter or a digit
pub open spec fn name_start(c: u8) -> bool { 48 <= c <= 57 || 97 <= c <= 122 }
pub open spec fn rel_name(r: Str) -> bool {
    r.len() > 0 && name_start(r[0]) && forall|i: int| 0 <= i < r.len() && #[trigger] r[i] == 47 ==> i + 1 < r.len() && name_start(r[i + 1])
}

pub open spec fn set_dir(i: int) -> Str { "car_" + dec_str(i) + "/tson" }
pub open spec fn change_dir(i: int) -> Str { "car_" + dec_str(i) + "/patches" }
pub open spec fn set_name(i: int, j: int) -> Str { dec_str(i) + "_" + dec_str(j) + ".tson" }
pub open spec fn change_name(i: int, j: int) -> Str { dec_str(i) + "_" + dec_str(j) + ".json" }
pub open spec fn set_file(d: Str, i: int, j: int) -> Str { path_join(path_join(d, set_dir(i)), set_name(i, j)) }
pub open spec fn change_file(d: Str, i: int, j: int) -> Str { path_join(path_join(d, change_dir(i)), change_name(i, j)) }

pub proof fn lemma_digits(n: int)
    requires n >= 0,
    ensures all_digits(dec_str(n)), dec_str(n).len() > 0, dec_val(dec_str(n)) == n, dec_str(n) == dec_nat(n as nat),
{
    lemma_dec_nat(n as nat);
}
pub proof fn lemma_same_number(i: int, j: int)
    requires i >= 0, j >= 0, dec_str(i) == dec_str(j),
    ensures i == j,
{
    lemma_digits(i);
    lemma_digits(j);
}
pub proof fn lemma_cut_digits(i: int, r: Str, j: int, q: Str)
    requires i >= 0, j >= 0, r.len() > 0, q.len() > 0, !is_digit(r[0]), !is_digit(q[0]), dec_str(i) + r == dec_str(j) + q,
    ensures i == j, r == q,
{
    lemma_digits(i);
    lemma_digits(j);
    let (a, b) = (dec_str(i), dec_str(j));
    if a.len() < b.len() { assert((a + r)[a.len() as int] == r[0]); assert((b + q)[a.len() as int] == b[a.len() as int]); }
    if a.len() > b.len() { assert((b + q)[b.len() as int] == q[0]); assert((a + r)[b.len() as int] == a[b.len() as int]); }
    assert((a + r).take(a.len() as int) =~= a);
    assert((b + q).take(a.len() as int) =~= b);
    lemma_same_number(i, j);
    assert((a + r).skip(a.len() as int) =~= r);
    assert((b + q).skip(a.len() as int) =~= q);
}
pub proof fn lemma_cut_same(a: Str, r: Str, q: Str)
    requires a + r == a + q,
    ensures r == q,
{
    assert((a + r).skip(a.len() as int) =~= r);
    assert((a + q).skip(a.len() as int) =~= q);
}
pub open spec fn file_tail(i: int, x: Str, j: int, y: Str) -> Str { "car_" + (dec_str(i) + (x + (dec_str(i) + ("_" + (dec_str(j) + y))))) }
pub proof fn lemma_tails(i: int, x: Str, j: int, y: Str, i2: int, x2: Str, j2: int, y2: Str)
    requires
        i >= 0, j >= 0, i2 >= 0, j2 >= 0, x.len() > 1, x2.len() > 1, !is_digit(x[0]), !is_digit(x2[0]), y.len() > 0, y2.len() > 0, !is_digit(y[0]), !is_digit(y2[0]),
        file_tail(i, x, j, y) == file_tail(i2, x2, j2, y2),
    ensures
        x[1] == x2[1],
        i == i2,
        x == x2 ==> j == j2,
{
    lemma_lits();
    let (t, t2) = ("_" + (dec_str(j) + y), "_" + (dec_str(j2) + y2));
    let (s, s2) = (dec_str(i) + t, dec_str(i2) + t2);
    lemma_cut_same("car_", dec_str(i) + (x + s), dec_str(i2) + (x2 + s2));
    assert((x + s)[0] == x[0] && (x2 + s2)[0] == x2[0]);
    lemma_cut_digits(i, x + s, i2, x2 + s2);
    assert((x + s)[1] == x[1] && (x2 + s2)[1] == x2[1]);
    if x == x2 {
        lemma_cut_same(x, s, s2);
        assert(t[0] == 95 && t2[0] == 95);
        lemma_cut_digits(i, t, i2, t2);
        lemma_cut_same("_", dec_str(j) + y, dec_str(j2) + y2);
        lemma_cut_digits(j, y, j2, y2);
    }
}
pub proof fn lemma_rel_names(i: int, j: int)
    requires i >= 0, j >= 0,
    ensures
        rel_name(set_dir(i)), rel_name(change_dir(i)), rel_name(set_name(i, j)), rel_name(change_name(i, j)),
        one_name(set_name(i, j)), one_name(change_name(i, j)),
{
    lemma_lits();
    lemma_digits(i);
    lemma_digits(j);
    let n = dec_str(i);
    let m = dec_str(j);
    assert forall|k: int| 0 <= k < set_dir(i).len() && #[trigger] set_dir(i)[k] == 47 implies k == 4 + n.len() by { if 4 <= k < 4 + n.len() { assert(set_dir(i)[k] == n[k - 4]); } }
    assert forall|k: int| 0 <= k < change_dir(i).len() && #[trigger] change_dir(i)[k] == 47 implies k == 4 + n.len() by { if 4 <= k < 4 + n.len() { assert(change_dir(i)[k] == n[k - 4]); } }
    assert forall|k: int| 0 <= k < set_name(i, j).len() implies #[trigger] set_name(i, j)[k] != 47 by {
        if k < n.len() { assert(set_name(i, j)[k] == n[k]); } else if n.len() < k < n.len() + 1 + m.len() { assert(set_name(i, j)[k] == m[k - n.len() - 1]); }
    }
    assert forall|k: int| 0 <= k < change_name(i, j).len() implies #[trigger] change_name(i, j)[k] != 47 by {
        if k < n.len() { assert(change_name(i, j)[k] == n[k]); } else if n.len() < k < n.len() + 1 + m.len() { assert(change_name(i, j)[k] == m[k - n.len() - 1]); }
    }
    assert(set_name(i, j)[0] == n[0] && change_name(i, j)[0] == n[0]);
}
// the same directories, joined in another way
pub proof fn lemma_dir_forms(d: Str, i: int)
    requires i >= 0,
    ensures
        path_join(path_join(d, "car_" + dec_str(i)), "tson") == path_join(d, set_dir(i)),
        path_join(path_join(d, "car_" + dec_str(i)), "patches") == path_join(d, change_dir(i)),
{
    lemma_lits();
    lemma_rel_names(i, 1);
    lemma_digits(i);
    let (n, c) = (dec_str(i), "car_" + dec_str(i));
    assert forall|k: int| 0 <= k < c.len() implies #[trigger] c[k] != 47 by { if 4 <= k { assert(c[k] == n[k - 4]); } }
    ax_path_join(d, set_dir(i), "tson");
    ax_path_join(d, change_dir(i), "tson");
    ax_path_join(d, c, "tson");
    ax_path_join(d, c, "patches");
    assert(path_prefix_of(d) + c + "/" + "tson" =~= path_prefix_of(d) + set_dir(i));
    assert(path_prefix_of(d) + c + "/" + "patches" =~= path_prefix_of(d) + change_dir(i));
}
pub proof fn lemma_file_names(d: Str, i: int, j: int)
    requires i >= 0, j >= 0,
    ensures
        set_file(d, i, j) == path_prefix_of(d) + file_tail(i, "/tson/", j, ".tson"),
        change_file(d, i, j) == path_prefix_of(d) + file_tail(i, "/patches/", j, ".json"),
{
    lemma_lits();
    lemma_rel_names(i, j);
    ax_path_join(d, set_dir(i), set_name(i, j));
    ax_path_join(d, change_dir(i), change_name(i, j));
    assert("/tson/" =~= "/tson" + "/");
    assert("/patches/" =~= "/patches" + "/");
    assert(path_prefix_of(d) + set_dir(i) + "/" + set_name(i, j) =~= path_prefix_of(d) + file_tail(i, "/tson/", j, ".tson"));
    assert(path_prefix_of(d) + change_dir(i) + "/" + change_name(i, j) =~= path_prefix_of(d) + file_tail(i, "/patches/", j, ".json"));
}
// no file of a series has the name of a directory
pub proof fn lemma_tail_dir(i: int, x: Str, j: int, y: Str, k: int, r: Str)
    requires
        i >= 0, j >= 0, k >= 0, x.len() > 1, r.len() > 1, x[0] == 47, r[0] == 47, x[1] != r[1] || x.len() > r.len(),
    ensures file_tail(i, x, j, y) != "car_" + (dec_str(k) + r),
{
    let s = x + (dec_str(i) + ("_" + (dec_str(j) + y)));
    if file_tail(i, x, j, y) == "car_" + (dec_str(k) + r) {
        lemma_cut_same("car_", dec_str(i) + s, dec_str(k) + r);
        assert(s[0] == x[0] && s[1] == x[1]);
        lemma_cut_digits(i, s, k, r);
    }
}
pub proof fn lemma_not_dir(d: Str, i: int, j: int, k: int)
    requires i >= 0, j >= 0, k >= 0,
    ensures
        set_file(d, i, j) != path_join(d, set_dir(k)), change_file(d, i, j) != path_join(d, set_dir(k)),
        set_file(d, i, j) != path_join(d, change_dir(k)), change_file(d, i, j) != path_join(d, change_dir(k)),
{
    lemma_lits();
    lemma_file_names(d, i, j);
    lemma_rel_names(k, 1);
    let p = path_prefix_of(d);
    ax_path_join(d, set_dir(k), set_name(k, 1));
    ax_path_join(d, change_dir(k), set_name(k, 1));
    let (s, c) = (file_tail(i, "/tson/", j, ".tson"), file_tail(i, "/patches/", j, ".json"));
    let (a, b) = ("car_" + (dec_str(k) + "/tson"), "car_" + (dec_str(k) + "/patches"));
    assert(set_dir(k) =~= a && change_dir(k) =~= b);
    lemma_tail_dir(i, "/tson/", j, ".tson", k, "/tson");
    lemma_tail_dir(i, "/tson/", j, ".tson", k, "/patches");
    lemma_tail_dir(i, "/patches/", j, ".json", k, "/tson");
    lemma_tail_dir(i, "/patches/", j, ".json", k, "/patches");
    if p + s == p + a { lemma_cut_same(p, s, a); }
    if p + s == p + b { lemma_cut_same(p, s, b); }
    if p + c == p + a { lemma_cut_same(p, c, a); }
    if p + c == p + b { lemma_cut_same(p, c, b); }
}
// every file of a series has a name of its own
pub proof fn lemma_files_differ(d: Str, i: int, j: int, i2: int, j2: int)
    requires i >= 0, j >= 0, i2 >= 0, j2 >= 0,
    ensures
        set_file(d, i, j) == set_file(d, i2, j2) ==> i == i2 && j == j2,
        change_file(d, i, j) == change_file(d, i2, j2) ==> i == i2 && j == j2,
        set_file(d, i, j) != change_file(d, i2, j2),
{
    lemma_lits();
    lemma_file_names(d, i, j);
    lemma_file_names(d, i2, j2);
    let p = path_prefix_of(d);
    let (s, c, s2, c2) = (file_tail(i, "/tson/", j, ".tson"), file_tail(i, "/patches/", j, ".json"), file_tail(i2, "/tson/", j2, ".tson"), file_tail(i2, "/patches/", j2, ".json"));
    if p + s == p + s2 { lemma_cut_same(p, s, s2); lemma_tails(i, "/tson/", j, ".tson", i2, "/tson/", j2, ".tson"); }
    if p + c == p + c2 { lemma_cut_same(p, c, c2); lemma_tails(i, "/patches/", j, ".json", i2, "/patches/", j2, ".json"); }
    if p + s == p + c2 { lemma_cut_same(p, s, c2); lemma_tails(i, "/tson/", j, ".tson", i2, "/patches/", j2, ".json"); }
}

// ---- what stands in the files of a series
pub open spec fn has_set(disk: Disk, f: Str, a: Val) -> bool { has_file(disk, f) && parse_doc(disk.files[f]) == Some(a) }
pub open spec fn has_changes(disk: Disk, f: Str, p: Seq<Operation>) -> bool { has_file(disk, f) && patch_of_json(disk.files[f]) == Some(p) }
pub open spec fn first_is(disk: Disk, d: Str, i: int, a: Val) -> bool { has_set(disk, set_file(d, i, 1), a) && has_set(disk, change_file(d, i, 1), a) }
pub open spec fn first(disk: Disk, d: Str, i: int) -> bool { exists|a: Val| first_is(disk, d, i, a) }
// b is a data set that follows a
pub open spec fn follows(a: Any, b: Any) -> bool { tree(a) && tree(b) && exists|ts: i64| clock(ts) && #[trigger] next_set(a, b, ts) }
pub open spec fn step_is(disk: Disk, d: Str, i: int, j: int, a: Any, p: Seq<Operation>, b: Any) -> bool {
    has_set(disk, set_file(d, i, j - 1), set_doc(a)) && has_changes(disk, change_file(d, i, j), p) && has_set(disk, set_file(d, i, j), set_doc(b))
        && replays(set_doc(a), p, set_doc(b)) && follows(a, b)
}
// the data set in file j follows the one in file j - 1, and the changes in file j turn that one into it
pub open spec fn step(disk: Disk, d: Str, i: int, j: int) -> bool { exists|a: Any, p: Seq<Operation>, b: Any| step_is(disk, d, i, j, a, p, b) }
pub open spec fn series(disk: Disk, d: Str, i: int, n: int) -> bool { first(disk, d, i) && forall|j: int| 2 <= j <= n ==> #[trigger] step(disk, d, i, j) }
pub open spec fn stays(disk: Disk, disk2: Disk, f: Str) -> bool { has_file(disk, f) ==> has_file(disk2, f) && disk2.files[f] == disk.files[f] }
pub proof fn lemma_series_stays(disk: Disk, disk2: Disk, d: Str, i: int, n: int)
    requires
        series(disk, d, i, n),
        forall|j: int| 1 <= j <= (if n < 1 { 1 } else { n }) ==> stays(disk, disk2, #[trigger] set_file(d, i, j)),
        forall|j: int| 1 <= j <= (if n < 1 { 1 } else { n }) ==> stays(disk, disk2, #[trigger] change_file(d, i, j)),
    ensures series(disk2, d, i, n),
{
    let a = choose|a: Val| first_is(disk, d, i, a);
    assert(stays(disk, disk2, set_file(d, i, 1)) && stays(disk, disk2, change_file(d, i, 1)));
    assert(first_is(disk2, d, i, a));
    assert forall|j: int| 2 <= j <= n implies #[trigger] step(disk2, d, i, j) by {
        assert(step(disk, d, i, j));
        let (a, p, b) = choose|a: Any, p: Seq<Operation>, b: Any| step_is(disk, d, i, j, a, p, b);
        assert(stays(disk, disk2, set_file(d, i, j)) && stays(disk, disk2, set_file(d, i, j - 1)) && stays(disk, disk2, change_file(d, i, j)));
        assert(step_is(disk2, d, i, j, a, p, b));
    }
}
pub open spec fn made(disk: Disk, d: Str, c: int, n: int) -> bool { forall|i: int| 1 <= i < c ==> #[trigger] series(disk, d, i, n) }
// new directories and files leave the finished series as they are
pub proof fn lemma_made_files(disk: Disk, disk2: Disk, d: Str, c: int, n: int, j: int)
    requires
        c >= 1, j >= 1,
        made(disk, d, c, n),
        forall|f: Str| has_file(disk, f) && f != set_file(d, c, j) && f != change_file(d, c, j) ==> #[trigger] has_file(disk2, f) && disk2.files[f] == disk.files[f],
    ensures
        made(disk2, d, c, n),
        j >= 2 && series(disk, d, c, j - 1) ==> series(disk2, d, c, j - 1),
        j >= 2 ==> stays(disk, disk2, set_file(d, c, j - 1)),
{
    assert forall|i: int| 1 <= i < c implies #[trigger] series(disk2, d, i, n) by {
        assert forall|k: int| 1 <= k implies stays(disk, disk2, #[trigger] set_file(d, i, k)) by { lemma_files_differ(d, c, j, i, k); lemma_files_differ(d, i, k, c, j); }
        assert forall|k: int| 1 <= k implies stays(disk, disk2, #[trigger] change_file(d, i, k)) by { lemma_files_differ(d, c, j, i, k); lemma_files_differ(d, i, k, c, j); }
        lemma_series_stays(disk, disk2, d, i, n);
    }
    if j >= 2 {
        assert forall|k: int| 1 <= k <= j - 1 implies stays(disk, disk2, #[trigger] set_file(d, c, k)) by { lemma_files_differ(d, c, j, c, k); lemma_files_differ(d, c, k, c, j); }
        assert forall|k: int| 1 <= k <= j - 1 implies stays(disk, disk2, #[trigger] change_file(d, c, k)) by { lemma_files_differ(d, c, j, c, k); lemma_files_differ(d, c, k, c, j); }
        if series(disk, d, c, j - 1) { lemma_series_stays(disk, disk2, d, c, j - 1); }
    }
}
pub proof fn lemma_step(disk: Disk, d: Str, i: int, j: int, c: Any, a: Any, b: Any)
    requires
        j >= 2,
        has_set(disk, set_file(d, i, j - 1), set_doc(a)), has_set(disk, set_file(d, i, j), set_doc(b)), has_file(disk, change_file(d, i, j)),
        change_list(c, set_doc(a), set_doc(b)), follows(a, b),
        forall|p: Seq<Operation>| #[trigger] list_form(c, p) ==> patch_of_json(disk.files[change_file(d, i, j)]) == Some(p),
        series(disk, d, i, j - 1),
    ensures series(disk, d, i, j),
{
    let p = choose|p: Seq<Operation>| change_list_is(c, p, set_doc(a), set_doc(b));
    assert(list_form(c, p));
    assert(step_is(disk, d, i, j, a, p, b));
    assert(step(disk, d, i, j));
}
// a name in a directory that is there can be written
pub proof fn lemma_writable(d: Str, i: int, j: int)
    requires i >= 0, j >= 0,
    ensures
        forall|disk: Disk| disk.dirs.contains(path_join(d, set_dir(i))) ==> #[trigger] writable(disk, set_file(d, i, j)),
        forall|disk: Disk| disk.dirs.contains(path_join(d, change_dir(i))) ==> #[trigger] writable(disk, change_file(d, i, j)),
{
    lemma_rel_names(i, j);
}
// the data set f names is well-formed; an initial data set can be generated from a
pub uninterp spec fn vss_file(f: Str) -> bool;
pub uninterp spec fn vss_schema(a: Any) -> bool;
pub proof fn lemma_first_names(i: int)
    ensures set_name(i, 1) == dec_str(i) + "_1.tson", change_name(i, 1) == dec_str(i) + "_1.json",
{
    lemma_lits();
    assert(dec_str(1) =~= seq![49u8]);
    assert(set_name(i, 1) =~= dec_str(i) + "_1.tson");
    assert(change_name(i, 1) =~= dec_str(i) + "_1.json");
}
pub proof fn lemma_first(disk: Disk, d: Str, i: int, a: Val)
    requires first_is(disk, d, i, a),
    ensures series(disk, d, i, 1),
{
    assert(first(disk, d, i));
}
pub proof fn lemma_has_form()
    ensures forall|c: Any, a: Val, b: Val| #[trigger] change_list(c, a, b) ==> exists|p: Seq<Operation>| list_form(c, p),
{
    assert forall|c: Any, a: Val, b: Val| #[trigger] change_list(c, a, b) implies exists|p: Seq<Operation>| list_form(c, p) by {
        let p = choose|p: Seq<Operation>| change_list_is(c, p, a, b);
        assert(list_form(c, p));
    }
}
// no file stands where a directory of the series goes
pub open spec fn room(disk: Disk, d: Str) -> bool { forall|k: int| k >= 0 ==> !#[trigger] has_file(disk, path_join(d, set_dir(k))) && !has_file(disk, path_join(d, change_dir(k))) }
pub proof fn lemma_room(disk: Disk, disk2: Disk, d: Str, i: int, j: int)
    requires
        i >= 0, j >= 0, room(disk, d),
        forall|f: Str| #[trigger] has_file(disk2, f) ==> has_file(disk, f) || f == set_file(d, i, j) || f == change_file(d, i, j),
    ensures room(disk2, d),
{
    assert forall|k: int| k >= 0 implies !#[trigger] has_file(disk2, path_join(d, set_dir(k))) && !has_file(disk2, path_join(d, change_dir(k))) by { lemma_not_dir(d, i, j, k); assert(!has_file(disk, path_join(d, set_dir(k)))); }
}
