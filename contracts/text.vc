func tson.Parser.skipWhitespace(p) -> ()
  requires: 0 <= p.pos <= p.input.len()
  ensures: new_p.input == p.input && p.pos <= new_p.pos <= p.input.len()
  ensures: new_p.input.skip(new_p.pos) == trim(p.input.skip(p.pos))
  loop 1:
    invariant: v_p.input == p.input && p.pos <= v_p.pos <= p.input.len()
    invariant: trim(v_p.input.skip(v_p.pos)) == trim(p.input.skip(p.pos))
    decreases: v_p.input.len() - v_p.pos
    entry: lemma_trim_step(v_p.input.skip(v_p.pos));
    exit: assert(p.input.skip(v_p.pos - 1).skip(1) =~= p.input.skip(v_p.pos));
    after: lemma_trim_step(v_p.input.skip(v_p.pos));

func tson.Parser.peek(p) -> (b)
  requires: 0 <= p.pos <= p.input.len()
  ensures: new_p == p && b == (if p.pos < p.input.len() { p.input[p.pos] } else { 0u8 })

func tson.Parser.expect(p, ch) -> (err)
  requires: 0 <= p.pos <= p.input.len() && ch != 0
  ensures: new_p.input == p.input && p.pos <= new_p.pos <= p.input.len()
  ensures: if at(trim(p.input.skip(p.pos)), ch) { err is Nil && new_p.pos > p.pos && p.input.skip(new_p.pos) == trim(p.input.skip(p.pos)).skip(1) } else { err is E }
  entry: broadcast use group_skip;

func tson.Parser.startsWith(p, s) -> (r)
  requires: 0 <= p.pos <= p.input.len()
  ensures: r == has_prefix(p.input.skip(p.pos), s) && new_p == p
  ret: if !r && p.pos + s.len() <= p.input.len() { assert forall|k: int| 0 <= k < s.len() && p.input[p.pos + k] != s[k] implies !(p.input.skip(p.pos).take(s.len() as int) =~= s) by { assert(p.input.skip(p.pos).take(s.len() as int)[k] == p.input[p.pos + k]); } }
  loop 1:
    invariant: seq_1 == s && p.pos + s.len() <= p.input.len() && v_p == p
    invariant: forall|k: int| 0 <= k < i_1 ==> p.input[p.pos + k] == #[trigger] s[k]
    after: assert(p.input.skip(p.pos).take(s.len() as int) =~= s);

func tson.Parser.parseString(p) -> (r, err)
  requires: 0 <= p.pos <= p.input.len()
  ensures: new_p.input == p.input && p.pos <= new_p.pos <= p.input.len()
  ensures: match stoken(p.input.skip(p.pos)) { Some((t, q)) => err is Nil && r == t && p.input.skip(new_p.pos) == q && new_p.pos > p.pos, None => err is E }
  entry: broadcast use group_skip; broadcast use lemma_trim;
  loop 1:
    invariant: v_p.input == p.input && p.pos < v_p.pos <= p.input.len()
    invariant: stoken(p.input.skip(p.pos)) == sprep(v_result, sbody(v_p.input.skip(v_p.pos)))
    decreases: v_p.input.len() - v_p.pos
    before: lemma_sprep_empty(sbody(v_p.input.skip(v_p.pos)));
    entry: ghost was = v_result; ghost from = v_p.pos; lemma_sbody_step(p.input.skip(v_p.pos), v_result);
    exit: assert(v_p.pos == from + 1 || v_p.pos == from + 2);
    after: lemma_sbody_step(p.input.skip(v_p.pos), v_result);

func tson.Parser.parseNumber(p) -> (x, err)
  requires: 0 <= p.pos <= p.input.len()
  ensures: new_p.input == p.input && p.pos <= new_p.pos <= p.input.len()
  ensures: match num(p.input.skip(p.pos)) { Some((y, q)) => err is Nil && x == y && p.input.skip(new_p.pos) == q, None => err is E }
  entry: ghost n = num_parts(p.input, p.pos); lemma_num_parts(p.input, p.pos);
  loop 1:
    invariant: v_p.input == p.input && p.pos <= v_p.pos <= p.input.len()
    invariant: v_p.pos + ndig(p.input.skip(v_p.pos)) == n.b
    decreases: v_p.input.len() - v_p.pos
    entry: lemma_ndig_at(p.input, v_p.pos);
    after: lemma_ndig_at(p.input, v_p.pos); assert(v_p.pos == n.b);
  loop 2:
    invariant: v_p.input == p.input && p.pos <= v_p.pos <= p.input.len()
    invariant: v_p.pos + ndig(p.input.skip(v_p.pos)) == n.c
    decreases: v_p.input.len() - v_p.pos
    entry: lemma_ndig_at(p.input, v_p.pos);
    after: lemma_ndig_at(p.input, v_p.pos); assert(v_p.pos == n.c);
  loop 3:
    invariant: v_p.input == p.input && p.pos <= v_p.pos <= p.input.len()
    invariant: v_p.pos + ndig(p.input.skip(v_p.pos)) == n.d
    decreases: v_p.input.len() - v_p.pos
    entry: lemma_ndig_at(p.input, v_p.pos);
    after: lemma_ndig_at(p.input, v_p.pos); assert(v_p.pos == n.d);
  before strconv.ParseFloat: assert(v_p.pos == n.d);

func tson.Parser.parseTimestamp(p) -> (ts, err)
  requires: 0 <= p.pos <= p.input.len()
  ensures: new_p.input == p.input && p.pos <= new_p.pos <= p.input.len()
  ensures: match stamp(trim(p.input.skip(p.pos))) { Some((x, q)) => err is Nil && ts == x && p.input.skip(new_p.pos) == q && new_p.pos > p.pos, None => err is E }
  entry: ghost s = trim(p.input.skip(p.pos));
  ret: if err is Nil { lemma_skip_skip(p.input, new_p.pos - 1, 1); if s.len() >= 2 { lemma_skip_skip(s, 1, 1); } }
  loop 1:
    before: ghost first = v_p.pos; ghost end = v_p.pos + ndig(p.input.skip(v_p.pos)); lemma_ndig(s.skip(1));
    invariant: v_p.input == p.input && first <= v_p.pos <= p.input.len()
    invariant: v_p.pos + ndig(p.input.skip(v_p.pos)) == end
    decreases: v_p.input.len() - v_p.pos
    entry: lemma_ndig_at(p.input, v_p.pos);
    after: lemma_ndig_at(p.input, v_p.pos); assert(p.input.subrange(first, v_p.pos) =~= s.skip(1).take(ndig(s.skip(1)))); lemma_skip_skip(p.input, first, end - first);

func tson.Parser.parsePrimitive(p) -> (v, err)
  requires: 0 <= p.pos <= p.input.len()
  ensures: new_p.input == p.input && p.pos <= new_p.pos <= p.input.len()
  ensures: match prim(trim(p.input.skip(p.pos))) { Some((a, q)) => err is Nil && v == a && p.input.skip(new_p.pos) == q && new_p.pos > p.pos, None => err is E }
  entry: broadcast use group_skip; broadcast use lemma_trim; lemma_nlen(trim(p.input.skip(p.pos)));

func tson.wrapIfPrimitive(v, timestamp) -> (r)
  requires: v is Nil || v is Str || v is F || v is B || v is V
  ensures: match v { Any::V(d) => r == stamped(d, timestamp), _ => r == leaf(v, timestamp) }

func tson.Parser.parseVal(p) -> (v, err)
  requires: 0 <= p.pos <= p.input.len()
  ensures: new_p.input == p.input && p.pos <= new_p.pos <= p.input.len()
  ensures: match value(trim(p.input.skip(p.pos))) { Some((x, q)) => err is Nil && v == x && trim(p.input.skip(new_p.pos)) == q && new_p.pos > p.pos, None => err is E }
  decreases: p.input.len() - p.pos, 1int
  entry: ghost s = trim(p.input.skip(p.pos)); broadcast use group_skip; broadcast use lemma_trim; if !at(s, 123) && !at(s, 91) { lemma_value_other(s); }

func tson.Parser.parseObject(p) -> (v, err)
  requires: 0 <= p.pos <= p.input.len() && at(p.input.skip(p.pos), 123)
  ensures: new_p.input == p.input && p.pos <= new_p.pos <= p.input.len()
  ensures: match value(p.input.skip(p.pos)) { Some((x, q)) => err is Nil && v == x && trim(p.input.skip(new_p.pos)) == q && new_p.pos > p.pos, None => err is E }
  decreases: p.input.len() - p.pos, 0int
  attr: allow_complex_invariants
  entry: ghost s = p.input.skip(p.pos); broadcast use group_skip; broadcast use lemma_trim; lemma_value_object(s);
  loop 1:
    xinvariant: v_p.input == p.input && p.pos < v_p.pos <= p.input.len()
    xinvariant: value(s) == obj_of(members(trim(p.input.skip(v_p.pos)), v_obj))
    ensures: v_p.input == p.input && p.pos < v_p.pos <= p.input.len()
    ensures: value(s) == Some((Val::Obj(v_obj), trim(p.input.skip(v_p.pos))))
    decreases: v_p.input.len() - v_p.pos
    entry: ghost q = trim(p.input.skip(v_p.pos)); lemma_members_step(q, v_obj);

func tson.Parser.parseArray(p) -> (v, err)
  requires: 0 <= p.pos <= p.input.len() && at(p.input.skip(p.pos), 91)
  ensures: new_p.input == p.input && p.pos <= new_p.pos <= p.input.len()
  ensures: match value(p.input.skip(p.pos)) { Some((x, q)) => err is Nil && v == x && trim(p.input.skip(new_p.pos)) == q && new_p.pos > p.pos, None => err is E }
  decreases: p.input.len() - p.pos, 0int
  attr: allow_complex_invariants
  entry: ghost s = p.input.skip(p.pos); broadcast use group_skip; broadcast use lemma_trim; lemma_value_array(s);
  loop 1:
    xinvariant: v_p.input == p.input && p.pos < v_p.pos <= p.input.len()
    xinvariant: value(s) == arr_of(elements(trim(p.input.skip(v_p.pos)), v_arr))
    ensures: v_p.input == p.input && p.pos < v_p.pos <= p.input.len()
    ensures: value(s) == Some((Val::Arr(v_arr), trim(p.input.skip(v_p.pos))))
    decreases: v_p.input.len() - v_p.pos
    entry: ghost q = trim(p.input.skip(v_p.pos)); lemma_elements_step(q, v_arr);

func tson.quote(s) -> (r)
  ensures: r == quoted(s)
  ret: assert(seq_1.take(seq_1.len() as int) =~= s); assert(r =~= quoted(s));
  loop 1:
    invariant: seq_1 == s && v_quoted == seq![34u8] + esc_all(s.take(i_1 as int))
    entry: ghost was = v_quoted;
    exit: assert(s.take(i_1 as int).drop_last() =~= s.take(i_1 - 1)); assert(s.take(i_1 as int).last() == v_ch); assert(v_quoted =~= was + esc1(v_ch)); assert(was + esc1(v_ch) =~= seq![34u8] + (esc_all(s.take(i_1 - 1)) + esc1(v_ch)));
    before: assert(esc_all(s.take(0)) =~= Seq::<u8>::empty()); assert(v_quoted =~= seq![34u8] + esc_all(s.take(0)));

func tson.marshalTson(v, ctx) -> (s, err)
  requires: 0 <= ctx <= 2
  ensures: finite_doc(v) ==> err is Nil && reads(s, v, ctx as int)
  decreases: v, 1int
  ret: if finite_doc(v) { if is_leaf(v) { lemma_leaf_reads(v, ctx as int); assert(s =~= leaf_text(v, ctx as int)); } if v is Nil { lemma_nil_reads(ctx as int); } match v { Val::Obj(m) => { assert(v == Val::Obj(m)); }, Val::Arr(a) => { assert(v == Val::Arr(a)); }, _ => {} } }

func tson.marshalObject(obj) -> (s, err)
  ensures: finite_doc(Val::Obj(obj)) ==> err is Nil && forall|ctx: int| reads(s, Val::Obj(obj), ctx)
  decreases: Val::Obj(obj), 0int
  loop 1:
    before: lemma_obj_text_start(v_s, Seq::empty(), obj, seq_1);
    invariant: map_1 == obj && v_first == (i_1 == 0)
    invariant: finite_doc(Val::Obj(obj)) ==> obj_text(v_s, Seq::empty(), obj, seq_1.take(i_1 as int))
    entry: ghost was = v_s; assert(Val::Obj(obj)->Obj_0 == map_1); assert(map_1.dom().contains(v_key));
    exit: if finite_doc(Val::Obj(obj)) { assert(all_ws(" ")); lemma_obj_text_step(was, v_s, " ", Seq::empty(), obj, seq_1, i_1 - 1, v_marshaledValue); }
    after: if finite_doc(Val::Obj(obj)) { let n: Str = v_s + "}"; assert forall|ctx: int| reads(n, Val::Obj(obj), ctx) by { lemma_obj_text_done(v_s, n, Seq::empty(), Seq::empty(), obj, seq_1, ctx); } }

func tson.marshalArray(arr) -> (s, err)
  ensures: finite_doc(Val::Arr(arr)) ==> err is Nil && forall|ctx: int| reads(s, Val::Arr(arr), ctx)
  decreases: Val::Arr(arr), 0int
  loop 1:
    before: lemma_arr_text_start(v_s, Seq::empty(), arr);
    invariant: seq_1 == arr && v_first == (i_1 == 0)
    invariant: finite_doc(Val::Arr(arr)) ==> arr_text(v_s, Seq::empty(), arr.take(i_1 as int))
    entry: ghost was = v_s; assert(Val::Arr(arr)->Arr_0[i_1 - 1] == v_elem);
    exit: if finite_doc(Val::Arr(arr)) { assert(all_ws(" ")); lemma_arr_text_step(was, v_s, " ", Seq::empty(), arr, i_1 - 1, v_marshaledElem); }
    after: if finite_doc(Val::Arr(arr)) { let n: Str = v_s + "]"; assert forall|ctx: int| reads(n, Val::Arr(arr), ctx) by { lemma_arr_text_done(v_s, n, Seq::empty(), Seq::empty(), arr, ctx); } }

func tson.Marshal(t) -> (b, err)
  ensures: finite_doc(t) ==> err is Nil && parse_doc(b) == Some(norm(t))
  ret: if finite_doc(t) { lemma_reads_parse(b, t); }

func tson.formatPrimitive(v) -> (s, err)
  ensures: v is Nil ==> err is Nil && s == "null"
  ensures[C27]: scalar(v) ==> err is Nil && s == raw_text(v)

func tson.marshalIndentValue(v, currentIndent, indent, ctx) -> (s, err)
  requires: 0 <= ctx <= 2 && all_ws(currentIndent) && all_ws(indent)
  ensures[C03]: doc_value(v) && finite_doc(any_doc(v)) ==> err is Nil && reads(s, any_doc(v), ctx as int)
  ensures[C27]: tree(v) || v is S && signal(v) ==> err is Nil && reads(s, set_doc(v), ctx as int)
  decreases: (if v is M || v is S { 1int } else { 0int }), (if v is V { Any::Nil } else { v }), any_doc(v)
  entry: ghost lead = currentIndent + indent; ghost doc = any_doc(v); lemma_ws_app(currentIndent, indent);
  ret[C03]: if doc_value(v) && finite_doc(doc) { if is_leaf(doc) { lemma_leaf_reads(doc, ctx as int); assert(s =~= leaf_text(doc, ctx as int)); } if doc is Nil { lemma_nil_reads(ctx as int); } }
  loop 1:
    before[C27]: ghost whole = set_doc(v); if tree(v) { lemma_set_obj(v); } lemma_obj_text_start(v_s, "\n", whole->Obj_0, seq_1);
    invariant: map_1 == v->M_0 && v is M && v_first == (i_1 == 0)
    invariant[C27]: tree(v) ==> obj_text(v_s, "\n", whole->Obj_0, seq_1.take(i_1 as int))
    entry[C27]: ghost was = v_s; assert(v->M_0.dom().contains(v_key)); if tree(v) { assert(signal(v_val) || tree(v_val)); assert(leaf_m(v_val) || v_val is S || interior(v_val)); }
    exit[C27]: broadcast use lemma_left; if tree(v) {
      let x = v_val; let d = whole->Obj_0; let k = seq_1[i_1 - 1];
      assert(d[k] == set_doc(x));
      if leaf_m(x) { let ts = x->M_0[ts_key()]->I64_0; let t = raw_text(x->M_0[val_key()]); lemma_raw_text(x);
        assert(v_s =~= sep(was, i_1 - 1) + lead + quoted(k) + " " + stamp_text(ts) + ": " + t);
        lemma_obj_text_stamp(was, v_s, lead, d, seq_1, i_1 - 1, t, ts);
      } else { let pre = sep(was, i_1 - 1) + lead + quoted(k) + ": "; let t = v_s.skip(pre.len() as int);
        assert(exists|u: Str| #[trigger] reads(u, set_doc(x), 1) && t =~= u); assert(reads(t, set_doc(x), 1));
        assert(v_s =~= pre + t); if tree(x) { lemma_set_obj(x); }
        lemma_obj_text_plain(was, v_s, lead, d, seq_1, i_1 - 1, t); } }
    after[C27]: if tree(v) { let y: Str = "\n" + currentIndent; let n: Str = v_s + (y + "}"); assert(all_ws(y)); lemma_obj_text_done(v_s, n, "\n", y, whole->Obj_0, seq_1, ctx as int); }
  loop 2:
    before[C27]: ghost all = set_doc(v); lemma_arr_text_start(v_s_2, "\n", all->Arr_0);
    invariant: seq_2 == v->S_0 && v is S && v_first_2 == (i_2 == 0)
    invariant[C27]: signal(v) ==> arr_text(v_s_2, "\n", all->Arr_0.take(i_2 as int))
    entry[C27]: ghost was = v_s_2;
    exit[C27]: broadcast use lemma_left; if signal(v) {
      let x = seq_2[i_2 - 1]; let d = all->Arr_0;
      assert(leaf_m(x)); assert(d[i_2 - 1] == set_doc(x));
      let ts = x->M_0[ts_key()]->I64_0; let t = raw_text(x->M_0[val_key()]); lemma_raw_text(x);
      lemma_stamped_element(t, set_doc(x), ts); let u: Str = stamp_text(ts) + " " + t;
      assert(v_s_2 =~= sep(was, i_2 - 1) + lead + u);
      lemma_arr_text_line(was, v_s_2, lead, d, i_2 - 1, u); }
    after[C27]: if signal(v) { let y: Str = "\n" + currentIndent; let n: Str = v_s_2 + (y + "]"); assert(all_ws(y)); lemma_arr_text_done(v_s_2, n, "\n", y, all->Arr_0, ctx as int); }
  loop 3:
    before[C03]: lemma_obj_text_start(v_s_3, "\n", doc->Obj_0, seq_3);
    invariant: v is V && doc is Obj && map_3 == doc->Obj_0 && v_first_3 == (i_3 == 0)
    invariant[C03]: finite_doc(doc) ==> obj_text(v_s_3, "\n", doc->Obj_0, seq_3.take(i_3 as int))
    entry[C03]: ghost was = v_s_3;
    exit[C03]: broadcast use lemma_left; if finite_doc(doc) { let x = map_3[seq_3[i_3 - 1]]; let pre = member_line(sep(was, i_3 - 1) + lead + quoted(seq_3[i_3 - 1]), x); let t = if is_leaf(x) { leaf_text(x, 1) } else { v_s_3.skip(pre.len() as int) };
      assert(doc == Val::Obj(map_3)); assert(map_3.dom().contains(seq_3[i_3 - 1])); assert(finite_doc(x));
      if is_leaf(x) { lemma_leaf_reads(x, 1); } else { assert(exists|u: Str| #[trigger] reads(u, x, 1) && t =~= u); assert(reads(t, x, 1)); }
      assert(v_s_3 =~= pre + t);
      lemma_obj_text_line(was, v_s_3, lead, map_3, seq_3, i_3 - 1, t); }
    after[C03]: if finite_doc(doc) { let y: Str = "\n" + currentIndent; let n: Str = v_s_3 + (y + "}"); assert(all_ws(y)); assert(doc == Val::Obj(map_3)); lemma_obj_text_done(v_s_3, n, "\n", y, map_3, seq_3, ctx as int); }
  loop 4:
    before[C03]: lemma_arr_text_start(v_s_4, "\n", doc->Arr_0);
    invariant: v is V && doc is Arr && seq_4 == doc->Arr_0 && v_first_4 == (i_4 == 0)
    invariant[C03]: finite_doc(doc) ==> arr_text(v_s_4, "\n", doc->Arr_0.take(i_4 as int))
    entry[C03]: ghost was = v_s_4;
    exit[C03]: broadcast use lemma_left; if finite_doc(doc) { let x = seq_4[i_4 - 1]; let pre = sep(was, i_4 - 1) + lead; let t = if is_leaf(x) { leaf_text(x, 2) } else { v_s_4.skip(pre.len() as int) };
      assert(doc == Val::Arr(seq_4)); assert(finite_doc(x));
      if is_leaf(x) { lemma_leaf_reads(x, 2); } else { assert(exists|u: Str| #[trigger] reads(u, x, 2) && t =~= u); assert(reads(t, x, 2)); }
      assert(v_s_4 =~= pre + t);
      lemma_arr_text_line(was, v_s_4, lead, seq_4, i_4 - 1, t); }
    after[C03]: if finite_doc(doc) { let y: Str = "\n" + currentIndent; let n: Str = v_s_4 + (y + "]"); assert(all_ws(y)); assert(doc == Val::Arr(seq_4)); lemma_arr_text_done(v_s_4, n, "\n", y, seq_4, ctx as int); }

func tson.MarshalIndent(j, prefix, indent) -> (b, err)
  requires: all_ws(prefix) && all_ws(indent)
  ensures[C03]: doc_value(j) && finite_doc(any_doc(j)) ==> err is Nil && parse_doc(b) == Some(norm(any_doc(j)))
  ensures[C27]: tree(j) ==> err is Nil && parse_doc(b) == Some(norm(set_doc(j)))
  ret[C27]: if tree(j) { lemma_reads_parse(b, set_doc(j)); }
  ret[C03]: if doc_value(j) && finite_doc(any_doc(j)) { lemma_reads_parse(b, any_doc(j)); }
