func tson.ToJson.removeTimestamp(t) -> (r)
  ensures: r == strip(t)
  decreases: t
  loop 1:
    invariant: t is Obj && map_1 == t->Obj_0
    invariant: forall|k: Str| #[trigger] v_obj.dom().contains(k) <==> exists|j: int| 0 <= j < i_1 && seq_1[j] == k
    invariant: forall|j: int| 0 <= j < i_1 ==> v_obj[#[trigger] seq_1[j]] == strip(t->Obj_0[seq_1[j]])
    after: assert forall|k: Str| #[trigger] v_obj.dom().contains(k) <==> t->Obj_0.dom().contains(k) by { if seq_1.contains(k) { let j = choose|j: int| 0 <= j < seq_1.len() && seq_1[j] == k; } }
      assert forall|k: Str| #[trigger] v_obj.dom().contains(k) implies v_obj[k] == strip(t)->M_0[k] by { let j = choose|j: int| 0 <= j < seq_1.len() && seq_1[j] == k; }
      assert(v_obj =~= strip(t)->M_0);
  loop 2:
    invariant: t is Arr && v_arr.len() == t->Arr_0.len()
    invariant: forall|j: int| 0 <= j < i_2 ==> v_arr[j] == strip(#[trigger] t->Arr_0[j])
    after: assert(v_arr =~= strip(t)->S_0);

func tson.ToJson(t, j) -> (err)
  ensures: err is Nil && new_j == strip(t)

func tson.FromJson.addTimestamp(o) -> (v, err)
  ensures: plain_json(o) ==> err is Nil && v == wrap(o)
  decreases: o
  loop 1:
    invariant: o is M && map_1 == o->M_0
    invariant: forall|k: Str| #[trigger] v_obj.dom().contains(k) <==> exists|j: int| 0 <= j < i_1 && seq_1[j] == k
    invariant: plain_json(o) ==> forall|j: int| 0 <= j < i_1 ==> v_obj[#[trigger] seq_1[j]] == wrap(o->M_0[seq_1[j]])
    after: if plain_json(o) { assert forall|k: Str| #[trigger] v_obj.dom().contains(k) <==> o->M_0.dom().contains(k) by { if seq_1.contains(k) { let j = choose|j: int| 0 <= j < seq_1.len() && seq_1[j] == k; } }
      assert forall|k: Str| #[trigger] v_obj.dom().contains(k) implies v_obj[k] == wrap(o)->Obj_0[k] by { let j = choose|j: int| 0 <= j < seq_1.len() && seq_1[j] == k; }
      assert(v_obj =~= wrap(o)->Obj_0); }
  loop 2:
    invariant: o is S && v_arr.len() == i_2
    invariant: plain_json(o) ==> forall|j: int| 0 <= j < i_2 ==> v_arr[j] == wrap(#[trigger] o->S_0[j])
    after: if plain_json(o) { assert(v_arr =~= wrap(o)->Arr_0); }

func tson.FromJson(o, t) -> (err)
  ensures: plain_json(o) ==> err is Nil && new_t == wrap(o) && strip(new_t) == o
  ret: if plain_json(o) { theorem_json_identity(o); }

func tson.ToJsonBytes(t) -> (j, err)
  ensures: doc_ok(t) ==> err is Nil && json_value(j) == Some(strip(t))
  entry: if doc_ok(t) { lemma_floats_strip(t); ax_json_marshal(strip(t)); }

func tson.FromJsonBytes(j, t) -> (err)
  ensures: match json_value(j) { Some(a) => err is Nil && new_t == wrap(a) && strip(new_t) == a, None => err is E }
  entry: ax_json_tree(j); if json_value(j) is Some { lemma_value_plain(jn(j)->Some_0); }

func tson.Equal(t1, t2) -> (ret, err)
  ensures: finite_doc(t1) && finite_doc(t2) ==> err is Nil && ret == same_doc(t1, t2, true)
  entry: if finite_doc(t1) && finite_doc(t2) { ax_deep_equal_doc(t1, t2); }

func tson.EqualWithoutTimestamp(t1, t2) -> (ret, err)
  ensures: doc_ok(t1) && doc_ok(t2) ==> err is Nil && ret == same_doc(t1, t2, false)
  entry: if doc_ok(t1) && doc_ok(t2) { lemma_same_plain(t1, t2); lemma_strip_plain(t1); lemma_strip_plain(t2); lemma_floats_strip(t1); lemma_floats_strip(t2); ax_deep_equal_json(strip(t1), strip(t2)); }

func tson.unmarshalNumbers(data) -> (v, err)
  ensures: if json_value(data) is Some { err is Nil && Some(v) == jn(data) } else { err is E }

func tson.checkLeaf(m) -> (ok, v, ts)
  ensures[C06,C14]: num_tree(Any::M(m)) ==> ok == (leaf_of(m) is Some) && (ok ==> leaf_of(m) == Some((v, ts)))
  ensures[C27]: leaf_m(Any::M(m)) ==> ok && v == m[val_key()] && ts == m[ts_key()]->I64_0
  ensures[C27]: interior(Any::M(m)) ==> !ok
  entry[C27]: let e = Set::<Str>::empty().insert(val_key()); assert(val_key().len() != ts_key().len()); assert(!e.contains(ts_key())); assert(e.insert(ts_key()).len() == 2);
  entry[C06,C14]: if num_tree(Any::M(m)) && m.dom().contains(leaf_timestamp_key()) { lemma_num_member(Any::M(m), leaf_timestamp_key()); }

func tson.FromCompatibleTsonBytes.convert(v) -> (val, err)
  ensures: num_tree(v) ==> if is_form(v) { err is Nil && val == form_doc(v) } else { err is E }
  decreases: v
  loop 1:
    invariant: v is M && map_1 == v->M_0
    invariant: num_tree(v) ==> leaf_of(v->M_0) is None
    invariant: forall|k: Str| #[trigger] v_obj.dom().contains(k) <==> exists|j: int| 0 <= j < i_1 && seq_1[j] == k
    invariant: num_tree(v) ==> forall|j: int| 0 <= j < i_1 ==> is_form(v->M_0[#[trigger] seq_1[j]]) && v_obj[seq_1[j]] == form_doc(v->M_0[seq_1[j]])
    after: if num_tree(v) { assert forall|k: Str| #[trigger] v->M_0.dom().contains(k) implies is_form(v->M_0[k]) by { assert(seq_1.contains(k)); let j = choose|j: int| 0 <= j < seq_1.len() && seq_1[j] == k; }
      assert forall|k: Str| #[trigger] v_obj.dom().contains(k) <==> v->M_0.dom().contains(k) by { if seq_1.contains(k) { let j = choose|j: int| 0 <= j < seq_1.len() && seq_1[j] == k; } }
      assert forall|k: Str| #[trigger] v_obj.dom().contains(k) implies v_obj[k] == form_doc(v)->Obj_0[k] by { let j = choose|j: int| 0 <= j < seq_1.len() && seq_1[j] == k; }
      assert(v_obj =~= form_doc(v)->Obj_0); }
  loop 2:
    invariant: v is S && v_arr.len() == i_2
    invariant: num_tree(v) ==> forall|j: int| 0 <= j < i_2 ==> is_form(v->S_0[j]) && v_arr[j] == form_doc(#[trigger] v->S_0[j])
    after: if num_tree(v) { assert(v_arr =~= form_doc(v)->Arr_0); }

func tson.FromCompatibleTsonBytes(data, t) -> (err)
  ensures: match read_form(data) { Some(v) => err is Nil && new_t == v, None => err is E }
  entry: ax_json_tree(data);

func tson.ToCompatibleTsonBytes(t) -> (j, err)
  ensures: doc_ok(t) ==> err is Nil && jn(j) == Some(val_tree(t)) && read_form(j) == Some(t)
  entry: if doc_ok(t) { ax_json_marshal(any_of_val(t)); theorem_form(t); }

func tson.ToCompatibleTsonBytesSorted(t) -> (j, err)
  ensures: doc_ok(t) ==> err is Nil && jn(j) == Some(val_tree(t)) && read_form(j) == Some(t)
  entry: if doc_ok(t) { lemma_val_map(t); theorem_form(t); ax_json_marshal(val_map(t)); }

func tson.ToCompatibleTson(t, o) -> (err)
  ensures: doc_ok(t) ==> err is Nil && json_ok(new_o) && any_tree(new_o) == val_tree(t)
  entry: if doc_ok(t) { lemma_val_map(t); }

func tson.toSortedInterface(t) -> (a, err)
  ensures: err is Nil && a == val_map(t)
  decreases: t
  entry: lemma_lits();
  loop 1:
    invariant: t is Obj && map_1 == t->Obj_0 && v_keys.len() == i_1
    invariant: forall|j: int| 0 <= j < i_1 ==> v_keys[j] == #[trigger] seq_1[j]
    after: assert(v_keys =~= seq_1);
  loop 2:
    invariant: t is Obj
    invariant: forall|k: Str| #[trigger] seq_2.contains(k) <==> t->Obj_0.dom().contains(k)
    invariant: forall|k: Str| #[trigger] v_result.dom().contains(k) <==> exists|j: int| 0 <= j < i_2 && seq_2[j] == k
    invariant: forall|j: int| 0 <= j < i_2 ==> v_result[#[trigger] seq_2[j]] == val_map(t->Obj_0[seq_2[j]])
    entry: assert(seq_2.contains(seq_2[i_2 - 1]));
    after: assert forall|k: Str| #[trigger] v_result.dom().contains(k) <==> t->Obj_0.dom().contains(k) by { if seq_2.contains(k) { let j = choose|j: int| 0 <= j < seq_2.len() && seq_2[j] == k; } }
      assert forall|k: Str| #[trigger] v_result.dom().contains(k) implies v_result[k] == val_map(t)->M_0[k] by { let j = choose|j: int| 0 <= j < seq_2.len() && seq_2[j] == k; }
      assert(v_result =~= val_map(t)->M_0);
  loop 3:
    invariant: t is Arr && v_arr.len() == t->Arr_0.len()
    invariant: forall|j: int| 0 <= j < i_3 ==> v_arr[j] == val_map(#[trigger] t->Arr_0[j])
    after: assert(v_arr =~= val_map(t)->S_0);
