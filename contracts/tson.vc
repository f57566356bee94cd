func tson.GetValue.getValue(t, parts) -> (v, err)
  requires: parts.len() >= 1
  ensures: match lookup(t, parts) { Some(d) => err is Nil && v == d, None => err is E }
  decreases: parts.len()
  ret: if parts.len() == 1 { assert(lookup(v, parts.skip(1)) == Some(v)); }

func tson.GetValue(t, path) -> (v, err)
  ensures: match get_value(t, path) { Some(d) => err is Nil && v == d, None => err is E }
  entry: lemma_split_head(path, 47u8); if has_prefix(path, "/") { assert(path.take(1)[0] == path[0]); }
  loop 1:
    invariant: v_parts.len() == seq_1.len()
    invariant: forall|k: int| 0 <= k < i_1 ==> v_parts[k] == unescape(seq_1[k])
    invariant: forall|k: int| i_1 <= k < v_parts.len() ==> v_parts[k] == seq_1[k]
    exit: lemma_decoder(v_part);
    after: assert(seq_1 =~= split(path.skip(1), 47u8)); assert(v_parts =~= ptr_parts(path));

func tson.GetLatestTimestamp(t) -> (ts)
  ensures: is_latest(t, ts as int)
  decreases: t
  loop 1:
    invariant: v_max >= 0 && t is Obj && map_1 == t->Obj_0
    invariant: forall|j: int| 0 <= j < i_1 ==> ts_le(t->Obj_0[#[trigger] seq_1[j]], v_max as int)
    invariant: v_max == 0 || ts_has(t, v_max as int)
    entry: ghost top = v_max;
    exit: lemma_latest(v_value, v_max as int);
      assert forall|j: int| 0 <= j < i_1 implies ts_le(t->Obj_0[#[trigger] seq_1[j]], v_max as int) by { if j < i_1 - 1 { lemma_ts_le_mono(t->Obj_0[seq_1[j]], top as int, v_max as int); } }
    after: assert forall|k: Str| #[trigger] t->Obj_0.dom().contains(k) implies ts_le(t->Obj_0[k], v_max as int) by { assert(seq_1.contains(k)); let j = choose|j: int| 0 <= j < seq_1.len() && seq_1[j] == k; }
  loop 2:
    invariant: v_max >= 0 && t is Arr
    invariant: forall|j: int| 0 <= j < i_2 ==> ts_le(#[trigger] t->Arr_0[j], v_max as int)
    invariant: v_max == 0 || ts_has(t, v_max as int)
    entry: ghost top = v_max;
    exit: lemma_latest(v_value_2, v_max as int);
      assert forall|j: int| 0 <= j < i_2 implies ts_le(#[trigger] t->Arr_0[j], v_max as int) by { if j < i_2 - 1 { lemma_ts_le_mono(t->Arr_0[j], top as int, v_max as int); } }
