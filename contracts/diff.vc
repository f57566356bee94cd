func tsonpatch.makePath(path, newPart) -> (r)
  ensures: newPart is Str || newPart is Int ==> r == path + seq![47u8] + escape(any_fmt(newPart))
  entry: lemma_encoder(any_fmt(newPart));
  ret: assert("/" =~= seq![47u8]);

func tsonpatch.matchesValue(origin, modified) -> (r)
  ensures: is_leaf(origin) ==> r == same_doc(origin, modified, false)
  entry: broadcast use ax_f64_eq;
  decreases: (if origin is Nil { 0int } else { 1int }), origin

func tsonpatch.matchTimestamp(origin, modified) -> (r)
  ensures: is_leaf(origin) ==> r == same_ts(origin, modified)
  decreases: (if origin is Nil { 0int } else { 1int }), origin

func tsonpatch.resizeArray(origArr, modArr, p, patch) -> (r, err)
  owns: patch
  requires: canon(p)
  ensures: can_gen(Val::Arr(origArr), Val::Arr(modArr)) ==> err is Nil
  ensures: err is Nil ==> ext(r, patch) && is_resize(news(r, patch), origArr.len() as int, modArr, tok(p))
  loop 1:
    invariant: v_i < origArr.len() && (v_i >= modArr.len() || v_i == modArr.len() - 1 || origArr.len() < modArr.len() && v_i == origArr.len() - 1)
    invariant: ext(v_patch, patch) && news(v_patch, patch).len() == origArr.len() - 1 - v_i
    invariant: forall|k: int| 0 <= k < news(v_patch, patch).len() ==> canon((#[trigger] news(v_patch, patch)[k]).Path) && tok(news(v_patch, patch)[k].Path) == tok(p).push(dec_str(origArr.len() - 1 - k)) && drops(news(v_patch, patch)[k])
    before: lemma_ext_none(patch, tok(p));
    entry: ghost p0 = v_patch; lemma_below(p, dec_str(v_i));
    exit: lemma_ext_push(p0, v_patch.last()); lemma_ext_trans(patch, p0, v_patch);
  loop 2:
    invariant: origArr.len() <= v_i_2 && (v_i_2 <= modArr.len() || v_i_2 == origArr.len())
    invariant: ext(v_patch, patch)
    invariant: modArr.len() < origArr.len() ==> is_resize(news(v_patch, patch), origArr.len() as int, modArr, tok(p))
    invariant: modArr.len() >= origArr.len() ==> news(v_patch, patch).len() == v_i_2 - origArr.len()
    invariant: modArr.len() >= origArr.len() ==> forall|k: int| 0 <= k < news(v_patch, patch).len() ==> canon((#[trigger] news(v_patch, patch)[k]).Path) && tok(news(v_patch, patch)[k].Path) == tok(p).push(dec_str(origArr.len() + k)) && op_sets(news(v_patch, patch)[k]) && op_leaf(news(v_patch, patch)[k]) == Some(modArr[origArr.len() + k]) && given(news(v_patch, patch)[k])
    entry: ghost p0 = v_patch; lemma_below(p, dec_str(v_i_2)); lemma_can_arr(origArr, modArr, v_i_2);
    exit: lemma_ext_push(p0, v_patch.last()); lemma_ext_trans(patch, p0, v_patch);

func tsonpatch.handleValues(origValue, modValue, path, patch) -> (p, err)
  owns: patch
  requires: canon(path) && gen_doc(modValue) && sized(origValue)
  ensures: can_gen(origValue, modValue) ==> err is Nil
  ensures: err is Nil ==> ext(p, patch) && all_under(news(p, patch), tok(path))
  ensures[C12]: err is Nil ==> yields(origValue, modValue, news(p, patch), tok(path).len(), false)
  ensures[C13]: err is Nil ==> records(origValue, modValue, news(p, patch), tok(path).len(), false)
  decreases: modValue, 1int
  entry: broadcast use ax_f64_eq;
  loop 1:
    invariant: ext(v_patch, patch) && all_under(news(v_patch, patch), tok(path))
    invariant: origValue is Arr && modValue is Arr && origValue->Arr_0.len() == modValue->Arr_0.len()
    invariant[C12]: arr12(origValue->Arr_0, modValue->Arr_0, news(v_patch, patch), tok(path).len(), i_1, false)
    invariant[C13]: arr13(origValue->Arr_0, modValue->Arr_0, news(v_patch, patch), tok(path), i_1, origValue->Arr_0.len() as int, origValue->Arr_0.len() as int, false)
    before: lemma_ext_none(patch, tok(path)); lemma_arr_start(origValue->Arr_0, modValue->Arr_0, tok(path), false);
    entry: ghost p0 = v_patch; lemma_below(path, dec_str(i_1 - 1)); lemma_can_arr(origValue->Arr_0, modValue->Arr_0, i_1 - 1);
    exit: lemma_gen_step(patch, p0, v_patch, tok(path), dec_str(i_1 - 1));
    exit[C12]: lemma_arr12_step(origValue->Arr_0, modValue->Arr_0, news(p0, patch), news(v_patch, p0), i_1 - 1, tok(path), false);
    exit[C13]: lemma_arr13_rec(origValue->Arr_0, modValue->Arr_0, news(p0, patch), news(v_patch, p0), i_1 - 1, tok(path), false);
    after[C12]: lemma_arr12_end(origValue->Arr_0, modValue->Arr_0, news(v_patch, patch), tok(path).len(), false);
    after[C13]: lemma_arr13_end(origValue->Arr_0, modValue->Arr_0, news(v_patch, patch), tok(path), i_1, origValue->Arr_0.len() as int, origValue->Arr_0.len() as int, false);
  ret: if err is Nil && !(modValue is Obj) && !(modValue is Arr) {
      if p == patch { lemma_ext_none(patch, tok(path)); lemma_nothing(origValue, modValue, tok(path).len(), false); }
      else {
        assert(p == patch.push(p.last()));
        lemma_ext_push(patch, p.last());
        lemma_one12(origValue, modValue, p.last(), tok(path), false);
      }
    }
  ret[C13]: if err is Nil && !(modValue is Obj) && !(modValue is Arr) && p != patch { lemma_one13(origValue, modValue, p.last(), tok(path), false); }

func tsonpatch.handleValuesWithTimestamp(origValue, modValue, path, patch) -> (p, err)
  owns: patch
  requires: canon(path) && gen_doc(modValue) && sized(origValue)
  ensures: can_gen(origValue, modValue) ==> err is Nil
  ensures: err is Nil ==> ext(p, patch) && all_under(news(p, patch), tok(path))
  ensures[C12]: err is Nil ==> yields(origValue, modValue, news(p, patch), tok(path).len(), true)
  ensures[C13]: err is Nil ==> records(origValue, modValue, news(p, patch), tok(path).len(), true)
  decreases: modValue, 1int
  entry: broadcast use ax_f64_eq;
  loop 1:
    invariant: ext(v_patch, patch) && all_under(news(v_patch, patch), tok(path))
    invariant: origValue is Arr && modValue is Arr && origValue->Arr_0.len() == modValue->Arr_0.len()
    invariant[C12]: arr12(origValue->Arr_0, modValue->Arr_0, news(v_patch, patch), tok(path).len(), i_1, true)
    invariant[C13]: arr13(origValue->Arr_0, modValue->Arr_0, news(v_patch, patch), tok(path), i_1, origValue->Arr_0.len() as int, origValue->Arr_0.len() as int, true)
    before: lemma_ext_none(patch, tok(path)); lemma_arr_start(origValue->Arr_0, modValue->Arr_0, tok(path), true);
    entry: ghost p0 = v_patch; lemma_below(path, dec_str(i_1 - 1)); lemma_can_arr(origValue->Arr_0, modValue->Arr_0, i_1 - 1);
    exit: lemma_gen_step(patch, p0, v_patch, tok(path), dec_str(i_1 - 1));
    exit[C12]: lemma_arr12_step(origValue->Arr_0, modValue->Arr_0, news(p0, patch), news(v_patch, p0), i_1 - 1, tok(path), true);
    exit[C13]: lemma_arr13_rec(origValue->Arr_0, modValue->Arr_0, news(p0, patch), news(v_patch, p0), i_1 - 1, tok(path), true);
    after[C12]: lemma_arr12_end(origValue->Arr_0, modValue->Arr_0, news(v_patch, patch), tok(path).len(), true);
    after[C13]: lemma_arr13_end(origValue->Arr_0, modValue->Arr_0, news(v_patch, patch), tok(path), i_1, origValue->Arr_0.len() as int, origValue->Arr_0.len() as int, true);
  ret: if err is Nil && !(modValue is Obj) && !(modValue is Arr) {
      if p == patch { lemma_ext_none(patch, tok(path)); lemma_nothing(origValue, modValue, tok(path).len(), true); }
      else {
        assert(p == patch.push(p.last()));
        lemma_ext_push(patch, p.last());
        lemma_one12(origValue, modValue, p.last(), tok(path), true);
      }
    }
  ret[C13]: if err is Nil && !(modValue is Obj) && !(modValue is Arr) && p != patch { lemma_one13(origValue, modValue, p.last(), tok(path), true); }

func tsonpatch.diff(origin, modified, path, patch, withTimestamp) -> (p, err)
  owns: patch
  requires: canon(path) && gen_doc(Val::Obj(modified)) && sized(Val::Obj(origin))
  ensures: can_gen(Val::Obj(origin), Val::Obj(modified)) ==> err is Nil
  ensures: err is Nil ==> ext(p, patch) && all_under(news(p, patch), tok(path))
  ensures[C12]: err is Nil ==> yields(Val::Obj(origin), Val::Obj(modified), news(p, patch), tok(path).len(), withTimestamp)
  ensures[C13]: err is Nil ==> records(Val::Obj(origin), Val::Obj(modified), news(p, patch), tok(path).len(), withTimestamp)
  decreases: Val::Obj(modified), 0int
  loop 1:
    invariant: ext(v_patch, patch) && all_under(news(v_patch, patch), tok(path))
    invariant[C12]: obj12(origin, modified, news(v_patch, patch), tok(path).len(), seq_1.take(i_1), Seq::empty(), withTimestamp)
    invariant[C13]: obj13(origin, modified, news(v_patch, patch), tok(path), seq_1.take(i_1), Seq::empty(), withTimestamp)
    before: lemma_ext_none(patch, tok(path)); lemma_obj_start(origin, modified, tok(path), withTimestamp); assert(seq_1.take(0) =~= Seq::empty());
    entry: ghost p0 = v_patch; lemma_below(path, v_key); lemma_can_obj(origin, modified, v_key);
    exit: assert(seq_1.take(i_1) =~= seq_1.take(i_1 - 1).push(v_key));
      assert(!seq_1.take(i_1 - 1).contains(v_key));
      if !origin.dom().contains(v_key) || val_tag(origin[v_key]) != val_tag(modified[v_key]) {
        assert(v_patch == p0.push(v_patch.last()));
        lemma_ext_push(p0, v_patch.last());
        lemma_one12(mget(origin, v_key, Val::Nil), modified[v_key], v_patch.last(), tok(path).push(v_key), withTimestamp);
      }
      lemma_gen_step(patch, p0, v_patch, tok(path), v_key);
    exit[C12]: lemma_obj12_step(origin, modified, news(p0, patch), news(v_patch, p0), v_key, tok(path), seq_1.take(i_1 - 1), Seq::empty(), withTimestamp);
    exit[C13]: if !origin.dom().contains(v_key) || val_tag(origin[v_key]) != val_tag(modified[v_key]) {
        lemma_one13(mget(origin, v_key, Val::Nil), modified[v_key], v_patch.last(), tok(path).push(v_key), withTimestamp);
      }
      lemma_obj13_step(origin, modified, news(p0, patch), news(v_patch, p0), v_key, tok(path), seq_1.take(i_1 - 1), withTimestamp);
    after: ghost keys = seq_1; assert(seq_1.take(i_1) =~= seq_1);
  loop 2:
    invariant: ext(v_patch, patch) && all_under(news(v_patch, patch), tok(path))
    invariant[C12]: obj12(origin, modified, news(v_patch, patch), tok(path).len(), keys, seq_2.take(i_2), withTimestamp)
    invariant[C13]: obj13(origin, modified, news(v_patch, patch), tok(path), keys, seq_2.take(i_2), withTimestamp)
    before: assert(seq_2.take(0) =~= Seq::empty());
    entry: ghost p0 = v_patch; lemma_below(path, v_key_2);
    exit: assert(seq_2.take(i_2) =~= seq_2.take(i_2 - 1).push(v_key_2));
      assert(!seq_2.take(i_2 - 1).contains(v_key_2));
      if !modified.dom().contains(v_key_2) { assert(v_patch == p0.push(v_patch.last())); lemma_gen_remove(patch, p0, v_patch.last(), tok(path), v_key_2); }
    exit[C12]: if modified.dom().contains(v_key_2) { lemma_obj12_keep(origin, modified, news(v_patch, patch), v_key_2, tok(path).len(), keys, seq_2.take(i_2 - 1), withTimestamp); }
      else { lemma_obj12_remove(origin, modified, news(p0, patch), v_patch.last(), v_key_2, tok(path), keys, seq_2.take(i_2 - 1), withTimestamp); }
    after[C12]: assert(seq_2.take(i_2) =~= seq_2); lemma_obj12_end(origin, modified, news(v_patch, patch), tok(path).len(), keys, seq_2, withTimestamp);
    exit[C13]: if modified.dom().contains(v_key_2) { lemma_obj13_keep(origin, modified, news(v_patch, patch), v_key_2, tok(path), keys, seq_2.take(i_2 - 1), withTimestamp); }
      else { lemma_obj13_remove(origin, modified, news(p0, patch), v_patch.last(), v_key_2, tok(path), keys, seq_2.take(i_2 - 1), withTimestamp); }
    after[C13]: assert(seq_2.take(i_2) =~= seq_2); lemma_obj13_end(origin, modified, news(v_patch, patch), tok(path), keys, seq_2, withTimestamp);

func tsonpatch.compareArray(origArr, modArr, p, patch) -> (r, err)
  owns: patch
  requires: canon(p) && gen_doc(Val::Arr(modArr)) && sized(Val::Arr(origArr))
  ensures: can_gen(Val::Arr(origArr), Val::Arr(modArr)) ==> err is Nil
  ensures: err is Nil ==> ext(r, patch) && all_under(news(r, patch), tok(p))
  ensures[C12]: err is Nil ==> yields(Val::Arr(origArr), Val::Arr(modArr), news(r, patch), tok(p).len(), false)
  ensures[C13]: err is Nil ==> records(Val::Arr(origArr), Val::Arr(modArr), news(r, patch), tok(p).len(), false)
  decreases: Val::Arr(modArr), 0int
  loop 1:
    invariant: 0 <= v_i <= origArr.len() && v_i <= modArr.len()
    invariant: ext(v_patch, patch) && all_under(news(v_patch, patch), tok(p))
    invariant[C12]: arr12(origArr, modArr, news(v_patch, patch), tok(p).len(), v_i, false)
    invariant[C13]: arr13(origArr, modArr, news(v_patch, patch), tok(p), v_i, origArr.len() as int, origArr.len() as int, false)
    before: lemma_ext_none(patch, tok(p)); lemma_arr_start(origArr, modArr, tok(p), false);
    entry: ghost p0 = v_patch; ghost i0 = v_i; lemma_below(p, dec_str(v_i)); lemma_can_arr(origArr, modArr, v_i);
    exit: lemma_gen_step(patch, p0, v_patch, tok(p), dec_str(i0));
    exit[C12]: lemma_arr12_step(origArr, modArr, news(p0, patch), news(v_patch, p0), i0, tok(p), false);
    exit[C13]: lemma_arr13_rec(origArr, modArr, news(p0, patch), news(v_patch, p0), i0, tok(p), false);
  ret: if err is Nil {
      let q0 = news(v_patch, patch);
      let q = news(r, v_patch);
      lemma_ext_trans(patch, v_patch, r);
      assert(q.take(q.len() as int) =~= q);
      lemma_resize_under(q, origArr.len() as int, modArr, tok(p));
      lemma_under_add(q0, q, tok(p));
    }
  ret[C12]: if err is Nil {
      let q0 = news(v_patch, patch);
      let q = news(r, v_patch);
      lemma_resize12(origArr, modArr, q0, q, tok(p), q.len() as int, false);
      lemma_part12_end(origArr, modArr, q0 + q, tok(p).len(), false);
    }
  ret[C13]: if err is Nil {
      let q0 = news(v_patch, patch);
      let q = news(r, v_patch);
      lemma_resize13(origArr, modArr, q0, q, tok(p), q.len() as int, false);
      lemma_arr13_end(origArr, modArr, q0 + q, tok(p), (if origArr.len() > modArr.len() { modArr.len() as int } else { modArr.len() as int }), (if origArr.len() > modArr.len() { modArr.len() as int } else { origArr.len() as int }), origArr.len() as int, false);
    }

func tsonpatch.compareArrayWithTimestamp(origArr, modArr, p, patch) -> (r, err)
  owns: patch
  requires: canon(p) && gen_doc(Val::Arr(modArr)) && sized(Val::Arr(origArr))
  ensures: can_gen(Val::Arr(origArr), Val::Arr(modArr)) ==> err is Nil
  ensures: err is Nil ==> ext(r, patch) && all_under(news(r, patch), tok(p))
  ensures[C12]: err is Nil ==> yields(Val::Arr(origArr), Val::Arr(modArr), news(r, patch), tok(p).len(), true)
  ensures[C13]: err is Nil ==> records(Val::Arr(origArr), Val::Arr(modArr), news(r, patch), tok(p).len(), true)
  decreases: Val::Arr(modArr), 0int
  loop 1:
    invariant: 0 <= v_i <= origArr.len() && v_i <= modArr.len()
    invariant: ext(v_patch, patch) && all_under(news(v_patch, patch), tok(p))
    invariant[C12]: arr12(origArr, modArr, news(v_patch, patch), tok(p).len(), v_i, true)
    invariant[C13]: arr13(origArr, modArr, news(v_patch, patch), tok(p), v_i, origArr.len() as int, origArr.len() as int, true)
    before: lemma_ext_none(patch, tok(p)); lemma_arr_start(origArr, modArr, tok(p), true);
    entry: ghost p0 = v_patch; ghost i0 = v_i; lemma_below(p, dec_str(v_i)); lemma_can_arr(origArr, modArr, v_i);
    exit: lemma_gen_step(patch, p0, v_patch, tok(p), dec_str(i0));
    exit[C12]: lemma_arr12_step(origArr, modArr, news(p0, patch), news(v_patch, p0), i0, tok(p), true);
    exit[C13]: lemma_arr13_rec(origArr, modArr, news(p0, patch), news(v_patch, p0), i0, tok(p), true);
  ret: if err is Nil {
      let q0 = news(v_patch, patch);
      let q = news(r, v_patch);
      lemma_ext_trans(patch, v_patch, r);
      assert(q.take(q.len() as int) =~= q);
      lemma_resize_under(q, origArr.len() as int, modArr, tok(p));
      lemma_under_add(q0, q, tok(p));
    }
  ret[C12]: if err is Nil {
      let q0 = news(v_patch, patch);
      let q = news(r, v_patch);
      lemma_resize12(origArr, modArr, q0, q, tok(p), q.len() as int, true);
      lemma_part12_end(origArr, modArr, q0 + q, tok(p).len(), true);
    }
  ret[C13]: if err is Nil {
      let q0 = news(v_patch, patch);
      let q = news(r, v_patch);
      lemma_resize13(origArr, modArr, q0, q, tok(p), q.len() as int, true);
      lemma_arr13_end(origArr, modArr, q0 + q, tok(p), (if origArr.len() > modArr.len() { modArr.len() as int } else { modArr.len() as int }), (if origArr.len() > modArr.len() { modArr.len() as int } else { origArr.len() as int }), origArr.len() as int, true);
    }

func tsonpatch.GeneratePatch(origin, modified) -> (p, err)
  requires: gen_doc(origin) && gen_doc(modified)
  ensures[C12]: can_gen(origin, modified) ==> err is Nil
  ensures[C12]: err is Nil ==> match fold_ops(origin, p) { Some(d) => same_doc(d, modified, false), None => false }
  ensures[C13]: err is Nil ==> records(origin, modified, p, 0, false) && all_under(p, Seq::empty())
  entry: lemma_lits(); assert(enc(Seq::<Str>::empty()) =~= Seq::empty()); assert(canon("")); lemma_same_weaken(origin, modified);
  ret: if err is Nil { lemma_ext_empty(p); lemma_ext_none(Seq::empty(), Seq::empty()); lemma_nothing(origin, modified, 0, false); }
  ret[C12]: if err is Nil { reveal(yields); lemma_fold_root(origin, p); }

func tsonpatch.GeneratePatchWithTimestamp(origin, modified) -> (p, err)
  requires: gen_doc(origin) && gen_doc(modified)
  ensures[C12,C27]: can_gen(origin, modified) ==> err is Nil
  ensures[C12,C27]: err is Nil ==> match fold_ops(origin, p) { Some(d) => same_doc(d, modified, true), None => false }
  ensures[C13,C27]: err is Nil ==> records(origin, modified, p, 0, true) && all_under(p, Seq::empty())
  entry: lemma_lits(); assert(enc(Seq::<Str>::empty()) =~= Seq::empty()); assert(canon("")); lemma_same_weaken(origin, modified);
  ret: if err is Nil { lemma_ext_empty(p); lemma_ext_none(Seq::empty(), Seq::empty()); lemma_nothing(origin, modified, 0, true); }
  ret[C12]: if err is Nil { reveal(yields); lemma_fold_root(origin, p); }

