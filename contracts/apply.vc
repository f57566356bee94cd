func tsonpatch.getIndex(part) -> (idx, err)
  ensures: match idx_of(part) { Some(i) => err is Nil && idx == i, None => err is E }

func tsonpatch.applyTraverse(doc, parts, op) -> (t, err)
  ensures[C09]: match apply_parts(doc, parts, op) { Some(d) => err is Nil && t == d, None => err is E && t is Nil }
  ensures: err is Nil && doc is Obj ==> t is Obj
  decreases: parts.len()
  ret[C09]: if parts.len() > 0 && err is Nil {
      if doc is Arr && t is Arr && idx_of(parts[0]) is Some {
        let a = doc->Arr_0;
        let i = idx_of(parts[0])->Some_0;
        if i == a.len() && op_sets(op) && op_leaf(op) is Some { assert(t->Arr_0 =~= a.push(op_leaf(op)->Some_0)); }
        if i < a.len() && op_removes(op) && parts.len() == 1 { assert(t->Arr_0 =~= a.remove(i)); }
      }
      if doc is Obj && t is Obj && !(parts.len() == 1 && op_removes(op)) {
        assert(t->Obj_0 =~= doc->Obj_0.insert(parts[0], t->Obj_0[parts[0]]));
      }
    }

func tsonpatch.ApplyOperation(doc, op) -> (t, err)
  ensures[C09]: match apply_op(doc, op) { Some(d) => err is Nil && t == d, None => err is E && t is Nil }
  ensures[C09]: err is Nil && op_sets(op) && (op.Path.len() == 0 || has_prefix(op.Path, "/")) ==> op_leaf(op) is Some && get_value(t, op.Path) == op_leaf(op)
  ensures[C09]: err is Nil && op.Path.len() == 0 && op_removes(op) ==> t is Nil
  ensures[C09]: err is Nil && op.Path.len() > 0 && op_removes(op) ==> removed(doc, t, path_parts(op.Path))
  ensures[C09]: err is Nil && op.Path.len() > 0 ==> forall|q: Seq<Str>| #[trigger] apart(doc, path_parts(op.Path), q, op) ==> lookup(t, q) == lookup(doc, q)
  ret[C09]: if err is Nil && op.Path.len() > 0 { lemma_effect(doc, path_parts(op.Path), op); assert(has_prefix(op.Path, "/") ==> path_parts(op.Path) == ptr_parts(op.Path)); }
  ensures[C11,C12,C18,C17,C22,C23,C24,C26]: match apply_op(doc, op) { Some(d) => err is Nil && t == d, None => err is E && t is Nil }
  loop 1:
    invariant: v_parts.len() == seq_1.len()
    invariant[C09,C11,C15,C16,C17,C18,C19,C20,C21,C22,C23,C24,C25,C26]: forall|k: int| 0 <= k < i_1 ==> v_parts[k] == unescape(seq_1[k])
    invariant[C09,C11,C15,C16,C17,C18,C19,C20,C21,C22,C23,C24,C25,C26]: forall|k: int| i_1 <= k < v_parts.len() ==> v_parts[k] == seq_1[k]
    exit[C09,C11,C15,C16,C17,C18,C19,C20,C21,C22,C23,C24,C25,C26]: lemma_decoder(v_part);
    after[C09,C11,C15,C16,C17,C18,C19,C20,C21,C22,C23,C24,C25,C26]: assert(v_parts =~= path_parts(op.Path));

func tsonpatch.ApplyPatch(doc, patch) -> (t, err)
  ensures[C11,C12,C15,C16,C17,C18,C19,C20,C21,C22,C23,C24,C25,C26]: match fold_ops(doc, patch) { Some(d) => err is Nil && t == d, None => err is E && t is Nil }
  loop 1:
    invariant: v_err is Nil
    invariant[C11,C12,C15,C16,C17,C18,C19,C20,C21,C22,C23,C24,C25,C26]: fold_ops(doc, patch.take(i_1)) == Some(v_t)
    before: assert(patch.take(0) =~= Seq::empty());
    entry: assert(patch.take(i_1).drop_last() =~= patch.take(i_1 - 1)); if fold_ops(doc, patch.take(i_1)) is None { lemma_fold_prefix(doc, patch, i_1); }
    after: assert(patch.take(i_1 as int) =~= patch);
