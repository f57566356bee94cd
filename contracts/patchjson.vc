func tsonpatch.Operation.String(p) -> (s)
  ensures: op_ok(p) ==> reads_op(s, norm_op(p))
  ensures: new_p == p
  ret: if op_ok(p) {
      lemma_value_text(p);
      let (ot, pt, vt, dt) = (json_text(Any::Kind(p.Op)), json_text(Any::Str(p.Path)), json_text(p.Value), dec_str(p.Timestamp as int));
      lemma_op_parts(norm_op(p), ot, pt, vt, dt);
      lemma_op_string(ot, pt, vt, dt);
    }

func tsonpatch.Operation.Marshal(p) -> (s, err)
  ensures: op_ok(p) ==> err is Nil && reads_op(s, norm_op(p))
  ensures: new_p == p
  entry: if op_ok(p) { lemma_value_text(p); }
  ret: if op_ok(p) && err is Nil {
      let (ot, pt, vt, dt) = (json_text(Any::Kind(p.Op)), json_text(Any::Str(p.Path)), json_text(p.Value), dec_str(p.Timestamp as int));
      lemma_op_parts(norm_op(p), ot, pt, vt, dt);
      lemma_op_string(ot, pt, vt, dt);
      if p.Value is Nil && !(p.Op =~= "replace") && !(p.Op =~= "add") && !(p.Op =~= "test") {
        assert(s =~= "{ \"op\": " + ot + ", \"path\": " + pt + ", \"timestamp\": " + dt + " }");
      } else {
        assert(s =~= op_string(ot, pt, vt, dt));
      }
    }

func tsonpatch.Patch.String(p) -> (s)
  ensures: ops_ok(p) ==> patch_of_json(s) == Some(norm_ops(p))
  ensures: new_p == p
  loop 1:
    invariant: v_lines.len() == p.len()
    invariant: ops_ok(p) ==> forall|k: int| 0 <= k < i_1 ==> reads_op(#[trigger] v_lines[k], norm_ops(p)[k])
    exit: if op_ok(p[i_1 - 1]) { lemma_indent(v_lines[i_1 - 1], norm_op(p[i_1 - 1])); }
    after: if ops_ok(p) { lemma_patch_text(norm_ops(p), v_lines); }

func tsonpatch.FromJson(j) -> (p, err)
  ensures: match j { Any::Patch(ops) => ops_ok(ops) ==> err is Nil && p == norm_ops(ops), Any::Ops(ops) => ops_ok(ops) ==> err is Nil && p == norm_ops(ops), _ => true }
  entry: broadcast use ax_json_marshal_ops;
    match j { Any::Patch(ops) => if ops_ok(ops) { assert(json_text_err(j) is Nil); theorem_patch_json(ops, json_text(j)); }, Any::Ops(ops) => if ops_ok(ops) { assert(json_text_err(j) is Nil); theorem_patch_json(ops, json_text(j)); }, _ => {} }
