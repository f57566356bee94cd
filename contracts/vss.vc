func vssgen.VssJson.LeafNodes.leaf(d, parent) -> (r)
  requires: ({ let e = if d is Nil { cap_vss.data } else { d }; leaf_m(e) || tree(e) })
  ensures: lists(r, if d is Nil { cap_vss.data } else { d }, toks(parent), None)
  decreases: if d is Nil { cap_vss.data } else { d }
  entry: lemma_lits();
  ret: ({ let e = if d is Nil { cap_vss.data } else { d }; if !interior(e) { lemma_list_one(parent, e); } });
  loop 1:
    invariant: ({ let e = if d is Nil { cap_vss.data } else { d }; interior(e) && tree(e) && map_1 == e->M_0 && lists(v_r, e, toks(parent), Some(seq_1.take(i_1))) })
    before: lemma_list_none(if d is Nil { cap_vss.data } else { d }, toks(parent)); assert(seq_1.take(0) =~= Seq::empty());
    entry: ghost r0 = v_r;
      assert(map_1.dom().contains(v_key)); lemma_full_key(parent, v_key); assert(!seq_1.take(i_1 - 1).contains(v_key)); assert(seq_1.take(i_1) =~= seq_1.take(i_1 - 1).push(v_key));
      assert(leaf_m(v_value) || v_value is S || tree(v_value));
      if !interior(v_value) { lemma_list_one(full_key(parent, v_key), v_value); }
    exit: ({ let e = if d is Nil { cap_vss.data } else { d };
        lemma_add_skip(r0);
        let rs = if v_value is M { v_r.skip(r0.len() as int) } else { seq![one(full_key(parent, v_key), v_value)] };
        assert(v_value is M ==> v_r =~= r0 + rs);
        lemma_list_more(r0, rs, e, toks(parent), seq_1.take(i_1 - 1), v_key); });
    after: assert(seq_1.take(i_1) =~= seq_1); lemma_list_all(v_r, if d is Nil { cap_vss.data } else { d }, toks(parent), seq_1);

func vssgen.VssJson.LeafNodes(vss) -> (r)
  requires: vss.data is M ==> tree(vss.data)
  ensures: vss.data is M ==> lists(r, vss.data, Seq::empty(), None)

func vssgen.VssJson.GenerateNext(vss, changeRate, maintainRate, id, fileNo) -> (d, c)
  requires: vss.initialized && tree(vss.data)
  ensures: d.initialized && d.data is M && tree(d.data)
  ensures: exists|ts: i64| clock(ts) && #[trigger] next_set(vss.data, d.data, ts)
  ensures[C27]: dated(vss.data) ==> dated(d.data)
  ensures[C27]: change_list(c.data, set_doc(vss.data), set_doc(d.data))
  loop 1:
    invariant: clock(v_timestamp) && part(v_result, own_v_result, v_leafs, i_1, v_timestamp)
    before: lemma_part_start(own_v_result, v_leafs, v_timestamp);
    entry: lemma_clear(v_result, own_v_result, v_leafs, i_1 - 1, v_timestamp, vss.data); lemma_single(v_leafNode);
    exit: assert(i_2 == 1);
    after: lemma_part_end(v_result, own_v_result, v_leafs, v_timestamp, vss.data); lemma_set_text(vss.data); lemma_set_text(Any::M(v_result));
    after[C27]: lemma_slim(v_leafs, vss.data, Any::M(v_result)); lemma_next_can(vss.data, Any::M(v_result), v_timestamp); lemma_set_read(vss.data); lemma_set_read(Any::M(v_result));
  loop 2:
    invariant: i_2 <= 1 && seq_2.len() == 1
    invariant: part(v_result, own_v_result, v_leafs, i_1 - 1 + i_2, v_timestamp)
    entry: ghost R0 = v_result; ghost own0 = own_v_result;
      assert(v_path == the_key(v_leafNode) && v_value == lv(v_leafNode));
      lemma_clear(v_result, own_v_result, v_leafs, i_1 - 1, v_timestamp, vss.data);
      assert(toks(v_path) == lk(v_leafNode)); assert(split(v_path, 46u8) == lk(v_leafNode));
      assert(lk(v_leafNode).take(0) =~= Seq::empty());
      ax_unit_percent(); lemma_restamp(Any::I64(v_timestamp));
      if v_value is M { lemma_sigval(v_value, v_timestamp); }
    exit: lemma_part(R0, own0, v_result, own_v_result, own2, v_leafs, i_1 - 1, v_timestamp, sig(Any::M(v_result), lk(v_leafNode))->Some_0, vss.data);
  loop 3:
    invariant: 0 <= i_3 <= seq_3.len() && v_idx == i_3 && v_new_live
    invariant: v_new_path == seq_3.take(if i_3 < seq_3.len() { i_3 } else { seq_3.len() - 1 })
    invariant: i_3 > 0 ==> v_node == seq_3[i_3 - 1]
    invariant: way(R0, v_result, own_v_result, seq_3, i_3) && inner(Any::M(v_result), v_new_path)
    entry: lemma_way(R0, v_result, own_v_result, seq_3, i_3 - 1);
    after: ghost R2 = v_result; ghost own2 = own_v_result; lemma_done(R0, v_result, own_v_result, seq_3);
  loop 4:
    invariant: 0 <= i_4 <= seq_4.len() && v_new_live && seq_4 == v_value->S_0
    invariant: v_result == put_at(R2, v_new_path, v_node, Any::S(stamped_n(seq_4, i_4, v_timestamp)))
    invariant: own_v_result.contains(v_new_path.push(v_node)) && own_v_result == own_cut(own2, v_new_path.push(v_node)).insert(v_new_path.push(v_node))
    maybe Seq<Any>: $ == stamped_n(seq_4, i_4, v_timestamp)
    before: lemma_stamped(seq_4, 0, v_timestamp);
    entry: lemma_stamped(seq_4, i_4 - 1, v_timestamp); lemma_put_walk(R2, v_new_path, v_node, Any::S(stamped_n(seq_4, i_4 - 1, v_timestamp)), Any::S(stamped_n(seq_4, i_4, v_timestamp)));
    after: lemma_stamped(seq_4, i_4, v_timestamp);
  loop 5:
    invariant[C27]: v_patch == list_any(seq_5.take(i_5))
    before[C27]: ghost ops = v_ops; lemma_changes_all(seq_5);
    exit[C27]: lemma_changes_push(seq_5, i_5 - 1);
  ret: assert(clock(v_timestamp) && next_set(vss.data, d.data, v_timestamp));
  ret[C27]: lemma_dated_next(vss.data, d.data, v_timestamp); lemma_changes_all(ops); lemma_ops_ok(set_doc(vss.data), set_doc(d.data), ops); assert(change_list_is(c.data, ops, set_doc(vss.data), set_doc(d.data)));

func vssgen.VssJson.Save(vss, file) -> ()
  files:
  requires: tree(vss.data) || exists|p: Seq<Operation>| list_form(vss.data, p)
  ensures: new_vss == vss
  ensures: writable(disk, file) ==> wrote(disk, new_disk, file)
  ensures: writable(disk, file) && tree(vss.data) && dated(vss.data) ==> has_set(new_disk, file, set_doc(vss.data))
  ensures: writable(disk, file) && tree(vss.data) ==> parse_doc(new_disk.files[file]) == Some(norm(set_doc(vss.data)))
  ensures: forall|p: Seq<Operation>| writable(disk, file) && #[trigger] list_form(vss.data, p) ==> patch_of_json(new_disk.files[file]) == Some(p)
  entry: lemma_lits(); if tree(vss.data) && dated(vss.data) { lemma_dated_norm(vss.data); }
  loop 1:
    invariant: seq_1 == list_any(ops) && v_lines.len() == i_1
    invariant: forall|k: int| 0 <= k < i_1 ==> reads_op(#[trigger] v_lines[k], ops[k])
    before: ghost ops = choose|p: Seq<Operation>| list_form(vss.data, p);
    entry: lemma_change_parts(ops, i_1 - 1);
    exit: assert(v_buf =~= op_string("\"" + ops[i_1 - 1].Op + "\"", json_text(Any::Str(ops[i_1 - 1].Path)), json_text(ops[i_1 - 1].Value), dec_str(ops[i_1 - 1].Timestamp as int))); lemma_indent(v_lines[i_1 - 1], ops[i_1 - 1]);
    after: lemma_patch_text(ops, v_lines);
      assert forall|p: Seq<Operation>| list_form(vss.data, p) implies p == ops by { lemma_list_any(p, ops); }

func vssgen.NewVssJson(file) -> (r)
  external: reads a VSS data set from a file
  ensures: vss_file(file) ==> vss_schema(r.data)

func vssgen.VssJson.Generate(vss, datasetSize, id) -> (r)
  external: the initial data set
  ensures: vss_schema(vss.data) ==> r.initialized && tree(r.data) && dated(r.data)

func vssgen.Generate(metadata, dataFolder) -> ()
  files:
  requires: mget(metadata, "dataset", Any::Nil) is Str && mget(metadata, "cars", Any::Nil) is Int && mget(metadata, "files", Any::Nil) is Int && mget(metadata, "change_rate", Any::Nil) is F && mget(metadata, "maintain_rate", Any::Nil) is F && mget(metadata, "size", Any::Nil) is F
  requires: vss_file(mget(metadata, "dataset", Any::Nil)->Str_0)
  requires: room(disk, dataFolder)
  ensures: forall|i: int| 1 <= i <= mget(metadata, "cars", Any::Nil)->Int_0 ==> #[trigger] series(new_disk, dataFolder, i, mget(metadata, "files", Any::Nil)->Int_0)
  entry: lemma_lits();
  loop 1:
    invariant: v_i >= 1 && v_cars == mget(metadata, "cars", Any::Nil)->Int_0 && v_files == mget(metadata, "files", Any::Nil)->Int_0 && v_dataFolder == dataFolder && vss_schema(v_vss.data)
    invariant: made(v_disk, dataFolder, v_i, v_files) && room(v_disk, dataFolder)
    entry: ghost D0 = v_disk; assert(!has_file(v_disk, path_join(dataFolder, set_dir(v_i)))); lemma_writable(dataFolder, v_i, 1); lemma_dir_forms(dataFolder, v_i); lemma_first_names(v_i); lemma_has_form();
    exit: assert(series(v_disk, dataFolder, v_i, v_files)); assert(made(v_disk, dataFolder, v_i + 1, v_files));
  loop 2:
    invariant: v_j >= 2 && v_j <= (if v_files < 2 { 2 } else { v_files + 1 })
    invariant: v_carDir == path_join(dataFolder, set_dir(v_i)) && v_patchDir == path_join(dataFolder, change_dir(v_i))
    invariant: v_disk.dirs.contains(v_carDir) && v_disk.dirs.contains(v_patchDir)
    invariant: made(v_disk, dataFolder, v_i, v_files) && room(v_disk, dataFolder) && series(v_disk, dataFolder, v_i, v_j - 1)
    invariant: v_data.initialized && tree(v_data.data) && dated(v_data.data) && has_set(v_disk, set_file(dataFolder, v_i, v_j - 1), set_doc(v_data.data))
    before: lemma_files_differ(dataFolder, v_i, 1, v_i, 1); lemma_made_files(D0, v_disk, dataFolder, v_i, v_files, 1); lemma_room(D0, v_disk, dataFolder, v_i, 1); lemma_first(v_disk, dataFolder, v_i, set_doc(v_data.data));
    entry: ghost E0 = v_disk; ghost A0 = v_data; lemma_writable(dataFolder, v_i, v_j); lemma_has_form(); lemma_files_differ(dataFolder, v_i, v_j, v_i, v_j);
    exit: lemma_made_files(E0, v_disk, dataFolder, v_i, v_files, v_j); lemma_room(E0, v_disk, dataFolder, v_i, v_j);
      lemma_step(v_disk, dataFolder, v_i, v_j, v_patch.data, A0.data, v_data.data);
