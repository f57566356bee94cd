func tsonpatch.Unmarshal(b) -> (p, err)
  ensures: match patch_of_json(b) { Some(q) => err is Nil && p == q, None => err is E }

func tson.Unmarshal(data, t) -> (err)
  ensures[C01,C02,C03,C15,C16]: match parse_doc(data) { Some(d) => err is Nil && new_t == d, None => err is E }
  entry[C01,C02,C03]: broadcast use group_skip; broadcast use lemma_trim;

func logument.NewLogument(initialSnapshot, initialPatches) -> (l)
  requires: initial(initialSnapshot) is Some
  requires: initialPatches is Nil || stored(initialPatches) is Some
  ensures: l.Version == seq![0u64]
  ensures: l.CurrentState == initial(initialSnapshot)->Some_0
  ensures: l.Snapshots == Map::<u64, Val>::empty().insert(0u64, initial(initialSnapshot)->Some_0)
  ensures: l.Patches == Map::<u64, Seq<Operation>>::empty()
  ensures: l.PatchPool == if initialPatches is Nil { Seq::empty() } else { stored(initialPatches)->Some_0 }
  ensures: wf(l) && coherent(l)

func logument.Logument.isContinuous(lgm) -> (ok)
  requires: wf(lgm)
  ensures: ok
  ensures: new_lgm == lgm
  after sort.Slice: lemma_sorted_asc(v_lgm.Version); lemma_asc_unique(v_lgm.Version, lgm.Version);

func logument.Logument.isGrown(lgm) -> (ok)
  requires: wf(lgm)
  ensures: ok
  ensures: new_lgm == lgm

func logument.Logument.getSortedVersions(lgm, source) -> (vs)
  requires: source =~= "snapshot" || source =~= "patch"
  ensures: source =~= "snapshot" ==> keys_of(vs, lgm.Snapshots)
  ensures: source =~= "patch" ==> keys_of(vs, lgm.Patches)
  ensures: new_lgm == lgm
  loop 1:
    invariant: v_versions =~= seq_1.take(i_1)
    after: assert(v_versions =~= seq_1);
  loop 2:
    invariant: v_versions =~= seq_2.take(i_2)
    after: assert(v_versions =~= seq_2);
  ret: if source =~= "snapshot" { lemma_keys_of(vs, lgm.Snapshots); } else { lemma_keys_of(vs, lgm.Patches); }

func logument.Logument.Store(lgm, inputPatches) -> ()
  requires: stored(inputPatches) is Some
  ensures: new_lgm.PatchPool =~= lgm.PatchPool + stored(inputPatches)->Some_0
  ensures[C15,C16,C18]: new_lgm.Version == lgm.Version && new_lgm.Snapshots == lgm.Snapshots && new_lgm.Patches == lgm.Patches && new_lgm.CurrentState == lgm.CurrentState
  loop 1:
    invariant: v_tempPatches =~= flat(seq_1.take(i_1))
    entry: assert(seq_1.take(i_1).drop_last() =~= seq_1.take(i_1 - 1));
    after: assert(seq_1.take(seq_1.len() as int) =~= seq_1);

func logument.Logument.Append(lgm) -> (err)
  requires: wf(lgm)
  requires: vlast(lgm) < u64::MAX - 1
  ensures: err is Nil
  ensures: lgm.PatchPool.len() == 0 ==> new_lgm == lgm
  ensures: lgm.PatchPool.len() > 0 ==> new_lgm.Version =~= lgm.Version.push((vlast(lgm) + 1) as u64)
  ensures: lgm.PatchPool.len() > 0 ==> new_lgm.Patches =~= lgm.Patches.insert((vlast(lgm) + 1) as u64, lgm.PatchPool)
  ensures: lgm.PatchPool.len() > 0 ==> new_lgm.PatchPool.len() == 0
  ensures: new_lgm.Snapshots == lgm.Snapshots && new_lgm.CurrentState == lgm.CurrentState
  ensures: wf(new_lgm)
  ensures: forall|v: int| v <= vlast(lgm) ==> #[trigger] doc_at(new_lgm, v) == doc_at(lgm, v)
  ensures: coherent(lgm) ==> coherent(new_lgm)
  ret: if lgm.PatchPool.len() > 0 {
      let n = (vlast(lgm) + 1) as u64;
      assert forall|v: int| v <= vlast(lgm) implies #[trigger] doc_at(new_lgm, v) == doc_at(lgm, v) by {
        lemma_replay_same(lgm.Snapshots[lgm.Version[0]], new_lgm.Patches, lgm.Patches, v0(lgm), v);
      }
    }

func logument.Logument.findLatest(lgm, targetVersion) -> (lv, ls, err)
  requires: wf(lgm) && v0(lgm) <= targetVersion <= vlast(lgm)
  ensures: err is Nil
  ensures: lgm.Snapshots.dom().contains(lv) && lv <= targetVersion && ls == lgm.Snapshots[lv]
  ensures: new_lgm == lgm
  after sort.Search: assert(v_versions.contains(lgm.Version[0]));
    let j = choose|j: int| 0 <= j < v_versions.len() && v_versions[j] == lgm.Version[0];
    assert(v_versions[0] <= v_versions[j]);

func logument.Logument.Snapshot(lgm, vk) -> (doc)
  requires: wf(lgm) && coherent(lgm)
  requires: v0(lgm) <= vk <= vlast(lgm)
  requires: doc_at(lgm, vk as int) is Some
  ensures: Some(doc) == doc_at(lgm, vk as int)
  ensures: new_lgm.Version == lgm.Version && new_lgm.Patches == lgm.Patches && new_lgm.PatchPool == lgm.PatchPool && new_lgm.CurrentState == lgm.CurrentState
  ensures: new_lgm.Snapshots =~= lgm.Snapshots.insert(vk, doc)
  ensures: wf(new_lgm) && coherent(new_lgm)
  ensures: forall|v: int| #[trigger] doc_at(new_lgm, v) == doc_at(lgm, v)
  loop 1:
    invariant: v_latestVersion < v_i <= vk + 1 && v_i > v0(lgm)
    invariant: Some(v_timedSnapshot) == doc_at(lgm, v_i - 1)
    decreases: vk + 1 - v_i
    entry: lemma_replay_prefix(lgm.Snapshots[lgm.Version[0]], lgm.Patches, v0(lgm), v_i as int, vk as int);

func logument.Logument.TemporalSnapshot(lgm, tsk) -> (doc)
  requires: wf(lgm)
  requires: doc_at_time(lgm, tsk as int) is Some
  ensures: Some(doc) == doc_at_time(lgm, tsk as int)
  ensures: new_lgm == lgm
  loop 1:
    invariant: v_lgm == lgm && keys_of(seq_1, lgm.Patches)
    invariant: v_timedPatches =~= sel_ops(cat(lgm.Patches, v0(lgm), if i_1 == 0 { v0(lgm) } else { seq_1[i_1 - 1] + 1 }), upto(tsk as int))
    entry: lemma_keys_gap(seq_1, lgm.Patches, i_1 - 1); lemma_cat_gap(lgm.Patches, v0(lgm), if i_1 == 1 { v0(lgm) } else { seq_1[i_1 - 2] + 1 }, v_version as int);
    exit: lemma_sel_cat(cat(lgm.Patches, v0(lgm), v_version as int), lgm.Patches[v_version], upto(tsk as int));
    after: if seq_1.len() > 0 { lemma_keys_gap(seq_1, lgm.Patches, seq_1.len() - 1); assert(lgm.Patches.dom().contains(seq_1.last())); } else { lemma_keys_none(seq_1, lgm.Patches); }
      lemma_cat_gap(lgm.Patches, v0(lgm), if seq_1.len() == 0 { v0(lgm) } else { seq_1.last() + 1 }, vlast(lgm) + 1);
  loop 2:
    invariant: v_timedPatches =~= sel_ops(cat(lgm.Patches, v0(lgm), v_version as int), upto(tsk as int)) + sel_ops(seq_2.take(i_2), upto(tsk as int))
    maybe Seq<Operation>: $ == sel_ops(seq_2.take(i_2), upto(tsk as int))
    entry: assert(seq_2.take(i_2).drop_last() =~= seq_2.take(i_2 - 1));
    after: assert(seq_2.take(seq_2.len() as int) =~= seq_2);
  loop 3:
    invariant: v_timedPatches =~= sel_ops(cat(lgm.Patches, v0(lgm), vlast(lgm) + 1), upto(tsk as int)) + sel_ops(seq_3.take(i_3), upto(tsk as int))
    maybe Seq<Operation>: $ == sel_ops(seq_3.take(i_3), upto(tsk as int))
    entry: assert(seq_3.take(i_3).drop_last() =~= seq_3.take(i_3 - 1));
    after: assert(seq_3.take(seq_3.len() as int) =~= seq_3); lemma_sel_cat(cat(lgm.Patches, v0(lgm), vlast(lgm) + 1), lgm.PatchPool, upto(tsk as int));

func logument.Logument.Track(lgm, vi, vj) -> (m)
  requires: wf(lgm) && vi <= vj <= vlast(lgm)
  ensures[C19]: forall|v: u64| #[trigger] m.dom().contains(v) <==> lgm.Patches.dom().contains(v) && vi <= v <= vj
  ensures[C19]: forall|v: u64| #[trigger] m.dom().contains(v) ==> m[v] == dd_at(lgm.Patches, every(), false, vi as int, v as int)
  ensures: new_lgm == lgm
  loop 1:
    invariant: v_lgm == lgm
    invariant: forall|k: u64| #[trigger] v_packedPatches.dom().contains(k) <==> seq_1.take(i_1).contains(k) && vi <= k <= vj
    invariant: forall|k: u64| #[trigger] v_packedPatches.dom().contains(k) ==> v_packedPatches[k] == lgm.Patches[k]
    entry: assert(seq_1.take(i_1) =~= seq_1.take(i_1 - 1).push(seq_1[i_1 - 1])); lemma_push_contains(seq_1.take(i_1 - 1), seq_1[i_1 - 1]);
    after: assert(seq_1.take(seq_1.len() as int) =~= seq_1);
      let packed = v_packedPatches;
  loop 2:
    invariant: v_paths =~= seq_2.take(i_2)
    after: assert(v_paths =~= seq_2);
  loop 3:
    before: lemma_if_keys_of(seq_3, v_packedPatches);
    invariant: forall|k: u64| #[trigger] v_packedPatches.dom().contains(k) <==> lgm.Patches.dom().contains(k) && vi <= k <= vj
    invariant: keys_of(seq_3, v_packedPatches)
    invariant: forall|j: int| 0 <= j < i_3 ==> v_packedPatches[#[trigger] seq_3[j]] == dd_at(lgm.Patches, every(), false, vi as int, seq_3[j] as int)
    invariant: forall|j: int| i_3 <= j < seq_3.len() ==> v_packedPatches[#[trigger] seq_3[j]] == lgm.Patches[seq_3[j]]
    invariant: v_latestValues == dd_before(lgm.Patches, every(), false, vi as int, if i_3 == 0 { vi as int } else { seq_3[i_3 - 1] + 1 })
    entry: lemma_range_gap(seq_3, v_packedPatches, lgm.Patches, vi as int, vj as int, i_3 - 1);
      lemma_dd_gap(lgm.Patches, every(), false, vi as int, if i_3 == 1 { vi as int } else { seq_3[i_3 - 2] + 1 }, seq_3[i_3 - 1] as int);
    after: assert forall|v: u64| #[trigger] v_packedPatches.dom().contains(v) implies v_packedPatches[v] == dd_at(lgm.Patches, every(), false, vi as int, v as int) by {
        assert(seq_3.contains(v));
        let j = choose|j: int| 0 <= j < seq_3.len() && seq_3[j] == v;
      }
  loop 4:
    invariant: v_latestValues =~= dd_st(dd_before(lgm.Patches, every(), false, vi as int, seq_3[i_3 - 1] as int), every(), false, seq_4.take(i_4))
    invariant: v_compactPatches =~= dd_out(dd_before(lgm.Patches, every(), false, vi as int, seq_3[i_3 - 1] as int), every(), false, seq_4.take(i_4))
    entry: assert(seq_4.take(i_4).drop_last() =~= seq_4.take(i_4 - 1));
    after: assert(seq_4.take(seq_4.len() as int) =~= seq_4);

func logument.Logument.TemporalTrack(lgm, tsi, tsj) -> (m)
  requires: wf(lgm) && tsi <= tsj
  ensures[C20]: forall|v: u64| #[trigger] m.dom().contains(v) <==> dd_at(lgm.Patches, within(tsi as int, tsj as int), false, v0(lgm), v as int).len() > 0
  ensures[C20]: forall|v: u64| #[trigger] m.dom().contains(v) ==> m[v] == dd_at(lgm.Patches, within(tsi as int, tsj as int), false, v0(lgm), v as int)
  ensures: new_lgm == lgm
  loop 1:
    invariant: v_lgm == lgm && keys_of(seq_1, lgm.Patches)
    invariant: v_latestValues == dd_before(lgm.Patches, within(tsi as int, tsj as int), false, v0(lgm), if i_1 == 0 { v0(lgm) } else { seq_1[i_1 - 1] + 1 })
    invariant: forall|v: u64| #[trigger] v_trackedPatches.dom().contains(v) <==> seq_1.take(i_1).contains(v) && dd_at(lgm.Patches, within(tsi as int, tsj as int), false, v0(lgm), v as int).len() > 0
    invariant: forall|v: u64| #[trigger] v_trackedPatches.dom().contains(v) ==> v_trackedPatches[v] == dd_at(lgm.Patches, within(tsi as int, tsj as int), false, v0(lgm), v as int)
    entry: assert(seq_1.take(i_1) =~= seq_1.take(i_1 - 1).push(seq_1[i_1 - 1])); lemma_push_contains(seq_1.take(i_1 - 1), seq_1[i_1 - 1]);
      lemma_keys_gap(seq_1, lgm.Patches, i_1 - 1);
      lemma_dd_gap(lgm.Patches, within(tsi as int, tsj as int), false, v0(lgm), if i_1 == 1 { v0(lgm) } else { seq_1[i_1 - 2] + 1 }, seq_1[i_1 - 1] as int);
      assert(lgm.Patches.dom().contains(seq_1[i_1 - 1]));
    after: assert(seq_1.take(seq_1.len() as int) =~= seq_1);
      assert forall|v: u64| #[trigger] v_trackedPatches.dom().contains(v) <==> dd_at(lgm.Patches, within(tsi as int, tsj as int), false, v0(lgm), v as int).len() > 0 by {
        if !seq_1.contains(v) { assert(patch_of(lgm.Patches, v as int).len() == 0); }
      }
  loop 2:
    invariant: v_latestValues =~= dd_st(dd_before(lgm.Patches, within(tsi as int, tsj as int), false, v0(lgm), seq_1[i_1 - 1] as int), within(tsi as int, tsj as int), false, seq_2.take(i_2))
    invariant: v_compactPatches =~= dd_out(dd_before(lgm.Patches, within(tsi as int, tsj as int), false, v0(lgm), seq_1[i_1 - 1] as int), within(tsi as int, tsj as int), false, seq_2.take(i_2))
    entry: assert(seq_2.take(i_2).drop_last() =~= seq_2.take(i_2 - 1));
    after: assert(seq_2.take(seq_2.len() as int) =~= seq_2);

func logument.isUnder(path, target) -> (ok)
  ensures: ok == is_under(path, target)

func logument.Logument.Compact(lgm, targetPath) -> ()
  requires: wf(lgm)
  ensures[C21,C25]: forall|v: u64| #[trigger] new_lgm.Patches.dom().contains(v) <==> lgm.Patches.dom().contains(v)
  ensures[C21,C25]: forall|v: u64| #[trigger] lgm.Patches.dom().contains(v) ==> new_lgm.Patches[v] == dd_at(lgm.Patches, under(targetPath), true, v0(lgm), v as int)
  ensures: new_lgm.Version == lgm.Version && new_lgm.Snapshots == lgm.Snapshots && new_lgm.PatchPool == lgm.PatchPool && new_lgm.CurrentState == lgm.CurrentState
  ensures: wf(new_lgm)
  loop 1:
    invariant: v_lgm.Version == lgm.Version && v_lgm.Snapshots == lgm.Snapshots && v_lgm.PatchPool == lgm.PatchPool && v_lgm.CurrentState == lgm.CurrentState
    invariant: keys_of(seq_1, lgm.Patches)
    invariant: forall|v: u64| #[trigger] v_lgm.Patches.dom().contains(v) <==> lgm.Patches.dom().contains(v)
    invariant: v_latestValues == dd_before(lgm.Patches, under(targetPath), true, v0(lgm), if i_1 == 0 { v0(lgm) } else { seq_1[i_1 - 1] + 1 })
    invariant: forall|j: int| 0 <= j < i_1 ==> v_lgm.Patches[#[trigger] seq_1[j]] == dd_at(lgm.Patches, under(targetPath), true, v0(lgm), seq_1[j] as int)
    invariant: forall|j: int| i_1 <= j < seq_1.len() ==> v_lgm.Patches[#[trigger] seq_1[j]] == lgm.Patches[seq_1[j]]
    entry: lemma_keys_gap(seq_1, lgm.Patches, i_1 - 1);
      lemma_dd_gap(lgm.Patches, under(targetPath), true, v0(lgm), if i_1 == 1 { v0(lgm) } else { seq_1[i_1 - 2] + 1 }, seq_1[i_1 - 1] as int);
      assert(lgm.Patches.dom().contains(seq_1[i_1 - 1]));
    after: assert forall|v: u64| #[trigger] lgm.Patches.dom().contains(v) implies v_lgm.Patches[v] == dd_at(lgm.Patches, under(targetPath), true, v0(lgm), v as int) by {
        assert(seq_1.contains(v));
        let j = choose|j: int| 0 <= j < seq_1.len() && seq_1[j] == v;
      }
  loop 2:
    invariant: v_latestValues =~= dd_st(dd_before(lgm.Patches, under(targetPath), true, v0(lgm), seq_1[i_1 - 1] as int), under(targetPath), true, seq_2.take(i_2))
    invariant: v_compactPatches =~= dd_out(dd_before(lgm.Patches, under(targetPath), true, v0(lgm), seq_1[i_1 - 1] as int), under(targetPath), true, seq_2.take(i_2))
    entry: assert(seq_2.take(i_2).drop_last() =~= seq_2.take(i_2 - 1));
    after: assert(seq_2.take(seq_2.len() as int) =~= seq_2);

func logument.Logument.Slice(lgm, vi, vj) -> (l)
  requires: wf(lgm) && coherent(lgm)
  requires: v0(lgm) <= vi <= vj <= vlast(lgm)
  requires: doc_at(lgm, vj as int) is Some
  ensures[C22]: l.Version.len() == vj - vi + 1 && forall|k: int| 0 <= k <= vj - vi ==> #[trigger] l.Version[k] == vi + k
  ensures[C22]: forall|v: u64| #[trigger] l.Patches.dom().contains(v) <==> lgm.Patches.dom().contains(v) && vi <= v <= vj
  ensures[C22]: forall|v: u64| #[trigger] l.Patches.dom().contains(v) ==> l.Patches[v] == lgm.Patches[v]
  ensures[C22]: l.PatchPool.len() == 0 && Some(l.CurrentState) == doc_at(lgm, vj as int)
  ensures[C22]: forall|v: int| vi <= v <= vj ==> #[trigger] doc_at(l, v) == doc_at(lgm, v)
  ensures[C22]: wf(l) && coherent(l)
  ensures: new_lgm.Version == lgm.Version && new_lgm.Patches == lgm.Patches && new_lgm.PatchPool == lgm.PatchPool && new_lgm.CurrentState == lgm.CurrentState
  ensures: wf(new_lgm) && coherent(new_lgm)
  ensures: forall|v: u64| #[trigger] new_lgm.Snapshots.dom().contains(v) <==> lgm.Snapshots.dom().contains(v) || v == vi || v == vj
  ensures: forall|v: u64| #[trigger] lgm.Snapshots.dom().contains(v) ==> new_lgm.Snapshots[v] == lgm.Snapshots[v]
  loop 1:
    invariant: v_lgm == lgm && keys_of(seq_1, lgm.Snapshots)
    invariant: forall|k: u64| #[trigger] v_SlicedSnapshots.dom().contains(k) <==> seq_1.take(i_1).contains(k) && vi <= k <= vj
    invariant: forall|k: u64| #[trigger] v_SlicedSnapshots.dom().contains(k) ==> v_SlicedSnapshots[k] == lgm.Snapshots[k]
    entry: assert(seq_1.take(i_1) =~= seq_1.take(i_1 - 1).push(seq_1[i_1 - 1])); lemma_push_contains(seq_1.take(i_1 - 1), seq_1[i_1 - 1]);
    after: assert(seq_1.take(seq_1.len() as int) =~= seq_1);
  loop 2:
    invariant: v_lgm == lgm && keys_of(seq_2, lgm.Patches)
    invariant: forall|k: u64| #[trigger] v_SlicedPatches.dom().contains(k) <==> seq_2.take(i_2).contains(k) && vi <= k <= vj
    invariant: forall|k: u64| #[trigger] v_SlicedPatches.dom().contains(k) ==> v_SlicedPatches[k] == lgm.Patches[k]
    entry: assert(seq_2.take(i_2) =~= seq_2.take(i_2 - 1).push(seq_2[i_2 - 1])); lemma_push_contains(seq_2.take(i_2 - 1), seq_2[i_2 - 1]);
    after: assert(seq_2.take(seq_2.len() as int) =~= seq_2);
  loop 3:
    invariant: v_lgm == lgm
    invariant: v_SlicedVersions.len() == if v0(lgm) + i_3 <= vi { 0 } else { seq_min(v0(lgm) + i_3, vj + 1) - vi }
    invariant: forall|k: int| 0 <= k < v_SlicedVersions.len() ==> #[trigger] v_SlicedVersions[k] == vi + k
  before Snapshot: lemma_replay_prefix(lgm.Snapshots[lgm.Version[0]], lgm.Patches, v0(lgm), vi as int, vj as int);
  ret: 
    assert forall|v: int| vi <= v <= vj implies #[trigger] doc_at(l, v) == doc_at(lgm, v) by {
      lemma_replay_rebase(lgm.Snapshots[lgm.Version[0]], lgm.Patches, v0(lgm), vi as int, v);
      lemma_replay_same(l.Snapshots[l.Version[0]], l.Patches, lgm.Patches, vi as int, v);
    }

func logument.Logument.TemporalSlice(lgm, tsi, tsj) -> (l)
  requires: wf(lgm) && tsi <= tsj
  requires: doc_at_time(lgm, tsi - 1) is Some && doc_at_time(lgm, tsj as int) is Some
  ensures[C24]: forall|v: u64| #[trigger] l.Patches.dom().contains(v) <==> in_period(lgm.Patches, v as int, tsi as int, tsj as int).len() > 0
  ensures[C24]: forall|v: u64| #[trigger] l.Patches.dom().contains(v) ==> l.Patches[v] == in_period(lgm.Patches, v as int, tsi as int, tsj as int) && v > v0(l)
  ensures[C24]: wf(l) && coherent(l) && l.PatchPool.len() == 0
  ensures[C24]: Some(l.Snapshots[l.Version[0]]) == doc_at_time(lgm, tsi - 1)
  ensures[C24]: Some(l.CurrentState) == doc_at_time(lgm, tsj as int)
  ensures: new_lgm == lgm
  loop 1:
    invariant: v_lgm == lgm && keys_of(seq_1, lgm.Patches)
    invariant: forall|v: u64| #[trigger] v_SlicedPatches.dom().contains(v) <==> seq_1.take(i_1).contains(v) && in_period(lgm.Patches, v as int, tsi as int, tsj as int).len() > 0
    invariant: forall|v: u64| #[trigger] v_SlicedPatches.dom().contains(v) ==> v_SlicedPatches[v] == in_period(lgm.Patches, v as int, tsi as int, tsj as int) && v_startVersion < v <= v_endVersion
    invariant: v_SlicedPatches.dom().len() == 0 ==> v_startVersion == lgm.Version[0] && v_endVersion == lgm.Version[0]
    invariant: v_startVersion <= v_endVersion && v_endVersion <= vlast(lgm)
    invariant: v_SlicedPatches.dom().len() != 0 ==> v_startVersion < v_endVersion
    invariant: v_endVersion <= if i_1 == 0 { lgm.Version[0] } else { seq_1[i_1 - 1] }
    entry: assert(seq_1.take(i_1) =~= seq_1.take(i_1 - 1).push(seq_1[i_1 - 1])); lemma_push_contains(seq_1.take(i_1 - 1), seq_1[i_1 - 1]);
      lemma_keys_gap(seq_1, lgm.Patches, i_1 - 1);
      assert(lgm.Patches.dom().contains(seq_1[i_1 - 1]));
    after: assert(seq_1.take(seq_1.len() as int) =~= seq_1);
      assert forall|v: u64| #[trigger] v_SlicedPatches.dom().contains(v) <==> in_period(lgm.Patches, v as int, tsi as int, tsj as int).len() > 0 by {
        if !seq_1.contains(v) { assert(patch_of(lgm.Patches, v as int).len() == 0); }
      }
  loop 2:
    invariant: forall|v: u64| #[trigger] v_SlicedPatches.dom().contains(v) <==> (seq_1.take(i_1 - 1).contains(v) && in_period(lgm.Patches, v as int, tsi as int, tsj as int).len() > 0) || (v == seq_1[i_1 - 1] && sel_ops(seq_2.take(i_2), within(tsi as int, tsj as int)).len() > 0)
    invariant: forall|v: u64| #[trigger] v_SlicedPatches.dom().contains(v) ==> v_startVersion < v <= v_endVersion && v_SlicedPatches[v] == if v == seq_1[i_1 - 1] { sel_ops(seq_2.take(i_2), within(tsi as int, tsj as int)) } else { in_period(lgm.Patches, v as int, tsi as int, tsj as int) }
    invariant: v_SlicedPatches.dom().len() == 0 ==> v_startVersion == lgm.Version[0] && v_endVersion == lgm.Version[0]
    invariant: v_startVersion <= v_endVersion && v_endVersion <= vlast(lgm)
    invariant: v_SlicedPatches.dom().len() != 0 ==> v_startVersion < v_endVersion
    invariant: v_endVersion <= seq_1[i_1 - 1]
    maybe Seq<Operation>: $ == sel_ops(seq_2.take(i_2), within(tsi as int, tsj as int))
    entry: assert(seq_2.take(i_2).drop_last() =~= seq_2.take(i_2 - 1));
    after: assert(seq_2.take(seq_2.len() as int) =~= seq_2);
  loop 3:
    invariant: v_startVersion <= v_version_2 <= v_endVersion + 1
    invariant: v_SlicedVersions.len() == v_version_2 - v_startVersion
    invariant: forall|k: int| 0 <= k < v_SlicedVersions.len() ==> #[trigger] v_SlicedVersions[k] == v_startVersion + k
    decreases: v_endVersion + 1 - v_version_2
  before TemporalSnapshot: lemma_none_before(all_changes(lgm), i64::MIN - 1);

func logument.leafCompareValue(leafValue, value) -> (same)
  ensures: same == leaf_holds(leafValue, value)

func logument.Logument.Set(lgm, vk, patch) -> ()
  requires: op_sets(patch) ==> apply_op(lgm.CurrentState, patch) is Some
  ensures: !op_sets(patch) ==> new_lgm == lgm
  ensures: op_sets(patch) ==> new_lgm == set_spec(lgm, patch)
  ret: if lgm.PatchPool.len() == 0 { assert(lgm.PatchPool =~= Seq::<Operation>::empty()); assert(seq![patch] =~= lgm.PatchPool.push(patch)); }

func logument.Logument.TestSet(lgm, vk, patch) -> ()
  requires: test_sets(lgm.CurrentState, patch) is Some ==> apply_op(lgm.CurrentState, patch) is Some
  ensures: match test_sets(lgm.CurrentState, patch) { Some(o) => new_lgm == set_spec(lgm, o), None => new_lgm == lgm }
  entry: if test_sets(lgm.CurrentState, patch) is Some {
      lemma_sets_alike(lgm.CurrentState, path_parts(patch.Path), patch, test_sets(lgm.CurrentState, patch)->Some_0);
    }

func logument.Logument.History(lgm, targetPath) -> (m)
  requires: wf(lgm)
  ensures[C25]: forall|v: u64| #[trigger] new_lgm.Patches.dom().contains(v) <==> lgm.Patches.dom().contains(v)
  ensures[C25]: forall|v: u64| #[trigger] lgm.Patches.dom().contains(v) ==> new_lgm.Patches[v] == dd_at(lgm.Patches, under(targetPath), true, v0(lgm), v as int)
  ensures: new_lgm.Version == lgm.Version && new_lgm.Snapshots == lgm.Snapshots && new_lgm.PatchPool == lgm.PatchPool && new_lgm.CurrentState == lgm.CurrentState
  ensures[C25]: forall|p: Str| #[trigger] m.dom().contains(p) <==> at_path(changes_under(new_lgm, targetPath), p).len() > 0
  ensures[C25]: forall|p: Str| #[trigger] m.dom().contains(p) ==> m[p] == initial_op(lgm.Snapshots[lgm.Version[0]], p) + at_path(changes_under(new_lgm, targetPath), p)
  after Compact: ghost mid = v_lgm;
  loop 1:
    invariant: v_lgm == mid && keys_of(seq_1, mid.Patches)
    invariant: v_targetPatches =~= sel_ops(cat(mid.Patches, v0(lgm), if i_1 == 0 { v0(lgm) } else { seq_1[i_1 - 1] + 1 }), under(targetPath))
    entry: lemma_keys_gap(seq_1, mid.Patches, i_1 - 1); lemma_cat_gap(mid.Patches, v0(lgm), if i_1 == 1 { v0(lgm) } else { seq_1[i_1 - 2] + 1 }, seq_1[i_1 - 1] as int);
    exit: lemma_sel_cat(cat(mid.Patches, v0(lgm), seq_1[i_1 - 1] as int), mid.Patches[seq_1[i_1 - 1]], under(targetPath));
    after: if seq_1.len() > 0 { lemma_keys_gap(seq_1, mid.Patches, seq_1.len() - 1); assert(mid.Patches.dom().contains(seq_1.last())); } else { lemma_keys_none(seq_1, mid.Patches); }
      lemma_cat_gap(mid.Patches, v0(lgm), if seq_1.len() == 0 { v0(lgm) } else { seq_1.last() + 1 }, vlast(lgm) + 1);
  loop 2:
    invariant: v_targetPatches =~= sel_ops(cat(mid.Patches, v0(lgm), seq_1[i_1 - 1] as int), under(targetPath)) + sel_ops(seq_2.take(i_2), under(targetPath))
    entry: assert(seq_2.take(i_2).drop_last() =~= seq_2.take(i_2 - 1));
    after: assert(seq_2.take(seq_2.len() as int) =~= seq_2);
  loop 3:
    invariant: seq_3 == changes_under(mid, targetPath)
    invariant: forall|p: Str| #[trigger] v_historyPatches.dom().contains(p) <==> at_path(seq_3.take(i_3), p).len() > 0
    invariant: forall|p: Str| #[trigger] v_historyPatches.dom().contains(p) ==> v_historyPatches[p] == at_path(seq_3.take(i_3), p)
    entry: assert(seq_3.take(i_3).drop_last() =~= seq_3.take(i_3 - 1));
    after: assert(seq_3.take(seq_3.len() as int) =~= seq_3);
  loop 4:
    invariant: v_lgm == mid
    invariant: forall|p: Str| #[trigger] v_historyPatches.dom().contains(p) <==> at_path(changes_under(mid, targetPath), p).len() > 0
    invariant: forall|j: int| 0 <= j < i_4 ==> v_historyPatches[#[trigger] seq_4[j]] == initial_op(lgm.Snapshots[lgm.Version[0]], seq_4[j]) + at_path(changes_under(mid, targetPath), seq_4[j])
    invariant: forall|j: int| i_4 <= j < seq_4.len() ==> v_historyPatches[#[trigger] seq_4[j]] == at_path(changes_under(mid, targetPath), seq_4[j])
    exit: assert(Seq::<Operation>::empty() + at_path(changes_under(mid, targetPath), v_key) =~= at_path(changes_under(mid, targetPath), v_key));
    after: assert forall|p: Str| #[trigger] v_historyPatches.dom().contains(p) implies v_historyPatches[p] == initial_op(lgm.Snapshots[lgm.Version[0]], p) + at_path(changes_under(mid, targetPath), p) by {
        assert(seq_4.contains(p));
        let j = choose|j: int| 0 <= j < seq_4.len() && seq_4[j] == p;
      }
