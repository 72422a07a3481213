// Handing out an item of the look-back buffer, and adding one.
spec fn settled<R: TextReader>(a: TextDeserializer<R>) -> bool {
    items_ok(a.ns(), a.its(), a.data(), a.data().len() as int, -1) && folds_ok(a.ns(), a.its(), a.fs(), a.stk(), a.nb()) && keys_ok(a.keys(), a.ns(), a.fs())
}
spec fn read_to(fs: Seq<Fold>, r: int) -> Seq<Fold> { fs.update(fs.len() - 1, Fold { read: r, ..fs.last() }) }
/// The item at `r` is the first one that was not handed out.
spec fn first_left(ns: Nodes, f: Fold, r: int) -> bool { f.read <= r < f.all.len() && !ns[f.all[r]].gone && forall|m: int| 0 <= m < r ==> (#[trigger] ns[f.all[m]]).gone }
spec fn none_left(ns: Nodes, f: Fold) -> bool { forall|m: int| 0 <= m < f.all.len() ==> (#[trigger] ns[f.all[m]]).gone }

proof fn lemma_forward<P>(ns: Nodes, its: Items<P>, data: Seq<u8>, dlen: int, p: int)
    requires items_ok(ns, its, data, dlen, p)
    ensures forward(its)
{
    assert forall|i: int| 0 <= i < its.len() implies i < (#[trigger] its[i]).next_sibling_index by { assert(item_ok(ns, its, data, dlen, i, p)); }
}
proof fn lemma_unread_from<P>(ns: Nodes, its: Items<P>, data: Seq<u8>, dlen: int, fs: Seq<Fold>, stk: Seq<StackItem<P>>, nb: int, m: int) -> (r: int)
    requires
        items_ok(ns, its, data, dlen, -1), folds_ok(ns, its, fs, stk, nb), fs.len() > 0, its.len() <= usize::MAX,
        fs.last().read <= m <= fs.last().all.len(), forall|l: int| 0 <= l < m ==> (#[trigger] ns[fs.last().all[l]]).gone,
    ensures ({
        let f = fs.last();
        match next_unread(its, link(f.all, m, term(fs, its.len() as int, fs.len() - 1, nb))) {
            Some(i) => first_left(ns, f, r) && f.all[r] == i,
            None => none_left(ns, f),
        }
    })
    decreases fs.last().all.len() - m
{
    let k = fs.len() - 1; let f = fs[k]; let t = term(fs, its.len() as int, k, nb);
    assert(fold_ok(ns, its, fs, stk, k, nb));
    if m < f.all.len() {
        assert(child_ok(ns, its, f, m, t));
        assert(item_ok(ns, its, data, dlen, f.all[m], -1));
        if ns[f.all[m]].gone {
            assert forall|l: int| 0 <= l < m + 1 implies (#[trigger] ns[f.all[l]]).gone by { if l < m {} }
            lemma_unread_from(ns, its, data, dlen, fs, stk, nb, m + 1)
        } else { m }
    } else { m }
}
/// What first_unread_child answers.
proof fn lemma_unread<P>(ns: Nodes, its: Items<P>, data: Seq<u8>, fs: Seq<Fold>, stk: Seq<StackItem<P>>, nb: int) -> (r: int)
    requires items_ok(ns, its, data, data.len() as int, -1), folds_ok(ns, its, fs, stk, nb), fs.len() > 0, its.len() <= usize::MAX,
    ensures
        forward(its),
        match next_unread(its, stk.last().first_child_index as int) {
            Some(i) => first_left(ns, fs.last(), r) && fs.last().all[r] == i && folds_ok(ns, its, read_to(fs, r), start_of(stk, i as usize), nb),
            None => none_left(ns, fs.last()),
        }
{
    let k = fs.len() - 1; let f = fs[k];
    lemma_forward(ns, its, data, data.len() as int, -1);
    assert(fold_ok(ns, its, fs, stk, k, nb));
    assert forall|l: int| 0 <= l < f.read implies (#[trigger] ns[f.all[l]]).gone by { assert(child_ok(ns, its, f, l, term(fs, its.len() as int, k, nb))); }
    let r = lemma_unread_from(ns, its, data, data.len() as int, fs, stk, nb, f.read);
    if next_unread(its, stk.last().first_child_index as int) is Some { lemma_start(ns, its, fs, stk, nb, r); }
    r
}
proof fn lemma_start<P>(ns: Nodes, its: Items<P>, fs: Seq<Fold>, stk: Seq<StackItem<P>>, nb: int, r: int)
    requires folds_ok(ns, its, fs, stk, nb), fs.len() > 0, first_left(ns, fs.last(), r), its.len() <= usize::MAX
    ensures folds_ok(ns, its, read_to(fs, r), start_of(stk, fs.last().all[r] as usize), nb)
{
    let n = fs.len() as int; let gs = read_to(fs, r); let stl = start_of(stk, fs.last().all[r] as usize);
    assert forall|k: int| 0 <= k < n implies #[trigger] fold_ok(ns, its, gs, stl, k, nb) by {
        let f = fs[k]; let t = term(fs, its.len() as int, k, nb);
        assert(fold_ok(ns, its, fs, stk, k, nb));
        assert(term(gs, its.len() as int, k, nb) == t);
        assert forall|m: int| 0 <= m < gs[k].all.len() implies #[trigger] child_ok(ns, its, gs[k], m, t) by {
            assert(child_ok(ns, its, f, m, t));
            if k == n - 1 && m < r { assert(ns[f.all[m]].gone); }
        }
        if k == n - 1 { assert(child_ok(ns, its, f, r, t)); }
    }
    assert forall|k: int, l: int| 0 <= k < l < gs.len() implies (#[trigger] gs[k]).hole != (#[trigger] gs[l]).hole by { assert(fs[k].hole != fs[l].hole); }
}
/// The same but for what is read of the top.
proof fn lemma_read_same(ns: Nodes, fs: Seq<Fold>, keys: Keys, r: int, sd: int, s: Seq<char>, start: bool, c: bool)
    requires fs.len() > 0
    ensures keys_ok(keys, ns, fs) ==> keys_ok(keys, ns, read_to(fs, r)), unwind(ns, read_to(fs, r), sd, s, start, c) == unwind(ns, fs, sd, s, start, c)
{
    let gs = read_to(fs, r);
    assert forall|d: int, i: int| in_table(ns, fs, d, i) == #[trigger] in_table(ns, gs, d, i) by {}
    lemma_unwind_frame(ns, ns, gs, fs, sd, s, start, c);
}
/// An item is handed out.
proof fn lemma_hand_out<P>(ns: Nodes, its: Items<P>, data: Seq<u8>, fs: Seq<Fold>, stk: Seq<StackItem<P>>, keys: Keys, nb: int, i: int, jts: Items<P>)
    requires
        items_ok(ns, its, data, data.len() as int, -1), folds_ok(ns, its, fs, stk, nb), keys_ok(keys, ns, fs), fs.len() > 0,
        fs.last().all.contains(i), !ns[i].gone, jts == its || jts == inactive(its, i)
    ensures
        items_ok(gone(ns, i), jts, data, data.len() as int, i), folds_ok(gone(ns, i), jts, fs, stk, nb),
        keys_ok(if fs.last().obj { keys.remove((fs.len() as int, i)) } else { keys }, gone(ns, i), fs), 0 <= i < its.len()
{
    let n = fs.len() as int; let f = fs[n - 1]; let ms = gone(ns, i);
    lemma_inactive(its[i].key_len_active);
    assert(fold_ok(ns, its, fs, stk, n - 1, nb));
    let r = choose|r: int| 0 <= r < f.all.len() && f.all[r] == i;
    assert(child_ok(ns, its, f, r, term(fs, its.len() as int, n - 1, nb)));
    assert forall|x: int| 0 <= x < jts.len() implies #[trigger] item_ok(ms, jts, data, data.len() as int, x, i) by {
        assert(item_ok(ns, its, data, data.len() as int, x, -1));
        assert(dend(jts, data.len() as int, x) == dend(its, data.len() as int, x));
        let ks = ns[x].kids;
        assert forall|m: int| 0 <= m < ks.len() implies #[trigger] kid_ok(ms, jts, x, m) by { assert(kid_ok(ns, its, x, m)); }
        assert(ents(ms, ks) =~= ents(ns, ks)); assert(vals(ms, ks) =~= vals(ns, ks));
    }
    assert forall|k: int| 0 <= k < n implies #[trigger] fold_ok(ms, jts, fs, stk, k, nb) by {
        assert(fold_ok(ns, its, fs, stk, k, nb));
        let t = term(fs, its.len() as int, k, nb);
        assert forall|m: int| 0 <= m < fs[k].all.len() implies #[trigger] child_ok(ms, jts, fs[k], m, t) by { assert(child_ok(ns, its, fs[k], m, t)); }
    }
    let keys2 = if f.obj { keys.remove((n, i)) } else { keys };
    assert forall|d: int, x: int| #![trigger keys2.dom().contains((d, x))] keys2.dom().contains((d, x)) <==> in_table(ms, fs, d, x) by {
        assert(keys.dom().contains((d, x)) <==> in_table(ns, fs, d, x));
        if x == i && in_table(ns, fs, d, i) && d != n {
            let g = fs[d - 1];
            assert(fold_ok(ns, its, fs, stk, d - 1, nb));
            let m = choose|m: int| 0 <= m < g.all.len() && g.all[m] == i;
            assert(child_ok(ns, its, g, m, term(fs, its.len() as int, d - 1, nb)));
            assert(fs[d - 1].hole != fs[n - 1].hole);
        }
        if x == i && !f.obj && d == n { }
    }
    assert forall|d: int, x: int| #![trigger keys2.dom().contains((d, x))] keys2.dom().contains((d, x)) implies keys2[(d, x)] == hash_of(d, encode_utf8(ms[x].key)) by { assert(keys.dom().contains((d, x))); }
}
spec fn grown<A>(a: Seq<A>, b: Seq<A>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
spec fn with_child(fs: Seq<Fold>, i: int) -> Seq<Fold> { fs.update(fs.len() - 1, Fold { all: fs.last().all.push(i), ..fs.last() }) }
/// The top object gets an item more.
proof fn lemma_push_child<P>(ns: Nodes, its: Items<P>, ms: Nodes, jts: Items<P>, fs: Seq<Fold>, stk: Seq<StackItem<P>>, keys: Keys, hash: u64)
    requires
        folds_ok(ns, its, fs, stk, fs.len() as int), keys_ok(keys, ns, fs), fs.len() > 0, fs.last().obj,
        ns.len() == its.len(), grown(ns, ms), grown(its, jts), its.len() < jts.len() <= usize::MAX, ms.len() == jts.len(),
        ms[its.len() as int].parent == -fs.len(), !ms[its.len() as int].gone, jts[its.len() as int].next_sibling_index == jts.len(),
        hash == hash_of(fs.len() as int, encode_utf8(ms[its.len() as int].key)),
    ensures ({
        let i = its.len() as int; let n = fs.len() as int; let gs = with_child(fs, i);
        &&& folds_ok(ms, jts, gs, stk, n)
        &&& !keys.dom().contains((n, i)) && keys_ok(keys.insert((n, i), hash), ms, gs)
        &&& fold_es(ms, gs.last()) == fold_es(ns, fs.last()).push((ms[i].key, ms[i].tree))
        &&& forall|k: int| 0 <= k < n - 1 ==> (#[trigger] gs[k]).obj == fs[k].obj && fold_es(ms, gs[k]) == fold_es(ns, fs[k]) && fold_js(ms, gs[k]) == fold_js(ns, fs[k])
    })
{
    let i = its.len() as int; let n = fs.len() as int; let gs = with_child(fs, i); let f = fs[n - 1];
    let old_len = its.len() as int; let new_len = jts.len() as int;
    assert forall|k: int| 0 <= k < n implies #[trigger] fold_ok(ms, jts, gs, stk, k, n) by {
        assert(fold_ok(ns, its, fs, stk, k, n));
        let t = term(fs, old_len, k, n); let t2 = term(gs, new_len, k, n);
        if k < n - 1 { assert(fold_ok(ns, its, fs, stk, k + 1, n)); assert(t == t2); }
        assert forall|m: int| 0 <= m < gs[k].all.len() implies #[trigger] child_ok(ms, jts, gs[k], m, t2) by { if m < fs[k].all.len() { assert(child_ok(ns, its, fs[k], m, t)); } }
    }
    assert forall|k: int, l: int| 0 <= k < l < gs.len() implies (#[trigger] gs[k]).hole != (#[trigger] gs[l]).hole by { assert(fs[k].hole != fs[l].hole); }
    let keys2 = keys.insert((n, i), hash);
    assert forall|d: int, x: int| #![trigger keys.dom().contains((d, x))] keys.dom().contains((d, x)) implies 0 <= x < old_len by {
        let g = fs[d - 1];
        assert(in_table(ns, fs, d, x));
        assert(fold_ok(ns, its, fs, stk, d - 1, n));
        let m = choose|m: int| 0 <= m < g.all.len() && g.all[m] == x;
        assert(child_ok(ns, its, g, m, term(fs, old_len, d - 1, n)));
    }
    assert forall|d: int, x: int| #![trigger keys2.dom().contains((d, x))] keys2.dom().contains((d, x)) <==> in_table(ms, gs, d, x) by {
        assert(keys.dom().contains((d, x)) <==> in_table(ns, fs, d, x));
        if 1 <= d <= n {
            let g = fs[d - 1];
            assert(fold_ok(ns, its, fs, stk, d - 1, n));
            if d == n {
                assert(gs[d - 1].all.contains(x) <==> g.all.contains(x) || x == i) by { assert(gs[d - 1].all[g.all.len() as int] == i); if g.all.contains(x) { let m = choose|m: int| 0 <= m < g.all.len() && g.all[m] == x; assert(gs[d - 1].all[m] == x); } }
            }
            if g.all.contains(x) { let m = choose|m: int| 0 <= m < g.all.len() && g.all[m] == x; assert(child_ok(ns, its, g, m, term(fs, old_len, d - 1, n))); }
        }
    }
    assert forall|d: int, x: int| #![trigger keys2.dom().contains((d, x))] keys2.dom().contains((d, x)) implies keys2[(d, x)] == hash_of(d, encode_utf8(ms[x].key)) by { if (d, x) != (n, i) { assert(keys.dom().contains((d, x))); } }
    assert forall|k: int| 0 <= k < n implies left(ns, fs[k].all) == left(ms, fs[k].all) && ents(ns, left(ns, fs[k].all)) == ents(ms, left(ms, fs[k].all)) && vals(ns, left(ns, fs[k].all)) == vals(ms, left(ms, fs[k].all)) by {
        assert(fold_ok(ns, its, fs, stk, k, n));
        assert forall|m: int| 0 <= m < fs[k].all.len() implies ns[#[trigger] fs[k].all[m]] == ms[fs[k].all[m]] by { assert(child_ok(ns, its, fs[k], m, term(fs, old_len, k, n))); }
        lemma_left_same(ns, ms, fs[k].all);
    }
    assert(gs.last().all =~= f.all + seq![i]);
    lemma_left_add(ms, f.all, seq![i]);
    assert(seq![i].drop_first() =~= Seq::<int>::empty());
    assert(left(ms, Seq::<int>::empty()) =~= Seq::<int>::empty());
    assert(left(ms, seq![i]) =~= seq![i]);
    let a = left(ms, f.all);
    assert(ents(ms, a + seq![i]) =~= ents(ms, a).push((ms[i].key, ms[i].tree)));
}
