// ---- The state of a TextDeserializer and what it stands for ------------------------------------------------

/// Ghost: what an item of the look-back buffer stands for. `kids`: the items of its children, `parent`: the item it is a
/// child of (-1: none), `gone`: it was handed out already.
struct Node { key: Seq<char>, tree: J, kids: Seq<int>, parent: int, gone: bool }
/// Ghost: an opened collection. `all`: the buffered children it had, in order, from `base` on; the first `read` of them were handed out; `born`:
/// it was opened in the text (`hole` is minus its depth then), or else in the item `hole`.
struct Fold { obj: bool, all: Seq<int>, base: int, read: int, born: bool, hole: int }
type Nodes = Seq<Node>;

/// The children that were not handed out.
spec fn left(ns: Nodes, ks: Seq<int>) -> Seq<int>
    decreases ks.len()
{
    if ks.len() == 0 { ks } else { let t = left(ns, ks.drop_first()); if ns[ks[0]].gone { t } else { seq![ks[0]] + t } }
}
spec fn ents(ns: Nodes, ks: Seq<int>) -> Es { Seq::new(ks.len(), |m: int| (ns[ks[m]].key, ns[ks[m]].tree)) }
spec fn vals(ns: Nodes, ks: Seq<int>) -> Seq<J> { Seq::new(ks.len(), |m: int| ns[ks[m]].tree) }
spec fn fold_es(ns: Nodes, f: Fold) -> Es { ents(ns, left(ns, f.all)) }
spec fn fold_js(ns: Nodes, f: Fold) -> Seq<J> { vals(ns, left(ns, f.all)) }

/// What is left of an object of which the text goes on with `s`.
spec fn rem_obj(s: Seq<char>, start: bool, c: bool) -> Option<(Es, Seq<char>)> {
    match if start { first_entry(s, c) } else { next_entry(s, c) } { None => None, Some((false, t)) => Some((Seq::empty(), t)), Some((true, t)) => entries(t, c) }
}
spec fn rem_arr(s: Seq<char>, start: bool, c: bool) -> Option<(Seq<J>, Seq<char>)> {
    match if start { first_item(s, c) } else { next_item(s, c) } { None => None, Some((false, t)) => Some((Seq::empty(), t)), Some((true, t)) => items(t, c) }
}
/// What is left of the opened collections, of which the first `sd` go on in the text, and of the text after them.
spec fn unwind(ns: Nodes, fs: Seq<Fold>, sd: int, s: Seq<char>, start: bool, c: bool) -> Option<(Sem, Seq<char>)>
    decreases fs.len()
{
    if fs.len() == 0 { Some((Seq::empty(), s)) }
    else {
        let f = fs.last();
        if fs.len() > sd {
            match unwind(ns, fs.drop_last(), sd, s, start, c) { None => None, Some((p, t)) => Some((p.push(if f.obj { DF::Obj(fold_es(ns, f)) } else { DF::Arr(fold_js(ns, f)) }), t)) }
        } else if f.obj {
            match rem_obj(s, start, c) { None => None, Some((es, t)) => above(unwind(ns, fs.drop_last(), sd - 1, t, false, c), DF::Obj(fold_es(ns, f) + es)) }
        } else {
            match rem_arr(s, start, c) { None => None, Some((js, t)) => above(unwind(ns, fs.drop_last(), sd - 1, t, false, c), DF::Arr(fold_js(ns, f) + js)) }
        }
    }
}
spec fn above(a: Option<(Sem, Seq<char>)>, d: DF) -> Option<(Sem, Seq<char>)> { match a { None => None, Some((p, t)) => Some((p.push(d), t)) } }

proof fn lemma_unwind_frame(ns: Nodes, ms: Nodes, fs: Seq<Fold>, gs: Seq<Fold>, sd: int, s: Seq<char>, start: bool, c: bool)
    requires
        fs.len() == gs.len(),
        forall|d: int| 0 <= d < fs.len() ==> (#[trigger] fs[d]).obj == gs[d].obj && fold_es(ns, fs[d]) == fold_es(ms, gs[d]) && fold_js(ns, fs[d]) == fold_js(ms, gs[d]),
    ensures unwind(ns, fs, sd, s, start, c) == unwind(ms, gs, sd, s, start, c)
    decreases fs.len()
{
    if fs.len() > 0 {
        let n = fs.len() - 1;
        assert(fs.last() == fs[n]); assert(gs.last() == gs[n]);
        let fp = fs.drop_last(); let gp = gs.drop_last();
        assert forall|d: int| 0 <= d < fp.len() implies (#[trigger] fp[d]).obj == gp[d].obj && fold_es(ns, fp[d]) == fold_es(ms, gp[d]) && fold_js(ns, fp[d]) == fold_js(ms, gp[d]) by { assert(fp[d] == fs[d]); }
        if fs.len() > sd { lemma_unwind_frame(ns, ms, fp, gp, sd, s, start, c); }
        else if fs.last().obj { if rem_obj(s, start, c) is Some { lemma_unwind_frame(ns, ms, fp, gp, sd - 1, (rem_obj(s, start, c)->0).1, false, c); } }
        else { if rem_arr(s, start, c) is Some { lemma_unwind_frame(ns, ms, fp, gp, sd - 1, (rem_arr(s, start, c)->0).1, false, c); } }
    }
}
/// Collections above the streaming depth do not look at the text.
proof fn lemma_unwind_len(ns: Nodes, fs: Seq<Fold>, sd: int, s: Seq<char>, start: bool, c: bool)
    ensures unwind(ns, fs, sd, s, start, c) is Some ==> (unwind(ns, fs, sd, s, start, c)->0).0.len() == fs.len()
    decreases fs.len()
{
    if fs.len() > 0 {
        if fs.len() > sd { lemma_unwind_len(ns, fs.drop_last(), sd, s, start, c); }
        else if fs.last().obj { if rem_obj(s, start, c) is Some { lemma_unwind_len(ns, fs.drop_last(), sd - 1, (rem_obj(s, start, c)->0).1, false, c); } }
        else { if rem_arr(s, start, c) is Some { lemma_unwind_len(ns, fs.drop_last(), sd - 1, (rem_arr(s, start, c)->0).1, false, c); } }
    }
}
/// Below the streaming depth, `start` is of no account.
proof fn lemma_unwind_start(ns: Nodes, fs: Seq<Fold>, s: Seq<char>, c: bool)
    ensures unwind(ns, fs, 0, s, true, c) == unwind(ns, fs, 0, s, false, c)
    decreases fs.len()
{
    if fs.len() > 0 { lemma_unwind_start(ns, fs.drop_last(), s, c); }
}

// ---- children that were handed out ----

spec fn sorted(ks: Seq<int>, n: int) -> bool { forall|a: int, b: int| 0 <= a < b < ks.len() ==> #[trigger] ks[a] < #[trigger] ks[b] }
spec fn gone(ns: Nodes, x: int) -> Nodes { ns.update(x, Node { gone: true, ..ns[x] }) }
proof fn lemma_left_same(ns: Nodes, ms: Nodes, ks: Seq<int>)
    requires forall|m: int| 0 <= m < ks.len() ==> ns[#[trigger] ks[m]] == ms[ks[m]]
    ensures left(ns, ks) == left(ms, ks), ents(ns, left(ns, ks)) == ents(ms, left(ms, ks)), vals(ns, left(ns, ks)) == vals(ms, left(ms, ks))
    decreases ks.len()
{
    if ks.len() > 0 {
        let t = ks.drop_first();
        assert forall|m: int| 0 <= m < t.len() implies ns[#[trigger] t[m]] == ms[t[m]] by { assert(t[m] == ks[m + 1]); }
        lemma_left_same(ns, ms, t);
        assert(ns[ks[0]] == ms[ks[0]]);
    }
    lemma_left_in(ns, ks);
    let l = left(ns, ks);
    assert forall|m: int| 0 <= m < l.len() implies ns[l[m]] == ms[l[m]] by { assert(l.contains(l[m])); assert(ks.contains(l[m])); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == l[m]; assert(ns[ks[j]] == ms[ks[j]]); }
    assert(ents(ns, l) =~= ents(ms, l)); assert(vals(ns, l) =~= vals(ms, l));
}
proof fn lemma_left_in(ns: Nodes, ks: Seq<int>)
    ensures
        forall|x: int| #[trigger] left(ns, ks).contains(x) <==> ks.contains(x) && !ns[x].gone,
        left(ns, ks).len() <= ks.len(),
    decreases ks.len()
{
    if ks.len() > 0 {
        let t = ks.drop_first(); let l = left(ns, t);
        lemma_left_in(ns, t);
        assert(left(ns, ks) == if ns[ks[0]].gone { l } else { seq![ks[0]] + l });
        let r = left(ns, ks);
        assert forall|x: int| #[trigger] r.contains(x) <==> ks.contains(x) && !ns[x].gone by {
            if ks.contains(x) && !ns[x].gone { let j = choose|j: int| 0 <= j < ks.len() && ks[j] == x; if j > 0 { assert(t[j - 1] == x); assert(l.contains(x)); } }
            if l.contains(x) { assert(t.contains(x)); let j = choose|j: int| 0 <= j < t.len() && t[j] == x; assert(ks[j + 1] == x); }
            if !ns[ks[0]].gone {
                assert(r[0] == ks[0]);
                if l.contains(x) { let j = choose|j: int| 0 <= j < l.len() && l[j] == x; assert(r[j + 1] == x); }
                if r.contains(x) { let j = choose|j: int| 0 <= j < r.len() && r[j] == x; if j > 0 { assert(l[j - 1] == x); } else { assert(ks[0] == x); } }
            }
        }
    }
}
/// One child is handed out.
proof fn lemma_left_take(ns: Nodes, ks: Seq<int>, x: int, m: int)
    requires sorted(ks, 0), 0 <= m < left(ns, ks).len(), left(ns, ks)[m] == x, 0 <= x < ns.len()
    ensures left(gone(ns, x), ks) == left(ns, ks).remove(m)
    decreases ks.len()
{
    let ms = gone(ns, x); let t = ks.drop_first();
    lemma_left_in(ns, t);
    assert(sorted(t, 0)) by { assert forall|a: int, b: int| 0 <= a < b < t.len() implies #[trigger] t[a] < #[trigger] t[b] by { assert(t[a] == ks[a + 1] && t[b] == ks[b + 1]); } }
    if ns[ks[0]].gone {
        assert(left(ns, t).contains(x));
        assert(t.contains(x));
        let j = choose|j: int| 0 <= j < t.len() && t[j] == x;
        assert(ks[j + 1] == x && ks[0] < ks[j + 1]);
        lemma_left_take(ns, t, x, m);
    } else if m == 0 {
        assert(ks[0] == x);
        assert forall|j: int| 0 <= j < t.len() implies ns[#[trigger] t[j]] == ms[t[j]] by { assert(t[j] == ks[j + 1] && ks[0] < ks[j + 1]); }
        lemma_left_same(ns, ms, t);
        assert(left(ns, ks).remove(0) =~= left(ns, t));
    } else {
        assert(left(ns, t)[m - 1] == x);
        assert(left(ns, t).contains(x));
        let j = choose|j: int| 0 <= j < t.len() && t[j] == x;
        assert(ks[j + 1] == x && ks[0] < ks[j + 1]);
        lemma_left_take(ns, t, x, m - 1);
        assert(left(ns, ks).remove(m) =~= seq![ks[0]] + left(ns, t).remove(m - 1));
    }
}
/// What was handed out makes no difference.
proof fn lemma_left_gone(ns: Nodes, ks: Seq<int>)
    requires forall|m: int| 0 <= m < ks.len() ==> (#[trigger] ns[ks[m]]).gone
    ensures left(ns, ks).len() == 0
    decreases ks.len()
{
    if ks.len() > 0 { let t = ks.drop_first(); assert(ns[ks[0]].gone); assert forall|m: int| 0 <= m < t.len() implies (#[trigger] ns[t[m]]).gone by { assert(t[m] == ks[m + 1]); } lemma_left_gone(ns, t); }
}
proof fn lemma_left_all(ns: Nodes, ks: Seq<int>)
    requires forall|m: int| 0 <= m < ks.len() ==> !(#[trigger] ns[ks[m]]).gone
    ensures left(ns, ks) == ks
    decreases ks.len()
{
    if ks.len() > 0 { let t = ks.drop_first(); assert(!ns[ks[0]].gone); assert forall|m: int| 0 <= m < t.len() implies !(#[trigger] ns[t[m]]).gone by { assert(t[m] == ks[m + 1]); } lemma_left_all(ns, t); assert(seq![ks[0]] + t =~= ks); }
}
proof fn lemma_left_add(ns: Nodes, a: Seq<int>, b: Seq<int>)
    ensures left(ns, a + b) == left(ns, a) + left(ns, b)
    decreases a.len()
{
    if a.len() > 0 { assert((a + b).drop_first() =~= a.drop_first() + b); lemma_left_add(ns, a.drop_first(), b); assert(left(ns, a + b) =~= left(ns, a) + left(ns, b)); }
    else { assert(a + b =~= b); assert(left(ns, a) + left(ns, b) =~= left(ns, b)); }
}
/// The first `p` were handed out, the next one was not.
proof fn lemma_left_first(ns: Nodes, ks: Seq<int>, p: int)
    requires 0 <= p <= ks.len(), forall|m: int| 0 <= m < p ==> (#[trigger] ns[ks[m]]).gone, p < ks.len() ==> !ns[ks[p]].gone
    ensures p < ks.len() ==> left(ns, ks).len() > 0 && left(ns, ks)[0] == ks[p], p == ks.len() ==> left(ns, ks).len() == 0
    decreases ks.len()
{
    if p > 0 { let t = ks.drop_first(); assert(ns[ks[0]].gone); assert forall|m: int| 0 <= m < p - 1 implies (#[trigger] ns[t[m]]).gone by { assert(t[m] == ks[m + 1]); } lemma_left_first(ns, t, p - 1); }
}
