//@include prelude0.rs
//@include opkinds.rs
//@include numabs.rs
//@include treerun.rs
// ---- The order of entries (C03) and unknown entries (C10), for whatever code does with the operations --------------

//@include keyedlib.rs
/// The same value up to the order of the entries of its objects, at every level; no object has a key twice.
spec fn sim(a: J, b: J) -> bool
    decreases a, 1int
{
    match (a, b) { (J::Arr(x), J::Arr(y)) => sim_items(x, y), (J::Obj(x), J::Obj(y)) => sim_entries(x, y), (J::Arr(_), _) => false, (J::Obj(_), _) => false, _ => a == b }
}
spec fn sim_items(x: Seq<J>, y: Seq<J>) -> bool
    decreases x, 0int
{
    if x.len() == 0 { y.len() == 0 } else { y.len() > 0 && sim(x[0], y[0]) && sim_items(x.drop_first(), y.drop_first()) }
}
spec fn sim_entries(x: Es, y: Es) -> bool
    decreases x, 0int
{
    if x.len() == 0 { y.len() == 0 } else {
        match at_key(y, x[0].0) { Some(i) => sim(x[0].1, y[i].1) && at_key(x.drop_first(), x[0].0) is None && at_key(y.remove(i), x[0].0) is None && sim_entries(x.drop_first(), y.remove(i)), None => false }
    }
}
/// Objects with the same entries in another order answer every key alike, and stay alike.
proof fn lemma_sim_key(x: Es, y: Es, k: Seq<char>)
    requires sim_entries(x, y)
    ensures
        at_key(x, k) is Some <==> at_key(y, k) is Some,
        at_key(x, k) is Some ==> ({
            let i = at_key(x, k)->0; let j = at_key(y, k)->0;
            0 <= i < x.len() && 0 <= j < y.len() && sim(x[i].1, y[j].1) && sim_entries(x.remove(i), y.remove(j)) && at_key(x.remove(i), k) is None && at_key(y.remove(j), k) is None
        }),
    decreases x.len()
{
    lemma_at_key(x, k); lemma_at_key(y, k);
    if x.len() > 0 {
        let k0 = x[0].0; let xt = x.drop_first();
        lemma_at_key(y, k0);
        let i0 = at_key(y, k0)->0; let yt = y.remove(i0);
        if k0 == k {
            assert(x.remove(0) =~= xt);
        } else {
            lemma_sim_key(xt, yt, k);
            lemma_remove_other(y, i0, k);
            lemma_at_key(yt, k); lemma_at_key(xt, k);
            if at_key(xt, k) is Some {
                let i = at_key(xt, k)->0; let j = at_key(y, k)->0; let jt = at_key(yt, k)->0;
                let xr = x.remove(i + 1); let yr = y.remove(j);
                assert(xr[0] == x[0]);
                assert(xr.drop_first() =~= xt.remove(i));
                assert(xt[i] == x[i + 1]);
                assert(j != i0) by { assert(y[j].0 == k); assert(y[i0].0 == k0); }
                assert(yt[jt] == y[j]);
                lemma_remove_other(y, j, k0);
                let i1 = at_key(yr, k0)->0;
                lemma_at_key(yr, k0);
                assert(yr[i1] == y[i0]);
                assert(yr.remove(i1) =~= yt.remove(jt));
                lemma_at_key(xt, k0); lemma_at_key(yt, k0);
                assert(xt.remove(i) =~= xr.drop_first());
                lemma_remove_other(xt, i, k0);
                lemma_remove_other(yt, jt, k0);
                assert(at_key(xr.drop_first(), k0) is None);
                assert(at_key(yr.remove(i1), k0) is None);
                assert(sim_entries(xr, yr));
                assert(at_key(x, k) == Some(i + 1));
                lemma_at_key(xr, k); lemma_at_key(xr.drop_first(), k);
                if at_key(xr, k) is Some { let m = at_key(xr, k)->0; assert(m > 0); assert(xr.drop_first()[m - 1] == xr[m]); }
                lemma_remove_other(yr, i1, k);
                assert(at_key(yr, k) is None);
            }
        }
    }
}
proof fn lemma_sim_self(j: J)
    requires keyed(j)
    ensures sim(j, j)
    decreases j, 1int
{
    match j { J::Arr(js) => lemma_sim_self_items(js), J::Obj(es) => lemma_sim_self_entries(es), _ => {} }
}
proof fn lemma_sim_self_items(js: Seq<J>)
    requires keyed_items(js)
    ensures sim_items(js, js)
    decreases js, 0int
{
    if js.len() > 0 { lemma_sim_self(js[0]); lemma_sim_self_items(js.drop_first()); }
}
proof fn lemma_sim_self_entries(es: Es)
    requires keyed_entries(es)
    ensures sim_entries(es, es)
    decreases es, 0int
{
    if es.len() > 0 { lemma_sim_self(es[0].1); lemma_sim_self_entries(es.drop_first()); assert(es.remove(0) =~= es.drop_first()); }
}
/// Any order of the same entries.
proof fn theorem_permutation(x: Es, y: Es)
    requires keyed_entries(x), keyed_entries(y), x.to_multiset() == y.to_multiset()
    ensures sim_entries(x, y)
    decreases x.len()
{
    x.to_multiset_ensures(); y.to_multiset_ensures();
    if x.len() > 0 {
        let e = x[0];
        assert(x.contains(e));
        assert(x.to_multiset().count(e) > 0);
        assert(y.contains(e));
        let i = choose|i: int| 0 <= i < y.len() && y[i] == e;
        lemma_keyed_remove(y, i);
        assert(x.drop_first() =~= x.remove(0));
        assert(x.drop_first().to_multiset() =~= x.to_multiset().remove(e));
        assert(y.remove(i).to_multiset() =~= y.to_multiset().remove(e));
        theorem_permutation(x.drop_first(), y.remove(i));
        lemma_sim_self(e.1);
    }
}
spec fn simf(a: DF, b: DF) -> bool {
    match (a, b) { (DF::Val(x), DF::Val(y)) => sim(x, y), (DF::Obj(x), DF::Obj(y)) => sim_entries(x, y), (DF::Arr(x), DF::Arr(y)) => sim_items(x, y), (DF::Val(_), _) => false, (DF::Obj(_), _) => false, (DF::Arr(_), _) => false, _ => a == b }
}
spec fn sims(a: Sem, b: Sem) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> simf(#[trigger] a[i], b[i]) }
spec fn sim_out(x: Option<(Ret, Sem)>, y: Option<(Ret, Sem)>) -> bool {
    match (x, y) { (None, None) => true, (Some((r, s)), Some((q, t))) => r == q && sims(s, t), _ => false }
}
proof fn lemma_push(a: Sem, b: Sem, x: DF, y: DF)
    requires sims(a, b), simf(x, y)
    ensures sims(a.push(x), b.push(y))
{
    assert forall|i: int| 0 <= i < a.len() + 1 implies simf(#[trigger] a.push(x)[i], b.push(y)[i]) by { if i < a.len() { assert(a.push(x)[i] == a[i]); } }
}
proof fn lemma_sim_val(p: Sem, q: Sem, x: J, y: J, op: Op)
    requires sims(p, q), sim(x, y)
    ensures sim_out(run_val(p, x, op), run_val(q, y, op))
{
    match (x, y) {
        (J::Arr(xs), J::Arr(ys)) => lemma_push(p, q, DF::Arr(xs), DF::Arr(ys)),
        (J::Obj(xs), J::Obj(ys)) => lemma_push(p, q, DF::Obj(xs), DF::Obj(ys)),
        (J::Str(cs), _) => lemma_push(p, q, DF::Str(cs), DF::Str(cs)),
        _ => {}
    }
    lemma_push(p, q, DF::Val(x), DF::Val(y));
}
/// Whatever is done, the answers are the same, unless it asks for the entries in their order.
proof fn theorem_order(s: Sem, t: Sem, op: Op)
    requires sims(s, t), !(op is NextEntry)
    ensures sim_out(run(s, op), run(t, op))
{
    if s.len() > 0 {
        let p = s.drop_last(); let q = t.drop_last();
        assert(simf(s.last(), t.last()));
        assert forall|i: int| 0 <= i < p.len() implies simf(#[trigger] p[i], q[i]) by { assert(simf(s[i], t[i])); }
        match (s.last(), t.last()) {
            (DF::Val(x), DF::Val(y)) => lemma_sim_val(p, q, x, y, op),
            (DF::Arr(xs), DF::Arr(ys)) => {
                lemma_push(p, q, DF::Arr(xs), DF::Arr(ys));
                lemma_push(p.push(DF::Arr(xs)), q.push(DF::Arr(ys)), DF::Missing, DF::Missing);
                if xs.len() > 0 {
                    lemma_push(p, q, DF::Arr(xs.drop_first()), DF::Arr(ys.drop_first()));
                    lemma_push(p.push(DF::Arr(xs.drop_first())), q.push(DF::Arr(ys.drop_first())), DF::Val(xs[0]), DF::Val(ys[0]));
                }
            }
            (DF::Obj(xs), DF::Obj(ys)) => {
                lemma_push(p, q, DF::Obj(xs), DF::Obj(ys));
                lemma_push(p.push(DF::Obj(xs)), q.push(DF::Obj(ys)), DF::Missing, DF::Missing);
                match op {
                    Op::TryPushEntry(k) | Op::PushEntry(k) | Op::PushField(k) => {
                        lemma_sim_key(xs, ys, k);
                        if at_key(xs, k) is Some {
                            let i = at_key(xs, k)->0; let j = at_key(ys, k)->0;
                            lemma_push(p, q, DF::Obj(xs.remove(i)), DF::Obj(ys.remove(j)));
                            lemma_push(p.push(DF::Obj(xs.remove(i))), q.push(DF::Obj(ys.remove(j))), DF::Val(xs[i].1), DF::Val(ys[j].1));
                        }
                    }
                    _ => {}
                }
            }
            (DF::Str(cs), _) => { if cs.len() > 0 { lemma_push(p, q, DF::Str(cs.drop_first()), DF::Str(cs.drop_first())); } }
            _ => {}
        }
    }
}
/// A sequence of operations and their answers; None once an operation has failed.
spec fn answers(s: Sem, ops: Seq<Op>) -> Option<(Seq<Ret>, Sem)>
    decreases ops.len()
{
    if ops.len() == 0 { Some((Seq::empty(), s)) } else {
        match answers(s, ops.drop_last()) { None => None, Some((rs, t)) => match run(t, ops.last()) { None => None, Some((r, u)) => Some((rs.push(r), u)) } }
    }
}
/// Any code sees the same answers (and fails at the same point), whatever the order of the entries.
proof fn theorem_order_any_code(s: Sem, t: Sem, ops: Seq<Op>)
    requires sims(s, t), forall|i: int| 0 <= i < ops.len() ==> !(#[trigger] ops[i] is NextEntry)
    ensures match (answers(s, ops), answers(t, ops)) { (None, None) => true, (Some((r, x)), Some((q, y))) => r == q && sims(x, y), _ => false }
    decreases ops.len()
{
    if ops.len() > 0 {
        assert forall|i: int| 0 <= i < ops.len() - 1 implies !(#[trigger] ops.drop_last()[i] is NextEntry) by { assert(ops.drop_last()[i] == ops[i]); }
        theorem_order_any_code(s, t, ops.drop_last());
        if answers(s, ops.drop_last()) is Some {
            assert(!(ops[ops.len() - 1] is NextEntry));
            theorem_order((answers(s, ops.drop_last())->0).1, (answers(t, ops.drop_last())->0).1, ops.last());
        }
    }
}
// Unknown entries. `d` is the place of the struct on the stack, `names` the names it has.

spec fn known(es: Es, names: Set<Seq<char>>) -> Es
    decreases es.len()
{
    if es.len() == 0 { es } else if names.contains(es[0].0) { seq![es[0]] + known(es.drop_first(), names) } else { known(es.drop_first(), names) }
}
/// Two objects with the same entries, but for entries with names that the struct does not have.
spec fn extra(x: Es, y: Es, names: Set<Seq<char>>) -> bool { known(x, names) == known(y, names) }
spec fn but(s: Sem, t: Sem, d: int, names: Set<Seq<char>>) -> bool {
    &&& s.len() == t.len() && 0 <= d
    &&& forall|i: int| 0 <= i < s.len() && i != d ==> #[trigger] s[i] == t[i]
    &&& d < s.len() ==> s[d] is Obj && t[d] is Obj && extra(s[d]->Obj_0, t[d]->Obj_0, names)
}
spec fn but_out(x: Option<(Ret, Sem)>, y: Option<(Ret, Sem)>, d: int, names: Set<Seq<char>>) -> bool {
    match (x, y) { (None, None) => true, (Some((r, s)), Some((q, t))) => r == q && but(s, t, d, names), _ => false }
}
proof fn lemma_known(es: Es, names: Set<Seq<char>>, k: Seq<char>)
    requires names.contains(k)
    ensures match at_key(es, k) {
        Some(i) => 0 <= i < es.len() && ({ let n = known(es, names); let j = at_key(n, k); j is Some && 0 <= j->0 < n.len() && n[j->0] == es[i] && known(es.remove(i), names) == n.remove(j->0) }),
        None => at_key(known(es, names), k) is None }
    decreases es.len()
{
    if es.len() > 0 {
        let t = es.drop_first(); let n = known(es, names); let nt = known(t, names);
        if es[0].0 == k { assert(es.remove(0) =~= t); assert(n.remove(0) =~= nt); assert(n[0] == es[0]); }
        else {
            lemma_known(t, names, k);
            if names.contains(es[0].0) { assert(n.drop_first() =~= nt); assert(n[0] == es[0]); }
            if at_key(t, k) is Some {
                let i = at_key(t, k)->0; let j = at_key(nt, k)->0;
                let r = es.remove(i + 1);
                assert(r.drop_first() =~= t.remove(i)); assert(r[0] == es[0]);
                assert(t[i] == es[i + 1]);
                if names.contains(es[0].0) { assert(n.remove(j + 1) =~= seq![es[0]] + nt.remove(j)); assert(n[j + 1] == nt[j]); }
            }
        }
    }
}
/// What a struct is asked: its own fields.
spec fn asks(op: Op, names: Set<Seq<char>>) -> bool {
    match op { Op::PushField(k) => names.contains(k), Op::TryPushEntry(k) => names.contains(k), Op::PushEntry(k) => names.contains(k), Op::NextEntry | Op::CloseObject => false, _ => true }
}
/// Code that asks a struct for its own fields only cannot see other entries.
proof fn theorem_extra(s: Sem, t: Sem, op: Op, d: int, names: Set<Seq<char>>)
    requires but(s, t, d, names), d + 1 == s.len() ==> asks(op, names)
    ensures d < s.len() ==> but_out(run(s, op), run(t, op), d, names)
{
    if d < s.len() {
        let p = s.drop_last(); let q = t.drop_last();
        if d + 1 < s.len() {
            assert(s.last() == t.last());
            match (run(s, op), run(t, op)) {
                (Some((_, u)), Some((_, v))) => {
                    assert(u.len() == v.len() && u.len() >= p.len() && u.take(p.len() as int) =~= p && v.take(q.len() as int) =~= q);
                    assert(u.skip(p.len() as int) =~= v.skip(q.len() as int));
                    assert forall|i: int| 0 <= i < u.len() && i != d implies #[trigger] u[i] == v[i] by {
                        if i < p.len() { assert(u[i] == u.take(p.len() as int)[i]); assert(v[i] == v.take(q.len() as int)[i]); assert(s[i] == t[i]); }
                        else { assert(u[i] == u.skip(p.len() as int)[i - p.len()]); assert(v[i] == v.skip(q.len() as int)[i - p.len()]); }
                    }
                    assert(u[d] == u.take(p.len() as int)[d]); assert(v[d] == v.take(q.len() as int)[d]);
                }
                _ => {}
            }
        } else {
            let xs = s[d]->Obj_0; let ys = t[d]->Obj_0;
            match op {
                Op::TryPushEntry(k) | Op::PushEntry(k) | Op::PushField(k) => { lemma_known(xs, names, k); lemma_known(ys, names, k); }
                _ => {}
            }
        }
    }
}
/// A newly inserted entry makes no difference to what is known.
proof fn theorem_insert(es: Es, i: int, e: (Seq<char>, J), names: Set<Seq<char>>)
    requires 0 <= i <= es.len(), !names.contains(e.0)
    ensures extra(es, es.insert(i, e), names)
    decreases es.len()
{
    let y = es.insert(i, e);
    if i == 0 { assert(y.drop_first() =~= es); }
    else { theorem_insert(es.drop_first(), i - 1, e, names); assert(y.drop_first() =~= es.drop_first().insert(i - 1, e)); assert(y[0] == es[0]); }
}
} // verus!
fn main() {}
