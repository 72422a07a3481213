// Objects without duplicate keys.
type Es = Seq<(Seq<char>, J)>;
proof fn lemma_at_key(es: Es, k: Seq<char>)
    ensures match at_key(es, k) {
        Some(i) => 0 <= i < es.len() && es[i].0 == k && forall|j: int| 0 <= j < i ==> (#[trigger] es[j]).0 != k,
        None => forall|j: int| 0 <= j < es.len() ==> (#[trigger] es[j]).0 != k }
    decreases es.len()
{
    if es.len() > 0 && es[0].0 != k {
        lemma_at_key(es.drop_first(), k);
        assert forall|j: int| 1 <= j < es.len() && (at_key(es, k) is Some ==> j < at_key(es, k)->0) implies (#[trigger] es[j]).0 != k by { assert(es.drop_first()[j - 1] == es[j]); }
    }
}
/// The first entry with this key.
proof fn lemma_is_first(es: Es, k: Seq<char>, i: int)
    requires 0 <= i < es.len(), es[i].0 == k, forall|j: int| 0 <= j < i ==> (#[trigger] es[j]).0 != k
    ensures at_key(es, k) == Some(i)
{
    lemma_at_key(es, k);
}
/// Removing an entry with another key.
proof fn lemma_remove_other(es: Es, i: int, k: Seq<char>)
    requires 0 <= i < es.len(), es[i].0 != k
    ensures
        at_key(es.remove(i), k) is None <==> at_key(es, k) is None,
        at_key(es, k) is Some ==> ({ let j = at_key(es, k)->0; at_key(es.remove(i), k) == Some(if j < i { j } else { j - 1 }) }),
{
    lemma_at_key(es, k);
    let r = es.remove(i);
    lemma_at_key(r, k);
    assert(forall|m: int| 0 <= m < r.len() ==> #[trigger] r[m] == es[if m < i { m } else { m + 1 }]);
    if at_key(es, k) is Some {
        let j = at_key(es, k)->0;
        let m = if j < i { j } else { j - 1 };
        assert(r[m] == es[j]);
        lemma_is_first(r, k, m);
    } else if at_key(r, k) is Some {
        let m = at_key(r, k)->0;
        assert(es[if m < i { m } else { m + 1 }].0 == k);
    }
}
/// No object in the value has a key twice.
spec fn keyed(j: J) -> bool
    decreases j, 1int
{
    match j { J::Arr(js) => keyed_items(js), J::Obj(es) => keyed_entries(es), _ => true }
}
spec fn keyed_items(js: Seq<J>) -> bool
    decreases js, 0int
{
    js.len() == 0 || keyed(js[0]) && keyed_items(js.drop_first())
}
spec fn keyed_entries(es: Es) -> bool
    decreases es, 0int
{
    es.len() == 0 || keyed(es[0].1) && at_key(es.drop_first(), es[0].0) is None && keyed_entries(es.drop_first())
}
proof fn lemma_keyed_remove(es: Es, i: int)
    requires keyed_entries(es), 0 <= i < es.len()
    ensures keyed_entries(es.remove(i)), at_key(es.remove(i), es[i].0) is None, at_key(es, es[i].0) == Some(i), keyed(es[i].1)
    decreases es.len()
{
    let t = es.drop_first(); let r = es.remove(i);
    lemma_at_key(t, es[0].0);
    if i == 0 { assert(r =~= t); }
    else {
        lemma_keyed_remove(t, i - 1);
        assert(t[i - 1] == es[i]);
        assert(r.drop_first() =~= t.remove(i - 1)); assert(r[0] == es[0]);
        lemma_remove_other(t, i - 1, es[0].0);
        lemma_at_key(r, es[i].0); lemma_at_key(r.drop_first(), es[i].0);
        if at_key(r, es[i].0) is Some { let m = at_key(r, es[i].0)->0; assert(r.drop_first()[m - 1] == r[m]); }
    }
}
