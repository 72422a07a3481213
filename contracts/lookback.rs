//@include prelude.rs
use vstd::utf8::*;
use vstd::arithmetic::power::pow;
//@include utf8lib.rs
//@include reader.rs
//@include strreader_use.rs
//@include numlib.rs
//@include grammar.rs
//@include opkinds.rs
//@include floatdef.rs
//@include numdef.rs
//@include treerun.rs
//@include jsonparse.rs
//@include rawops.rs
//@include jsonstdsrc.rs proved=jsonstd
//@include keyedlib.rs
//@include textstate.rs
//@include lexfns.rs proved=lexer
//@include numof.rs
//@include textinv.rs
// What read_lookback_value is made of: adding an item, packing digits, and turning the links of the children of a collection.
spec fn pairs(ds: Seq<u8>) -> Seq<u8>
    decreases ds.len()
{
    if ds.len() < 2 { Seq::empty() } else { seq![ds[0] | (ds[1] << 4)] + pairs(ds.skip(2)) }
}
proof fn lemma_pairs_push(ds: Seq<u8>, a: u8, b: u8)
    requires ds.len() % 2 == 0
    ensures pairs(ds.push(a).push(b)) == pairs(ds).push(a | (b << 4)), pairs(ds.push(a)) == pairs(ds)
    decreases ds.len()
{
    let e = ds.push(a).push(b); let o = ds.push(a);
    if ds.len() >= 2 {
        assert(e.skip(2) =~= ds.skip(2).push(a).push(b)); assert(o.skip(2) =~= ds.skip(2).push(a));
        lemma_pairs_push(ds.skip(2), a, b);
        assert(pairs(e) =~= pairs(ds).push(a | (b << 4)));
    } else {
        assert(e.skip(2).len() == 0); assert(pairs(e.skip(2)).len() == 0);
        assert(pairs(e) =~= pairs(ds).push(a | (b << 4)));
    }
}
proof fn lemma_packed_pairs(ds: Seq<u8>)
    ensures packed(ds) == pairs(ds) + if ds.len() % 2 == 0 { seq![0xFFu8] } else { seq![ds.last() | 0xF0u8] }
    decreases ds.len()
{
    if ds.len() >= 2 { lemma_packed_pairs(ds.skip(2)); assert(packed(ds) =~= pairs(ds) + if ds.len() % 2 == 0 { seq![0xFFu8] } else { seq![ds.last() | 0xF0u8] }); }
    else { assert(packed(ds) =~= pairs(ds) + if ds.len() % 2 == 0 { seq![0xFFu8] } else { seq![ds.last() | 0xF0u8] }); }
}
//@use json/src/deserialize/text.rs
//@item struct LookbackNumBuilder
/// After the digits `ds` were put behind `base`.
spec fn kept_digits(now: Seq<u8>, buf: Option<u8>, base: Seq<u8>, ds: Seq<u8>) -> bool {
    now == base + pairs(ds) && (buf is Some <==> ds.len() % 2 == 1) && (buf is Some ==> buf->0 == ds.last())
}
impl LookbackNumBuilder<'_> {
//@fn NumBuilder for LookbackNumBuilder :: push_digit | ret=r name=put_digit
//@spec
    requires digit <= 9
    ensures
        r, *final(final(self).target) == *final(old(self).target),
        forall|base: Seq<u8>, ds: Seq<u8>| #[trigger] kept_digits(old(self).target@, old(self).buf, base, ds) ==> kept_digits(final(self).target@, final(self).buf, base, ds.push(digit)), // #C06 #C07
//@entry
    let ghost t0 = self.target@; let ghost b0 = self.buf;
//@before true
    proof {
        assert forall|base: Seq<u8>, ds: Seq<u8>| #[trigger] kept_digits(t0, b0, base, ds) implies kept_digits(self.target@, self.buf, base, ds.push(digit)) by {
            if b0 is Some {
                let e = ds.drop_last();
                assert(ds =~= e.push(ds.last()));
                lemma_pairs_push(e, ds.last(), digit);
                assert(self.target@ =~= base + pairs(ds.push(digit)));
            } else { lemma_pairs_push(ds, digit, digit); }
        }
    }
//@end
//@fn Drop for LookbackNumBuilder :: drop | name=finish
//@spec
    ensures
        *final(final(self).target) == *final(old(self).target),
        forall|base: Seq<u8>, ds: Seq<u8>| #[trigger] kept_digits(old(self).target@, old(self).buf, base, ds) ==> final(self).target@ == base + packed(ds), // #C06 #C07
//@entry
    let ghost t0 = self.target@; let ghost b0 = self.buf;
    proof { assert forall|base: Seq<u8>, ds: Seq<u8>| #[trigger] kept_digits(t0, b0, base, ds) implies base + packed(ds) == (t0 + if b0 is None { seq![0xFFu8] } else { seq![b0->0 | 0xF0u8] }) by {
        lemma_packed_pairs(ds); assert(base + packed(ds) =~= (t0 + if b0 is None { seq![0xFFu8] } else { seq![b0->0 | 0xF0u8] })); } }
//@end
}
impl<Position> Outline<Position> {
//@fn Outline :: push_item
//@spec
    ensures
        final(self).lookback_items@ == old(self).lookback_items@.push(LookbackItem { pos, data_index, next_sibling_index: *old(last_child_index), key_len_active, value: Some(value) }),
        *final(last_child_index) == old(self).lookback_items@.len(),
        final(self).lookback_data == old(self).lookback_data, final(self).stack_items == old(self).stack_items, final(self).lookback_keys == old(self).lookback_keys,
        final(self).nodes == old(self).nodes, final(self).folds == old(self).folds, final(self).born == old(self).born,
//@entry
    assert(self.lookback_items.len() <= usize::MAX);
//@end
}
/// The items `ks` are linked from the last one back to the first one.
spec fn back<P>(its: Items<P>, ks: Seq<int>) -> bool {
    &&& ks.len() > 0
    &&& forall|m: int| 0 <= m < ks.len() ==> 0 <= #[trigger] ks[m] < its.len() && its[ks[m]].next_sibling_index == (if m > 0 { ks[m - 1] } else { usize::MAX as int })
    &&& forall|a: int, b: int| 0 <= a < b < ks.len() ==> ks[a] != ks[b]
}
/// The same item, linked to `next` (the mark in the last bit of `key_len_active` is of no account).
spec fn linked<P>(a: LookbackItem<P>, b: LookbackItem<P>, next: int) -> bool { klen(b) == klen(a) && b == (LookbackItem { next_sibling_index: next as usize, key_len_active: b.key_len_active, ..a }) }
/// From the `j`th on, they are linked forward.
spec fn turned<P>(a: Items<P>, b: Items<P>, ks: Seq<int>, j: int) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < a.len() && !ks.skip(j).contains(i) ==> #[trigger] b[i] == a[i]
    &&& forall|m: int| j <= m < ks.len() ==> linked(a[ks[m]], b[#[trigger] ks[m]], link(ks, m + 1, usize::MAX as int))
}
/// The same, but the `j`th item is still being looked at.
spec fn turning<P>(a: Items<P>, b: Items<P>, ks: Seq<int>, j: int) -> bool {
    &&& a.len() == b.len() && 0 <= j < ks.len()
    &&& forall|i: int| 0 <= i < a.len() && !ks.skip(j).contains(i) ==> #[trigger] b[i] == a[i]
    &&& forall|m: int| j < m < ks.len() ==> linked(a[ks[m]], b[#[trigger] ks[m]], link(ks, m + 1, usize::MAX as int))
    &&& linked(a[ks[j]], b[ks[j]], link(ks, j + 1, usize::MAX as int))
}
proof fn lemma_unmarked<P>(a: Items<P>, b: Items<P>, ks: Seq<int>, j: int, d: Items<P>)
    requires back(a, ks), turning(a, b, ks, j), d == b.update(ks[j], LookbackItem { key_len_active: d[ks[j]].key_len_active, ..b[ks[j]] }), klen(d[ks[j]]) == klen(b[ks[j]])
    ensures turned(a, d, ks, j)
{
    assert forall|i: int| 0 <= i < a.len() && !ks.skip(j).contains(i) implies #[trigger] d[i] == a[i] by { assert(ks.skip(j)[0] == ks[j]); }
}
proof fn lemma_turn<P>(a: Items<P>, b: Items<P>, ks: Seq<int>, j: int, d: Items<P>)
    requires back(a, ks), 0 < j < ks.len(), turned(a, b, ks, j), d == b.update(ks[j - 1], LookbackItem { next_sibling_index: ks[j] as usize, ..b[ks[j - 1]] })
    ensures turning(a, d, ks, j - 1), b[ks[j - 1]] == a[ks[j - 1]]
{
    let t = ks.skip(j); let u = ks.skip(j - 1);
    assert(!t.contains(ks[j - 1])) by { if t.contains(ks[j - 1]) { let m = choose|m: int| 0 <= m < t.len() && t[m] == ks[j - 1]; assert(ks[j + m] == ks[j - 1]); } }
    assert(b[ks[j - 1]] == a[ks[j - 1]]);
    assert forall|i: int| 0 <= i < a.len() && !u.contains(i) implies #[trigger] d[i] == a[i] by {
        assert(u[0] == ks[j - 1]);
        if t.contains(i) { let m = choose|m: int| 0 <= m < t.len() && t[m] == i; assert(u[m + 1] == i); }
        assert(b[i] == a[i]);
    }
    assert forall|m: int| j - 1 < m < ks.len() implies linked(a[ks[m]], d[#[trigger] ks[m]], link(ks, m + 1, usize::MAX as int)) by { assert(ks[m] != ks[j - 1]); }
}
spec fn prev_of(ks: Seq<int>, j: int) -> int { if j > 0 { ks[j - 1] } else { usize::MAX as int } }
//@fn correct_items | ret=r loops=1
//@sigsubst last_child_index : usize => last_child_index: usize, Ghost(ks): Ghost<Seq<int>>
//@subst let mut item = & mut items [ item_index ] ; => let mut at = item_index;
//@subst item = & mut items [ n_item_index ] ; => at = n_item_index;
//@subst#* item . next_sibling_index => items[at].next_sibling_index
//@subst#* item . key_len_active => items[at].key_len_active
//@subst break item_index => return item_index
//@spec
    requires back(old(items)@, ks), last_child_index == ks.last()
    ensures turned(old(items)@, final(items)@, ks, 0), r == ks[0] // #C03 #C10
//@entry
    let ghost a = items@; let ghost mut j = ks.len() - 1;
    proof { assert(ks[j] == ks.last()); }
//@before loop {
    proof {
        assert(ks.skip(j) =~= seq![ks[j]]);
        assert forall|i: int| 0 <= i < a.len() && !ks.skip(j).contains(i) implies #[trigger] items@[i] == a[i] by { assert(ks.skip(j)[0] == ks[j]); }
        assert(turning(a, items@, ks, j));
    }
//@loop 1
    invariant back(a, ks), turning(a, items@, ks, j), item_index == ks[j], at == item_index, prev_index == prev_of(ks, j),
    decreases j
//@in 1
    let ghost b0 = items@;
//@before if prev_index < usize::MAX
    proof { let k = b0[ks[j]].key_len_active; assert((k & !1u32) >> 1 == k >> 1) by (bit_vector); lemma_unmarked(a, b0, ks, j, items@); }
    let ghost b1 = items@;
//@before at = n_item_index
    proof { j = j - 1; }
//@before item_index = n_item_index
    proof { lemma_turn(a, b1, ks, j + 1, items@); }
//@end
} // verus!
fn main() {}
