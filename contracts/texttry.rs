//@use json/src/deserialize/text.rs
/// The data structures are as they have to be, with a collection on top.
spec fn sane<P>(o: Outline<P>) -> bool {
    let data = o.lookback_data@;
    items_ok(o.nodes@, o.lookback_items@, data, data.len() as int, -1) && folds_ok(o.nodes@, o.lookback_items@, o.folds@, o.stack_items@, o.born@) && keys_ok(o.lookback_keys@, o.nodes@, o.folds@)
}
spec fn look_pre<P>(o: Outline<P>, data_index: int, key_len_active: u32, rest: nat) -> bool {
    let data = o.lookback_data@;
    &&& items_ok(o.nodes@, o.lookback_items@, data, data_index, -1)
    &&& 0 <= data_index <= data.len() && valid_utf8(data.subrange(data_index, data.len() as int)) && key_len_active >> 1 == data.len() - data_index && key_len_active & 1 == 1
    &&& o.stack_items@.len() >= 1 && o.stack_items@.len() + rest < BIG && data.len() + 4 * rest < BIG
}
/// A value was kept: `i` is its item.
spec fn looked<P>(a: Outline<P>, b: Outline<P>, data_index: int, tree: J) -> bool {
    let i = a.lookback_items@.len() as int; let len = b.lookback_items@.len() as int; let data = b.lookback_data@;
    &&& b.stack_items == a.stack_items && b.lookback_keys == a.lookback_keys && b.folds == a.folds && b.born == a.born
    &&& grown(a.nodes@, b.nodes@) && grown(a.lookback_items@, b.lookback_items@) && grown(a.lookback_data@, data)
    &&& i < len <= usize::MAX && items_ok(b.nodes@, b.lookback_items@, data, data.len() as int, -1)
    &&& b.nodes@[i].key == decode_utf8(a.lookback_data@.subrange(data_index, a.lookback_data@.len() as int)) && b.nodes@[i].tree == tree && b.nodes@[i].parent == -a.stack_items@.len() && !b.nodes@[i].gone
    &&& b.lookback_items@[i].next_sibling_index == len
}
spec fn data_fits<P>(a: Outline<P>, s: Seq<char>, b: Outline<P>, t: Seq<char>) -> bool { b.lookback_data@.len() + 4 * t.len() <= a.lookback_data@.len() + 4 * s.len() }
trait LookbackExt: TextReader {
//@fn TextReaderExt :: read_lookback_value | ret=r trusted
//@spec
    requires old(self).ok(), look_pre(*old(outline), data_index as int, key_len_active, old(self).rest().len())
    ensures match r {
        Ok(i) => {
            let s = old(self).rest(); let t = final(self).rest();
            &&& final(self).ok() && value(s, config.allow_comments) is Some && (value(s, config.allow_comments)->0).1 == t
            &&& i == old(outline).lookback_items@.len() && looked(*old(outline), *final(outline), data_index as int, (value(s, config.allow_comments)->0).0)
            &&& data_fits(*old(outline), s, *final(outline), t)
            &&& total(final(outline).nodes@) + 4 * t.len() <= total(old(outline).nodes@) + 4 * s.len() + 2 + final(outline).nodes@[i as int].key.len()
        }
        Err(_) => final(self).ok() && value(old(self).rest(), config.allow_comments) is None,
    }
//@end
}
impl<T: TextReader> LookbackExt for T {}
#[verifier::external_body]
fn same_bytes(a: &str, b: &[u8]) -> (r: bool) ensures r == (encode_utf8(a@) == b@) { a.as_bytes() == b }
#[verifier::external_body]
fn str_bytes(a: &str) -> (r: &[u8]) ensures r@ == encode_utf8(a@) { a.as_bytes() }

type Left = Option<(Es, Seq<char>)>;
/// What was left is what has been kept and what is left now.
spec fn ahead(kept0: Es, left0: Left, kept1: Es, left1: Left) -> bool {
    match (left0, left1) { (None, None) => true, (Some((x, t)), Some((y, u))) => t == u && kept0 + x =~= kept1 + y, _ => false }
}
/// Entries with other keys were kept.
spec fn kept_on<P>(ns: Nodes, fs: Seq<Fold>, key: Seq<char>, o: Outline<P>) -> bool {
    let gs = o.folds@; let n = fs.len() as int;
    &&& sane(o) && n > 0 && gs.len() == n && gs[n - 1].obj && gs[n - 1].born == fs[n - 1].born && gs[n - 1].hole == fs[n - 1].hole
    &&& forall|k: int| 0 <= k < n - 1 ==> (#[trigger] gs[k]).obj == fs[k].obj && fold_es(o.nodes@, gs[k]) == fold_es(ns, fs[k]) && fold_js(o.nodes@, gs[k]) == fold_js(ns, fs[k])
    &&& at_key(fold_es(o.nodes@, gs[n - 1]), key) is None
}
spec fn goes_on<P>(ns: Nodes, fs: Seq<Fold>, left0: Left, key: Seq<char>, o: Outline<P>, left1: Left) -> bool {
    kept_on(ns, fs, key, o) && ahead(fold_es(ns, fs.last()), left0, fold_es(o.nodes@, o.folds@.last()), left1)
}
spec fn and_then(e: (Seq<char>, J), l: Left) -> Left { match l { None => None, Some((es, t)) => Some((seq![e] + es, t)) } }
proof fn lemma_ahead(e0: Es, l0: Left, e1: Es, e: (Seq<char>, J), l: Left)
    requires ahead(e0, l0, e1, and_then(e, l))
    ensures ahead(e0, l0, e1.push(e), l)
{
    if l is Some { assert(e1.push(e) + (l->0).0 =~= e1 + (seq![e] + (l->0).0)); }
}
proof fn lemma_not_at_key(es: Es, k: Seq<char>)
    ensures at_key(es, k) is None <==> forall|m: int| 0 <= m < es.len() ==> (#[trigger] es[m]).0 != k
    decreases es.len()
{
    if es.len() > 0 {
        let t = es.drop_first();
        lemma_not_at_key(t, k);
        if es[0].0 != k {
            if at_key(t, k) is None { assert forall|m: int| 0 <= m < es.len() implies (#[trigger] es[m]).0 != k by { if m > 0 { assert(t[m - 1] == es[m]); } } }
            else { let m = choose|m: int| 0 <= m < t.len() && (#[trigger] t[m]).0 == k; assert(es[m + 1].0 == k); }
        }
    }
}
proof fn lemma_at_key_push(es: Es, e: (Seq<char>, J), k: Seq<char>)
    requires at_key(es, k) is None, e.0 != k
    ensures at_key(es.push(e), k) is None
{
    lemma_not_at_key(es, k); lemma_not_at_key(es.push(e), k);
    assert forall|m: int| 0 <= m < es.push(e).len() implies (#[trigger] es.push(e)[m]).0 != k by { if m < es.len() { assert(es.push(e)[m] == es[m]); } }
}
/// The table has no such key: neither have the items that are left.
proof fn lemma_not_in_table(ns: Nodes, fs: Seq<Fold>, keys: Keys, key: Seq<char>)
    requires
        keys_ok(keys, ns, fs), fs.len() > 0, fs.last().obj,
        none_left(ns, fs.last()) || forall|i: int| #[trigger] keys.dom().contains((fs.len() as int, i)) && keys[(fs.len() as int, i)] == hash_of(fs.len() as int, encode_utf8(key)) ==> ns[i].key != key
    ensures at_key(fold_es(ns, fs.last()), key) is None
{
    let f = fs.last(); let l = left(ns, f.all); let n = fs.len() as int;
    lemma_left_in(ns, f.all);
    lemma_not_at_key(fold_es(ns, f), key);
    assert forall|m: int| 0 <= m < fold_es(ns, f).len() implies (#[trigger] fold_es(ns, f)[m]).0 != key by {
        assert(l.contains(l[m]));
        assert(f.all.contains(l[m]));
        let j = choose|j: int| 0 <= j < f.all.len() && f.all[j] == l[m];
        assert(!ns[f.all[j]].gone);
        assert(in_table(ns, fs, n, l[m]));
        assert(keys.dom().contains((n, l[m])));
    }
}
spec fn same_but_vecs<P>(a: Outline<P>, b: Outline<P>) -> bool { b.stack_items == a.stack_items && b.lookback_data == a.lookback_data && b.nodes == a.nodes && b.folds == a.folds && b.born == a.born }
proof fn lemma_same_key(a: Seq<char>, b: Seq<char>)
    ensures (encode_utf8(a) == encode_utf8(b)) == (a == b)
{
    encode_utf8_decode_utf8(a); encode_utf8_decode_utf8(b);
}
spec fn same_but_data<P>(a: Outline<P>, b: Outline<P>) -> bool { b.stack_items == a.stack_items && b.lookback_items == a.lookback_items && b.lookback_keys == a.lookback_keys && b.nodes == a.nodes && b.folds == a.folds && b.born == a.born }
proof fn lemma_table<P>(ns: Nodes, its: Items<P>, data: Seq<u8>, fs: Seq<Fold>, stk: Seq<StackItem<P>>, keys: Keys, nb: int)
    requires items_ok(ns, its, data, data.len() as int, -1), folds_ok(ns, its, fs, stk, nb), keys_ok(keys, ns, fs)
    ensures table_ok(keys, its, data)
{
    assert forall|d: int, i: int| #![trigger keys.dom().contains((d, i))] keys.dom().contains((d, i)) implies 0 <= i < its.len() && kend(its[i]) <= data.len() && keys[(d, i)] == hash_of(d, data.subrange(its[i].data_index as int, kend(its[i]))) by {
        let g = fs[d - 1];
        assert(in_table(ns, fs, d, i));
        assert(fold_ok(ns, its, fs, stk, d - 1, nb));
        let m = choose|m: int| 0 <= m < g.all.len() && g.all[m] == i;
        assert(child_ok(ns, its, g, m, term(fs, its.len() as int, d - 1, nb)));
        assert(item_ok(ns, its, data, data.len() as int, i, -1));
    }
}
/// The key of an item in the table.
proof fn lemma_key_at<P>(o: Outline<P>, d: int, i: int, key: Seq<char>)
    requires sane(o), o.lookback_keys@.dom().contains((d, i))
    ensures ({
        let its = o.lookback_items@; let data = o.lookback_data@;
        &&& 0 <= i < its.len() && kend(its[i]) <= data.len() && data.subrange(its[i].data_index as int, kend(its[i])) == encode_utf8(o.nodes@[i].key)
        &&& (encode_utf8(key) == encode_utf8(o.nodes@[i].key)) == (key == o.nodes@[i].key)
    })
{
    lemma_table(o.nodes@, o.lookback_items@, o.lookback_data@, o.folds@, o.stack_items@, o.lookback_keys@, o.born@);
    assert(item_ok(o.nodes@, o.lookback_items@, o.lookback_data@, o.lookback_data@.len() as int, i, -1));
    lemma_same_key(key, o.nodes@[i].key);
}
proof fn lemma_enc_len(cs: Seq<char>)
    ensures encode_utf8(cs).len() <= 4 * cs.len()
    decreases cs.len()
{
    if cs.len() == 0 { lemma_empty(); assert(cs =~= Seq::empty()); }
    else {
        let t = cs.drop_last();
        lemma_enc_len(t); lemma_encode_push(t, cs.last()); lemma_enc(cs.last());
        assert(t.push(cs.last()) =~= cs);
    }
}
proof fn lemma_key_len(len: u32)
    ensures len <= u32::MAX >> 1 ==> ((len << 1) | 1) >> 1 == len && ((len << 1) | 1) & 1 == 1
{
    assert(len <= 0xFFFF_FFFFu32 >> 1 ==> ((len << 1) | 1) >> 1 == len && ((len << 1) | 1) & 1 == 1) by (bit_vector);
}
/// The next key is behind the data of the items.
proof fn lemma_more_data<P>(ns: Nodes, its: Items<P>, d0: Seq<u8>, d1: Seq<u8>, k: Seq<u8>)
    requires items_ok(ns, its, d0, d0.len() as int, -1), d1 == d0 + k
    ensures items_ok(ns, its, d1, d0.len() as int, -1), d1.subrange(d0.len() as int, d1.len() as int) == k
{
    assert(d1.subrange(d0.len() as int, d1.len() as int) =~= k);
    assert forall|i: int| 0 <= i < its.len() implies #[trigger] item_ok(ns, its, d1, d0.len() as int, i, -1) by {
        assert(item_ok(ns, its, d0, d0.len() as int, i, -1));
        let e = dend(its, d0.len() as int, i);
        assert(d1.subrange(its[i].data_index as int, kend(its[i])) =~= d0.subrange(its[i].data_index as int, kend(its[i])));
        assert(d1.subrange(kend(its[i]), e) =~= d0.subrange(kend(its[i]), e));
    }
}
spec fn step<R: TextReader>(a: TextDeserializer<R>, key: Seq<char>, o: Outline<R::Position>, s: Seq<char>, left1: Left) -> bool {
    &&& goes_on(a.ns(), a.fs(), a.left_here(), key, o, left1)
    &&& o.born@ == a.nb() && o.stack_items@.len() == a.fs().len() && o.lookback_items@.len() <= usize::MAX
    &&& total(o.nodes@) + 4 * s.len() <= total(a.ns()) + 4 * a.rest().len() && data_fits(a.outline, a.rest(), o, s)
}
proof fn lemma_total_gone(ns: Nodes, i: int)
    requires 0 <= i < ns.len()
    ensures total(gone(ns, i)) + weight(ns[i]) == total(ns)
    decreases ns.len()
{
    if i == ns.len() - 1 { assert(gone(ns, i).drop_last() =~= ns.drop_last()); }
    else { lemma_total_gone(ns.drop_last(), i); assert(gone(ns, i).drop_last() =~= gone(ns.drop_last(), i)); assert(gone(ns, i).last() == ns.last()); assert(ns.drop_last()[i] == ns[i]); }
}
spec fn entered(s: Seq<char>, start: bool, c: bool) -> Option<(bool, Seq<char>)> { if start { first_entry(s, c) } else { next_entry(s, c) } }
impl<Reader: TextReader> TextDeserializer<Reader> {
    spec fn try_pre(&self) -> bool {
        self.reader.ok() && self.state is Collection && sane(self.outline) && self.fs().len() > 0 && self.fs().last().obj && self.its().len() <= usize::MAX
            && sd_ok(self.more().1, self.nb(), self.fs().len() as int) && self.fs().len() + 4 * self.rest().len() + total(self.ns()) < BIG && self.data().len() + 4 * self.rest().len() < BIG
    }
    spec fn left_here(&self) -> Left { rem_obj(self.rest(), self.more().0, self.c()) }
    spec fn streams(&self) -> bool { self.more().1 == depth_of(self.fs().len() as int) }
    /// `b`: after the key was asked for.
    spec fn tried(&self, key: Seq<char>, b: Self, x: bool) -> bool {
        let e1 = fold_es(b.ns(), b.fs().last());
        &&& b.reader.ok() && b.nb() == self.nb()
        &&& total(b.ns()) + 4 * b.rest().len() <= total(self.ns()) + 4 * self.rest().len()
        &&& data_fits(self.outline, self.rest(), b.outline, b.rest())
        &&& match b.state {
            DeserializerState::LookbackValue { index, streaming_depth } => {
                let i = index as int;
                &&& x && streaming_depth == self.more().1 && b.rest() == self.rest() && b.data() == self.data()
                &&& 0 <= i < self.ns().len() && self.ns()[i].key == key && self.fs().last().all.contains(i) && !self.ns()[i].gone
                &&& b.ns() == gone(self.ns(), i) && b.fs() == read_to(self.fs(), b.fs().last().read)
                &&& items_ok(b.ns(), b.its(), b.data(), b.data().len() as int, i)
                &&& folds_ok(b.ns(), b.its(), b.fs(), b.stk(), b.nb()) && keys_ok(b.keys(), b.ns(), b.fs())
            }
            DeserializerState::StreamingValue => {
                &&& x && self.streams() && kept_on(self.ns(), self.fs(), key, b.outline)
                &&& match value_here(b.rest(), self.c()) {
                    None => self.left_here() is None,
                    Some((j, t)) => ahead(fold_es(self.ns(), self.fs().last()), self.left_here(), e1, and_then((key, j), rem_obj(t, false, self.c()))),
                }
            }
            DeserializerState::Collection { at_start, streaming_depth } => {
                &&& !x && at_start == self.more().0
                &&& if self.streams() {
                    streaming_depth == depth_of(self.fs().len() - 1) && goes_on(self.ns(), self.fs(), self.left_here(), key, b.outline, Some((Seq::empty(), b.rest())))
                } else {
                    streaming_depth == self.more().1 && b.rest() == self.rest() && kept_on(self.ns(), self.fs(), key, b.outline) && e1 == fold_es(self.ns(), self.fs().last())
                }
            }
            _ => false,
        }
    }
    spec fn probing(&self, o: Outline<Reader::Position>) -> bool {
        sane(o) && o.stack_items@.len() == self.fs().len() && o.nodes@ == self.ns() && o.lookback_items@ =~= self.its() && o.lookback_data@ =~= self.data() && o.lookback_keys@ == self.keys() && o.born@ == self.nb()
            && o.folds@ == read_to(self.fs(), o.folds@.last().read)
    }
    spec fn no_such(&self, key: Seq<char>, o: Outline<Reader::Position>) -> bool { self.probing(o) && at_key(fold_es(o.nodes@, o.folds@.last()), key) is None }
    /// An object is on top; the first item that was not handed out is looked for.
    proof fn lemma_top(self) -> (r: int)
        requires self.try_pre()
        ensures
            self.reader.ok(), self.state is Collection, 0 < self.fs().len(), self.its().len() <= usize::MAX,
            forward(self.its()), self.stk().len() == self.fs().len() < BIG, self.stk().last().collection_type is Object, self.nb() <= self.fs().len(),
            next_unread(self.its(), self.stk().last().first_child_index as int) is Some ==> sane(self.outline) && folds_ok(self.ns(), self.its(), read_to(self.fs(), r), start_of(self.stk(), next_unread(self.its(), self.stk().last().first_child_index as int)->0 as usize), self.nb()),
    {
        let n = self.fs().len() as int;
        assert(fold_ok(self.ns(), self.its(), self.fs(), self.stk(), n - 1, self.nb()));
        lemma_unread(self.ns(), self.its(), self.data(), self.fs(), self.stk(), self.nb())
    }
    proof fn lemma_some_left(self, o: Outline<Reader::Position>, i: usize, r: int)
        requires
            self.try_pre(), folds_ok(self.ns(), self.its(), read_to(self.fs(), r), start_of(self.stk(), i), self.nb()), o.nodes@ == self.ns(), o.lookback_items@ == self.its(), o.lookback_data@ == self.data(),
            o.lookback_keys@ == self.keys(), o.born@ == self.nb(), o.folds@ == read_to(self.fs(), r), o.stack_items@ =~= start_of(self.stk(), i)
        ensures self.probing(o), sane(o)
    {
        lemma_read_same(self.ns(), self.fs(), self.keys(), r, 0, self.rest(), false, self.c());
        assert(o.stack_items@ == start_of(self.stk(), i));
        assert(o.folds@.last().read == r);
    }
    proof fn lemma_none_left(self, key: Seq<char>, o: Outline<Reader::Position>)
        requires
            self.try_pre(), next_unread(self.its(), self.stk().last().first_child_index as int) is None, o.nodes@ == self.ns(), o.lookback_items@ == self.its(), o.lookback_data@ == self.data(),
            o.lookback_keys@ == self.keys(), o.born@ == self.nb(), o.folds@ == self.fs(), o.stack_items@ =~= self.stk()
        ensures self.no_such(key, o)
    {
        lemma_unread(self.ns(), self.its(), self.data(), self.fs(), self.stk(), self.nb());
        lemma_not_in_table(self.ns(), self.fs(), self.keys(), key);
        assert(o.stack_items@ == self.stk());
        assert(read_to(self.fs(), self.fs().last().read) =~= self.fs());
    }
    proof fn lemma_none_found(self, key: Seq<char>, o1: Outline<Reader::Position>, o2: Outline<Reader::Position>)
        requires
            self.try_pre(), self.probing(o1), same_but_vecs(o1, o2), o2.lookback_items@ =~= o1.lookback_items@, o2.lookback_keys@ == o1.lookback_keys@,
            forall|i: int| #[trigger] o1.lookback_keys@.dom().contains((self.fs().len() as int, i)) && o1.lookback_keys@[(self.fs().len() as int, i)] == hash_of(self.fs().len() as int, encode_utf8(key)) ==> o1.nodes@[i].key != key
        ensures self.no_such(key, o2)
    {
        lemma_not_in_table(o1.nodes@, o1.folds@, o1.lookback_keys@, key);
        assert(o2.lookback_items@ == o1.lookback_items@);
    }
    /// The item found is handed out.
    proof fn lemma_found(self, key: Seq<char>, o1: Outline<Reader::Position>, i: usize, b: Self)
        requires
            self.try_pre(), self.probing(o1), o1.lookback_keys@.dom().contains((self.fs().len() as int, i as int)), o1.nodes@[i as int].key == key,
            b.reader.ok(), b.rest() == self.rest(), b.state == (DeserializerState::LookbackValue { index: i, streaming_depth: self.more().1 }),
            b.stk() == o1.stack_items@, b.data() == o1.lookback_data@, b.fs() == o1.folds@, b.nb() == o1.born@, b.ns() == gone(o1.nodes@, i as int), b.its() =~= inactive(o1.lookback_items@, i as int),
            b.keys() == o1.lookback_keys@.remove((self.fs().len() as int, i as int))
        ensures self.tried(key, b, true)
    {
        assert(in_table(o1.nodes@, o1.folds@, self.fs().len() as int, i as int));
        assert(b.its() == inactive(o1.lookback_items@, i as int));
        assert(fold_ok(o1.nodes@, o1.lookback_items@, o1.folds@, o1.stack_items@, self.fs().len() - 1, o1.born@));
        lemma_hand_out(o1.nodes@, o1.lookback_items@, o1.lookback_data@, o1.folds@, o1.stack_items@, o1.lookback_keys@, o1.born@, i as int, b.its());
        lemma_total_gone(self.ns(), i as int);
    }
    proof fn lemma_begin(self, key: Seq<char>, o: Outline<Reader::Position>)
        requires self.try_pre(), self.no_such(key, o)
        ensures self.streams() ==> step(self, key, o, self.rest(), self.left_here()), kept_on(self.ns(), self.fs(), key, o), fold_es(o.nodes@, o.folds@.last()) == fold_es(self.ns(), self.fs().last()),
    {
        let fs = self.fs(); let gs = o.folds@;
        assert(o.lookback_items@ == self.its()); assert(o.lookback_data@ == self.data());
        assert forall|k: int| 0 <= k < fs.len() implies (#[trigger] gs[k]).obj == fs[k].obj && gs[k].all == fs[k].all && gs[k].born == fs[k].born && gs[k].hole == fs[k].hole by {}
        if self.left_here() is Some { let x = (self.left_here()->0).0; assert(fold_es(self.ns(), fs.last()) + x =~= fold_es(self.ns(), fs.last()) + x); }
    }
    /// The text of the object goes on.
    proof fn lemma_goon(self, key: Seq<char>, o: Outline<Reader::Position>, s: Seq<char>, start: bool)
        requires step(self, key, o, s, rem_obj(s, start, self.c()))
        ensures match entered(s, start, self.c()) {
            None => self.left_here() is None,
            Some((true, t)) => step(self, key, o, t, entries(t, self.c())) && t.len() < s.len(),
            Some((false, t)) => step(self, key, o, t, Some((Seq::empty(), t))) && t.len() < s.len(),
        }
    {
        lemma_follow_len(s, self.c());
    }
    /// There is an entry to read.
    proof fn lemma_at_entry(self, key: Seq<char>, o: Outline<Reader::Position>, s: Seq<char>)
        requires self.try_pre(), self.streams(), step(self, key, o, s, entries(s, self.c()))
        ensures
            str_lit(s) is None ==> self.left_here() is None,
            str_lit(s) is Some ==> ({
                let (k, t) = str_lit(s)->0;
                &&& o.lookback_data@.len() + encode_utf8(k).len() < BIG
                &&& match after_char(t, self.c(), ':') {
                    None => self.left_here() is None,
                    Some(u) => u.len() < s.len() && match after_ws(u, self.c()) {
                        None => self.left_here() is None && value(u, self.c()) is None,
                        Some(v) => value(u, self.c()) == value_here(v, self.c()) && (value(u, self.c()) is None ==> self.left_here() is None),
                    },
                }
            })
    {
        let c = self.c();
        lemma_entry(s, c); lemma_entries(s, c);
        if str_lit(s) is Some {
            let (k, t) = str_lit(s)->0;
            lemma_enc_len(k);
            if after_char(t, c, ':') is Some { lemma_value_here(after_char(t, c, ':')->0, c); }
        }
    }
    /// The entry has the key.
    spec fn at_value(&self, key: Seq<char>, o: Outline<Reader::Position>, v: Seq<char>) -> bool {
        &&& kept_on(self.ns(), self.fs(), key, o) && o.born@ == self.nb()
        &&& total(o.nodes@) + 4 * v.len() <= total(self.ns()) + 4 * self.rest().len() && data_fits(self.outline, self.rest(), o, v)
        &&& match value_here(v, self.c()) {
            None => self.left_here() is None,
            Some((j, t)) => ahead(fold_es(self.ns(), self.fs().last()), self.left_here(), fold_es(o.nodes@, o.folds@.last()), and_then((key, j), rem_obj(t, false, self.c()))),
        }
    }
    proof fn lemma_is_key(self, key: Seq<char>, o: Outline<Reader::Position>, s: Seq<char>, b: Outline<Reader::Position>, v: Seq<char>)
        requires
            self.try_pre(), self.streams(), step(self, key, o, s, entries(s, self.c())), str_lit(s) is Some, (str_lit(s)->0).0 == key, after_char((str_lit(s)->0).1, self.c(), ':') is Some,
            after_ws(after_char((str_lit(s)->0).1, self.c(), ':')->0, self.c()) == Some(v), same_but_data(o, b), b.lookback_data@ == o.lookback_data@,
        ensures self.at_value(key, b, v)
    {
        let c = self.c(); let (k, t) = str_lit(s)->0; let u = after_char(t, c, ':')->0;
        lemma_entry(s, c); lemma_entries(s, c); lemma_value_here(u, c); lemma_ws_len(u, c);
        if value_here(v, c) is Some {
            let (j, w) = value_here(v, c)->0;
            assert(entries(s, c) == and_then((key, j), rem_obj(w, false, c)));
        }
    }
    proof fn lemma_exit_value(self, key: Seq<char>, b: Self)
        requires self.streams(), self.at_value(key, b.outline, b.rest()), b.reader.ok(), b.state is StreamingValue,
        ensures self.tried(key, b, true)
    {
    }
    /// The value of an entry with another key is about to be kept.
    proof fn lemma_look(self, key: Seq<char>, o: Outline<Reader::Position>, s: Seq<char>, q: Outline<Reader::Position>, len: u32)
        requires
            self.try_pre(), self.streams(), step(self, key, o, s, entries(s, self.c())), str_lit(s) is Some, after_char((str_lit(s)->0).1, self.c(), ':') is Some,
            same_but_data(o, q), q.lookback_data@ == o.lookback_data@ + encode_utf8((str_lit(s)->0).0), len == encode_utf8((str_lit(s)->0).0).len(),
        ensures
            look_pre(q, o.lookback_data@.len() as int, (len << 1) | 1, (after_char((str_lit(s)->0).1, self.c(), ':')->0).len()),
            q.lookback_data@.subrange(o.lookback_data@.len() as int, q.lookback_data@.len() as int) == encode_utf8((str_lit(s)->0).0),
    {
        let c = self.c(); let (k, t) = str_lit(s)->0;
        lemma_entry(s, c); lemma_enc_len(k); lemma_key_len(len); encode_utf8_valid_utf8(k);
        lemma_more_data(o.nodes@, o.lookback_items@, o.lookback_data@, q.lookback_data@, encode_utf8(k));
        let u = after_char(t, c, ':')->0; let d = o.lookback_data@.len() as int; let data = q.lookback_data@;
        assert(len <= u32::MAX >> 1) by (bit_vector) requires len < 0x4000_0000u32;
        assert(valid_utf8(data.subrange(d, data.len() as int)));
        assert(((len << 1) | 1) >> 1 == data.len() - d);
        assert(q.stack_items@.len() + u.len() < BIG);
        assert(data.len() + 4 * u.len() < BIG);
        assert(items_ok(q.nodes@, q.lookback_items@, data, d, -1));
    }
    /// It was kept.
    proof fn lemma_kept(self, key: Seq<char>, o: Outline<Reader::Position>, s: Seq<char>, q: Outline<Reader::Position>, r: Outline<Reader::Position>, t: Seq<char>)
        requires
            self.try_pre(), self.streams(), step(self, key, o, s, entries(s, self.c())), str_lit(s) is Some, (str_lit(s)->0).0 != key, after_char((str_lit(s)->0).1, self.c(), ':') is Some,
            same_but_data(o, q), q.lookback_data@ == o.lookback_data@ + encode_utf8((str_lit(s)->0).0),
            ({
                let u = after_char((str_lit(s)->0).1, self.c(), ':')->0;
                &&& value(u, self.c()) is Some && (value(u, self.c())->0).1 == t
                &&& looked(q, r, o.lookback_data@.len() as int, (value(u, self.c())->0).0) && data_fits(q, u, r, t)
                &&& total(r.nodes@) + 4 * t.len() <= total(q.nodes@) + 4 * u.len() + 2 + r.nodes@[o.lookback_items@.len() as int].key.len()
            }),
        ensures ({
            let i = o.lookback_items@.len() as int; let n = self.fs().len() as int; let k3 = (str_lit(s)->0).0; let h = hash_of(n, encode_utf8(k3));
            &&& r.folds@.len() == n && !r.lookback_keys@.dom().contains((n, i)) && table_ok(r.lookback_keys@.insert((n, i), h), r.lookback_items@, r.lookback_data@)
            &&& t.len() < s.len()
            &&& forall|p: Outline<Reader::Position>| p.stack_items == r.stack_items && p.lookback_items == r.lookback_items && p.lookback_data == r.lookback_data && p.nodes == r.nodes && p.born == r.born
                    && p.folds@ == with_child(r.folds@, i) && p.lookback_keys@ == r.lookback_keys@.insert((n, i), h)
                    ==> #[trigger] step(self, key, p, t, rem_obj(t, false, self.c()))
        })
    {
        let c = self.c(); let (k3, v) = str_lit(s)->0; let u = after_char(v, c, ':')->0; let j3 = (value(u, c)->0).0;
        let i = o.lookback_items@.len() as int; let n = self.fs().len() as int; let h = hash_of(n, encode_utf8(k3));
        let e3 = fold_es(o.nodes@, o.folds@.last());
        lemma_entry(s, c); lemma_entries(s, c); lemma_enc_len(k3); lemma_value_len(u, c); lemma_follow_len(t, c);
        encode_utf8_valid_utf8(k3); encode_utf8_decode_utf8(k3);
        assert(q.lookback_data@.subrange(o.lookback_data@.len() as int, q.lookback_data@.len() as int) =~= encode_utf8(k3));
        assert(r.nodes@[i].key == k3);
        lemma_ahead(fold_es(self.ns(), self.fs().last()), self.left_here(), e3, (k3, j3), rem_obj(t, false, c));
        lemma_push_child(q.nodes@, q.lookback_items@, r.nodes@, r.lookback_items@, q.folds@, q.stack_items@, q.lookback_keys@, h);
        lemma_at_key_push(e3, (k3, j3), key);
        let gs = with_child(r.folds@, i); let keys = r.lookback_keys@.insert((n, i), h);
        lemma_table(r.nodes@, r.lookback_items@, r.lookback_data@, gs, r.stack_items@, keys, n);
    }
    proof fn lemma_no_more(self, key: Seq<char>, b: Self)
        requires
            self.try_pre(), self.streams(), step(self, key, b.outline, b.rest(), Some((Seq::empty(), b.rest()))), b.reader.ok(),
            b.state == coll(self.more().0, depth_of(self.fs().len() - 1)),
        ensures self.tried(key, b, false)
    {
    }
    proof fn lemma_not_here(self, key: Seq<char>, b: Self)
        requires self.try_pre(), !self.streams(), self.no_such(key, b.outline), b.rest() == self.rest(), b.reader.ok(), b.state == self.state
        ensures self.tried(key, b, false)
    {
        self.lemma_begin(key, b.outline);
    }
//@fn JsonDeserializer for TextDeserializer :: try_push_entry | ret=r loops=3 name=raw_try_push_entry
//@sigsubst Self :: Error => DeserializeError<Reader::Position>
//@dropargs DeserializeError::new => de_error()
//@subst u32 :: from ( depth ) => depth.get()
//@subst let entry = self . outline . lookback_keys . remove_entry ( hash , | lookback_key | { => let mut probe = self.outline.lookback_keys.probe(hash); let mut entry: Option<LookbackKey> = None; loop { let Some(lookback_key) = self.outline.lookback_keys.next(&mut probe) else { break; }; proof { assert(o1.lookback_keys@.dom().contains(kp(lookback_key))); lemma_key_at(o1, lookback_key.depth.v as int, lookback_key.index as int, key@); }
//@subst return true ; } } false } ) ; => entry = Some(self.outline.lookback_keys.take(lookback_key)); break; } } }
//@subst key . as_bytes ( ) == key_bytes => same_bytes(key, key_bytes)
//@subst key . as_bytes ( ) => str_bytes(key)
//@subst usize :: try_from ( u32 :: MAX >> 1 ) . unwrap ( ) => usize_of(u32::MAX >> 1)
//@subst | key | { key . hash ( => |key: &LookbackKey| -> (h: u64) requires key.index < its1.len(), kend(its1[key.index as int]) <= data1.len() ensures h == hash_of(key.depth.v as int, data1.subrange(its1[key.index as int].data_index as int, kend(its1[key.index as int]))) { key.hash(
//@subst 'read_entry : => let mut found_value = false; 'read_entry:
//@subst self . state = DeserializerState :: StreamingValue ; return Ok ( true ) ; => found_value = true; break 'read_entry;
//@subst * streaming_depth = NonZeroU32 => if found_value { self.state = DeserializerState::StreamingValue; return Ok(true); } *streaming_depth = NonZeroU32
//@spec
    requires old(self).try_pre()
    ensures old(self).marks(*final(self)), match r { Ok(x) => old(self).tried(key@, *final(self), x), Err(_) => old(self).streams() && old(self).left_here() is None }
//@entry
    hide(sane); hide(step); hide(look_pre); hide(looked); hide(entries); hide(rem_obj); hide(value); hide(str_lit); hide(total); hide(data_fits); hide(next_unread); hide(items_ok); hide(folds_ok); hide(keys_ok); hide(fold_es); hide(at_key); hide(TextDeserializer::probing); hide(TextDeserializer::no_such); hide(TextDeserializer::tried); hide(TextDeserializer::at_value); hide(value_here); hide(ahead); hide(TextDeserializer::try_pre);
    let ghost a = *self;
    let ghost n = self.fs().len() as int; let ghost c = self.c();
    let ghost mut r0: int = 0;
    let ghost here = next_unread(self.its(), self.stk().last().first_child_index as int);
    proof { r0 = self.lemma_top(); }
//@before#1 let hash
    self.outline.folds = Ghost(read_to(self.outline.folds@, r0));
    let ghost o1 = self.outline;
    proof { a.lemma_some_left(o1, here->0 as usize, r0); }
//@loop 1
    invariant_except_break
        entry is None, same_but_vecs(o1, self.outline), self.outline.lookback_items@ =~= o1.lookback_items@, self.outline.lookback_keys@ == o1.lookback_keys@,
    invariant
        probe.hash() == hash, forall|d: int, i: int| #![trigger probe.seen().contains((d, i))] probe.seen().contains((d, i)) && d == n ==> o1.nodes@[i].key != key@,
    ensures
        same_but_vecs(o1, self.outline),
        match entry {
            None => self.outline.lookback_items@ =~= o1.lookback_items@ && self.outline.lookback_keys@ == o1.lookback_keys@ && forall|i: int| #[trigger] o1.lookback_keys@.dom().contains((n, i)) && o1.lookback_keys@[(n, i)] == hash ==> o1.nodes@[i].key != key@,
            Some(e) => o1.lookback_keys@.dom().contains((n, e.index as int)) && o1.nodes@[e.index as int].key == key@ && self.outline.lookback_items@ =~= inactive(o1.lookback_items@, e.index as int)
                && self.outline.lookback_keys@ == o1.lookback_keys@.remove((n, e.index as int)),
        },
    decreases probe.more()
//@after-loop 1
    proof { if entry is None { a.lemma_none_found(key@, o1, self.outline); } }
//@before#1 return Ok ( true ) ;
    self.outline.nodes = Ghost(gone(self.outline.nodes@, entry.index as int));
    proof { a.lemma_found(key@, o1, entry.index, *self); }
//@before if * streaming_depth == Some ( depth )
    proof { if here is None { a.lemma_none_left(key@, self.outline); } assert(a.no_such(key@, self.outline)); }
//@before#1 'read_entry
    let ghost o2 = self.outline;
    proof { a.lemma_begin(key@, o2); a.lemma_goon(key@, o2, self.reader.rest(), a.more().0); }
//@loop 2
    invariant_except_break
        self.outline == o2, self.reader.rest() == a.rest(), self.reader.ok(), *at_start == a.more().0, !found_value,
    invariant
        self.config == a.config, self.malformed == a.malformed, self.dup == a.dup, self.tail == a.tail,
    ensures
        self.reader.ok(), found_value ==> a.at_value(key@, self.outline, self.reader.rest()), !found_value ==> step(a, key@, self.outline, self.reader.rest(), Some((Seq::empty(), self.reader.rest()))),
    decreases 0int
//@loop 3
    invariant
        self.config == a.config, self.malformed == a.malformed, self.dup == a.dup, self.tail == a.tail,
        !found_value, self.reader.ok(), step(a, key@, self.outline, self.reader.rest(), entries(self.reader.rest(), c)),
    decreases self.reader.rest().len()
//@in 3
    let ghost o3 = self.outline; let ghost s3 = self.reader.rest();
    let ghost k3 = (str_lit(s3)->0).0;
    proof { a.lemma_at_entry(key@, o3, s3); assert(0xFFFF_FFFFu32 >> 1 == 0x7FFF_FFFFu32) by (bit_vector); }
//@before#1 found_value = true
    proof { a.lemma_is_key(key@, o3, s3, self.outline, self.reader.rest()); }
//@before#2 return Ok ( true ) ;
    proof { a.lemma_exit_value(key@, *self); }
//@before#2 let hash
    let ghost o4 = self.outline; let ghost u4 = self.reader.rest();
    proof { a.lemma_look(key@, o3, s3, o4, key_len as u32); }
//@before self . outline . lookback_keys . insert_entry
    let ghost o5 = self.outline; let ghost t5 = self.reader.rest();
    proof { a.lemma_kept(key@, o3, s3, o4, o5, t5); }
    self.outline.folds = Ghost(with_child(self.outline.folds@, item as int));
    let ghost its1 = self.outline.lookback_items@; let ghost data1 = self.outline.lookback_data@;
//@before#2 if let Some
    proof { assert(step(a, key@, self.outline, t5, rem_obj(t5, false, c))); a.lemma_goon(key@, self.outline, t5, false); }
//@before Ok ( false )
    proof { if a.streams() { a.lemma_no_more(key@, *self); } else { a.lemma_not_here(key@, *self); } }
//@end
}
