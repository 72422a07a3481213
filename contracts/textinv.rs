// The data of a TextDeserializer, its invariant, and the state of the stack-based API it stands for.
type NumT = NumLit;
spec fn num_rep(s: Seq<char>, t: Seq<char>) -> NumT { (num_lit(s)->0).0 }
spec fn int_read(ty: int, n: NumLit) -> Option<int> { int_of(ty, n) }
//@for F in f32 f64
spec fn $F_read(n: NumLit) -> $F { $F_of(n) }
//@endfor

/// std::num::NonZeroU32.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
struct NonZeroU32 { v: u32 }
impl NonZeroU32 {
    fn new(x: u32) -> (r: Option<NonZeroU32>) ensures r == if x == 0 { None } else { Some(NonZeroU32 { v: x }) } { if x == 0 { None } else { Some(NonZeroU32 { v: x }) } }
    fn get(self) -> (r: u32) ensures r == self.v { self.v }
    fn checked_add(self, y: u32) -> (r: Option<NonZeroU32>) ensures r == if self.v + y <= u32::MAX { Some(NonZeroU32 { v: (self.v + y) as u32 }) } else { None } {
        if self.v <= u32::MAX - y { Some(NonZeroU32 { v: self.v + y }) } else { None }
    }
}
fn to_u32(x: usize) -> (r: u32) requires x <= u32::MAX ensures r == x { x as u32 }
#[verifier::external_body]
fn usize_of(x: u32) -> (r: usize) ensures r == x { x as usize }
spec fn sdn(o: Option<NonZeroU32>) -> int { match o { Some(x) => x.v as int, None => 0 } }
spec fn nz(o: Option<NonZeroU32>) -> bool { o is Some ==> o->0.v >= 1 }

//@use json/src/deserialize/text.rs
#[derive(Clone, Copy)]
//@item struct TextDeserializerConfig
//@item struct StackItem
//@item struct LookbackItem
//@item enum LookbackValue
//@item enum DeserializerState
//@item struct LookbackKey
//@item struct Outline | hashbrown :: raw :: RawTable < LookbackKey > => KeyTable ;; lookback_data : Vec < u8 > , => lookback_data: Vec<u8>, nodes: Ghost<Nodes>, folds: Ghost<Seq<Fold>>, born: Ghost<int>,
//@item struct TextDeserializer | error_pos : Reader :: Position , => error_pos: Reader::Position, malformed: Ghost<bool>, dup: Ghost<bool>, tail: Ghost<Seq<char>>,

// ---- hashbrown's table of the keys that can still be asked for (trusted) -------------------------------------
type Keys = Map<(int, int), u64>;
#[verifier::external_body]
struct KeyTable { x: u8 }
#[verifier::external_body]
struct Probe { x: u8 }
impl Probe {
    uninterp spec fn hash(&self) -> u64;
    uninterp spec fn seen(&self) -> Set<(int, int)>;
    uninterp spec fn more(&self) -> nat;
}
spec fn kp(k: LookbackKey) -> (int, int) { (k.depth.v as int, k.index as int) }
impl KeyTable {
    /// The keys (depth, index) in the table and the hash each was inserted with.
    uninterp spec fn view(&self) -> Keys;
    #[verifier::external_body]
    fn empty() -> (r: Self) ensures r@ == Map::<(int, int), u64>::empty() { unimplemented!() }
    /// `hasher` is used to move keys: it has to give the hash a key was inserted with.
    #[verifier::external_body]
    fn insert_entry<F: Fn(&LookbackKey) -> u64>(&mut self, hash: u64, value: LookbackKey, hasher: F)
        requires
            !old(self)@.dom().contains(kp(value)),
            forall|k: LookbackKey| #[trigger] old(self)@.insert(kp(value), hash).dom().contains(kp(k)) ==> hasher.requires((&k,)),
            forall|k: LookbackKey, h: u64| old(self)@.insert(kp(value), hash).dom().contains(kp(k)) && #[trigger] hasher.ensures((&k,), h) ==> h == old(self)@.insert(kp(value), hash)[kp(k)],
        ensures final(self)@ == old(self)@.insert(kp(value), hash)
    { unimplemented!() }
    #[verifier::external_body]
    fn remove_entry<F: Fn(&LookbackKey) -> bool>(&mut self, hash: u64, eq: F) -> (r: Option<LookbackKey>)
        requires forall|k: LookbackKey| #[trigger] old(self)@.dom().contains(kp(k)) ==> eq.requires((&k,))
        ensures match r {
            Some(k) => old(self)@.dom().contains(kp(k)) && eq.ensures((&k,), true) && final(self)@ == old(self)@.remove(kp(k)),
            None => final(self)@ == old(self)@ && forall|k: LookbackKey| #[trigger] old(self)@.dom().contains(kp(k)) && old(self)@[kp(k)] == hash ==> eq.ensures((&k,), false),
        }
    { unimplemented!() }
    // remove_entry with a predicate that has effects, step by step: some keys are tried, at least all with this hash
    #[verifier::external_body]
    fn probe(&self, hash: u64) -> (r: Probe) ensures r.hash() == hash, r.seen() == Set::<(int, int)>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn next(&self, probe: &mut Probe) -> (r: Option<LookbackKey>)
        ensures
            final(probe).hash() == old(probe).hash(),
            match r {
                Some(k) => self@.dom().contains(kp(k)) && final(probe).seen() == old(probe).seen().insert(kp(k)) && final(probe).more() < old(probe).more(),
                None => final(probe).seen() == old(probe).seen() && forall|k: (int, int)| #[trigger] self@.dom().contains(k) && self@[k] == old(probe).hash() ==> old(probe).seen().contains(k),
            }
    { unimplemented!() }
    #[verifier::external_body]
    fn take(&mut self, k: LookbackKey) -> (r: LookbackKey)
        requires old(self)@.dom().contains(kp(k))
        ensures r == k, final(self)@ == old(self)@.remove(kp(k))
    { unimplemented!() }
}
/// The hash of a key (that it only depends on the depth and the key is trusted).
uninterp spec fn hash_of(depth: int, key: Seq<u8>) -> u64;
//@fn key_hash | ret=r trusted
//@spec
    ensures r == hash_of(depth.v as int, key_bytes@)
//@end

// ---- Items -----------------------------------------------------------------------------------------------------
type Items<P> = Seq<LookbackItem<P>>;
spec fn klen<P>(it: LookbackItem<P>) -> int { (it.key_len_active >> 1) as int }
spec fn kend<P>(it: LookbackItem<P>) -> int { it.data_index + klen(it) }
spec fn dend<P>(its: Items<P>, dlen: int, i: int) -> int { if i + 1 < its.len() { its[i + 1].data_index as int } else { dlen } }
spec fn link(ks: Seq<int>, m: int, term: int) -> int { if 0 <= m < ks.len() { ks[m] } else { term } }
/// Two digits a byte, the first one in the low half; what is left over is filled with ones.
spec fn packed(ds: Seq<u8>) -> Seq<u8>
    decreases ds.len()
{
    if ds.len() == 0 { seq![0xFFu8] } else if ds.len() == 1 { seq![ds[0] | 0xF0u8] } else { seq![ds[0] | (ds[1] << 4)] + packed(ds.skip(2)) }
}
/// A number, as it is kept.
spec fn stored_num(n: NumLit, bytes: Seq<u8>, negate: bool, exp: i32) -> bool {
    bytes == packed(n.ds) && n.negate == negate && near(n.exp10(), exp as int) && num_fact(n)
}
spec fn shape(v: LookbackValue, t: J, bytes: Seq<u8>) -> bool {
    match v {
        LookbackValue::String => t is Str && bytes == encode_utf8(t->Str_0),
        LookbackValue::Number { negate, exp } => t is Num && stored_num(t->Num_0, bytes, negate, exp),
        LookbackValue::Object { has_entries } => t is Obj && bytes.len() == 0 && has_entries == (t->Obj_0.len() > 0),
        LookbackValue::Array { has_items } => t is Arr && bytes.len() == 0 && has_items == (t->Arr_0.len() > 0),
        LookbackValue::Bool(b) => t == J::Bool(b) && bytes.len() == 0,
        LookbackValue::Null => t is Null && bytes.len() == 0,
    }
}
spec fn tree_ok(ns: Nodes, i: int) -> bool {
    match ns[i].tree { J::Obj(es) => es == ents(ns, ns[i].kids), J::Arr(js) => js == vals(ns, ns[i].kids), _ => ns[i].kids.len() == 0 }
}
spec fn kid_ok<P>(ns: Nodes, its: Items<P>, i: int, m: int) -> bool {
    let ks = ns[i].kids;
    i < ks[m] < its.len() && ns[ks[m]].parent == i && its[ks[m]].next_sibling_index == link(ks, m + 1, usize::MAX as int) && (its[i].value is Some ==> !ns[ks[m]].gone)
}
spec fn kids_ok<P>(ns: Nodes, its: Items<P>, i: int) -> bool {
    let ks = ns[i].kids;
    &&& tree_ok(ns, i)
    &&& forall|m: int| 0 <= m < ks.len() ==> #[trigger] kid_ok(ns, its, i, m)
    &&& ks.len() > 0 ==> ks[0] == i + 1
}
spec fn bytes_ok<P>(n: Node, it: LookbackItem<P>, data: Seq<u8>, end: int) -> bool {
    &&& kend(it) <= end <= data.len()
    &&& data.subrange(it.data_index as int, kend(it)) == encode_utf8(n.key)
    &&& it.value is Some ==> shape(it.value->0, n.tree, data.subrange(kend(it), end))
}
/// One item: its bytes end at `dlen` if it is the last one. `pend`: the item handed out last, its value still there.
spec fn item_ok<P>(ns: Nodes, its: Items<P>, data: Seq<u8>, dlen: int, i: int, pend: int) -> bool {
    let it = its[i];
    &&& bytes_ok(ns[i], it, data, dend(its, dlen, i))
    &&& i < it.next_sibling_index && (it.next_sibling_index <= its.len() || it.next_sibling_index == usize::MAX)
    &&& it.value is Some <==> !ns[i].gone || i == pend
    &&& kids_ok(ns, its, i)
}
spec fn items_ok<P>(ns: Nodes, its: Items<P>, data: Seq<u8>, dlen: int, pend: int) -> bool {
    ns.len() == its.len() && forall|i: int| 0 <= i < its.len() ==> #[trigger] item_ok(ns, its, data, dlen, i, pend)
}

// ---- Opened collections ----------------------------------------------------------------------------------------
spec fn term(fs: Seq<Fold>, len: int, k: int, nb: int) -> int { if k < nb { if k + 1 < nb { fs[k + 1].base } else { len } } else { usize::MAX as int } }
spec fn child_ok<P>(ns: Nodes, its: Items<P>, f: Fold, m: int, term: int) -> bool {
    &&& 0 <= f.all[m] < its.len() && its[f.all[m]].next_sibling_index == link(f.all, m + 1, term)
    &&& !ns[f.all[m]].gone ==> ns[f.all[m]].parent == f.hole
    &&& m < f.read || f.born && !f.obj ==> ns[f.all[m]].gone
}
spec fn fold_ok<P>(ns: Nodes, its: Items<P>, fs: Seq<Fold>, stk: Seq<StackItem<P>>, k: int, nb: int) -> bool {
    let f = fs[k]; let t = term(fs, its.len() as int, k, nb);
    &&& stk[k].collection_type is Object <==> f.obj
    &&& f.born <==> k < nb
    &&& f.born ==> f.hole == -(k + 1)
    &&& !f.born ==> 0 <= f.hole < its.len() && its[f.hole].value is None && f.all == ns[f.hole].kids && (if f.obj { ns[f.hole].tree is Obj } else { ns[f.hole].tree is Arr })
    &&& f.base == link(f.all, 0, t)
    &&& 0 <= f.read <= f.all.len() && stk[k].first_child_index == link(f.all, f.read, t)
    &&& forall|m: int| 0 <= m < f.all.len() ==> #[trigger] child_ok(ns, its, f, m, t)
}
spec fn folds_ok<P>(ns: Nodes, its: Items<P>, fs: Seq<Fold>, stk: Seq<StackItem<P>>, nb: int) -> bool {
    &&& fs.len() == stk.len() && 0 <= nb <= fs.len()
    &&& forall|k: int| 0 <= k < fs.len() ==> #[trigger] fold_ok(ns, its, fs, stk, k, nb)
    &&& forall|k: int, l: int| 0 <= k < l < fs.len() ==> (#[trigger] fs[k]).hole != (#[trigger] fs[l]).hole
}
spec fn in_table(ns: Nodes, fs: Seq<Fold>, d: int, i: int) -> bool { 1 <= d <= fs.len() && fs[d - 1].obj && fs[d - 1].all.contains(i) && !ns[i].gone }
spec fn keys_ok(keys: Keys, ns: Nodes, fs: Seq<Fold>) -> bool {
    &&& forall|d: int, i: int| #![trigger keys.dom().contains((d, i))] keys.dom().contains((d, i)) <==> in_table(ns, fs, d, i)
    &&& forall|d: int, i: int| #![trigger keys.dom().contains((d, i))] keys.dom().contains((d, i)) ==> keys[(d, i)] == hash_of(d, encode_utf8(ns[i].key))
}

// ---- How much is left ------------------------------------------------------------------------------------------
spec fn own(t: J) -> nat { match t { J::Str(cs) => cs.len() + 1, J::Obj(_) | J::Arr(_) => 2, _ => 1 } }
spec fn weight(n: Node) -> nat { if n.gone { 0 } else { 2 + n.key.len() + own(n.tree) } }
spec fn total(ns: Nodes) -> nat
    decreases ns.len()
{
    if ns.len() == 0 { 0 } else { total(ns.drop_last()) + weight(ns.last()) }
}

// ---- The state ---------------------------------------------------------------------------------------------------
/// The item whose value is on top of the stack, or under the key that is.
spec fn pend(st: DeserializerState) -> int {
    match st { DeserializerState::LookbackValue { index, .. } => index as int, DeserializerState::LookbackString { value_index: Some(index), .. } => index as int, _ => -1 }
}
spec fn sd_ok(sd: Option<NonZeroU32>, nb: int, n: int) -> bool { nz(sd) && sdn(sd) <= nb <= sdn(sd) + 1 && nb <= n }
spec fn at_first(at_start: bool, sd: Option<NonZeroU32>, n: int) -> bool { at_start && sdn(sd) == n }
spec fn first_ok(at_start: bool, sd: Option<NonZeroU32>, fs: Seq<Fold>) -> bool { at_first(at_start, sd, fs.len() as int) && fs.len() > 0 ==> fs.last().all.len() == 0 }
spec fn state_ok(st: DeserializerState, ns: Nodes, data: Seq<u8>, fs: Seq<Fold>, nb: int) -> bool {
    let n = fs.len() as int;
    match st {
        DeserializerState::StreamingValue => nb == n,
        DeserializerState::LookbackValue { index, streaming_depth } => sd_ok(streaming_depth, nb, n) && index < ns.len() && ns[index as int].gone,
        DeserializerState::NullValue { at_start, streaming_depth, .. } => sd_ok(streaming_depth, nb, n) && n >= 1 && first_ok(at_start, streaming_depth, fs),
        DeserializerState::Collection { at_start, streaming_depth } => sd_ok(streaming_depth, nb, n) && first_ok(at_start, streaming_depth, fs) && (n == 0 ==> !at_start),
        DeserializerState::StreamingString { is_key } => nb == n && (is_key ==> n >= 1),
        DeserializerState::LookbackString { head_index, end_index, value_index, streaming_depth } => sd_ok(streaming_depth, nb, n)
            && head_index <= end_index <= data.len() && valid_utf8(data.subrange(head_index as int, end_index as int))
            && (value_index is Some ==> value_index->0 < ns.len() && ns[value_index->0 as int].gone),
    }
}
spec fn state_fuel(st: DeserializerState, ns: Nodes, data: Seq<u8>) -> nat {
    match st {
        DeserializerState::LookbackValue { index, .. } => own(ns[index as int].tree),
        DeserializerState::NullValue { at_start, .. } | DeserializerState::Collection { at_start, .. } => if at_start { 1 } else { 0 },
        DeserializerState::LookbackString { head_index, end_index, value_index, .. } => decode_utf8(data.subrange(head_index as int, end_index as int)).len() + (match value_index { Some(i) => own(ns[i as int].tree), None => 0 }),
        _ => 0,
    }
}
spec fn base_of(fs: Seq<Fold>) -> Stack { Seq::new(fs.len(), |k: int| if fs[k].obj { Fr::Object } else { LIST }) }
spec fn stack_of(fs: Seq<Fold>, st: DeserializerState) -> Stack {
    let b = base_of(fs);
    match st {
        DeserializerState::StreamingValue | DeserializerState::LookbackValue { .. } | DeserializerState::NullValue { .. } => b.push(Fr::Value),
        DeserializerState::Collection { .. } => b,
        DeserializerState::StreamingString { is_key } => if is_key { b.push(Fr::Value).push(Fr::Str) } else { b.push(Fr::Str) },
        DeserializerState::LookbackString { value_index, .. } => if value_index is Some { b.push(Fr::Value).push(Fr::Str) } else { b.push(Fr::Str) },
    }
}
/// What is left to read, and the text after it.
spec fn abs_of(st: DeserializerState, ns: Nodes, fs: Seq<Fold>, data: Seq<u8>, s: Seq<char>, c: bool) -> Option<(Sem, Seq<char>)> {
    let n = fs.len() as int;
    match st {
        DeserializerState::StreamingValue => match value_here(s, c) { None => None, Some((j, t)) => above(unwind(ns, fs, n, t, false, c), DF::Val(j)) },
        DeserializerState::LookbackValue { index, streaming_depth } => above(unwind(ns, fs, sdn(streaming_depth), s, false, c), DF::Val(ns[index as int].tree)),
        DeserializerState::NullValue { at_start, streaming_depth, .. } => above(unwind(ns, fs, sdn(streaming_depth), s, at_first(at_start, streaming_depth, n), c), DF::Missing),
        DeserializerState::Collection { at_start, streaming_depth } => unwind(ns, fs, sdn(streaming_depth), s, at_first(at_start, streaming_depth, n), c),
        DeserializerState::StreamingString { is_key } => match str_lit(s) {
            None => None,
            Some((cs, t)) => if is_key {
                match after_char(t, c, ':') { None => None, Some(u) => match value(u, c) { None => None, Some((j, v)) => above(above(unwind(ns, fs, n, v, false, c), DF::Val(j)), DF::Str(cs)) } }
            } else { above(unwind(ns, fs, n, t, false, c), DF::Str(cs)) },
        },
        DeserializerState::LookbackString { head_index, end_index, value_index, streaming_depth } => {
            let b = unwind(ns, fs, sdn(streaming_depth), s, false, c);
            above(match value_index { Some(i) => above(b, DF::Val(ns[i as int].tree)), None => b }, DF::Str(decode_utf8(data.subrange(head_index as int, end_index as int))))
        },
    }
}
spec fn keyed_df(d: DF) -> bool { match d { DF::Val(j) => keyed(j), DF::Obj(es) => keyed_entries(es), DF::Arr(js) => keyed_items(js), _ => true } }
spec fn keyed_sem(s: Sem) -> bool { forall|i: int| 0 <= i < s.len() ==> keyed_df(#[trigger] s[i]) }
spec const BIG: int = 0x4000_0000;

impl<Reader: TextReader> TextDeserializer<Reader> {
    spec fn its(&self) -> Items<Reader::Position> { self.outline.lookback_items@ }
    spec fn ns(&self) -> Nodes { self.outline.nodes@ }
    spec fn fs(&self) -> Seq<Fold> { self.outline.folds@ }
    spec fn data(&self) -> Seq<u8> { self.outline.lookback_data@ }
    spec fn stk(&self) -> Seq<StackItem<Reader::Position>> { self.outline.stack_items@ }
    spec fn keys(&self) -> Keys { self.outline.lookback_keys@ }
    spec fn nb(&self) -> int { self.outline.born@ }
    spec fn rest(&self) -> Seq<char> { self.reader.rest() }
    spec fn c(&self) -> bool { self.config.allow_comments }
    spec fn fuel(&self) -> nat { 4 * self.rest().len() + total(self.ns()) + state_fuel(self.state, self.ns(), self.data()) }
    spec fn abs(&self) -> Option<(Sem, Seq<char>)> { abs_of(self.state, self.ns(), self.fs(), self.data(), self.rest(), self.c()) }
    spec fn sizes(&self) -> bool { self.fs().len() + self.fuel() < BIG && self.data().len() + 4 * self.rest().len() < BIG }
    /// The data structures are as they have to be.
    spec fn sound(&self) -> bool {
        &&& self.reader.ok()
        &&& items_ok(self.ns(), self.its(), self.data(), self.data().len() as int, pend(self.state))
        &&& folds_ok(self.ns(), self.its(), self.fs(), self.stk(), self.nb())
        &&& keys_ok(self.keys(), self.ns(), self.fs())
        &&& state_ok(self.state, self.ns(), self.data(), self.fs(), self.nb())
        &&& self.sizes()
    }
    spec fn bad(&self) -> bool { self.malformed@ || self.dup@ }
    spec fn inv(&self) -> bool {
        self.sound() && (self.malformed@ ==> self.abs() is None) && (!self.bad() ==> self.abs() is Some && keyed_sem((self.abs()->0).0) && (self.abs()->0).1 == self.tail@)
    }
    spec fn state_w(&self) -> W {
        W { sem: (self.abs()->0).0, stack: stack_of(self.fs(), self.state), failed: !self.inv(), faulty: self.malformed@, bad: self.bad(), null: true, fuel: if self.inv() { self.fuel() } else { 0 } }
    }
}
