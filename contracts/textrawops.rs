//@use json/src/deserialize/text.rs
//@include unchecked.rs
/// The bytes of a string, as they lie in the buffer.
#[verifier::external_body]
struct Span { x: u8 }
impl Span {
    uninterp spec fn content(&self) -> Seq<u8>;
    uninterp spec fn at(&self, whole: Seq<u8>) -> int;
    // Trusted: a slice of the buffer has a place in it.
    #[verifier::external_body]
    fn start_in(&self, whole: &Vec<u8>) -> (r: usize) ensures r == self.at(whole@), 0 <= r, r + self.content().len() <= whole@.len(), whole@.subrange(r as int, r + self.content().len()) == self.content() { unimplemented!() }
    #[verifier::external_body]
    fn end_in(&self, whole: &Vec<u8>) -> (r: usize) ensures r == self.at(whole@) + self.content().len() { unimplemented!() }
}
#[verifier::external_body]
fn span(part: &[u8]) -> (r: Span) ensures r.content() == part@ { unimplemented!() }
/// Where in the buffer `suffix` starts, the last part of the text `all` of the bytes from `start` to `end`.
#[verifier::external_body]
fn offset_within(suffix: &str, all: Ghost<&str>, start: Ghost<usize>) -> (r: usize)
    requires tail_of(all@, suffix)
    ensures r == start@ + blen(all@) - blen(suffix)
{ unimplemented!() }
#[verifier::external_body]
fn bytes_of(data: &[u8]) -> (r: Vec<u8>) ensures r@ == data@ { data.to_vec() }

/// Where an item of an array starts.
spec fn item_start(s: Seq<char>, at_start: bool, c: bool) -> Option<(bool, Seq<char>)> {
    if at_start { first_item(s, c) } else { match next_item(s, c) { Some((true, t)) => match after_ws(t, c) { Some(u) => Some((true, u)), None => None }, x => x } }
}
spec fn entry_start(s: Seq<char>, at_start: bool, c: bool) -> Option<(bool, Seq<char>)> { if at_start { first_entry(s, c) } else { next_entry(s, c) } }
/// After the colon.
spec fn after_colon(s: Seq<char>, c: bool) -> Option<Seq<char>> { match after_char(s, c, ':') { None => None, Some(u) => after_ws(u, c) } }
/// What is kept of the keys of the items in the table.
spec fn table_ok<P>(keys: Keys, its: Items<P>, data: Seq<u8>) -> bool {
    &&& forall|d: int, i: int| #![trigger keys.dom().contains((d, i))] keys.dom().contains((d, i)) ==> 0 <= i < its.len() && kend(its[i]) <= data.len()
    &&& forall|d: int, i: int| #![trigger keys.dom().contains((d, i))] keys.dom().contains((d, i)) ==> keys[(d, i)] == hash_of(d, data.subrange(its[i].data_index as int, kend(its[i])))
}
spec fn start_of<P>(stk: Seq<StackItem<P>>, n: usize) -> Seq<StackItem<P>> { stk.update(stk.len() - 1, StackItem { first_child_index: n, ..stk.last() }) }
spec fn inactive<P>(its: Items<P>, i: int) -> Items<P> { its.update(i, LookbackItem { key_len_active: its[i].key_len_active & !1u32, ..its[i] }) }
proof fn lemma_inactive(x: u32)
    ensures (x & !1u32) >> 1 == x >> 1
{
    assert((x & !1u32) >> 1 == x >> 1) by (bit_vector);
}
proof fn lemma_packed_bits(a: u8, b: u8)
    requires a <= 9, b <= 9
    ensures
        0xFFu8 & 0xF == 0xF,
        (a | 0xF0) & 0xF == a, ((a | 0xF0) >> 4) & 0xF == 0xF,
        (a | (b << 4)) & 0xF == a, ((a | (b << 4)) >> 4) & 0xF == b,
{
    assert(0xFFu8 & 0xF == 0xF && (a | 0xF0) & 0xF == a && ((a | 0xF0) >> 4) & 0xF == 0xF && (a | (b << 4)) & 0xF == a && ((a | (b << 4)) >> 4) & 0xF == b) by (bit_vector) requires a <= 9, b <= 9;
}
/// The first byte that is kept of a number.
proof fn lemma_packed(ds: Seq<u8>)
    requires digits_ok(ds)
    ensures ({
        let p = packed(ds);
        &&& p.len() > 0
        &&& ds.len() == 0 ==> p[0] & 0xF == 0xF
        &&& ds.len() > 0 ==> p[0] & 0xF == ds[0]
        &&& ds.len() == 1 ==> (p[0] >> 4) & 0xF == 0xF
        &&& ds.len() > 1 ==> (p[0] >> 4) & 0xF == ds[1] && p.drop_first() == packed(ds.skip(2)) && digits_ok(ds.skip(2))
    })
{
    if ds.len() == 0 { lemma_packed_bits(0, 0); } else {
        assert(ds[0] <= 9);
        if ds.len() == 1 { lemma_packed_bits(ds[0], 0); } else {
            assert(ds[1] <= 9);
            lemma_packed_bits(ds[0], ds[1]);
            assert(packed(ds).drop_first() =~= packed(ds.skip(2)));
            assert forall|i: int| 0 <= i < ds.skip(2).len() implies #[trigger] ds.skip(2)[i] <= 9 by { assert(ds[i + 2] <= 9); }
        }
    }
}

proof fn lemma_tail_ok(ds: Seq<u8>, k: int)
    requires digits_ok(ds), 0 <= k <= ds.len()
    ensures digits_ok(ds.skip(k))
{
    assert forall|i: int| 0 <= i < ds.skip(k).len() implies #[trigger] ds.skip(k)[i] <= 9 by { assert(ds[i + k] <= 9); }
}
proof fn lemma_packed_end(ds: Seq<u8>, bytes: Seq<u8>)
    requires digits_ok(ds), 2 * bytes.len() <= ds.len(), packed(ds.skip(2 * bytes.len() as int)) == bytes.skip(bytes.len() as int)
    ensures false
{
    lemma_tail_ok(ds, 2 * bytes.len() as int); lemma_packed(ds.skip(2 * bytes.len() as int)); assert(bytes.skip(bytes.len() as int).len() == 0);
}
/// The digits in the byte at `k`.
proof fn lemma_two_digits(ds: Seq<u8>, bytes: Seq<u8>, k: int)
    requires digits_ok(ds), 0 <= k < bytes.len(), 2 * k <= ds.len(), packed(ds.skip(2 * k)) == bytes.skip(k)
    ensures ({
        let b = bytes[k]; let l = ds.len();
        &&& l == 2 * k ==> b & 0xF == 0xF && ds.take(2 * k) == ds
        &&& l > 2 * k ==> b & 0xF == ds[2 * k] && ds[2 * k] <= 9 && ds.take(2 * k).push(ds[2 * k]) == ds.take(2 * k + 1)
        &&& l == 2 * k + 1 ==> (b >> 4) & 0xF == 0xF && ds.take(2 * k + 1) == ds
        &&& l > 2 * k + 1 ==> (b >> 4) & 0xF == ds[2 * k + 1] && ds[2 * k + 1] <= 9 && ds.take(2 * k + 1).push(ds[2 * k + 1]) == ds.take(2 * k + 2) && packed(ds.skip(2 * (k + 1))) == bytes.skip(k + 1)
    })
{
    let tail = ds.skip(2 * k);
    lemma_tail_ok(ds, 2 * k); lemma_packed(tail);
    assert(bytes.skip(k)[0] == bytes[k]);
    if tail.len() == 0 { assert(ds.take(2 * k) =~= ds); }
    else {
        assert(tail[0] == ds[2 * k]); assert(ds.take(2 * k).push(ds[2 * k]) =~= ds.take(2 * k + 1));
        if tail.len() == 1 { assert(ds.take(2 * k + 1) =~= ds); }
        else {
            assert(tail[1] == ds[2 * k + 1]); assert(ds.take(2 * k + 1).push(ds[2 * k + 1]) =~= ds.take(2 * k + 2));
            assert(tail.skip(2) =~= ds.skip(2 * (k + 1))); assert(bytes.skip(k).drop_first() =~= bytes.skip(k + 1));
        }
    }
}
proof fn lemma_too_big<T: NumOf>(n: NumLit, p: int)
    requires num_fact(n), 0 <= p <= n.ds.len(), <T::Builder as NumBuilder>::too_big(n.ds.take(p))
    ensures T::of(n) is None
{
    assert(n.ds.take(p).is_prefix_of(n.ds)); assert(refused::<T::Builder>(n.ds)); assert(read_as::<T>(n, None)); T::theorem_of(n, None);
}

/// Only strings and numbers have bytes.
spec fn null_bytes<R: TextReader>(a: TextDeserializer<R>) -> bool {
    let i = a.state->LookbackValue_index as int;
    let v = a.its()[i].value->0;
    v is String || v is Number || value_bytes(a.its(), a.data(), i).len() == 0
}
/// A child of an item that was not opened yet.
spec fn kid_here<P>(ns: Nodes, its: Items<P>, data: Seq<u8>, x: int, m: int) -> bool {
    let ks = ns[x].kids;
    x < ks[m] < its.len() && its[ks[m]].next_sibling_index == link(ks, m + 1, usize::MAX as int) && kend(its[ks[m]]) <= data.len() && (m + 1 < ks.len() ==> ks[m] < ks[m + 1])
}
/// The first character of a string in the buffer.
proof fn lemma_head(data: Seq<u8>, h: int, e: int)
    requires 0 <= h <= e <= data.len(), valid_utf8(data.subrange(h, e))
    ensures ({
        let cs = decode_utf8(data.subrange(h, e)); let k = h + encode_utf8(cs).len() - encode_utf8(cs.drop_first()).len();
        &&& encode_utf8(cs) == data.subrange(h, e)
        &&& cs.len() == 0 <==> h == e
        &&& cs.len() > 0 ==> h < k <= e && data.subrange(k, e) == encode_utf8(cs.drop_first()) && valid_utf8(data.subrange(k, e)) && decode_utf8(data.subrange(k, e)) == cs.drop_first()
    })
{
    let b = data.subrange(h, e); let cs = decode_utf8(b);
    decode_utf8_encode_utf8(b);
    lemma_empty();
    if cs.len() == 0 { assert(cs =~= Seq::empty()); }
    else {
        let t = cs.drop_first(); let k = h + encode_utf8(cs).len() - encode_utf8(t).len();
        assert(cs =~= seq![cs[0]] + t);
        encode_utf8_concat(seq![cs[0]], t);
        lemma_enc(cs[0]);
        let u = encode_utf8(seq![cs[0]]) + encode_utf8(t);
        assert(u == b);
        assert(data.subrange(k, e) =~= u.subrange(k - h, e - h));
        assert(u.subrange(k - h, e - h) =~= encode_utf8(t));
        encode_utf8_valid_utf8(t); encode_utf8_decode_utf8(t);
    }
}
proof fn lemma_here<P>(its: Items<P>, i: int)
    ensures next_unread(its, i) is Some ==> ({ let j = next_unread(its, i)->0; i <= j < its.len() && its[j].value is Some })
    decreases if i < its.len() { its.len() - i } else { 0 }
{
    if 0 <= i < its.len() && its[i].value is None && its[i].next_sibling_index > i { lemma_here(its, its[i].next_sibling_index as int); }
}
impl<Reader: TextReader> TextDeserializer<Reader> {
    /// The item is an object that can be opened.
    spec fn opening(&self, x: int) -> bool {
        let ks = self.ns()[x].kids;
        &&& (self.its()[x].value->0)->has_entries == (ks.len() > 0) && (ks.len() > 0 ==> ks[0] == x + 1) && self.its().len() <= usize::MAX
        &&& forall|m: int| 0 <= m < ks.len() ==> #[trigger] kid_here(self.ns(), self.its(), self.data(), x, m)
        &&& forall|m: int| 0 <= m < ks.len() ==> !self.keys().dom().contains(((self.stk().len() + 1) as int, #[trigger] ks[m]))
        &&& forall|l: int, m: int| 0 <= l < m < ks.len() ==> (#[trigger] ks[l]) < (#[trigger] ks[m])
    }
    /// A value is on top.
    spec fn value_pre(&self) -> bool {
        &&& self.reader.ok() && self.rest().len() < LIMIT && self.stk().len() < u32::MAX && self.data().len() < LIMIT
        &&& match self.state {
            DeserializerState::StreamingValue => true,
            DeserializerState::LookbackValue { index, .. } => has_value(self.its(), self.data(), index as int),
            DeserializerState::NullValue { .. } => self.stk().len() > 0,
            _ => false,
        }
    }
    spec fn kept(&self, b: Self) -> bool {
        b.config == self.config && b.malformed == self.malformed && b.dup == self.dup && b.tail == self.tail && b.reader.ok() && b.data() == self.data() && b.ns() == self.ns() && b.fs() == self.fs() && b.nb() == self.nb()
    }
    spec fn marks(&self, b: Self) -> bool { b.malformed == self.malformed && b.dup == self.dup && b.tail == self.tail && b.config == self.config }
    /// A collection is on top.
    spec fn coll_pre(&self) -> bool {
        self.reader.ok() && self.rest().len() < LIMIT && self.state is Collection && 0 < self.stk().len() < u32::MAX && forward(self.its()) && self.data().len() < LIMIT
    }
    spec fn same_outline(&self, b: Self) -> bool { b.its() == self.its() && b.stk() == self.stk() && b.keys() == self.keys() }
    /// The value on top was read: there is a collection on top, or nothing.
    spec fn popped(&self, b: Self) -> bool {
        self.kept(b) && match self.state {
            DeserializerState::StreamingValue => self.same_outline(b) && b.state == coll(false, depth_of(self.stk().len() as int)),
            DeserializerState::LookbackValue { index, streaming_depth } => b.its() == taken(self.its(), index as int) && b.stk() == self.stk() && b.keys() == self.keys() && b.rest() == self.rest() && b.state == coll(false, streaming_depth),
            DeserializerState::NullValue { at_start, streaming_depth, .. } => self.same_outline(b) && b.rest() == self.rest() && b.state == coll(at_start, streaming_depth),
            _ => false,
        }
    }
    /// The value on top was read: it is a collection, now opened.
    spec fn opened(&self, b: Self, object: bool) -> bool {
        let n = self.stk().len() as int;
        self.kept(b) && b.stk().len() == n + 1 && b.stk().drop_last() =~= self.stk() && b.stk()[n].collection_type == (if object { CollectionType::Object } else { CollectionType::Array }) && match self.state {
            DeserializerState::StreamingValue => self.rest().len() > 0 && self.rest()[0] == (if object { '{' } else { '[' }) && b.rest() == self.rest().drop_first() && b.its() == self.its() && b.keys() == self.keys()
                && b.stk()[n].first_child_index == self.its().len() && b.state == coll(true, depth_of(n + 1)),
            DeserializerState::LookbackValue { index, streaming_depth } => b.rest() == self.rest() && b.its() == taken(self.its(), index as int) && b.state == coll(true, streaming_depth) && match self.its()[index as int].value->0 {
                LookbackValue::Object { has_entries } => object && b.stk()[n].first_child_index == if has_entries { index + 1 } else { usize::MAX as int },
                LookbackValue::Array { has_items } => !object && b.stk()[n].first_child_index == if has_items { index + 1 } else { usize::MAX as int } && b.keys() == self.keys(),
                _ => false,
            },
            _ => false,
        }
    }
    /// The value on top is not what was asked for.
    spec fn not_val(&self, f: spec_fn(LookbackValue) -> bool) -> bool {
        match self.state { DeserializerState::LookbackValue { index, .. } => !f(self.its()[index as int].value->0), DeserializerState::NullValue { .. } => true, _ => false }
    }

//@fn TextDeserializer :: error_unexpected_virtual_null | ret=r
//@dropargs DeserializeError::new => de_error()
//@spec
    requires self.stk().len() > 0 // #C12
//@end
//@fn TextDeserializer :: read_number | ret=r loops=1 name=raw_read_number
//@sigsubst T: Num => T: NumOf
//@dropargs DeserializeError::new => de_error()
//@subst Default :: default ( ) => NumBuilder::fresh()
//@subst data . iter ( ) . copied ( ) => bytes_of(data)
//@spec
    requires old(self).value_pre(),
        old(self).state is LookbackValue ==> ({ let i = old(self).state->LookbackValue_index as int; old(self).its()[i].value->0 is Number ==> ({
            let v = old(self).its()[i].value->0;
            old(self).ns()[i].tree is Num && stored_num(old(self).ns()[i].tree->Num_0, value_bytes(old(self).its(), old(self).data(), i), v->negate, v->exp)
        }) })
    ensures old(self).marks(*final(self)),
        match r {
            Ok(x) => old(self).popped(*final(self)) && match old(self).state {
                DeserializerState::StreamingValue => num_lit(old(self).rest()) is Some && T::of((num_lit(old(self).rest())->0).0) == Some(x) && final(self).rest() == (num_lit(old(self).rest())->0).1,
                DeserializerState::LookbackValue { index, .. } => old(self).its()[index as int].value->0 is Number && T::of(old(self).ns()[index as int].tree->Num_0) == Some(x),
                _ => false,
            },
            Err(_) => match old(self).state {
                DeserializerState::StreamingValue => num_lit(old(self).rest()) is Some ==> T::of((num_lit(old(self).rest())->0).0) is None,
                DeserializerState::LookbackValue { index, .. } => !(old(self).its()[index as int].value->0 is Number) || T::of(old(self).ns()[index as int].tree->Num_0) is None,
                DeserializerState::NullValue { .. } => true,
                _ => false,
            }
        }
//@entry
    let ghost a = *self;
    let ghost (n, bytes) = match self.state {
        DeserializerState::LookbackValue { index, .. } => (self.ns()[index as int].tree->Num_0, value_bytes(self.its(), self.data(), index as int)),
        _ => ((num_lit(self.rest())->0).0, Seq::empty()),
    };
    proof {
        if self.state is StreamingValue && num_lit(self.rest()) is Some {
            lemma_num_len(self.rest());
            assert forall|r: Option<T>| #[trigger] number_read(self.rest(), r) implies is_of(n, r) by { assert(read_as(n, r)); T::theorem_of(n, r); }
        }
        assert(n.ds.take(0) =~= Seq::empty()); assert(n.ds.skip(0) =~= n.ds); assert(bytes.skip(0) =~= bytes);
    }
    let ghost mut fin = false; let ghost mut j: int = 0;
//@loop 1
    invariant_except_break
        !fin,
    invariant
        bytes == packed(n.ds), digits_ok(n.ds), n.ds.len() < LIMIT, it1.seq() == bytes, a.state is LookbackValue, a.its()[a.state->LookbackValue_index as int].value->0 is Number, n == a.ns()[a.state->LookbackValue_index as int].tree->Num_0,
        near(n.exp10(), exp as int), negate == n.negate, a.marks(*self), a.popped(*self),
        j == it1.index(), 0 <= j <= bytes.len(),
        fin ==> builder.holds(n.ds),
        !fin ==> 2 * j <= n.ds.len() && builder.holds(n.ds.take(2 * j)) && packed(n.ds.skip(2 * j)) == bytes.skip(j),
//@in 1
    let ghost k = j;
    proof {
        j = j + 1;
        lemma_two_digits(n.ds, bytes, k);
        if 2 * k == n.ds.len() || 2 * k + 1 == n.ds.len() { fin = true; }
        if 2 * k < n.ds.len() && <T::Builder as NumBuilder>::too_big(n.ds.take(2 * k + 1)) { lemma_too_big::<T>(n, 2 * k + 1); }
        if 2 * k + 1 < n.ds.len() && <T::Builder as NumBuilder>::too_big(n.ds.take(2 * k + 2)) { lemma_too_big::<T>(n, 2 * k + 2); }
    }
//@after-loop 1
    proof {
        if !fin { lemma_packed_end(n.ds, bytes); }
        assert forall|r: Option<T>| #[trigger] T::reads(r, n.ds, n.negate, exp as int) implies is_of(n, r) by { assert(read_as(n, r)); T::theorem_of(n, r); }
    }
//@end

//@fn Outliner for TextDeserializer :: pop_null | ret=r name=raw_pop_null
//@sigsubst Self :: Error => DeserializeError<Reader::Position>
//@dropargs DeserializeError::new => de_error()
//@spec
    requires old(self).value_pre(), old(self).state is LookbackValue ==> null_bytes(*old(self))
    ensures old(self).marks(*final(self)),
        match r {
            Ok(_) => old(self).popped(*final(self)) && match old(self).state {
                DeserializerState::StreamingValue => null_lit(old(self).rest()) == Some(final(self).rest()),
                DeserializerState::LookbackValue { index, .. } => old(self).its()[index as int].value->0 is Null,
                DeserializerState::NullValue { .. } => true,
                _ => false,
            },
            Err(_) => match old(self).state {
                DeserializerState::StreamingValue => null_lit(old(self).rest()) is None,
                DeserializerState::LookbackValue { index, .. } => !(old(self).its()[index as int].value->0 is Null),
                _ => false,
            }
        }
//@entry
    proof { lemma_literals(self.rest()); }
//@end
//@fn Deserializer for TextDeserializer :: get_bool | ret=r name=raw_get_bool
//@sigsubst Self :: Error => DeserializeError<Reader::Position>
//@dropargs DeserializeError::new => de_error()
//@spec
    requires old(self).value_pre(), old(self).state is LookbackValue ==> null_bytes(*old(self))
    ensures old(self).marks(*final(self)),
        match r {
            Ok(x) => old(self).popped(*final(self)) && match old(self).state {
                DeserializerState::StreamingValue => bool_lit(old(self).rest()) == Some((x, final(self).rest())),
                DeserializerState::LookbackValue { index, .. } => old(self).its()[index as int].value->0 == LookbackValue::Bool(x),
                _ => false,
            },
            Err(_) => match old(self).state {
                DeserializerState::StreamingValue => bool_lit(old(self).rest()) is None,
                DeserializerState::LookbackValue { index, .. } => !(old(self).its()[index as int].value->0 is Bool),
                DeserializerState::NullValue { .. } => true,
                _ => false,
            }
        }
//@end
//@fn Outliner for TextDeserializer :: open_str | ret=r name=raw_open_str
//@sigsubst Self :: Error => DeserializeError<Reader::Position>
//@dropargs DeserializeError::new => de_error()
//@subst data . as_ptr_range ( ) => span(data)
//@subst self . outline . lookback_data . as_ptr ( ) => &self.outline.lookback_data
//@subst data . start as usize - base_ptr as usize => data.start_in(base_ptr)
//@subst data . end as usize - base_ptr as usize => data.end_in(base_ptr)
//@spec
    requires old(self).value_pre()
    ensures old(self).marks(*final(self)),
        match r {
            Ok(x) => old(self).kept(*final(self)) && final(self).stk() == old(self).stk() && final(self).keys() == old(self).keys() && match old(self).state {
                DeserializerState::StreamingValue => old(self).rest().len() > 0 && old(self).rest()[0] == '"' && final(self).rest() == old(self).rest().drop_first() && final(self).its() == old(self).its()
                    && final(self).state == (DeserializerState::StreamingString { is_key: false }),
                DeserializerState::LookbackValue { index, streaming_depth } => old(self).its()[index as int].value->0 is String && final(self).rest() == old(self).rest() && final(self).its() == taken(old(self).its(), index as int)
                    && match final(self).state {
                        DeserializerState::LookbackString { head_index, end_index, value_index, streaming_depth: sd } => head_index <= end_index <= old(self).data().len() && value_index is None && sd == streaming_depth
                            && old(self).data().subrange(head_index as int, end_index as int) == value_bytes(old(self).its(), old(self).data(), index as int),
                        _ => false,
                    },
                _ => false,
            },
            Err(_) => match old(self).state {
                DeserializerState::StreamingValue => !(old(self).rest().len() > 0 && old(self).rest()[0] == '"'),
                DeserializerState::LookbackValue { index, .. } => !(old(self).its()[index as int].value->0 is String),
                DeserializerState::NullValue { .. } => true,
                _ => false,
            }
        }
//@end
//@fn Deserializer for TextDeserializer :: open_list | ret=r name=raw_open_list
//@sigsubst Self :: Error => DeserializeError<Reader::Position>
//@dropargs DeserializeError::new => de_error()
//@spec
    requires old(self).value_pre(), old(self).state is LookbackValue ==> null_bytes(*old(self))
    ensures old(self).marks(*final(self)),
        match r {
            Ok(x) => x is None && old(self).opened(*final(self), false),
            Err(_) => match old(self).state {
                DeserializerState::StreamingValue => !(old(self).rest().len() > 0 && old(self).rest()[0] == '['),
                DeserializerState::LookbackValue { index, .. } => !(old(self).its()[index as int].value->0 is Array),
                DeserializerState::NullValue { .. } => true,
                _ => false,
            }
        }
//@entry
    assert(self.outline.lookback_items.len() <= usize::MAX);
//@end
//@fn JsonOutliner for TextDeserializer :: open_object | ret=r loops=1 name=raw_open_object
//@sigsubst Self :: Error => DeserializeError<Reader::Position>
//@dropargs DeserializeError::new => de_error()
//@subst | key | { key . hash ( => |key: &LookbackKey| -> (h: u64) requires key.index < its1.len(), kend(its1[key.index as int]) <= data1.len() ensures h == hash_of(key.depth.v as int, data1.subrange(its1[key.index as int].data_index as int, kend(its1[key.index as int]))) { key.hash(
//@spec
    requires old(self).value_pre(), old(self).state is LookbackValue ==> null_bytes(*old(self)),
        table_ok(old(self).keys(), old(self).its(), old(self).data()),
        old(self).state is LookbackValue ==> old(self).its()[old(self).state->LookbackValue_index as int].value->0 is Object ==> old(self).opening(old(self).state->LookbackValue_index as int)
    ensures old(self).marks(*final(self)),
        match r {
            Ok(x) => old(self).opened(*final(self), true) && table_ok(final(self).keys(), final(self).its(), final(self).data())
                && (old(self).state is LookbackValue ==> forall|d: int, i: int| #![trigger final(self).keys().dom().contains((d, i))] final(self).keys().dom().contains((d, i)) <==> old(self).keys().dom().contains((d, i)) || d == old(self).stk().len() + 1 && old(self).ns()[old(self).state->LookbackValue_index as int].kids.contains(i)),
            Err(_) => match old(self).state {
                DeserializerState::StreamingValue => !(old(self).rest().len() > 0 && old(self).rest()[0] == '{'),
                DeserializerState::LookbackValue { index, .. } => !(old(self).its()[index as int].value->0 is Object),
                DeserializerState::NullValue { .. } => true,
                _ => false,
            }
        }
//@entry
    let ghost a = *self;
    let ghost x = match self.state { DeserializerState::LookbackValue { index, .. } => index as int, _ => 0 };
    let ghost ks = self.ns()[x].kids;
    let ghost mut m: int = 0;
    let ghost data1 = self.data();
    let ghost its1 = taken(self.its(), x);
//@loop 1
    invariant
        a.opening(x), ks == a.ns()[x].kids, 0 <= m <= ks.len(), child_index == link(ks, m, usize::MAX as int), x < a.its().len() <= usize::MAX,
        data1 == a.data(), its1 == taken(a.its(), x), self.its() == its1, self.data() == data1,
        depth.v == a.stk().len() + 1, a.marks(*self), a.kept(*self), a.rest() == self.rest(), self.state == coll(true, a.state->LookbackValue_streaming_depth),
        self.stk().len() == a.stk().len() + 1, self.stk().drop_last() =~= a.stk(), self.stk().last().collection_type is Object, self.stk().last().first_child_index == x + 1,
        table_ok(self.keys(), its1, data1),
        forall|d: int, i: int| #![trigger self.keys().dom().contains((d, i))] self.keys().dom().contains((d, i)) <==> a.keys().dom().contains((d, i)) || d == a.stk().len() + 1 && exists|l: int| 0 <= l < m && #[trigger] ks[l] == i,
    decreases ks.len() - m
//@in 1
    let ghost k0 = self.keys();
    proof {
        assert(kid_here(a.ns(), a.its(), a.data(), x, m));
        assert(forall|l: int| 0 <= l < m ==> kid_here(a.ns(), a.its(), a.data(), x, l));
        assert(child_index == ks[m]);
        m = m + 1;
    }
//@after-loop 1
    proof { assert(m == ks.len()) by { if m < ks.len() { assert(kid_here(a.ns(), a.its(), a.data(), x, m)); } } }
//@end
    spec fn more(&self) -> (bool, Option<NonZeroU32>) { (self.state->Collection_at_start, self.state->Collection_streaming_depth) }
    spec fn here(&self) -> Option<int> { next_unread(self.its(), self.stk().last().first_child_index as int) }
    /// The collection on top had no more items.
    spec fn left_coll(&self, b: Self, streaming_depth: Option<NonZeroU32>) -> bool { b.stk() =~= self.stk().drop_last() && b.state == coll(false, streaming_depth) }
//@fn Deserializer for TextDeserializer :: next_item | ret=r name=raw_next_item
//@sigsubst Self :: Error => DeserializeError<Reader::Position>
//@dropargs DeserializeError::new => de_error()
//@subst u32 :: from ( depth ) => depth.get()
//@spec
    requires old(self).coll_pre(), old(self).stk().last().collection_type is Array
    ensures old(self).marks(*final(self)),
        match r {
            Ok(x) => old(self).kept(*final(self)) && final(self).keys() == old(self).keys() && final(self).its() == old(self).its() && ({
                let n = old(self).stk().len() as int; let (at_start, sd) = old(self).more();
                if sd == depth_of(n) {
                    item_start(old(self).rest(), at_start, old(self).c()) == Some((x, final(self).rest()))
                        && if x { final(self).stk() == old(self).stk() && final(self).state is StreamingValue } else { old(self).left_coll(*final(self), depth_of(n - 1)) }
                } else {
                    final(self).rest() == old(self).rest() && match old(self).here() {
                        Some(i) => x && final(self).stk() =~= start_of(old(self).stk(), i as usize) && final(self).state == (DeserializerState::LookbackValue { index: i as usize, streaming_depth: sd }),
                        None => !x && old(self).left_coll(*final(self), sd),
                    }
                }
            }),
            Err(_) => old(self).more().1 == depth_of(old(self).stk().len() as int) && item_start(old(self).rest(), old(self).more().0, old(self).c()) is None,
        }
//@end
//@fn JsonDeserializer for TextDeserializer :: next_entry | ret=r name=raw_next_entry
//@sigsubst Self :: Error => DeserializeError<Reader::Position>
//@dropargs DeserializeError::new => de_error()
//@subst u32 :: from ( depth ) => depth.get()
//@subst | lookback_key | => |lookback_key: &LookbackKey| -> (e: bool) ensures e == (lookback_key.depth == depth && lookback_key.index == item_index)
//@subst key_data . as_ptr_range ( ) => span(key_data)
//@subst self . outline . lookback_data . as_ptr ( ) => &self.outline.lookback_data
//@subst key_data . start as usize - base_ptr as usize => key_data.start_in(base_ptr)
//@subst key_data . end as usize - base_ptr as usize => key_data.end_in(base_ptr)
//@spec
    requires old(self).coll_pre(), old(self).stk().last().collection_type is Object,
        table_ok(old(self).keys(), old(self).its(), old(self).data()),
        old(self).here() is Some ==> old(self).keys().dom().contains((old(self).stk().len() as int, old(self).here()->0)) // #C22 #C04
    ensures old(self).marks(*final(self)),
        match r {
            Ok(x) => old(self).kept(*final(self)) && ({
                let n = old(self).stk().len() as int; let (at_start, sd) = old(self).more();
                match old(self).here() {
                    Some(i) => x && final(self).rest() == old(self).rest() && final(self).stk() =~= start_of(old(self).stk(), i as usize) && final(self).its() =~= inactive(old(self).its(), i)
                        && final(self).keys() == old(self).keys().remove((n, i)) && match final(self).state {
                            DeserializerState::LookbackString { head_index, end_index, value_index, streaming_depth } => head_index <= end_index <= old(self).data().len() && value_index == Some(i as usize) && streaming_depth == sd
                                && old(self).data().subrange(head_index as int, end_index as int) == old(self).data().subrange(old(self).its()[i].data_index as int, kend(old(self).its()[i])),
                            _ => false,
                        },
                    None => old(self).same_its_keys(*final(self)) && if sd == depth_of(n) {
                        entry_start(old(self).rest(), at_start, old(self).c()) == Some((x, final(self).rest()))
                            && if x { final(self).stk() == old(self).stk() && final(self).state == (DeserializerState::StreamingString { is_key: true }) } else { old(self).left_coll(*final(self), depth_of(n - 1)) }
                    } else { !x && final(self).rest() == old(self).rest() && old(self).left_coll(*final(self), sd) },
                }
            }),
            Err(_) => old(self).here() is None && old(self).more().1 == depth_of(old(self).stk().len() as int) && entry_start(old(self).rest(), old(self).more().0, old(self).c()) is None,
        }
//@entry
    proof {
        lemma_here(self.its(), self.stk().last().first_child_index as int);
        if self.here() is Some { let kk = LookbackKey { depth: NonZeroU32 { v: self.stk().len() as u32 }, index: self.here()->0 as usize }; assert(self.keys().dom().contains(kp(kk))); }
    }
//@end
    spec fn same_its_keys(&self, b: Self) -> bool { b.its() == self.its() && b.keys() == self.keys() }
//@fn JsonDeserializer for TextDeserializer :: push_null | ret=r name=raw_push_null
//@spec
    requires old(self).reader.ok(), old(self).state is Collection
    ensures old(self).marks(*final(self)), old(self).kept(*final(self)), old(self).same_outline(*final(self)), final(self).rest() == old(self).rest(),
        final(self).state == (DeserializerState::NullValue { key, at_start: old(self).more().0, streaming_depth: old(self).more().1 })
//@end
    /// A string is on top.
    spec fn str_pre(&self) -> bool {
        self.reader.ok() && self.stk().len() < u32::MAX && match self.state {
            DeserializerState::StreamingString { .. } => true,
            DeserializerState::LookbackString { head_index, end_index, .. } => head_index <= end_index <= self.data().len() && valid_utf8(self.data().subrange(head_index as int, end_index as int)),
            _ => false,
        }
    }
    spec fn head(&self) -> Seq<char> { decode_utf8(self.data().subrange(self.state->head_index as int, self.state->end_index as int)) }
//@fn Deserializer for TextDeserializer :: next_char | ret=r name=raw_next_char
//@sigsubst Self :: Error => DeserializeError<Reader::Position>
//@dropargs DeserializeError::new => de_error()
//@subst str . chars ( ) => str.str_chars()
//@subst let str = chs . as_str ( ) ; => let ghost str0 = str; let str = chs.as_str();
//@subst str . as_ptr ( ) as usize - self . outline . lookback_data . as_ptr ( ) as usize => offset_within(str, Ghost(str0), Ghost(*head_index))
//@spec
    requires old(self).str_pre()
    ensures old(self).marks(*final(self)),
        match r {
            Ok(x) => old(self).kept(*final(self)) && old(self).same_outline(*final(self)) && match old(self).state {
                DeserializerState::StreamingString { is_key } => old(self).rest().len() > 0 && match x {
                    Some(ch) => final(self).state == old(self).state && old(self).rest()[0] != '"' && if old(self).rest()[0] == '\\' { escape(old(self).rest().drop_first()) == Some((ch, final(self).rest())) }
                        else { ch == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first() },
                    None => old(self).rest()[0] == '"' && if is_key { final(self).state is StreamingValue && after_colon(old(self).rest().drop_first(), old(self).c()) == Some(final(self).rest()) }
                        else { final(self).state == coll(false, depth_of(old(self).stk().len() as int)) && final(self).rest() == old(self).rest().drop_first() },
                },
                DeserializerState::LookbackString { head_index, end_index, value_index, streaming_depth } => final(self).rest() == old(self).rest() && match x {
                    Some(ch) => old(self).head().len() > 0 && ch == old(self).head()[0] && match final(self).state {
                        DeserializerState::LookbackString { head_index: h, end_index: e, value_index: v, streaming_depth: d } => e == end_index && v == value_index && d == streaming_depth && final(self).str_pre()
                            && final(self).head() == old(self).head().drop_first(),
                        _ => false,
                    },
                    None => old(self).head().len() == 0 && final(self).state == (match value_index { Some(index) => DeserializerState::LookbackValue { index, streaming_depth }, None => coll(false, streaming_depth) }),
                },
                _ => false,
            },
            Err(_) => match old(self).state {
                DeserializerState::StreamingString { is_key } => old(self).rest().len() == 0 || old(self).rest()[0] == '\\' && escape(old(self).rest().drop_first()) is None
                    || is_key && old(self).rest()[0] == '"' && after_colon(old(self).rest().drop_first(), old(self).c()) is None,
                _ => false,
            }
        }
//@entry
    proof { if self.state is LookbackString { lemma_head(self.data(), self.state->head_index as int, self.state->end_index as int); } }
//@end
}
spec fn is_of<T: NumOf>(n: NumLit, r: Option<T>) -> bool { r == T::of(n) }
