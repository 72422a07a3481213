// The operations of a TextDeserializer: what each does to its fields. (How that adds up to the API: unit textde.)
//@use json/src/deserialize/text.rs
//@item const VALUE_ALREADY_READ | & str => & 'static str
//@item const NOT_COLLECTION | & str => & 'static str
spec fn depth_of(n: int) -> Option<NonZeroU32> { if n == 0 { None } else { Some(NonZeroU32 { v: n as u32 }) } }
spec fn coll(at_start: bool, streaming_depth: Option<NonZeroU32>) -> DeserializerState { DeserializerState::Collection { at_start, streaming_depth } }
spec fn taken<P>(its: Items<P>, i: int) -> Items<P> { its.update(i, LookbackItem { value: None, ..its[i] }) }
spec fn value_bytes<P>(its: Items<P>, data: Seq<u8>, i: int) -> Seq<u8> { data.subrange(kend(its[i]), dend(its, data.len() as int, i)) }
spec fn has_value<P>(its: Items<P>, data: Seq<u8>, i: int) -> bool { i < its.len() && its[i].value is Some && kend(its[i]) <= dend(its, data.len() as int, i) <= data.len() }
spec fn forward<P>(its: Items<P>) -> bool { forall|i: int| 0 <= i < its.len() ==> i < (#[trigger] its[i]).next_sibling_index }
/// The first item from `i` on, in its collection, that still has its value.
spec fn next_unread<P>(its: Items<P>, i: int) -> Option<int>
    decreases if i < its.len() { its.len() - i } else { 0 }
{
    if i < 0 || i >= its.len() { None } else if its[i].value is Some { Some(i) } else if its[i].next_sibling_index <= i { None } else { next_unread(its, its[i].next_sibling_index as int) }
}

impl<Position> StackItem<Position> {
//@for F,O in assert_object,Object assert_array,Array
//@fn StackItem :: $F
//@spec
    requires self.collection_type is $O // #C22 #C04
//@end
//@endfor
}
impl<Position> Outline<Position> {
//@fn Default for Outline :: default | ret=r
//@subst lookback_keys : Default :: default ( ) => lookback_keys: KeyTable::empty()
//@subst lookback_data : Vec :: new ( ) => lookback_data: Vec::new(), nodes: Ghost(Seq::empty()), folds: Ghost(Seq::empty()), born: Ghost(0)
//@spec
    ensures
        r.stack_items@ == Seq::<StackItem<Position>>::empty(), r.lookback_items@ == Seq::<LookbackItem<Position>>::empty(), r.lookback_data@ == Seq::<u8>::empty(),
        r.lookback_keys@ == Map::<(int, int), u64>::empty(), r.nodes@ == Seq::<Node>::empty(), r.folds@ == Seq::<Fold>::empty(), r.born@ == 0
//@end
//@fn Outline :: top_depth | ret=r
//@subst self . stack_items . len ( ) . try_into ( ) . unwrap ( ) => to_u32(self.stack_items.len())
//@spec
    requires self.stack_items@.len() <= u32::MAX // #C12
    ensures r == depth_of(self.stack_items@.len() as int)
//@end
//@fn Outline :: take_value | ret=r
//@subst map ( | item | item . data_index ) => map(|item: &LookbackItem<Position>| -> (r: usize) ensures r == item.data_index { item.data_index })
//@spec
    requires has_value(old(self).lookback_items@, old(self).lookback_data@, index as int) // #C22 #C04
    ensures
        r.1 == old(self).lookback_items@[index as int].value->0, r.2@ == value_bytes(old(self).lookback_items@, old(self).lookback_data@, index as int),
        final(self).lookback_items@ == taken(old(self).lookback_items@, index as int),
        final(self).stack_items == old(self).stack_items, final(self).lookback_keys == old(self).lookback_keys, final(self).lookback_data == old(self).lookback_data,
        final(self).nodes == old(self).nodes, final(self).folds == old(self).folds, final(self).born == old(self).born,
//@entry
    assert(self.lookback_data.len() <= usize::MAX && self.lookback_items.len() <= usize::MAX);
//@end
}
//@fn first_unread_child | ret=r loops=1
//@spec
    requires forward(lookback_items@)
    ensures match r {
        Some(i) => next_unread(lookback_items@, *old(first_child_index) as int) == Some(i as int) && *final(first_child_index) == i,
        None => next_unread(lookback_items@, *old(first_child_index) as int) is None && *final(first_child_index) == *old(first_child_index),
    }
//@loop 1
    invariant forward(lookback_items@), next_unread(lookback_items@, child_index as int) == next_unread(lookback_items@, *old(first_child_index) as int), *first_child_index == *old(first_child_index),
    decreases if child_index < lookback_items@.len() { lookback_items@.len() - child_index } else { 0 }
//@end
impl<Position> LookbackItem<Position> {
//@fn LookbackItem :: key_bytes | ret=r
//@spec
    requires kend(*self) <= lookback_data@.len() // #C22 #C04
    ensures r@ == lookback_data@.subrange(self.data_index as int, kend(*self))
//@entry
    assert(lookback_data.len() <= usize::MAX);
//@end
}
impl LookbackKey {
//@fn LookbackKey :: hash | ret=r
//@spec
    requires self.index < lookback_items@.len(), kend(lookback_items@[self.index as int]) <= lookback_data@.len() // #C22 #C04
    ensures r == hash_of(self.depth.v as int, lookback_data@.subrange(lookback_items@[self.index as int].data_index as int, kend(lookback_items@[self.index as int])))
//@end
}
