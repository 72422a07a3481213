// The implementations of Serialize (core/src/serialize.rs): each makes exactly the operations that write its value.

/// The operations from `a` to `b` all succeeded and computed `s`.
spec fn went(a: W, s: Option<Sem>, b: W) -> bool { same(a, b) && b.failed == a.failed && (!a.failed && !a.bad ==> s == Some(b.sem)) }
/// One of the operations that compute `s` failed.
spec fn broke(a: W, s: Option<Sem>, b: W) -> bool { same(a, b) && b.failed && (!a.failed ==> a.faulty || a.bad || s is None) }
/// A value was written in place of the value on top.
spec fn put(a: W, ok: bool, v: V, b: W, bf: bool) -> bool {
    if ok { bf && went(a, wv(Some(a.sem), v), b) && (!a.failed ==> b.stack =~= a.stack.drop_last()) }
    else { broke(a, wv(Some(a.sem), v), b) }
}
/// Fields were written into the struct on top.
spec fn put_fields(a: W, ok: bool, fs: Seq<(Seq<char>, V)>, b: W, bf: bool) -> bool {
    if ok { bf && went(a, wv_fields(Some(a.sem), fs), b) && (!a.failed ==> b.stack =~= a.stack) }
    else { broke(a, wv_fields(Some(a.sem), fs), b) }
}
//@use core/src/serialize.rs
trait Serialize<S: Serializer + ?Sized, Ctx: ?Sized = ()> {
    const NULLABLE: bool;
    /// What the value is made of, for a serializer that supports null or does not.
    spec fn val(&self, null: bool) -> V;
    /// Only a nullable type may be written as null.
    proof fn law(&self)
        ensures !Self::NULLABLE ==> self.val(true) !is Null
    ;
//@fn Serialize :: serialize | ret=r sig
//@spec
    requires !*value.done_flag, value_ok(value.source.w(), *value.done_flag)
    ensures put(old(value.source).w(), r is Ok, self.val(old(value.source).w().null), final(value.source).w(), *final(value.done_flag))
//@end
}
/// (The supertrait Serialize is left out: no verified function uses it through this trait.)
trait SerializeStruct<S: Serializer + ?Sized, Ctx: ?Sized = ()> {
    spec fn fields(&self, null: bool) -> Seq<(Seq<char>, V)>;
//@fn SerializeStruct :: serialize_content | ret=r sig
//@spec
    requires old(st).ready_flag, struct_ok(old(st).source.w(), old(st).ready_flag)
    ensures put_fields(old(st).source.w(), r is Ok, self.fields(old(st).source.w().null), final(st).source.w(), final(st).ready_flag), *final(st).done_flag == *old(st).done_flag,
        final(final(st).source).w() == final(old(st).source).w(), *final(final(st).done_flag) == *final(old(st).done_flag)
//@end
}
//@use core/src/helper.rs
impl<'a, S: Serializer + ?Sized> Value<'a, S> {
//@fn Value :: put_using | ret=r
//@spec
    requires !*self.done_flag, value_ok(self.source.w(), *self.done_flag)
    ensures put(old(self.source).w(), r is Ok, value.val(old(self.source).w().null), final(self.source).w(), *final(self.done_flag))
//@end
//@fn Value :: put | ret=r
//@spec
    requires !*self.done_flag, value_ok(self.source.w(), *self.done_flag)
    ensures put(old(self.source).w(), r is Ok, value.val(old(self.source).w().null), final(self.source).w(), *final(self.done_flag))
//@end
}
impl<'a, S: Serializer + ?Sized> Struct<'a, S> {
//@for F in inline_put inline_put_using
//@fn Struct :: $F | ret=r
//@spec
    requires old(self).ready_flag, struct_ok(old(self).source.w(), old(self).ready_flag)
    ensures put_fields(old(self).source.w(), r is Ok, value.fields(old(self).source.w().null), final(self).source.w(), final(self).ready_flag), *final(self).done_flag == *old(self).done_flag,
        final(final(self).source).w() == final(old(self).source).w(), *final(final(self).done_flag) == *final(old(self).done_flag)
//@end
//@endfor
}
//@use core/src/serialize.rs
//@fn serialize_struct | ret=r
//@spec
    requires !*target.done_flag, value_ok(target.source.w(), *target.done_flag)
    ensures put(old(target.source).w(), r is Ok, V::Struct(ostr(type_name), value.fields(old(target.source).w().null)), final(target.source).w(), *final(target.done_flag))
//@entry
    proof { lemma_fields_none(None, value.fields(target.source.w().null), 0); }
//@end
//@for T,V in bool,Bool f32,F32 f64,F64 char,Char
impl<S: Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for $T {
//@item const Serialize for $T :: NULLABLE
    spec fn val(&self, null: bool) -> V { V::$V(*self) }
    proof fn law(&self) {}
//@fn Serialize for $T :: serialize | ret=r
//@end
}
//@endfor
//@for T,V in i8,I8 i16,I16 i32,I32 i64,I64 u8,U8 u16,U16 u32,U32 u64,U64
impl<S: Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for $T {
//@item const Serialize for $T :: NULLABLE
    spec fn val(&self, null: bool) -> V { V::Int($V, *self as int) }
    proof fn law(&self) {}
//@fn Serialize for $T :: serialize | ret=r
//@end
}
//@endfor
//@for T in str String
impl<S: Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for $T {
//@item const Serialize for $T :: NULLABLE
    spec fn val(&self, null: bool) -> V { V::Str(self@) }
    proof fn law(&self) {}
//@fn Serialize for $T :: serialize | ret=r
//@end
}
//@endfor
impl<S: Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for () {
//@item const Serialize for ( ) :: NULLABLE
    spec fn val(&self, null: bool) -> V { V::Struct(None, Seq::empty()) }
    proof fn law(&self) {}
//@fn Serialize for ( ) :: serialize | ret=r
//@end
}
impl<S: Serializer + ?Sized, Ctx: ?Sized> SerializeStruct<S, Ctx> for () {
    spec fn fields(&self, null: bool) -> Seq<(Seq<char>, V)> { Seq::empty() }
//@fn SerializeStruct for ( ) :: serialize_content | ret=r
//@end
}
/// An option of a type that is never null is null or the value; any other is a struct that says which it is.
spec fn opt_val(none: bool, v: V, niche: bool) -> V {
    if niche { if none { V::Null } else { v } }
    else if none { V::Struct(Some("Option"@), seq![("has_value"@, V::Bool(false))]) }
    else { V::Struct(Some("Option"@), seq![("has_value"@, V::Bool(true)), ("value"@, v)]) }
}
proof fn lemma_opt(s: Option<Sem>, v: V)
    ensures
        ({
            let h = then(then(s, Op::OpenStruct(Some("Option"@))), Op::PushField("has_value"@));
            let some = wv(s, opt_val(false, v, false)); let none = wv(s, opt_val(true, v, false));
            let t = then(then(h, Op::PutBool(true)), Op::PushField("value"@));
            &&& none == then(then(h, Op::PutBool(false)), Op::CloseStruct)
            &&& some == then(wv(t, v), Op::CloseStruct)
            &&& wv(None, v) is None
        })
{
    let o = then(s, Op::OpenStruct(Some("Option"@)));
    let f1 = ("has_value"@, V::Bool(true)); let f2 = ("value"@, v); let f3 = ("has_value"@, V::Bool(false));
    let e = Seq::<(Seq<char>, V)>::empty();
    lemma_push_field(o, e, f1); lemma_push_field(o, e.push(f1), f2); lemma_push_field(o, e, f3);
    assert(e.push(f1).push(f2) =~= seq![f1, f2]); assert(e.push(f3) =~= seq![f3]);
    assert(wv_fields(o, e) == o);
    lemma_wv_none(v);
}
impl<S: Serializer + ?Sized, Ctx: ?Sized, T: Serialize<S, Ctx>> Serialize<S, Ctx> for Option<T> {
//@item const Serialize for Option :: NULLABLE
    spec fn val(&self, null: bool) -> V {
        match self { None => opt_val(true, V::Null, null && !T::NULLABLE), Some(x) => opt_val(false, x.val(null), null && !T::NULLABLE) }
    }
    proof fn law(&self) {}
//@fn Serialize for Option :: serialize | ret=r
//@entry
    proof {
        if self is Some { self->0.law(); }
        if !old(value.source).w().failed { lemma_opt(Some(old(value.source).w().sem), if self is Some { self->0.val(old(value.source).w().null) } else { V::Null }); }
    }
//@end
}
impl<S: Serializer + ?Sized, Ctx: ?Sized, T0: Serialize<S, Ctx>, T1: Serialize<S, Ctx>> Serialize<S, Ctx> for (T0, T1) {
//@item const Serialize for ( T0 , T1 ) :: NULLABLE
    spec fn val(&self, null: bool) -> V { V::Tuple(None, seq![self.0.val(null), self.1.val(null)]) }
    proof fn law(&self) {}
//@fn Serialize for ( T0 , T1 ) :: serialize | ret=r
//@entry
    proof {
        let o = then(Some(old(value.source).w().sem), Op::OpenTuple(None));
        let null = old(value.source).w().null; let v0 = self.0.val(null); let v1 = self.1.val(null);
        lemma_element(o, Seq::empty(), v0); lemma_element(o, seq![v0], v1);
        assert(Seq::empty().push(v0) =~= seq![v0]); assert(seq![v0].push(v1) =~= seq![v0, v1]);
        if o is None { lemma_elements_none(o, seq![v0, v1], 0); }
    }
//@end
}
impl<S: Serializer + ?Sized, Ctx: ?Sized, T0: Serialize<S, Ctx>, T1: Serialize<S, Ctx>, T2: Serialize<S, Ctx>> Serialize<S, Ctx> for (T0, T1, T2) {
//@item const Serialize for ( T0 , T1 , T2 ) :: NULLABLE
    spec fn val(&self, null: bool) -> V { V::Tuple(None, seq![self.0.val(null), self.1.val(null), self.2.val(null)]) }
    proof fn law(&self) {}
//@fn Serialize for ( T0 , T1 , T2 ) :: serialize | ret=r
//@entry
    proof {
        let o = then(Some(old(value.source).w().sem), Op::OpenTuple(None));
        let null = old(value.source).w().null; let v0 = self.0.val(null); let v1 = self.1.val(null); let v2 = self.2.val(null);
        lemma_element(o, Seq::empty(), v0); lemma_element(o, seq![v0], v1); lemma_element(o, seq![v0, v1], v2);
        assert(Seq::empty().push(v0) =~= seq![v0]); assert(seq![v0].push(v1) =~= seq![v0, v1]); assert(seq![v0, v1].push(v2) =~= seq![v0, v1, v2]);
    }
//@end
}
/// The contents of the items of a sequence.
spec fn vals<T: Serialize<S, Ctx>, S: Serializer + ?Sized, Ctx: ?Sized>(xs: Seq<T>, null: bool) -> Seq<V> { Seq::new(xs.len(), |i: int| xs[i].val(null)) }
impl<S: Serializer + ?Sized, Ctx: ?Sized, T: Serialize<S, Ctx>, const N: usize> Serialize<S, Ctx> for [T; N] {
//@item const Serialize for [ T ; N ] :: NULLABLE
    spec fn val(&self, null: bool) -> V { V::Tuple(None, vals::<T, S, Ctx>(self@, null)) }
    proof fn law(&self) {}
//@fn Serialize for [ T ; N ] :: serialize | ret=r loops=1
//@entry
    let ghost a = value.source.w(); let ghost b = final(value.source).w(); let ghost bf = *final(value.done_flag);
    let ghost vs = vals::<T, S, Ctx>(self@, a.null);
    let ghost o = then(Some(a.sem), Op::OpenTuple(None));
    proof { assert(wv(Some(a.sem), V::Tuple(None, vs)) == then(wv_elements(o, vs), Op::CloseTuple)); if o is None { lemma_elements_none(o, vs, 0); } }
//@loop 1
    invariant
        final(tuple.source).w() == b, *final(tuple.done_flag) == bf, !*tuple.done_flag, tuple.ready_flag,
        went(a, wv_elements(o, vs.take(it1.index())), tuple.source.w()), !a.failed ==> tuple.source.w().stack =~= a.stack.drop_last().push(Fr::Tuple),
        vs == vals::<T, S, Ctx>(self@, a.null), it1.seq().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] it1.seq()[i]) == self@[i],
//@in 1
    proof { lemma_element(o, vs.take(it1.index()), vs[it1.index()]); assert(vs.take(it1.index() + 1) =~= vs.take(it1.index()).push(vs[it1.index()]));
        if wv_elements(o, vs.take(it1.index() + 1)) is None { lemma_elements_none(o, vs, it1.index() + 1); } }
//@after-loop 1
    proof { assert(vs.take(vs.len() as int) =~= vs); }
//@end
}
impl<S: Serializer + ?Sized, Ctx: ?Sized, T: Serialize<S, Ctx>> Serialize<S, Ctx> for Vec<T> {
//@item const Serialize for Vec :: NULLABLE
    spec fn val(&self, null: bool) -> V { V::List(vals::<T, S, Ctx>(self@, null)) }
    proof fn law(&self) {}
//@fn Serialize for Vec :: serialize | ret=r loops=1
//@entry
    let ghost a = value.source.w(); let ghost b = final(value.source).w(); let ghost bf = *final(value.done_flag);
    let ghost vs = vals::<T, S, Ctx>(self@, a.null);
    let ghost o = then(Some(a.sem), Op::OpenListSized(vs.len()));
    proof { assert(wv(Some(a.sem), V::List(vs)) == then(wv_items(o, vs), Op::CloseList)); if o is None { lemma_items_none(o, vs, 0); } }
//@loop 1
    invariant
        final(list.source).w() == b, *final(list.done_flag) == bf, !*list.done_flag, list.ready_flag, list.is_len_known, list.rem_len == vs.len() - it1.index(),
        went(a, wv_items(o, vs.take(it1.index())), list.source.w()), !a.failed ==> list.source.w().stack =~= a.stack.drop_last().push(Fr::List(Some(list.rem_len as nat))),
        vs == vals::<T, S, Ctx>(self@, a.null), it1.seq().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] it1.seq()[i]) == self@[i],
//@in 1
    proof { lemma_item(o, vs.take(it1.index()), vs[it1.index()]); assert(vs.take(it1.index() + 1) =~= vs.take(it1.index()).push(vs[it1.index()]));
        if wv_items(o, vs.take(it1.index() + 1)) is None { lemma_items_none(o, vs, it1.index() + 1); } }
//@after-loop 1
    proof { assert(vs.take(vs.len() as int) =~= vs); }
//@end
}
//@for T,V in NonZeroI8,I8 NonZeroI16,I16 NonZeroI32,I32 NonZeroI64,I64 NonZeroU8,U8 NonZeroU16,U16 NonZeroU32,U32 NonZeroU64,U64
impl<S: Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for std::num::$T {
//@item const Serialize for std :: num :: $T :: NULLABLE
    spec fn val(&self, null: bool) -> V { V::Int($V, self@ as int) }
    proof fn law(&self) {}
//@fn Serialize for std :: num :: $T :: serialize | ret=r
//@end
}
//@endfor
