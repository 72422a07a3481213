// The implementations of Deserialize (core/src/deserialize.rs): which values they accept, and what they make of them.

spec fn is_value(v: DF) -> bool { v is Val || v is Missing }
spec fn is_struct(v: DF) -> bool { v is Obj || v is Arr }
/// There is a value (or a missing entry) to read, and no operation has failed before.
spec fn at_value(w: W) -> bool { !w.failed && top_is(w.stack, Fr::Value) && (!w.bad ==> w.sem.len() > 0 && is_value(w.sem.last())) }
spec fn at_struct(w: W) -> bool { !w.failed && top_fields(w.stack) && (!w.bad ==> w.sem.len() > 0 && is_struct(w.sem.last())) }
/// A value was read: exactly it.
spec fn got(a: W, b: W, bf: bool) -> bool { bf && same(a, b) && !b.failed && b.stack =~= a.stack.drop_last() && (!a.bad ==> b.sem =~= a.sem.drop_last()) }
/// Reading a value was refused; if the deserializer can go on, it was read.
spec fn refused(a: W, b: W, bf: bool) -> bool { same(a, b) && (bf ==> b.failed || b.stack =~= a.stack.drop_last()) }
/// Fields were read from the struct on top; `rest` is left of it.
spec fn got_fields(a: W, rest: DF, b: W, bf: bool) -> bool { bf && same(a, b) && !b.failed && b.stack =~= a.stack && (!a.bad ==> b.sem =~= a.sem.drop_last().push(rest)) }
spec fn refused_fields(a: W, b: W, bf: bool) -> bool { same(a, b) && (bf ==> b.failed || b.stack =~= a.stack) }
/// What may be refused.
spec fn excused(a: W) -> bool { a.faulty || a.bad }

/// The struct that a value is opened as.
spec fn opened(v: DF) -> Option<DF> {
    match v { DF::Val(J::Obj(es)) => Some(DF::Obj(es)), DF::Val(J::Arr(js)) => Some(DF::Arr(js)), _ => None }
}
/// The value of a field and what is left of the struct: by name in an object, by position in an array.
spec fn field(v: DF, name: Seq<char>) -> Option<(DF, DF)> {
    match v {
        DF::Obj(es) => match at_key(es, name) { Some(i) => Some((DF::Val(es[i].1), DF::Obj(es.remove(i)))), None => Some((DF::Missing, DF::Obj(es))) },
        DF::Arr(js) => if js.len() == 0 { None } else { Some((DF::Val(js[0]), DF::Arr(js.drop_first()))) },
        _ => None,
    }
}
/// May the struct be closed? An object with more entries may, an array with more items may not.
spec fn closes(v: DF) -> bool { match v { DF::Obj(_) => true, DF::Arr(js) => js.len() == 0, _ => false } }

//@use core/src/deserialize.rs
trait Deserialize<D: Deserializer + ?Sized, Ctx: ?Sized = ()>: Sized {
    const NULLABLE: bool;
    /// Is the value accepted?
    spec fn ok(v: DF, null: bool) -> bool;
    /// Is `x` what it is read as?
    spec fn is(v: DF, x: Self, null: bool) -> bool;
    /// Only a nullable type accepts null, or a missing entry.
    proof fn law(null: bool)
        ensures !Self::NULLABLE ==> !Self::ok(DF::Val(J::Null), null) && !Self::ok(DF::Missing, null)
    ;
//@fn Deserialize :: deserialize | ret=r sig
//@spec
    requires !*value.done_flag, value_ok(value.source.w(), *value.done_flag), at_value(value.source.w())
    ensures match r {
        Ok(x) => got(old(value.source).w(), final(value.source).w(), *final(value.done_flag))
            && (!old(value.source).w().bad ==> Self::ok(old(value.source).w().sem.last(), old(value.source).w().null) && Self::is(old(value.source).w().sem.last(), x, old(value.source).w().null)),
        Err(_) => refused(old(value.source).w(), final(value.source).w(), *final(value.done_flag))
            && (excused(old(value.source).w()) || !Self::ok(old(value.source).w().sem.last(), old(value.source).w().null)) }
//@end
}
/// (The supertrait Deserialize is left out: no verified function uses it through this trait.)
trait DeserializeStruct<D: Deserializer + ?Sized, Ctx: ?Sized = ()>: Sized {
    spec fn sok(v: DF, null: bool) -> bool;
    spec fn sis(v: DF, x: Self, null: bool) -> bool;
    /// What is left of the struct after the fields of this type.
    spec fn rest(v: DF) -> DF;
//@fn DeserializeStruct :: deserialize_content | ret=r sig
//@spec
    requires old(st).ready_flag, struct_ok(old(st).source.w(), old(st).ready_flag), at_struct(old(st).source.w())
    ensures *final(st).done_flag == *old(st).done_flag,
        final(final(st).source).w() == final(old(st).source).w(), *final(final(st).done_flag) == *final(old(st).done_flag),
        match r {
            Ok(x) => got_fields(old(st).source.w(), Self::rest(old(st).source.w().sem.last()), final(st).source.w(), final(st).ready_flag)
                && (!old(st).source.w().bad ==> Self::sok(old(st).source.w().sem.last(), old(st).source.w().null) && Self::sis(old(st).source.w().sem.last(), x, old(st).source.w().null)),
            Err(_) => refused_fields(old(st).source.w(), final(st).source.w(), final(st).ready_flag)
                && (excused(old(st).source.w()) || !Self::sok(old(st).source.w().sem.last(), old(st).source.w().null)) }
//@end
}
//@use core/src/helper.rs
impl<'a, D: Deserializer + ?Sized> Value<'a, D> {
//@for F in get get_using
//@fn Value :: $F | ret=r
//@spec
    requires !*self.done_flag, value_ok(self.source.w(), *self.done_flag), at_value(self.source.w())
    ensures match r {
        Ok(x) => got(old(self.source).w(), final(self.source).w(), *final(self.done_flag))
            && (!old(self.source).w().bad ==> T::ok(old(self.source).w().sem.last(), old(self.source).w().null) && T::is(old(self.source).w().sem.last(), x, old(self.source).w().null)),
        Err(_) => refused(old(self.source).w(), final(self.source).w(), *final(self.done_flag))
            && (excused(old(self.source).w()) || !T::ok(old(self.source).w().sem.last(), old(self.source).w().null)) }
//@end
//@endfor
}
impl<'a, D: Deserializer + ?Sized> Struct<'a, D> {
//@for F in inline_get inline_get_using
//@fn Struct :: $F | ret=r
//@spec
    requires old(self).ready_flag, struct_ok(old(self).source.w(), old(self).ready_flag), at_struct(old(self).source.w())
    ensures *final(self).done_flag == *old(self).done_flag,
        final(final(self).source).w() == final(old(self).source).w(), *final(final(self).done_flag) == *final(old(self).done_flag),
        match r {
            Ok(x) => got_fields(old(self).source.w(), T::rest(old(self).source.w().sem.last()), final(self).source.w(), final(self).ready_flag)
                && (!old(self).source.w().bad ==> T::sok(old(self).source.w().sem.last(), old(self).source.w().null) && T::sis(old(self).source.w().sem.last(), x, old(self).source.w().null)),
            Err(_) => refused_fields(old(self).source.w(), final(self).source.w(), final(self).ready_flag)
                && (excused(old(self).source.w()) || !T::sok(old(self).source.w().sem.last(), old(self).source.w().null)) }
//@end
//@endfor
}
/// A struct is read from an object or an array which has its fields.
spec fn struct_okv<T: DeserializeStruct<D, Ctx>, D: Deserializer + ?Sized, Ctx: ?Sized>(v: DF, null: bool) -> bool {
    opened(v) is Some && T::sok(opened(v)->0, null) && closes(T::rest(opened(v)->0))
}
//@use core/src/deserialize.rs
//@fn deserialize_struct | ret=r
//@spec
    requires !*value.done_flag, value_ok(value.source.w(), *value.done_flag), at_value(value.source.w())
    ensures match r {
        Ok(x) => got(old(value.source).w(), final(value.source).w(), *final(value.done_flag))
            && (!old(value.source).w().bad ==> struct_okv::<T, D, Ctx>(old(value.source).w().sem.last(), old(value.source).w().null) && T::sis(opened(old(value.source).w().sem.last())->0, x, old(value.source).w().null)),
        Err(_) => refused(old(value.source).w(), final(value.source).w(), *final(value.done_flag))
            && (excused(old(value.source).w()) || !struct_okv::<T, D, Ctx>(old(value.source).w().sem.last(), old(value.source).w().null)) }
//@end
impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for bool {
//@item const Deserialize for bool :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool { v is Val && v->Val_0 is Bool }
    spec fn is(v: DF, x: Self, null: bool) -> bool { v == DF::Val(J::Bool(x)) }
    proof fn law(null: bool) {}
//@fn Deserialize for bool :: deserialize | ret=r
//@end
}
//@for T,F in f32,f32_read f64,f64_read
impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for $T {
//@item const Deserialize for $T :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool { v is Val && v->Val_0 is Num }
    spec fn is(v: DF, x: Self, null: bool) -> bool { match v { DF::Val(J::Num(t)) => $F(t) == x, _ => false } }
    proof fn law(null: bool) {}
//@fn Deserialize for $T :: deserialize | ret=r
//@end
}
//@endfor
//@for T,V in i8,I8 i16,I16 i32,I32 i64,I64 u8,U8 u16,U16 u32,U32 u64,U64
impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for $T {
//@item const Deserialize for $T :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool { match v { DF::Val(J::Num(t)) => int_read($V, t) is Some, _ => false } }
    spec fn is(v: DF, x: Self, null: bool) -> bool { match v { DF::Val(J::Num(t)) => int_read($V, t) == Some(x as int), _ => false } }
    proof fn law(null: bool) {}
//@fn Deserialize for $T :: deserialize | ret=r
//@end
}
//@endfor
impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for char {
//@item const Deserialize for char :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool { match v { DF::Val(J::Str(cs)) => cs.len() == 1, _ => false } }
    spec fn is(v: DF, x: Self, null: bool) -> bool { match v { DF::Val(J::Str(cs)) => cs.len() == 1 && cs[0] == x, _ => false } }
    proof fn law(null: bool) {}
//@fn Deserialize for char :: deserialize | ret=r
//@end
}
impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for String {
//@item const Deserialize for String :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool { v is Val && v->Val_0 is Str }
    spec fn is(v: DF, x: Self, null: bool) -> bool { v == DF::Val(J::Str(x@)) }
    proof fn law(null: bool) {}
//@fn Deserialize for String :: deserialize | ret=r
//@end
}
impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for () {
//@item const Deserialize for ( ) :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool { opened(v) is Some && closes(opened(v)->0) }
    spec fn is(v: DF, x: Self, null: bool) -> bool { true }
    proof fn law(null: bool) {}
//@fn Deserialize for ( ) :: deserialize | ret=r
//@end
}
impl<D: Deserializer + ?Sized, Ctx: ?Sized> DeserializeStruct<D, Ctx> for () {
    spec fn sok(v: DF, null: bool) -> bool { true }
    spec fn sis(v: DF, x: Self, null: bool) -> bool { true }
    spec fn rest(v: DF) -> DF { v }
//@fn DeserializeStruct for ( ) :: deserialize_content | ret=r
//@end
}
/// An option of a type that is never null is null or the value; any other is a struct that says which it is.
spec fn opt_ok<T: Deserialize<D, Ctx>, D: Deserializer + ?Sized, Ctx: ?Sized>(v: DF, null: bool) -> bool {
    if null && !T::NULLABLE { v is Missing || v == DF::Val(J::Null) || T::ok(v, null) }
    else {
        opened(v) is Some && {
            let f1 = field(opened(v)->0, "has_value"@);
            f1 is Some && match (f1->0).0 {
                DF::Val(J::Bool(false)) => closes((f1->0).1),
                DF::Val(J::Bool(true)) => { let f2 = field((f1->0).1, "value"@); f2 is Some && T::ok((f2->0).0, null) && closes((f2->0).1) },
                _ => false,
            }
        }
    }
}
spec fn opt_is<T: Deserialize<D, Ctx>, D: Deserializer + ?Sized, Ctx: ?Sized>(v: DF, x: Option<T>, null: bool) -> bool {
    if null && !T::NULLABLE { if v is Missing || v == DF::Val(J::Null) { x is None } else { x is Some && T::is(v, x->0, null) } }
    else {
        let f1 = field(opened(v)->0, "has_value"@)->0;
        if f1.0 == DF::Val(J::Bool(false)) { x is None } else { x is Some && T::is((field(f1.1, "value"@)->0).0, x->0, null) }
    }
}
impl<D: Deserializer + ?Sized, Ctx: ?Sized, T: Deserialize<D, Ctx>> Deserialize<D, Ctx> for Option<T> {
//@item const Deserialize for Option :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool { opt_ok::<T, D, Ctx>(v, null) }
    spec fn is(v: DF, x: Self, null: bool) -> bool { opt_is::<T, D, Ctx>(v, x, null) }
    proof fn law(null: bool) {}
//@fn Deserialize for Option :: deserialize | ret=r
//@entry
    proof { T::law(value.source.w().null); }
//@subst . map ( Some ) => . map ( |x: T| -> (y: Option<T>) ensures y == Some(x) { Some(x) } )
//@end
}
impl<D: Deserializer + ?Sized, Ctx: ?Sized, T0: Deserialize<D, Ctx>, T1: Deserialize<D, Ctx>> Deserialize<D, Ctx> for (T0, T1) {
//@item const Deserialize for ( T0 , T1 ) :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool {
        match v { DF::Val(J::Arr(js)) => js.len() == 2 && T0::ok(DF::Val(js[0]), null) && T1::ok(DF::Val(js[1]), null), _ => false }
    }
    spec fn is(v: DF, x: Self, null: bool) -> bool {
        match v { DF::Val(J::Arr(js)) => js.len() == 2 && T0::is(DF::Val(js[0]), x.0, null) && T1::is(DF::Val(js[1]), x.1, null), _ => false }
    }
    proof fn law(null: bool) {}
//@fn Deserialize for ( T0 , T1 ) :: deserialize | ret=r
//@end
}
impl<D: Deserializer + ?Sized, Ctx: ?Sized, T0: Deserialize<D, Ctx>, T1: Deserialize<D, Ctx>, T2: Deserialize<D, Ctx>> Deserialize<D, Ctx> for (T0, T1, T2) {
//@item const Deserialize for ( T0 , T1 , T2 ) :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool {
        match v { DF::Val(J::Arr(js)) => js.len() == 3 && T0::ok(DF::Val(js[0]), null) && T1::ok(DF::Val(js[1]), null) && T2::ok(DF::Val(js[2]), null), _ => false }
    }
    spec fn is(v: DF, x: Self, null: bool) -> bool {
        match v { DF::Val(J::Arr(js)) => js.len() == 3 && T0::is(DF::Val(js[0]), x.0, null) && T1::is(DF::Val(js[1]), x.1, null) && T2::is(DF::Val(js[2]), x.2, null), _ => false }
    }
    proof fn law(null: bool) {}
//@fn Deserialize for ( T0 , T1 , T2 ) :: deserialize | ret=r
//@end
}
spec fn items_ok<T: Deserialize<D, Ctx>, D: Deserializer + ?Sized, Ctx: ?Sized>(js: Seq<J>, null: bool) -> bool {
    forall|i: int| 0 <= i < js.len() ==> T::ok(DF::Val(#[trigger] js[i]), null)
}
spec fn items_are<T: Deserialize<D, Ctx>, D: Deserializer + ?Sized, Ctx: ?Sized>(js: Seq<J>, xs: Seq<T>, null: bool) -> bool {
    js.len() == xs.len() && forall|i: int| 0 <= i < js.len() ==> T::is(DF::Val(#[trigger] js[i]), xs[i], null)
}
impl<D: Deserializer + ?Sized, Ctx: ?Sized, T: Deserialize<D, Ctx>> Deserialize<D, Ctx> for Vec<T> {
//@item const Deserialize for Vec :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool { match v { DF::Val(J::Arr(js)) => items_ok::<T, D, Ctx>(js, null), _ => false } }
    spec fn is(v: DF, x: Self, null: bool) -> bool { match v { DF::Val(J::Arr(js)) => items_are::<T, D, Ctx>(js, x@, null), _ => false } }
    proof fn law(null: bool) {}
//@fn Deserialize for Vec :: deserialize | ret=r loops=1
//@entry
    let ghost a = value.source.w(); let ghost b = final(value.source).w(); let ghost bf = *final(value.done_flag);
    let ghost js = match a.sem.last() { DF::Val(J::Arr(js)) => js, _ => Seq::empty() };
    proof { assert(js.skip(0) =~= js); assert(js.take(js.len() as int) =~= js); }
//@loop 1
    invariant_except_break
        !*list.done_flag, list.ready_flag,
        !a.bad ==> res.len() <= js.len() && list.source.w().sem =~= a.sem.drop_last().push(DF::Arr(js.skip(res.len() as int)))
            && items_are::<T, D, Ctx>(js.take(res.len() as int), res@, a.null) && items_ok::<T, D, Ctx>(js.take(res.len() as int), a.null),
        list.source.w().stack.len() == a.stack.len(), list.source.w().stack.drop_last() =~= a.stack.drop_last(),
        list_ok(list.source.w(), list.ready_flag, list.is_len_known, list.rem_len),
    invariant
        !a.failed, !a.bad ==> a.sem.len() > 0 && a.sem.last() == DF::Val(J::Arr(js)), a.stack.len() > 0,
        final(list.source).w() == b, *final(list.done_flag) == bf, same(a, list.source.w()), !list.source.w().failed,
    ensures
        *list.done_flag, list.source.w().stack =~= a.stack.drop_last(),
        !a.bad ==> res.len() == js.len() && list.source.w().sem =~= a.sem.drop_last()
            && items_are::<T, D, Ctx>(js, res@, a.null) && items_ok::<T, D, Ctx>(js, a.null),
    decreases list.source.w().fuel
//@in 1
    proof {
        let k = res.len() as int;
        if !a.bad { assert(js.skip(k).drop_first() =~= js.skip(k + 1)); assert(js.skip(k)[0] == js[k]); assert(js.take(k + 1) =~= js.take(k).push(js[k])); }
    }
//@end
}
/// core::array::from_fn(|_| None), and res.map(|x| x.unwrap()).
#[verifier::external_body]
fn none_array<T, const N: usize>() -> (r: [Option<T>; N])
    ensures forall|i: int| 0 <= i < N ==> #[trigger] r@[i] is None
{ core::array::from_fn(|_| None) }
#[verifier::external_body]
fn unwrap_array<T, const N: usize>(a: [Option<T>; N]) -> (r: [T; N])
    requires forall|i: int| 0 <= i < N ==> #[trigger] a@[i] is Some
    ensures forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == a@[i]->0
{ a.map(|x| x.unwrap()) }
/// `for el in a.iter_mut()`: the elements one after another.
#[verifier::external_body]
fn slot<T, const N: usize>(a: &mut [Option<T>; N], i: usize) -> (r: &mut Option<T>)
    requires i < N
    ensures *r == old(a)@[i as int], final(a)@ == old(a)@.update(i as int, *final(r))
{ &mut a[i] }
spec fn somes<T>(os: Seq<Option<T>>) -> Seq<T> { Seq::new(os.len(), |i: int| os[i]->0) }
impl<D: Deserializer + ?Sized, Ctx: ?Sized, T: Deserialize<D, Ctx>, const N: usize> Deserialize<D, Ctx> for [T; N] {
//@item const Deserialize for [ T ; N ] :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool { match v { DF::Val(J::Arr(js)) => js.len() == N && items_ok::<T, D, Ctx>(js, null), _ => false } }
    spec fn is(v: DF, x: Self, null: bool) -> bool { match v { DF::Val(J::Arr(js)) => items_are::<T, D, Ctx>(js, x@, null), _ => false } }
    proof fn law(null: bool) {}
//@fn Deserialize for [ T ; N ] :: deserialize | ret=r loops=1
//@entry
    let ghost a = value.source.w(); let ghost b = final(value.source).w(); let ghost bf = *final(value.done_flag);
    let ghost js = match a.sem.last() { DF::Val(J::Arr(js)) => js, _ => Seq::empty() };
    proof { assert(js.skip(0) =~= js); assert(js.take(js.len() as int) =~= js); }
//@subst core :: array :: from_fn ( | _ | None ) => none_array ( )
//@subst for el in res . iter_mut ( ) => for el_index in 0 .. N
//@subst * el = => let el = slot ( & mut res , el_index ) ; * el =
//@subst res . map ( | x | x . unwrap ( ) ) => unwrap_array ( res )
//@loop 1
    invariant
        !a.failed, !a.bad ==> a.sem.len() > 0 && a.sem.last() == DF::Val(J::Arr(js)), a.stack.len() > 0,
        final(tuple.source).w() == b, *final(tuple.done_flag) == bf, same(a, tuple.source.w()), !tuple.source.w().failed,
        !*tuple.done_flag, tuple.ready_flag,
        !a.bad ==> it1.index() <= js.len() && tuple.source.w().sem =~= a.sem.drop_last().push(DF::Arr(js.skip(it1.index()))),
        !a.bad ==> items_ok::<T, D, Ctx>(js.take(it1.index()), a.null),
        forall|i: int| 0 <= i < it1.index() ==> #[trigger] res@[i] is Some && (!a.bad ==> T::is(DF::Val(js[i]), res@[i]->0, a.null)),
        tuple.source.w().stack =~= a.stack.drop_last().push(Fr::Tuple),
//@in 1
    proof {
        let k = it1.index();
        if k < js.len() { assert(js.skip(k).drop_first() =~= js.skip(k + 1)); assert(js.skip(k)[0] == js[k]); assert(js.take(k + 1) =~= js.take(k).push(js[k])); }
    }
//@end
}
/// i8::try_into and so on, into the non-zero type (std: fails on zero only).
trait TryIntoNonZero: Sized {
    type NZ;
    spec fn nz_of(self, r: Result<Self::NZ, std::num::TryFromIntError>) -> bool;
    fn try_into_nonzero(self) -> (r: Result<Self::NZ, std::num::TryFromIntError>) ensures self.nz_of(r);
}
//@for T,N,V,G in i8,NonZeroI8,I8,get_i8 i16,NonZeroI16,I16,get_i16 i32,NonZeroI32,I32,get_i32 i64,NonZeroI64,I64,get_i64 u8,NonZeroU8,U8,get_u8 u16,NonZeroU16,U16,get_u16 u32,NonZeroU32,U32,get_u32 u64,NonZeroU64,U64,get_u64
impl TryIntoNonZero for $T {
    type NZ = std::num::$N;
    spec fn nz_of(self, r: Result<std::num::$N, std::num::TryFromIntError>) -> bool { (r is Ok <==> self != 0) && (r is Ok ==> r->Ok_0@ == self) }
    #[verifier::external_body]
    fn try_into_nonzero(self) -> (r: Result<std::num::$N, std::num::TryFromIntError>) { self.try_into() }
}
impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for std::num::$N {
//@item const Deserialize for std :: num :: $N :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool { match v { DF::Val(J::Num(t)) => int_read($V, t) is Some && int_read($V, t) != Some(0int), _ => false } }
    spec fn is(v: DF, x: Self, null: bool) -> bool { match v { DF::Val(J::Num(t)) => int_read($V, t) == Some(x@ as int), _ => false } }
    proof fn law(null: bool) {}
//@fn Deserialize for std :: num :: $N :: deserialize | ret=r
//@entry
    let ghost a = value.source.w();
//@subst | value | => |value: Value<D>| -> (y: Result<Result<std::num::$N, std::num::TryFromIntError>, D::Error>) requires !*value.done_flag, value_ok(value.source.w(), *value.done_flag) ensures match y { Ok(z) => (exists|x: $T| used(old(value.source).w(), false, Op::GetInt($V), Ret::Int(x as int), final(value.source).w(), *final(value.done_flag)) && #[trigger] x.nz_of(z)), Err(_) => stuck(old(value.source).w(), false, Op::GetInt($V), final(value.source).w(), *final(value.done_flag)) }
//@subst . try_into ( ) => . try_into_nonzero ( )
//@end
}
//@endfor
