// The functions that hand a wrapper to a closure or to an implementation.
//@use core/src/helper.rs
impl<'a, O: Outliner + ?Sized> Value<'a, O> {
//@fn Value :: with | ret=r
//@spec
    requires old(source).w().failed || top_is(old(source).w().stack, Fr::Value),
        forall|v: Value<O>| v.source.w() == old(source).w() && !*v.done_flag ==> f.requires((v,)),
        strict() ==> forall|v: Value<O>, x: R| v.source.w() == old(source).w() && !*v.done_flag && #[trigger] f.ensures((v,), Ok(x)) ==> *final(v.done_flag),
    ensures match r {
        Ok(x) => exists|v: Value<O>| v.source.w() == old(source).w() && !*v.done_flag && #[trigger] f.ensures((v,), Ok(x)) && *final(v.done_flag) && final(v.source).w() == final(source).w(),
        Err(x) => exists|v: Value<O>| v.source.w() == old(source).w() && !*v.done_flag && #[trigger] f.ensures((v,), Err(x)) && final(v.source).w() == final(source).w() }
//@end
}
//@for T in Struct Tuple
impl<'a, O: Outliner + ?Sized> $T<'a, O> {
//@fn $T :: with | ret=r
//@spec
    requires old(source).w().failed || top_is(old(source).w().stack, Fr::$T),
        forall|v: $T<O>| v.source.w() == old(source).w() && !*v.done_flag && v.ready_flag ==> f.requires((v,)),
        strict() ==> forall|v: $T<O>, x: R| v.source.w() == old(source).w() && !*v.done_flag && v.ready_flag && #[trigger] f.ensures((v,), Ok(x)) ==> *final(v.done_flag),
    ensures match r {
        Ok(x) => exists|v: $T<O>| v.source.w() == old(source).w() && !*v.done_flag && v.ready_flag && #[trigger] f.ensures((v,), Ok(x)) && *final(v.done_flag) && final(v.source).w() == final(source).w(),
        Err(x) => exists|v: $T<O>| v.source.w() == old(source).w() && !*v.done_flag && v.ready_flag && #[trigger] f.ensures((v,), Err(x)) && final(v.source).w() == final(source).w() }
//@end
}
//@endfor
//@include wrapvalidate.rs
