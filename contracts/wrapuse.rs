// Implementations of Serialize and Deserialize, of which only this is asked here: they consume the value they are given.
spec fn consumed(a: W, ok: bool, b: W, bf: bool) -> bool {
    &&& ok ==> bf
    &&& a.failed ==> b.failed
    &&& bf ==> b.failed || (!a.failed ==> b.stack =~= a.stack.drop_last())
}
/// .. or leave the struct they are given as it was
spec fn kept(a: W, ok: bool, b: W, bf: bool) -> bool {
    &&& ok ==> bf
    &&& a.failed ==> b.failed
    &&& bf ==> b.failed || (!a.failed ==> b.stack =~= a.stack)
}
//@use core/src/serialize.rs
trait Serialize<S: Serializer + ?Sized, Ctx: ?Sized = ()> {
//@fn Serialize :: serialize | ret=r sig
//@spec
    requires strict() ==> !*value.done_flag, value_ok(value.source.w(), *value.done_flag)
    ensures consumed(old(value.source).w(), r is Ok, final(value.source).w(), *final(value.done_flag))
//@end
}
trait SerializeStruct<S: Serializer + ?Sized, Ctx: ?Sized = ()>: Serialize<S, Ctx> {
//@fn SerializeStruct :: serialize_content | ret=r sig
//@spec
    requires strict() ==> old(st).ready_flag, struct_ok(old(st).source.w(), old(st).ready_flag)
    ensures kept(old(st).source.w(), r is Ok, final(st).source.w(), final(st).ready_flag), *final(st).done_flag == *old(st).done_flag,
        final(final(st).source).w() == final(old(st).source).w(), *final(final(st).done_flag) == *final(old(st).done_flag)
//@end
}
//@use core/src/deserialize.rs
trait Deserialize<D: Deserializer + ?Sized, Ctx: ?Sized = ()>: Sized {
//@fn Deserialize :: deserialize | ret=r sig
//@spec
    requires strict() ==> !*value.done_flag, value_ok(value.source.w(), *value.done_flag)
    ensures consumed(old(value.source).w(), r is Ok, final(value.source).w(), *final(value.done_flag))
//@end
}
trait DeserializeStruct<D: Deserializer + ?Sized, Ctx: ?Sized = ()>: Deserialize<D, Ctx> {
//@fn DeserializeStruct :: deserialize_content | ret=r sig
//@spec
    requires strict() ==> old(st).ready_flag, struct_ok(old(st).source.w(), old(st).ready_flag)
    ensures kept(old(st).source.w(), r is Ok, final(st).source.w(), final(st).ready_flag), *final(st).done_flag == *old(st).done_flag,
        final(final(st).source).w() == final(old(st).source).w(), *final(final(st).done_flag) == *final(old(st).done_flag)
//@end
}
//@use core/src/helper.rs
impl<'a, S: Serializer + ?Sized> Value<'a, S> {
//@for F in put put_using
//@fn Value :: $F | ret=r
//@spec
    requires strict() ==> !*self.done_flag, value_ok(self.source.w(), *self.done_flag)
    ensures consumed(old(self.source).w(), r is Ok, final(self.source).w(), *final(self.done_flag))
//@end
//@endfor
}
impl<'a, D: Deserializer + ?Sized> Value<'a, D> {
//@for F in get get_using
//@fn Value :: $F | ret=r
//@spec
    requires strict() ==> !*self.done_flag, value_ok(self.source.w(), *self.done_flag)
    ensures consumed(old(self.source).w(), r is Ok, final(self.source).w(), *final(self.done_flag))
//@end
//@endfor
}
//@for S,T,F in S,Serializer,inline_put S,Serializer,inline_put_using D,Deserializer,inline_get D,Deserializer,inline_get_using
impl<'a, $S: $T + ?Sized> Struct<'a, $S> {
//@fn Struct :: $F | ret=r
//@spec
    requires strict() ==> old(self).ready_flag, struct_ok(old(self).source.w(), old(self).ready_flag)
    ensures kept(old(self).source.w(), r is Ok, final(self).source.w(), final(self).ready_flag), *final(self).done_flag == *old(self).done_flag,
        final(final(self).source).w() == final(old(self).source).w(), *final(final(self).done_flag) == *final(old(self).done_flag)
//@end
}
//@endfor
//@use core/src/serialize.rs
//@fn serialize_struct | ret=r
//@spec
    requires strict() ==> !*target.done_flag, value_ok(target.source.w(), *target.done_flag)
    ensures consumed(old(target.source).w(), r is Ok, final(target.source).w(), *final(target.done_flag))
//@end
//@use core/src/deserialize.rs
//@fn deserialize_struct | ret=r
//@spec
    requires strict() ==> !*value.done_flag, value_ok(value.source.w(), *value.done_flag)
    ensures consumed(old(value.source).w(), r is Ok, final(value.source).w(), *final(value.done_flag))
//@end
//@use json/src/helper.rs
impl<'a, D: JsonDeserializer + ?Sized> Object<'a, D> {
//@for F in inline inline_using
//@fn Object :: $F | ret=r
//@spec
    requires strict() ==> old(self).ready_flag, old(self).ready_flag ==> old(self).source.w().failed || top_is(old(self).source.w().stack, Fr::Object)
    ensures kept(old(self).source.w(), r is Ok, final(self).source.w(), final(self).ready_flag), *final(self).done_flag == *old(self).done_flag,
        final(final(self).source).w() == final(old(self).source).w(), *final(final(self).done_flag) == *final(old(self).done_flag)
//@end
//@endfor
}
