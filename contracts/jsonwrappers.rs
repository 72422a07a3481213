// Contracts of the JSON wrappers (json/src/helper.rs).
//@use json/src/helper.rs
//@item struct Object
//@item struct Entry
//@item enum Collection
impl<'a, O: JsonOutliner + ?Sized> Object<'a, O> {
//@fn Object :: new | ret=r
//@spec
    ensures r.source.w() == old(source).w(), *r.done_flag == *old(done_flag), final(r.source).w() == final(source).w(), *final(r.done_flag) == *final(done_flag), r.ready_flag
//@end
//@fn Object :: entry | ret=r
//@spec
    requires strict() ==> old(self).ready_flag, old(self).ready_flag ==> old(self).source.w().failed || top_is(old(self).source.w().stack, Fr::Object)
    ensures old(self).ready_flag, *final(self).done_flag == *old(self).done_flag,
        final(final(self).source).w() == final(old(self).source).w(), *final(final(self).done_flag) == *final(old(self).done_flag),
        match r {
            Ok(v) => !*v.done_flag && done(old(self).source.w(), Op::PushEntry(key@), Ret::Unit, v.source.w())
                && final(self).source.w() == final(v.source).w() && final(self).ready_flag == *final(v.done_flag),
            Err(_) => !final(self).ready_flag && err(old(self).source.w(), Op::PushEntry(key@), final(self).source.w()) }
//@end
//@fn Object :: close | ret=r
//@spec
    requires strict() ==> self.ready_flag, self.ready_flag ==> self.source.w().failed || top_is(self.source.w().stack, Fr::Object), self.ready_flag ==> !*self.done_flag
    ensures match r {
        Ok(_) => used(old(self.source).w(), *old(self.done_flag), Op::CloseObject, Ret::Unit, final(self.source).w(), *final(self.done_flag)),
        Err(_) => stuck(old(self.source).w(), *old(self.done_flag), Op::CloseObject, final(self.source).w(), *final(self.done_flag)) }
//@end
}
impl<'a, D: JsonDeserializer + ?Sized> Object<'a, D> {
//@fn Object :: try_entry | ret=r
//@spec
    requires strict() ==> old(self).ready_flag, old(self).ready_flag ==> old(self).source.w().failed || top_is(old(self).source.w().stack, Fr::Object)
    ensures old(self).ready_flag, *final(self).done_flag == *old(self).done_flag,
        final(final(self).source).w() == final(old(self).source).w(), *final(final(self).done_flag) == *final(old(self).done_flag),
        match r {
            Ok(Some(v)) => !*v.done_flag && done(old(self).source.w(), Op::TryPushEntry(key@), Ret::Bool(true), v.source.w())
                && final(self).source.w() == final(v.source).w() && final(self).ready_flag == *final(v.done_flag),
            Ok(None) => final(self).ready_flag && done(old(self).source.w(), Op::TryPushEntry(key@), Ret::Bool(false), final(self).source.w()),
            Err(_) => !final(self).ready_flag && err(old(self).source.w(), Op::TryPushEntry(key@), final(self).source.w()) }
//@end
//@fn Object :: next_entry | ret=r
//@spec
    requires strict() ==> old(self).ready_flag, old(self).ready_flag ==> !*old(self).done_flag,
        old(self).ready_flag ==> old(self).source.w().failed || top_is(old(self).source.w().stack, Fr::Object)
    ensures old(self).ready_flag,
        final(final(self).source).w() == final(old(self).source).w(), *final(final(self).done_flag) == *final(old(self).done_flag),
        match r {
            Ok(Some(e)) => !*e.done_flag && !e.key_read_flag && !*final(self).done_flag && done(old(self).source.w(), Op::NextEntry, Ret::Bool(true), e.source.w())
                && final(self).source.w() == final(e.source).w() && final(self).ready_flag == *final(e.done_flag),
            Ok(None) => *final(self).done_flag && !final(self).ready_flag && done(old(self).source.w(), Op::NextEntry, Ret::Bool(false), final(self).source.w()),
            Err(_) => !*final(self).done_flag && !final(self).ready_flag && err(old(self).source.w(), Op::NextEntry, final(self).source.w()) }
//@end
}
/// An entry has its key, and below it its value, on the stack; once the key was read only the value.
spec fn entry_ok(w: W, key_read: bool) -> bool {
    w.failed || if key_read { top_is(w.stack, Fr::Value) } else { top_is(w.stack, Fr::Str) && top_is(w.stack.drop_last(), Fr::Value) }
}
impl<'a, D: JsonDeserializer + ?Sized> Entry<'a, D> {
//@fn Entry :: new | ret=r
//@spec
    ensures r.source.w() == old(source).w(), *r.done_flag == *old(done_flag), final(r.source).w() == final(source).w(), *final(r.done_flag) == *final(done_flag), !r.key_read_flag
//@end
//@fn Entry :: key | ret=r
//@spec
    requires strict() ==> !old(self).key_read_flag, entry_ok(old(self).source.w(), old(self).key_read_flag)
    ensures !old(self).key_read_flag, final(self).key_read_flag, *final(self).done_flag == *old(self).done_flag, entry_ok(final(self).source.w(), true),
        final(final(self).source).w() == final(old(self).source).w(), *final(final(self).done_flag) == *final(old(self).done_flag),
        match r {
            Ok(x) => done(old(self).source.w(), Op::FlushStr, Ret::Str(x@), final(self).source.w()),
            Err(_) => err(old(self).source.w(), Op::FlushStr, final(self).source.w()) }
//@end
//@fn Entry :: value | ret=r
//@spec
    requires entry_ok(self.source.w(), self.key_read_flag)
    ensures match r {
        Ok(v) => *v.done_flag == *old(self.done_flag) && final(v.source).w() == final(self.source).w() && *final(v.done_flag) == *final(self.done_flag)
            && if self.key_read_flag { v.source.w() == old(self.source).w() } else { done(old(self.source).w(), Op::SkipStr, Ret::Unit, v.source.w()) },
        Err(_) => *final(self.done_flag) == *old(self.done_flag) && err(old(self.source).w(), Op::SkipStr, final(self.source).w()) }
//@end
}
// The extension methods are verified as inherent methods of Value (their bodies do not depend on being trait methods).
impl<'a, O: JsonOutliner + ?Sized> Value<'a, O> {
//@fn ValueExt for Value :: into_null | ret=r
//@spec
    requires strict() ==> !*self.done_flag, value_ok(self.source.w(), *self.done_flag)
    ensures match r {
        Ok(_) => used(old(self.source).w(), *old(self.done_flag), Op::PopNull, Ret::Unit, final(self.source).w(), *final(self.done_flag)),
        Err(_) => stuck(old(self.source).w(), *old(self.done_flag), Op::PopNull, final(self.source).w(), *final(self.done_flag)) }
//@end
//@fn ValueExt for Value :: into_object | ret=r
//@spec
    requires strict() ==> !*self.done_flag, value_ok(self.source.w(), *self.done_flag)
    ensures match r {
        Ok(s) => !*old(self.done_flag) && !*s.done_flag && s.ready_flag && done(old(self.source).w(), Op::OpenObject, Ret::Unit, s.source.w())
            && final(s.source).w() == final(self.source).w() && *final(s.done_flag) == *final(self.done_flag),
        Err(_) => stuck(old(self.source).w(), *old(self.done_flag), Op::OpenObject, final(self.source).w(), *final(self.done_flag)) }
//@end
}
impl<'a, S: JsonSerializer + ?Sized> Value<'a, S> {
//@fn ValueSerialierExt for Value :: into_list_streaming | ret=r
//@spec
    requires strict() ==> !*self.done_flag, value_ok(self.source.w(), *self.done_flag)
    ensures match r {
        Ok(s) => !*old(self.done_flag) && !*s.done_flag && s.ready_flag && !s.is_len_known && done(old(self.source).w(), Op::OpenListStreaming, Ret::Unit, s.source.w())
            && final(s.source).w() == final(self.source).w() && *final(s.done_flag) == *final(self.done_flag),
        Err(_) => stuck(old(self.source).w(), *old(self.done_flag), Op::OpenListStreaming, final(self.source).w(), *final(self.done_flag)) }
//@end
}
/// A collection is ready like the wrapper in it.
spec fn coll_ok<D: JsonDeserializer + ?Sized>(c: Collection<D>) -> bool {
    match c {
        Collection::Object(o) => o.ready_flag ==> !*o.done_flag && (o.source.w().failed || top_is(o.source.w().stack, Fr::Object)),
        Collection::List(l) => l.ready_flag ==> !*l.done_flag && list_ok(l.source.w(), l.ready_flag, l.is_len_known, l.rem_len),
    }
}
spec fn coll_ready<D: JsonDeserializer + ?Sized>(c: Collection<D>) -> bool {
    match c { Collection::Object(o) => o.ready_flag, Collection::List(l) => l.ready_flag }
}
spec fn coll_w<D: JsonDeserializer + ?Sized>(c: Collection<D>) -> W {
    match c { Collection::Object(o) => o.source.w(), Collection::List(l) => l.source.w() }
}
impl<'a, D: JsonDeserializer + ?Sized> vstd::std_specs::convert::FromSpecImpl<Object<'a, D>> for Collection<'a, D> {
    closed spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(value: Object<'a, D>) -> Self { Collection::Object(value) }
}
impl<'a, D: JsonDeserializer + ?Sized> vstd::std_specs::convert::FromSpecImpl<List<'a, D>> for Collection<'a, D> {
    closed spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(value: List<'a, D>) -> Self { Collection::List(value) }
}
//@for T in Object List
impl<'a, D: JsonDeserializer + ?Sized> From<$T<'a, D>> for Collection<'a, D> {
//@fn From<$T<'a,D>> for Collection<'a,D> :: from | ret=r
//@end
}
//@endfor
impl<'a, D: JsonDeserializer + ?Sized> Value<'a, D> {
//@fn ValueDeserializerExt for Value :: ty | ret=r
//@spec
    requires !*self.done_flag, value_ok(self.source.w(), *self.done_flag)
    ensures !old(self.source).w().failed && !old(self.source).w().bad ==> r == value_type(old(self.source).w().sem)
//@end
//@fn ValueDeserializerExt for Value :: skip | ret=r
//@spec
    requires strict() ==> !*self.done_flag, value_ok(self.source.w(), *self.done_flag)
    ensures match r {
        Ok(_) => used(old(self.source).w(), *old(self.done_flag), Op::SkipValue, Ret::Unit, final(self.source).w(), *final(self.done_flag)),
        Err(_) => stuck(old(self.source).w(), *old(self.done_flag), Op::SkipValue, final(self.source).w(), *final(self.done_flag)) }
//@end
//@fn ValueDeserializerExt for Value :: into_collection | ret=r
//@spec
    requires strict() ==> !*self.done_flag, value_ok(self.source.w(), *self.done_flag)
    ensures match r {
        Ok(c) => !*old(self.done_flag) && coll_ok(c) && coll_ready(c) && match c {
            Collection::Object(s) => !*s.done_flag && done(old(self.source).w(), Op::OpenObject, Ret::Unit, s.source.w())
                && final(s.source).w() == final(self.source).w() && *final(s.done_flag) == *final(self.done_flag),
            Collection::List(s) => !*s.done_flag && done(old(self.source).w(), Op::OpenList, Ret::Len(if s.is_len_known { Some(s.rem_len) } else { None }), s.source.w())
                && final(s.source).w() == final(self.source).w() && *final(s.done_flag) == *final(self.done_flag) },
        Err(_) => stuck(old(self.source).w(), *old(self.done_flag), Op::OpenObject, final(self.source).w(), *final(self.done_flag))
            || stuck(old(self.source).w(), *old(self.done_flag), Op::OpenList, final(self.source).w(), *final(self.done_flag)) }
//@end
}
pub assume_specification<T, E> [Option::<Result<T, E>>::transpose] (x: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures r == match x { None => Ok::<Option<T>, E>(None), Some(Ok(y)) => Ok(Some(y)), Some(Err(e)) => Err(e) };
impl<'a, D: JsonDeserializer + ?Sized> Collection<'a, D> {
//@fn Collection :: next | ret=r
//@spec
    requires strict() ==> coll_ready(*old(self)), coll_ok(*old(self))
    ensures coll_ready(*old(self)), match (*old(self), *final(self)) {
        (Collection::Object(o), Collection::Object(f)) => final(f.source).w() == final(o.source).w() && *final(f.done_flag) == *final(o.done_flag) && match r {
            Ok(Some(v)) => !*v.done_flag && !*f.done_flag && f.source.w() == final(v.source).w() && f.ready_flag == *final(v.done_flag)
                && exists|m: W| #[trigger] done(o.source.w(), Op::NextEntry, Ret::Bool(true), m) && done(m, Op::SkipStr, Ret::Unit, v.source.w()),
            Ok(None) => *f.done_flag && !f.ready_flag && done(o.source.w(), Op::NextEntry, Ret::Bool(false), f.source.w()),
            Err(_) => !*f.done_flag && !f.ready_flag && f.source.w().failed },
        (Collection::List(o), Collection::List(f)) => final(f.source).w() == final(o.source).w() && *final(f.done_flag) == *final(o.done_flag) && f.is_len_known == o.is_len_known && match r {
            Ok(Some(v)) => !*v.done_flag && !*f.done_flag && f.source.w() == final(v.source).w() && f.ready_flag == *final(v.done_flag)
                && (o.is_len_known && !o.source.w().failed ==> o.rem_len > 0 && f.rem_len == o.rem_len - 1)
                && done(o.source.w(), Op::NextItem, Ret::Bool(true), v.source.w()),
            Ok(None) => *f.done_flag && !f.ready_flag && done(o.source.w(), Op::NextItem, Ret::Bool(false), f.source.w()),
            Err(_) => !*f.done_flag && !f.ready_flag && err(o.source.w(), Op::NextItem, f.source.w()) },
        _ => false }
//@subst | entry | entry.value() => |entry: Entry<'_, D>| -> (o: Result<Value<'_, D>, D::Error>) requires entry_ok(entry.source.w(), entry.key_read_flag) ensures match o { Ok(v) => *v.done_flag == *old(entry.done_flag) && final(v.source).w() == final(entry.source).w() && *final(v.done_flag) == *final(entry.done_flag) && if entry.key_read_flag { v.source.w() == old(entry.source).w() } else { done(old(entry.source).w(), Op::SkipStr, Ret::Unit, v.source.w()) }, Err(_) => *final(entry.done_flag) == *old(entry.done_flag) && err(old(entry.source).w(), Op::SkipStr, final(entry.source).w()) } { entry.value() }
//@end
}
