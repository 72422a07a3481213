// Contracts of the wrappers (core/src/helper.rs).
//@use core/src/helper.rs
//@item struct Value
//@item struct Struct
//@item struct Tuple
//@item struct List
/// The two loans of a wrapper are handed on: `x` ends where `y` ends.
#[verifier::prophetic]
spec fn loans<O: Outliner + ?Sized>(xs: &mut O, xd: &mut bool, ys: &mut O, yd: &mut bool) -> bool {
    final(xs).w() == final(ys).w() && *final(xd) == *final(yd)
}
spec fn list_ok(w: W, ready: bool, known: bool, rem: usize) -> bool {
    ready ==> w.failed || top_is(w.stack, Fr::List(if known { Some(rem as nat) } else { None }))
}
spec fn struct_ok(w: W, ready: bool) -> bool { ready ==> w.failed || top_fields(w.stack) }
impl<'a, O: Outliner + ?Sized> Value<'a, O> {
//@fn Value :: new | ret=r
//@spec
    ensures r.source.w() == old(source).w(), *r.done_flag == *old(done_flag), final(r.source).w() == final(source).w(), *final(r.done_flag) == *final(done_flag)
//@end
//@fn Value :: as_raw | ret=r
//@spec
    ensures r.w() == old(self.source).w()
//@end
//@fn Value :: into_raw | ret=r
//@spec
    ensures r.0.w() == old(self.source).w(), *r.1 == *old(self.done_flag), final(r.0).w() == final(self.source).w(), *final(r.1) == *final(self.done_flag)
//@end
//@for F,O,T in into_struct,OpenStruct,struct into_tuple,OpenTuple,tuple
//@fn Value :: $F | ret=r
//@spec
    requires strict() ==> !*self.done_flag, value_ok(self.source.w(), *self.done_flag)
    ensures match r {
        Ok(s) => !*old(self.done_flag) && !*s.done_flag && s.ready_flag && done(old(self.source).w(), Op::$O(ostr(type_name)), Ret::Unit, s.source.w())
            && final(s.source).w() == final(self.source).w() && *final(s.done_flag) == *final(self.done_flag),
        Err(_) => stuck(old(self.source).w(), *old(self.done_flag), Op::$O(ostr(type_name)), final(self.source).w(), *final(self.done_flag)) }
//@end
//@endfor
}
impl<'a, S: Serializer + ?Sized> Value<'a, S> {
//@for F,O,A in put_bool,PutBool,value put_f32,PutF32,value put_f64,PutF64,value put_char,PutChar,value put_str,PutStr,value@
//@fn Value :: $F | ret=r
//@spec
    requires strict() ==> !*self.done_flag, value_ok(self.source.w(), *self.done_flag)
    ensures match r {
        Ok(_) => used(old(self.source).w(), *old(self.done_flag), Op::$O($A), Ret::Unit, final(self.source).w(), *final(self.done_flag)),
        Err(_) => stuck(old(self.source).w(), *old(self.done_flag), Op::$O($A), final(self.source).w(), *final(self.done_flag)) }
//@end
//@endfor
//@for F,O in put_i8,I8 put_i16,I16 put_i32,I32 put_i64,I64 put_u8,U8 put_u16,U16 put_u32,U32 put_u64,U64
//@fn Value :: $F | ret=r
//@spec
    requires strict() ==> !*self.done_flag, value_ok(self.source.w(), *self.done_flag)
    ensures match r {
        Ok(_) => used(old(self.source).w(), *old(self.done_flag), Op::PutInt($O, value as int), Ret::Unit, final(self.source).w(), *final(self.done_flag)),
        Err(_) => stuck(old(self.source).w(), *old(self.done_flag), Op::PutInt($O, value as int), final(self.source).w(), *final(self.done_flag)) }
//@end
//@endfor
//@fn Value :: put_tag | ret=r
//@spec
    requires strict() ==> !*self.done_flag, value_ok(self.source.w(), *self.done_flag)
    ensures match r {
        Ok(_) => used(old(self.source).w(), *old(self.done_flag), Op::PutTag(max_index as int, index as int, ostr(name)), Ret::Unit, final(self.source).w(), *final(self.done_flag)),
        Err(_) => stuck(old(self.source).w(), *old(self.done_flag), Op::PutTag(max_index as int, index as int, ostr(name)), final(self.source).w(), *final(self.done_flag)) }
//@end
//@fn Value :: into_list_sized | ret=r
//@spec
    requires strict() ==> !*self.done_flag, value_ok(self.source.w(), *self.done_flag)
    ensures match r {
        Ok(s) => !*old(self.done_flag) && !*s.done_flag && s.ready_flag && s.is_len_known && s.rem_len == len && done(old(self.source).w(), Op::OpenListSized(nat_of(len)), Ret::Unit, s.source.w())
            && final(s.source).w() == final(self.source).w() && *final(s.done_flag) == *final(self.done_flag),
        Err(_) => stuck(old(self.source).w(), *old(self.done_flag), Op::OpenListSized(nat_of(len)), final(self.source).w(), *final(self.done_flag)) }
//@end
}
impl<'a, D: Deserializer + ?Sized> Value<'a, D> {
//@fn Value :: check_null | ret=r
//@spec
    requires strict() ==> !*old(self).done_flag, value_ok(old(self).source.w(), *old(self).done_flag)
    ensures final(final(self).source).w() == final(old(self).source).w(), *final(final(self).done_flag) == *final(old(self).done_flag), !*old(self).done_flag,
        if !old(self).source.w().null { r == Ok::<bool, D::Error>(false) && final(self).source.w() == old(self).source.w() && !*final(self).done_flag }
        else { match r {
            Ok(x) => *final(self).done_flag == x && done(old(self).source.w(), Op::CheckNull, Ret::Bool(x), final(self).source.w()),
            Err(_) => stuck(old(self).source.w(), *old(self).done_flag, Op::CheckNull, final(self).source.w(), *final(self).done_flag) } }
//@end
//@for F,O,C in get_bool,GetBool,Ret::Bool(x) get_f32,GetF32,Ret::F32(x) get_f64,GetF64,Ret::F64(x) get_char,GetChar,Ret::Char(x) get_str,ReadStr,Ret::Str(x@)
//@fn Value :: $F | ret=r
//@spec
    requires strict() ==> !*self.done_flag, value_ok(self.source.w(), *self.done_flag)
    ensures match r {
        Ok(x) => used(old(self.source).w(), *old(self.done_flag), Op::$O, $C, final(self.source).w(), *final(self.done_flag)),
        Err(_) => stuck(old(self.source).w(), *old(self.done_flag), Op::$O, final(self.source).w(), *final(self.done_flag)) }
//@end
//@endfor
//@for F,O in get_i8,I8 get_i16,I16 get_i32,I32 get_i64,I64 get_u8,U8 get_u16,U16 get_u32,U32 get_u64,U64
//@fn Value :: $F | ret=r
//@spec
    requires strict() ==> !*self.done_flag, value_ok(self.source.w(), *self.done_flag)
    ensures match r {
        Ok(x) => used(old(self.source).w(), *old(self.done_flag), Op::GetInt($O), Ret::Int(x as int), final(self.source).w(), *final(self.done_flag)),
        Err(_) => stuck(old(self.source).w(), *old(self.done_flag), Op::GetInt($O), final(self.source).w(), *final(self.done_flag)) }
//@end
//@endfor
//@fn Value :: get_tag | ret=r
//@spec
    requires strict() ==> !*self.done_flag, value_ok(self.source.w(), *self.done_flag)
    ensures match r {
        Ok(x) => used(old(self.source).w(), *old(self.done_flag), Op::GetTag(max_index as int, names@), Ret::Index(x), final(self.source).w(), *final(self.done_flag)),
        Err(_) => stuck(old(self.source).w(), *old(self.done_flag), Op::GetTag(max_index as int, names@), final(self.source).w(), *final(self.done_flag)) }
//@end
//@fn Value :: into_list | ret=r
//@spec
    requires strict() ==> !*self.done_flag, value_ok(self.source.w(), *self.done_flag)
    ensures match r {
        Ok(s) => !*old(self.done_flag) && !*s.done_flag && s.ready_flag && done(old(self.source).w(), Op::OpenList, Ret::Len(if s.is_len_known { Some(s.rem_len) } else { None }), s.source.w())
            && final(s.source).w() == final(self.source).w() && *final(s.done_flag) == *final(self.done_flag),
        Err(_) => stuck(old(self.source).w(), *old(self.done_flag), Op::OpenList, final(self.source).w(), *final(self.done_flag)) }
//@end
}
impl<'a, O: Outliner + ?Sized> Struct<'a, O> {
//@fn Struct :: new | ret=r
//@spec
    ensures r.source.w() == old(source).w(), *r.done_flag == *old(done_flag), final(r.source).w() == final(source).w(), *final(r.done_flag) == *final(done_flag), r.ready_flag
//@end
//@fn Struct :: is_ready | ret=r
//@spec
    ensures r == self.ready_flag
//@end
//@fn Struct :: field | ret=r
//@spec
    requires strict() ==> old(self).ready_flag, struct_ok(old(self).source.w(), old(self).ready_flag)
    ensures old(self).ready_flag, *final(self).done_flag == *old(self).done_flag,
        final(final(self).source).w() == final(old(self).source).w(), *final(final(self).done_flag) == *final(old(self).done_flag),
        match r {
            Ok(v) => !*v.done_flag && done(old(self).source.w(), Op::PushField(name@), Ret::Unit, v.source.w())
                && final(self).source.w() == final(v.source).w() && final(self).ready_flag == *final(v.done_flag),
            Err(_) => !final(self).ready_flag && err(old(self).source.w(), Op::PushField(name@), final(self).source.w()) }
//@end
//@fn Struct :: close | ret=r
//@spec
    requires strict() ==> self.ready_flag, self.ready_flag ==> self.source.w().failed || top_is(self.source.w().stack, Fr::Struct), self.ready_flag ==> !*self.done_flag
    ensures match r {
        Ok(_) => used(old(self.source).w(), *old(self.done_flag), Op::CloseStruct, Ret::Unit, final(self.source).w(), *final(self.done_flag)),
        Err(_) => stuck(old(self.source).w(), *old(self.done_flag), Op::CloseStruct, final(self.source).w(), *final(self.done_flag)) }
//@end
}
impl<'a, O: Outliner + ?Sized> Tuple<'a, O> {
//@fn Tuple :: new | ret=r
//@spec
    ensures r.source.w() == old(source).w(), *r.done_flag == *old(done_flag), final(r.source).w() == final(source).w(), *final(r.done_flag) == *final(done_flag), r.ready_flag
//@end
//@fn Tuple :: element | ret=r
//@spec
    requires strict() ==> old(self).ready_flag, old(self).ready_flag ==> old(self).source.w().failed || top_is(old(self).source.w().stack, Fr::Tuple)
    ensures old(self).ready_flag, *final(self).done_flag == *old(self).done_flag,
        final(final(self).source).w() == final(old(self).source).w(), *final(final(self).done_flag) == *final(old(self).done_flag),
        match r {
            Ok(v) => !*v.done_flag && done(old(self).source.w(), Op::PushElement, Ret::Unit, v.source.w())
                && final(self).source.w() == final(v.source).w() && final(self).ready_flag == *final(v.done_flag),
            Err(_) => !final(self).ready_flag && err(old(self).source.w(), Op::PushElement, final(self).source.w()) }
//@end
//@fn Tuple :: close | ret=r
//@spec
    requires strict() ==> self.ready_flag, self.ready_flag ==> self.source.w().failed || top_is(self.source.w().stack, Fr::Tuple), self.ready_flag ==> !*self.done_flag
    ensures match r {
        Ok(_) => used(old(self.source).w(), *old(self.done_flag), Op::CloseTuple, Ret::Unit, final(self.source).w(), *final(self.done_flag)),
        Err(_) => stuck(old(self.source).w(), *old(self.done_flag), Op::CloseTuple, final(self.source).w(), *final(self.done_flag)) }
//@end
}
impl<'a, O: Outliner + ?Sized> List<'a, O> {
//@fn List :: new | ret=r
//@spec
    ensures r.source.w() == old(source).w(), *r.done_flag == *old(done_flag), final(r.source).w() == final(source).w(), *final(r.done_flag) == *final(done_flag), r.ready_flag,
        r.is_len_known == (rem_len is Some), rem_len is Some ==> r.rem_len == rem_len->0
//@end
//@fn List :: rem_len | ret=r
//@spec
    ensures r == if self.is_len_known { Some(self.rem_len) } else { None }
//@end
//@fn List :: push | ret=r
//@spec
    requires strict() ==> old(self).ready_flag && (old(self).is_len_known ==> old(self).rem_len > 0),
        list_ok(old(self).source.w(), old(self).ready_flag, old(self).is_len_known, old(self).rem_len)
    ensures old(self).ready_flag, *final(self).done_flag == *old(self).done_flag, final(self).is_len_known == old(self).is_len_known,
        old(self).is_len_known ==> old(self).rem_len > 0 && final(self).rem_len == old(self).rem_len - 1,
        final(final(self).source).w() == final(old(self).source).w(), *final(final(self).done_flag) == *final(old(self).done_flag),
        match r {
            Ok(v) => !*v.done_flag && done(old(self).source.w(), Op::PushItem, Ret::Unit, v.source.w())
                && final(self).source.w() == final(v.source).w() && final(self).ready_flag == *final(v.done_flag),
            Err(_) => !final(self).ready_flag && err(old(self).source.w(), Op::PushItem, final(self).source.w()) }
//@end
//@fn List :: close | ret=r
//@spec
    requires strict() ==> self.ready_flag && (self.is_len_known ==> self.rem_len == 0), self.ready_flag ==> !*self.done_flag,
        list_ok(self.source.w(), self.ready_flag, self.is_len_known, self.rem_len)
    ensures match r {
        Ok(_) => used(old(self.source).w(), *old(self.done_flag), Op::CloseList, Ret::Unit, final(self.source).w(), *final(self.done_flag)),
        Err(_) => stuck(old(self.source).w(), *old(self.done_flag), Op::CloseList, final(self.source).w(), *final(self.done_flag)) }
//@end
}
impl<'a, D: Deserializer + ?Sized> List<'a, D> {
//@fn List :: next | ret=r
//@spec
    requires strict() ==> old(self).ready_flag, old(self).ready_flag ==> !*old(self).done_flag,
        list_ok(old(self).source.w(), old(self).ready_flag, old(self).is_len_known, old(self).rem_len)
    ensures old(self).ready_flag, final(self).is_len_known == old(self).is_len_known,
        final(final(self).source).w() == final(old(self).source).w(), *final(final(self).done_flag) == *final(old(self).done_flag),
        match r {
            Ok(Some(v)) => !*v.done_flag && !*final(self).done_flag && done(old(self).source.w(), Op::NextItem, Ret::Bool(true), v.source.w())
                && (old(self).is_len_known && !old(self).source.w().failed ==> old(self).rem_len > 0 && final(self).rem_len == old(self).rem_len - 1)
                && final(self).source.w() == final(v.source).w() && final(self).ready_flag == *final(v.done_flag),
            Ok(None) => *final(self).done_flag && !final(self).ready_flag && done(old(self).source.w(), Op::NextItem, Ret::Bool(false), final(self).source.w()),
            Err(_) => !*final(self).done_flag && !final(self).ready_flag && err(old(self).source.w(), Op::NextItem, final(self).source.w()) }
//@end
}
