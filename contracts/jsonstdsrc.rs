// What the standard implementations build on, and the default methods.
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
struct NameMap<V> { x: V }
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
struct NameMapLookup<'a, V> { x: &'a V }
/// Proved in unit namemap (there on the bytes of the names).
impl<V> NameMap<V> {
    uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    fn lookup(&self) -> (r: NameMapLookup<'_, V>) ensures r.names() == self@, r.text() == Seq::<char>::empty() { unimplemented!() }
}
impl<'a, V> NameMapLookup<'a, V> {
    uninterp spec fn names(&self) -> Map<Seq<char>, V>;
    uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    fn write_char(&mut self, ch: char) ensures final(self).names() == old(self).names(), final(self).text() == old(self).text().push(ch) { unimplemented!() }
    #[verifier::external_body]
    fn result(self) -> (r: Option<&'a V>)
        ensures r is Some <==> self.names().dom().contains(self.text()), r is Some ==> *r->0 == self.names()[self.text()]
    { unimplemented!() }
}
/// std::borrow::Cow over str.
#[verifier::external_body]
#[verifier::reject_recursive_types(B)]
struct Cow<'a, B: ?Sized> { x: &'a B }
impl<'a> Cow<'a, str> {
    uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    fn Owned(s: String) -> (r: Cow<'a, str>) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    fn into_owned(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
struct BoxedError { x: u8 }
#[verifier::external_body]
fn boxed_error() -> BoxedError { unimplemented!() }
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (_0: Option<&'a T>) -> (r: Option<T>)
    ensures r == match _0 { Some(x) => Some(*x), None => None::<T> };
/// u64 to usize (64-bit targets).
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@use json/src/lib.rs
//@item enum ValueType
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@item enum CollectionType
spec fn type_of(j: J) -> ValueType {
    match j { J::Null => ValueType::Null, J::Bool(_) => ValueType::Bool, J::Num(_) => ValueType::Number, J::Str(_) => ValueType::String, J::Arr(_) => ValueType::Array, J::Obj(_) => ValueType::Object }
}
spec fn value_type(d: DF) -> ValueType { match d { DF::Val(j) => type_of(j), _ => ValueType::Null } }
//@use core/src/outliner.rs
trait Outliner {
    type Error;
    spec fn w(&self) -> W;
//@for F,O in pop_null,PopNull open_str,OpenStr
//@fn Outliner :: $F | ret=r sig
//@spec
    requires may(old(self).w(), Op::$O)
    ensures match r { Ok(_) => done(old(self).w(), Op::$O, Ret::Unit, final(self).w()), Err(_) => err(old(self).w(), Op::$O, final(self).w()) }
//@end
//@endfor
}
//@use json/src/outliner.rs
trait JsonOutliner: Outliner {
//@for F,O in open_object,OpenObject
//@fn JsonOutliner :: $F | ret=r sig
//@spec
    requires may(old(self).w(), Op::$O)
    ensures match r { Ok(_) => done(old(self).w(), Op::$O, Ret::Unit, final(self).w()), Err(_) => err(old(self).w(), Op::$O, final(self).w()) }
//@end
//@endfor
}
//@use core/src/deserialize.rs
trait Deserializer: Outliner {
//@for F,O,C in get_bool,GetBool,Ret::Bool(x) get_f32,GetF32,Ret::F32(x) next_char,NextChar,Ret::MaybeChar(x) open_list,OpenList,Ret::Len(x) next_item,NextItem,Ret::Bool(x)
//@fn Deserializer :: $F | ret=r sig
//@spec
    requires may(old(self).w(), Op::$O)
    ensures match r { Ok(x) => done(old(self).w(), Op::$O, $C, final(self).w()), Err(_) => err(old(self).w(), Op::$O, final(self).w()) }
//@end
//@endfor
//@fn Deserializer :: get_u64 | ret=r sig
//@spec
    requires may(old(self).w(), Op::GetInt(U64))
    ensures match r { Ok(x) => done(old(self).w(), Op::GetInt(U64), Ret::Int(x as int), final(self).w()), Err(_) => err(old(self).w(), Op::GetInt(U64), final(self).w()) }
//@end
//@fn Deserializer :: error | ret=r sig
//@sigsubst Box<dyn std::error::Error + Send + Sync> => BoxedError
//@end
//@fn Deserializer :: error_missing_item | ret=r sig
//@end
//@fn Deserializer :: error_extra_item | ret=r sig
//@spec
    requires !self.w().failed, top_is(self.w().stack, LIST) // #C12
//@end
//@fn Deserializer :: error_invalid_name | ret=r
//@dropargs Box::new => boxed_error()
//@end
//@fn Deserializer :: error_invalid_index | ret=r
//@dropargs Box::new => boxed_error()
//@end
//@fn Deserializer :: flush_str | ret=r loops=1
//@spec
    requires may(old(self).w(), Op::FlushStr)
    ensures match r { Ok(x) => done(old(self).w(), Op::FlushStr, Ret::Str(x@), final(self).w()), Err(_) => err(old(self).w(), Op::FlushStr, final(self).w()) }
//@loop 1
    invariant_except_break
        !self.w().bad ==> old(self).w().sem.last()->Str_0 == str@ + self.w().sem.last()->Str_0 && self.w().sem.len() == old(self).w().sem.len(),
        top_is(self.w().stack, Fr::Str), self.w().stack == old(self).w().stack,
    invariant
        same(old(self).w(), self.w()), !self.w().failed, self.w().fuel < 0x4000_0000,
        fit(self.w()), fit(old(self).w()), old(self).w().stack.len() > 0, top_is(old(self).w().stack, Fr::Str),
        !self.w().bad ==> self.w().sem.take(old(self).w().sem.len() - 1) =~= old(self).w().sem.drop_last(),
    ensures
        !self.w().bad ==> old(self).w().sem.last() == DF::Str(str@) && self.w().sem =~= old(self).w().sem.drop_last(),
        self.w().stack == old(self).w().stack.drop_last(),
    decreases self.w().fuel
//@end
//@fn Deserializer :: skip_str | ret=r loops=1
//@spec
    requires may(old(self).w(), Op::SkipStr)
    ensures match r { Ok(x) => done(old(self).w(), Op::SkipStr, Ret::Unit, final(self).w()), Err(_) => err(old(self).w(), Op::SkipStr, final(self).w()) }
//@loop 1
    invariant_except_break
        !self.w().bad ==> self.w().sem.last() is Str && self.w().sem.len() == old(self).w().sem.len(),
        top_is(self.w().stack, Fr::Str), self.w().stack == old(self).w().stack,
    invariant
        same(old(self).w(), self.w()), !self.w().failed, self.w().fuel < 0x4000_0000,
        fit(self.w()), fit(old(self).w()), old(self).w().stack.len() > 0, top_is(old(self).w().stack, Fr::Str),
        !self.w().bad ==> self.w().sem.take(old(self).w().sem.len() - 1) =~= old(self).w().sem.drop_last(),
    ensures
        !self.w().bad ==> self.w().sem =~= old(self).w().sem.drop_last(),
        self.w().stack == old(self).w().stack.drop_last(),
    decreases self.w().fuel
//@end
//@fn Deserializer :: read_str | ret=r
//@spec
    requires may(old(self).w(), Op::ReadStr)
    ensures match r { Ok(x) => done(old(self).w(), Op::ReadStr, Ret::Str(x@), final(self).w()), Err(_) => err(old(self).w(), Op::ReadStr, final(self).w()) }
//@end
//@fn Deserializer :: flush_name | ret=r loops=1
//@spec
    requires may(old(self).w(), Op::FlushName(names@))
    ensures match r { Ok(x) => done(old(self).w(), Op::FlushName(names@), Ret::Index(x), final(self).w()), Err(_) => err(old(self).w(), Op::FlushName(names@), final(self).w()) }
//@loop 1
    invariant_except_break
        !self.w().bad ==> old(self).w().sem.last()->Str_0 == lookup.text() + self.w().sem.last()->Str_0 && self.w().sem.len() == old(self).w().sem.len(),
        top_is(self.w().stack, Fr::Str), self.w().stack == old(self).w().stack,
    invariant
        lookup.names() == names@,
        same(old(self).w(), self.w()), !self.w().failed, self.w().fuel < 0x4000_0000,
        fit(self.w()), fit(old(self).w()), old(self).w().stack.len() > 0, top_is(old(self).w().stack, Fr::Str),
        !self.w().bad ==> self.w().sem.take(old(self).w().sem.len() - 1) =~= old(self).w().sem.drop_last(),
    ensures
        !self.w().bad ==> old(self).w().sem.last() == DF::Str(lookup.text()) && self.w().sem =~= old(self).w().sem.drop_last(),
        self.w().stack == old(self).w().stack.drop_last(),
    decreases self.w().fuel
//@end
//@fn Deserializer :: get_name | ret=r
//@spec
    requires may(old(self).w(), Op::GetName(names@))
    ensures match r { Ok(x) => done(old(self).w(), Op::GetName(names@), Ret::Index(x), final(self).w()), Err(_) => err(old(self).w(), Op::GetName(names@), final(self).w()) }
//@end
}
//@use json/src/deserialize/mod.rs
trait JsonDeserializer: JsonOutliner + Deserializer {
//@fn JsonDeserializer :: peek_value_type | ret=r sig
//@spec
    requires !self.w().failed, top_is(self.w().stack, Fr::Value), fit(self.w())
    ensures !self.w().bad ==> r == value_type(self.w().sem.last())
//@end
//@fn JsonDeserializer :: peek_collection_type | ret=r sig
//@spec
    requires !self.w().failed, top_coll(self.w().stack)
    ensures r == if self.w().stack.last() is Object { CollectionType::Object } else { CollectionType::Array }
//@end
//@fn JsonDeserializer :: push_null | ret=r sig
//@spec
    requires may(old(self).w(), Op::PushNull)
    ensures done(old(self).w(), Op::PushNull, Ret::Unit, final(self).w())
//@end
//@for F,O,C in try_push_entry,TryPushEntry(key@),Ret::Bool(x) next_entry,NextEntry,Ret::Bool(x)
//@fn JsonDeserializer :: $F | ret=r sig
//@spec
    requires may(old(self).w(), Op::$O)
    ensures match r { Ok(x) => done(old(self).w(), Op::$O, $C, final(self).w()), Err(_) => err(old(self).w(), Op::$O, final(self).w()) }
//@end
//@endfor
//@fn JsonDeserializer :: error_expected_type | ret=r sig
//@spec
    requires !self.w().failed, top_is(self.w().stack, Fr::Value) // #C12
//@end
//@fn JsonDeserializer :: skip_value | ret=r loops=2
//@spec
    requires may(old(self).w(), Op::SkipValue)
    ensures match r { Ok(x) => done(old(self).w(), Op::SkipValue, Ret::Unit, final(self).w()), Err(_) => err(old(self).w(), Op::SkipValue, final(self).w()) }
//@loop 1
    invariant
        skip_inv(old(self).w(), self.w(), depth as nat, true), depth + self.w().fuel <= old(self).w().fuel,
    decreases self.w().fuel
//@loop 2
    invariant_except_break
        skip_inv(old(self).w(), self.w(), depth as nat, false), depth + self.w().fuel <= old(self).w().fuel + 1,
    invariant
        skip_inv(old(self).w(), old(self).w(), 0, true), f0 >= self.w().fuel,
    ensures
        skip_inv(old(self).w(), self.w(), depth as nat, true), depth + self.w().fuel <= old(self).w().fuel, self.w().fuel < f0
    decreases depth
//@in 1
    let ghost f0 = self.w().fuel;
//@end
//@fn JsonDeserializer :: skip_object | ret=r loops=1
//@spec
    requires may(old(self).w(), Op::SkipObject)
    ensures match r { Ok(x) => done(old(self).w(), Op::SkipObject, Ret::Unit, final(self).w()), Err(_) => err(old(self).w(), Op::SkipObject, final(self).w()) }
//@loop 1
    invariant_except_break
        skip_inv(old(self).w(), self.w(), 1, false), top_is(self.w().stack, Fr::Object),
    invariant
        may(old(self).w(), Op::SkipObject),
    ensures
        skip_inv(old(self).w(), self.w(), 0, false),
    decreases self.w().fuel
//@end
}
/// Everything below the top is as it was; on it are `n` collections, and perhaps a value on top.
spec fn skip_inv(a: W, b: W, n: nat, v: bool) -> bool {
    let k = a.stack.len() - 1; let m = k + n;
    &&& same(a, b) && !b.failed && fit(b) && b.fuel < 0x4000_0000 && k >= 0
    &&& b.stack.len() == m + (if v { 1int } else { 0 }) && b.stack.take(k) =~= a.stack.drop_last() && (v ==> b.stack[m] == Fr::Value)
    &&& forall|i: int| #![trigger b.stack[i]] k <= i < m ==> b.stack[i] == Fr::Object || b.stack[i] == LIST
    &&& !a.bad ==> fit(a) && b.sem.take(k) =~= a.sem.drop_last()
}
