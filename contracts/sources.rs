// The traits of the stack-based API. Contract of every operation: it may be used when the stack allows it (or after an
// error); its answer and the state after it are those of `run`.

#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
struct NameMap<V> { x: V }
impl<V> NameMap<V> { uninterp spec fn view(&self) -> Map<Seq<char>, V>; }

/// std::borrow::Cow over str.
#[verifier::external_body]
#[verifier::reject_recursive_types(B)]
struct Cow<'a, B: ?Sized> { x: &'a B }
impl<'a> Cow<'a, str> {
    uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    fn into_owned(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
/// The boxed error handed to Deserializer::error, which no contract looks into.
#[verifier::external_body]
struct BoxedError { x: u8 }
#[verifier::external_body]
fn boxed_error() -> BoxedError { unimplemented!() }

//@use core/src/outliner.rs
trait Outliner {
    type Error;
    spec fn w(&self) -> W;
//@fn Outliner :: supports_null | ret=r sig
//@spec
    ensures r == self.w().null
//@end
//@for F,O in pop_null,PopNull open_str,OpenStr close_str,CloseStr close_struct,CloseStruct push_element,PushElement close_tuple,CloseTuple push_item,PushItem close_list,CloseList
//@fn Outliner :: $F | ret=r sig
//@spec
    requires may(old(self).w(), Op::$O)
    ensures match r { Ok(_) => done(old(self).w(), Op::$O, Ret::Unit, final(self).w()), Err(_) => err(old(self).w(), Op::$O, final(self).w()) }
//@end
//@endfor
//@for F,O,A in open_struct,OpenStruct,ostr(type_name) push_field,PushField,name@ open_tuple,OpenTuple,ostr(type_name)
//@fn Outliner :: $F | ret=r sig
//@spec
    requires may(old(self).w(), Op::$O($A))
    ensures match r { Ok(_) => done(old(self).w(), Op::$O($A), Ret::Unit, final(self).w()), Err(_) => err(old(self).w(), Op::$O($A), final(self).w()) }
//@end
//@endfor
}
//@use core/src/serialize.rs
trait Serializer: Outliner {
//@for F,O,A in put_bool,PutBool,value put_f32,PutF32,value put_f64,PutF64,value put_char,PutChar,value put_str,PutStr,value@ append_char,AppendChar,value append_str,AppendStr,value@ open_list_sized,OpenListSized,nat_of(len)
//@fn Serializer :: $F | ret=r sig
//@spec
    requires may(old(self).w(), Op::$O($A))
    ensures match r { Ok(_) => done(old(self).w(), Op::$O($A), Ret::Unit, final(self).w()), Err(_) => err(old(self).w(), Op::$O($A), final(self).w()) }
//@end
//@endfor
//@for F,O in put_i8,I8 put_i16,I16 put_i32,I32 put_i64,I64 put_u8,U8 put_u16,U16 put_u32,U32 put_u64,U64
//@fn Serializer :: $F | ret=r sig
//@spec
    requires may(old(self).w(), Op::PutInt($O, value as int))
    ensures match r { Ok(_) => done(old(self).w(), Op::PutInt($O, value as int), Ret::Unit, final(self).w()), Err(_) => err(old(self).w(), Op::PutInt($O, value as int), final(self).w()) }
//@end
//@endfor
//@fn Serializer :: put_tag | ret=r sig
//@spec
    requires may(old(self).w(), Op::PutTag(max_index as int, index as int, ostr(name)))
    ensures match r { Ok(_) => done(old(self).w(), Op::PutTag(max_index as int, index as int, ostr(name)), Ret::Unit, final(self).w()), Err(_) => err(old(self).w(), Op::PutTag(max_index as int, index as int, ostr(name)), final(self).w()) }
//@end
}
//@use core/src/deserialize.rs
trait Deserializer: Outliner {
//@for F,O,C in get_bool,GetBool,Ret::Bool(x) get_f32,GetF32,Ret::F32(x) get_f64,GetF64,Ret::F64(x) get_char,GetChar,Ret::Char(x) next_char,NextChar,Ret::MaybeChar(x) check_null,CheckNull,Ret::Bool(x) open_list,OpenList,Ret::Len(x) next_item,NextItem,Ret::Bool(x) read_str,ReadStr,Ret::Str(x@) flush_str,FlushStr,Ret::Str(x@) skip_str,SkipStr,Ret::Unit
//@fn Deserializer :: $F | ret=r sig
//@spec
    requires may(old(self).w(), Op::$O)
    ensures match r { Ok(x) => done(old(self).w(), Op::$O, $C, final(self).w()), Err(_) => err(old(self).w(), Op::$O, final(self).w()) }
//@end
//@endfor
//@for F,O in get_i8,I8 get_i16,I16 get_i32,I32 get_i64,I64 get_u8,U8 get_u16,U16 get_u32,U32 get_u64,U64
//@fn Deserializer :: $F | ret=r sig
//@spec
    requires may(old(self).w(), Op::GetInt($O))
    ensures match r { Ok(x) => done(old(self).w(), Op::GetInt($O), Ret::Int(x as int), final(self).w()), Err(_) => err(old(self).w(), Op::GetInt($O), final(self).w()) }
//@end
//@endfor
//@fn Deserializer :: get_tag | ret=r sig
//@spec
    requires may(old(self).w(), Op::GetTag(max_index as int, names@))
    ensures match r { Ok(x) => done(old(self).w(), Op::GetTag(max_index as int, names@), Ret::Index(x), final(self).w()), Err(_) => err(old(self).w(), Op::GetTag(max_index as int, names@), final(self).w()) }
//@end
//@fn Deserializer :: error_invalid_index | ret=r sig
//@end
//@fn Deserializer :: error | ret=r sig
//@sigsubst Box<dyn std::error::Error + Send + Sync> => BoxedError
//@end
}
