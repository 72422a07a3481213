// The functions of json/src/deserialize/mod.rs that implement the operations of Deserializer by those of JsonDeserializer.
//@use json/src/deserialize/mod.rs
//@for F,O,A in open_struct,OpenStruct,ostr(type_name) push_field,PushField,name@
//@fn $F | ret=r
//@spec
    requires may(old(deserializer).w(), Op::$O($A))
    ensures match r { Ok(_) => done(old(deserializer).w(), Op::$O($A), Ret::Unit, final(deserializer).w()), Err(_) => err(old(deserializer).w(), Op::$O($A), final(deserializer).w()) }
//@end
//@endfor
//@for F,O in close_struct,CloseStruct push_item,PushItem close_list,CloseList
//@fn $F | ret=r
//@spec
    requires may(old(deserializer).w(), Op::$O)
    ensures match r { Ok(_) => done(old(deserializer).w(), Op::$O, Ret::Unit, final(deserializer).w()), Err(_) => err(old(deserializer).w(), Op::$O, final(deserializer).w()) }
//@end
//@endfor
//@fn get_tag | ret=r
//@spec
    requires may(old(deserializer).w(), Op::GetTag(max_index as int, names@))
    ensures match r { Ok(x) => done(old(deserializer).w(), Op::GetTag(max_index as int, names@), Ret::Index(x), final(deserializer).w()), Err(_) => err(old(deserializer).w(), Op::GetTag(max_index as int, names@), final(deserializer).w()) }
//@end
