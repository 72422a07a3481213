// The JSON specific operations.
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@use json/src/lib.rs
//@item enum ValueType
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@item enum CollectionType
/// What the implementation says about the value / collection on top.
uninterp spec fn value_type(s: Sem) -> ValueType;
uninterp spec fn collection_type(s: Sem) -> CollectionType;
//@use json/src/outliner.rs
trait JsonOutliner: Outliner {
//@for F,O in open_object,OpenObject push_entry,PushEntry(key@) close_object,CloseObject
//@fn JsonOutliner :: $F | ret=r sig
//@spec
    requires may(old(self).w(), Op::$O)
    ensures match r { Ok(_) => done(old(self).w(), Op::$O, Ret::Unit, final(self).w()), Err(_) => err(old(self).w(), Op::$O, final(self).w()) }
//@end
//@endfor
}
//@use json/src/serialize/mod.rs
trait JsonSerializer: JsonOutliner + Serializer {
//@for F,O in open_list_streaming,OpenListStreaming add_entry,AddEntry
//@fn JsonSerializer :: $F | ret=r sig
//@spec
    requires may(old(self).w(), Op::$O)
    ensures match r { Ok(_) => done(old(self).w(), Op::$O, Ret::Unit, final(self).w()), Err(_) => err(old(self).w(), Op::$O, final(self).w()) }
//@end
//@endfor
}
//@use json/src/deserialize/mod.rs
trait JsonDeserializer: JsonOutliner + Deserializer {
//@fn JsonDeserializer :: peek_value_type | ret=r sig
//@spec
    requires self.w().failed || top_is(self.w().stack, Fr::Value)
    ensures !self.w().failed && !self.w().bad ==> r == value_type(self.w().sem)
//@end
//@for F,O,C in try_push_entry,TryPushEntry(key@),Ret::Bool(x) next_entry,NextEntry,Ret::Bool(x) skip_value,SkipValue,Ret::Unit
//@fn JsonDeserializer :: $F | ret=r sig
//@spec
    requires may(old(self).w(), Op::$O)
    ensures match r { Ok(x) => done(old(self).w(), Op::$O, $C, final(self).w()), Err(_) => err(old(self).w(), Op::$O, final(self).w()) }
//@end
//@endfor
}
