//@include prelude.rs
use vstd::utf8::*;
use vstd::arithmetic::power::pow;
//@include utf8lib.rs
//@include itoatext.rs
//@include floattext.rs
//@include writer.rs
//@include jsonwrite.rs
//@include opkinds.rs
//@include textrun.rs

/// Stand-ins for the crates itoa and ryu: their assumed contracts.
pub(crate) trait ItoaInt: Sized { spec fn as_int(self) -> int; }
//@for T in i8 i16 i32 i64 u8 u16 u32 u64
impl ItoaInt for $T { spec fn as_int(self) -> int { self as int } }
//@endfor
mod itoa {
    use super::*;
    #[verifier::external_body]
    pub(crate) struct Buffer { x: u8 }
    impl Buffer {
        #[verifier::external_body]
        pub(crate) fn new() -> Self { unimplemented!() }
        #[verifier::external_body]
        pub(crate) fn format<I: ItoaInt>(&mut self, value: I) -> (r: &str)
            ensures r@ == int_text(value.as_int())
        { unimplemented!() }
    }
}
pub(crate) trait RyuFloat: Sized { spec fn ryu_text(self) -> Seq<char>; }
impl RyuFloat for f32 { spec fn ryu_text(self) -> Seq<char> { f32_text(self) } }
impl RyuFloat for f64 { spec fn ryu_text(self) -> Seq<char> { f64_text(self) } }
mod ryu {
    use super::*;
    #[verifier::external_body]
    pub(crate) struct Buffer { x: u8 }
    impl Buffer {
        #[verifier::external_body]
        pub(crate) fn new() -> Self { unimplemented!() }
        #[verifier::external_body]
        pub(crate) fn format<F: RyuFloat>(&mut self, value: F) -> (r: &str)
            ensures r@ == value.ryu_text()
        { unimplemented!() }
    }
}

// The methods of Outliner and Serializer are spread over several traits here, because the verifier does not take
// implementations of one trait that call methods of its subtraits. Bodies and calls are as in the code.

// ---- The traits ------------------------------------------------------------------------------------------
//@use core/src/outliner.rs
trait Outliner {
    type Error;
    spec fn st(&self) -> TS;
    /// May the destination fail?
    spec fn faulty(&self) -> bool;
//@fn Outliner :: supports_null | ret=r sig
//@end
//@fn Outliner :: pop_null | ret=r sig
//@spec
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::PopNull) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
//@fn Outliner :: open_str | ret=r sig
//@spec
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::OpenStr) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
//@fn Outliner :: close_str | ret=r sig
//@spec
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::CloseStr) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
//@fn Outliner :: push_item | ret=r sig
//@spec
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::PushItem) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
//@fn Outliner :: close_list | ret=r sig
//@spec
    requires old(self).st().depth > 0
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::CloseList) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
}
//@use core/src/serialize.rs
trait Serializer: Outliner {
//@fn Serializer :: put_bool | ret=r sig
//@spec
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::PutBool(value)) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
//@fn Serializer :: put_i8 | ret=r sig
//@spec
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::PutInt(I8, value as int)) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
//@fn Serializer :: put_i16 | ret=r sig
//@spec
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::PutInt(I16, value as int)) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
//@fn Serializer :: put_i32 | ret=r sig
//@spec
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::PutInt(I32, value as int)) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
//@fn Serializer :: put_i64 | ret=r sig
//@spec
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::PutInt(I64, value as int)) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
//@fn Serializer :: put_u8 | ret=r sig
//@spec
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::PutInt(U8, value as int)) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
//@fn Serializer :: put_u16 | ret=r sig
//@spec
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::PutInt(U16, value as int)) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
//@fn Serializer :: put_u32 | ret=r sig
//@spec
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::PutInt(U32, value as int)) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
//@fn Serializer :: put_u64 | ret=r sig
//@spec
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::PutInt(U64, value as int)) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
//@fn Serializer :: put_f32 | ret=r sig
//@spec
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::PutF32(value)) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
//@fn Serializer :: put_f64 | ret=r sig
//@spec
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::PutF64(value)) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
//@fn Serializer :: put_char | ret=r sig
//@spec
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::PutChar(value)) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
//@fn Serializer :: append_char | ret=r sig
//@spec
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::AppendChar(value)) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
//@fn Serializer :: append_str | ret=r loops=1
//@spec
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::AppendStr(value@)) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@entry
    proof {
        assert(value@.take(0) =~= Seq::empty());
        assert(value@.take(value@.len() as int) =~= value@);
        assert forall|k: int| 0 <= k < value@.len() implies (#[trigger] value@.take(k + 1)).drop_last() == value@.take(k) && value@.take(k + 1).last() == value@[k] by {
            assert(value@.take(k + 1).drop_last() =~= value@.take(k));
        }
    }
//@loop 1
    invariant
        it1.seq() == value@,
        self.faulty() == old(self).faulty(),
        self.st() == chrs(old(self).st(), value@.take(it1.index())),
//@end
//@fn Serializer :: put_str | ret=r
//@spec
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::PutStr(value@)) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
}
//@use json/src/serialize/mod.rs
trait JsonSerializer: Serializer {
//@fn JsonSerializer :: open_list_streaming | ret=r sig
//@spec
    requires old(self).st().depth < u32::MAX
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::OpenListStreaming) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
//@fn JsonSerializer :: add_entry | ret=r sig
//@spec
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::AddEntry) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
}
//@use json/src/outliner.rs
trait JsonOutliner: Outliner {
//@fn JsonOutliner :: open_object | ret=r sig
//@spec
    requires old(self).st().depth < u32::MAX
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::OpenObject) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
//@fn JsonOutliner :: push_entry | ret=r sig
//@spec
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::PushEntry(key@)) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
//@fn JsonOutliner :: close_object | ret=r sig
//@spec
    requires old(self).st().depth > 0
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::CloseObject) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
}
//@use core/src/outliner.rs
trait OutlinerStruct: Outliner {
//@fn Outliner :: open_struct | ret=r sig
//@spec
    requires old(self).st().depth < u32::MAX
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::OpenStruct(ostr(type_name))) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
//@fn Outliner :: push_field | ret=r sig
//@spec
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::PushField(name@)) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
//@fn Outliner :: close_struct | ret=r sig
//@spec
    requires old(self).st().depth > 0
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::CloseStruct) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
//@fn Outliner :: open_tuple | ret=r sig
//@spec
    requires old(self).st().depth < u32::MAX
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::OpenTuple(ostr(type_name))) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
//@fn Outliner :: push_element | ret=r sig
//@spec
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::PushElement) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
//@fn Outliner :: close_tuple | ret=r sig
//@spec
    requires old(self).st().depth > 0
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::CloseTuple) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
}
//@use core/src/serialize.rs
trait SerializerRest: Serializer {
//@fn Serializer :: put_tag | ret=r sig
//@spec
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::PutTag(max_index as int, index as int, ostr(name))) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
//@fn Serializer :: open_list_sized | ret=r sig
//@spec
    requires old(self).st().depth < u32::MAX
    ensures final(self).faulty() == old(self).faulty(),
        match r { Ok(_) => srun(old(self).st(), Op::OpenListSized(len as nat)) == Some(final(self).st()), Err(_) => old(self).faulty() }
//@end
}
//@use json/src/serialize/mod.rs
//@fn put_tag | ret=r
//@spec
    ensures final(serializer).faulty() == old(serializer).faulty(),
        match r { Ok(_) => srun(old(serializer).st(), Op::PutTag(max_index as int, index as int, ostr(name))) == Some(final(serializer).st()), Err(_) => old(serializer).faulty() }
//@end
proof fn lemma_low(c: char)
    ensures
        (c as u32) < 16 ==> (c as u8 & 0xF) == c as u32,
        16 <= (c as u32) < 32 ==> (c as u8 & 0xF) == c as u32 - 16,
        (c as u8 & 0xF) < 16,
{
    let x = c as u8;
    assert(x < 16 ==> (x & 0xF) == x) by (bit_vector);
    assert(16 <= x < 32 ==> (x & 0xF) == x - 16) by (bit_vector);
    assert((x & 0xF) < 16) by (bit_vector);
}
//@use json/src/serialize/text.rs
//@item struct TextSerializer
//@item struct TextSerializerConfig
impl<Writer: TextWriter> TextSerializer<Writer> {
    spec fn view_st(&self) -> TS {
        TS { bytes: self.writer.bytes(), indent: match self.config.indent { Some(u) => Some(u@), None => None }, depth: self.depth as int, in_key: self.in_key, at_first: self.at_first }
    }
//@fn TextSerializer :: new | ret=r
//@spec
    ensures r.view_st() == (TS { bytes: writer.bytes(), indent: match config.indent { Some(u) => Some(u@), None => None }, depth: 0, in_key: false, at_first: false }),
        r.writer == writer
//@end
//@fn TextSerializer :: close | ret=r
//@spec
    ensures r == self.writer
//@end
}
impl<Writer: TextWriter> Outliner for TextSerializer<Writer> {
    type Error = Writer::Error;
    spec fn st(&self) -> TS { self.view_st() }
    spec fn faulty(&self) -> bool { self.writer.may_fail() }
//@fn Outliner for TextSerializer :: supports_null | ret=r
//@end
//@fn Outliner for TextSerializer :: pop_null | ret=r
//@end
//@fn Outliner for TextSerializer :: open_str | ret=r
//@end
//@fn Outliner for TextSerializer :: close_str | ret=r
//@end
//@fn Outliner for TextSerializer :: push_item | ret=r loops=1
//@entry
    let ghost b0 = self.writer.bytes();
//@before for
    let ghost b1 = self.writer.bytes();
    proof { lemma_out0(b1); }
//@loop 1
    invariant
        self.writer.may_fail() == old(self).writer.may_fail(), self.config == old(self).config, self.in_key == old(self).in_key, self.at_first == false, self.depth == old(self).depth,
        old(self).config.indent == Some(indent),
        self.writer.bytes() == out(b1, rep(indent@, it1.index())),
//@in 1
    proof { lemma_out(b1, rep(indent@, it1.index()), indent@); }
//@end
//@fn Outliner for TextSerializer :: close_list | ret=r loops=1
//@entry
    let ghost b0 = self.writer.bytes();
//@before for
    let ghost b1 = self.writer.bytes();
    proof { lemma_out0(b1); }
//@loop 1
    invariant
        self.writer.may_fail() == old(self).writer.may_fail(), self.config == old(self).config, self.in_key == old(self).in_key, self.at_first == false, self.depth == old(self).depth - 1,
        old(self).config.indent == Some(indent),
        self.writer.bytes() == out(b1, rep(indent@, it1.index())),
//@in 1
    proof { lemma_out(b1, rep(indent@, it1.index()), indent@); }
//@end
}
impl<Writer: TextWriter> Serializer for TextSerializer<Writer> {
//@fn Serializer for TextSerializer :: put_bool | ret=r
//@end
//@fn Serializer for TextSerializer :: put_i8 | ret=r
//@end
//@fn Serializer for TextSerializer :: put_i16 | ret=r
//@end
//@fn Serializer for TextSerializer :: put_i32 | ret=r
//@end
//@fn Serializer for TextSerializer :: put_i64 | ret=r
//@end
//@fn Serializer for TextSerializer :: put_u8 | ret=r
//@end
//@fn Serializer for TextSerializer :: put_u16 | ret=r
//@end
//@fn Serializer for TextSerializer :: put_u32 | ret=r
//@end
//@fn Serializer for TextSerializer :: put_u64 | ret=r
//@end
//@fn Serializer for TextSerializer :: put_f32 | ret=r
//@end
//@fn Serializer for TextSerializer :: put_f64 | ret=r
//@end
//@fn Serializer for TextSerializer :: put_char | ret=r
//@end
//@fn Serializer for TextSerializer :: append_char | ret=r
//@entry
    proof { lemma_low(value); }
//@end
}
impl<Writer: TextWriter> JsonSerializer for TextSerializer<Writer> {
//@fn JsonSerializer for TextSerializer :: open_list_streaming | ret=r
//@end
//@fn JsonSerializer for TextSerializer :: add_entry | ret=r loops=1
//@entry
    let ghost b0 = self.writer.bytes();
//@before for
    let ghost b1 = self.writer.bytes();
    proof { lemma_out0(b1); }
//@loop 1
    invariant
        self.writer.may_fail() == old(self).writer.may_fail(), self.config == old(self).config, self.in_key == old(self).in_key, self.at_first == false, self.depth == old(self).depth,
        old(self).config.indent == Some(indent),
        self.writer.bytes() == out(b1, rep(indent@, it1.index())),
//@in 1
    proof { lemma_out(b1, rep(indent@, it1.index()), indent@); }
//@end
}
impl<Writer: TextWriter> JsonOutliner for TextSerializer<Writer> {
//@fn JsonOutliner for TextSerializer :: open_object | ret=r
//@end
//@fn JsonOutliner for TextSerializer :: push_entry | ret=r
//@end
//@fn JsonOutliner for TextSerializer :: close_object | ret=r loops=1
//@entry
    let ghost b0 = self.writer.bytes();
//@before for
    let ghost b1 = self.writer.bytes();
    proof { lemma_out0(b1); }
//@loop 1
    invariant
        self.writer.may_fail() == old(self).writer.may_fail(), self.config == old(self).config, self.in_key == old(self).in_key, self.at_first == false, self.depth == old(self).depth - 1,
        old(self).config.indent == Some(indent),
        self.writer.bytes() == out(b1, rep(indent@, it1.index())),
//@in 1
    proof { lemma_out(b1, rep(indent@, it1.index()), indent@); }
//@end
}
impl<Writer: TextWriter> OutlinerStruct for TextSerializer<Writer> {
//@fn Outliner for TextSerializer :: open_struct | ret=r
//@end
//@fn Outliner for TextSerializer :: push_field | ret=r
//@end
//@fn Outliner for TextSerializer :: close_struct | ret=r
//@end
//@fn Outliner for TextSerializer :: open_tuple | ret=r
//@end
//@fn Outliner for TextSerializer :: push_element | ret=r
//@end
//@fn Outliner for TextSerializer :: close_tuple | ret=r
//@end
}
impl<Writer: TextWriter> SerializerRest for TextSerializer<Writer> {
//@fn Serializer for TextSerializer :: put_tag | ret=r
//@subst super :: put_tag => put_tag
//@end
//@fn Serializer for TextSerializer :: open_list_sized | ret=r
//@end
}
} // verus!
fn main() {}
