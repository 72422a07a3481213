// The number types of the library, as `Num`.
//@use json/src/deserialize/number.rs

//@for U in u8 u16 u32 u64 u128
impl NumBuilder for $U {
    spec fn holds(&self, ds: Seq<u8>) -> bool { *self == val(ds) }
    spec fn too_big(ds: Seq<u8>) -> bool { val(ds) > $U::MAX }
    fn fresh() -> (r: Self) { 0 } // Default::default() of an integer
//@fn NumBuilder for $U :: push_digit | ret=r
//@entry
    proof {
        assert forall|ds: Seq<u8>| #[trigger] self.holds(ds) implies val(ds.push(digit)) == *self * 10 + digit by { lemma_val_push(ds, digit); }
    }
//@end
}

impl Num for $U {
    type Builder = $U;
    spec fn reads(r: Option<Self>, ds: Seq<u8>, negate: bool, exp: int) -> bool {
        match r {
            Some(x) => is_exact(x as int, negate, val(ds), exp),
            None => forall|x: $U| !is_exact(x as int, negate, val(ds), exp),
        }
    }
//@fn Num for $U :: from_builder | ret=r
//@entry
    proof { lemma_from_builder(value as int, exp_10 as int); }
//@end
}
//@endfor

//@for I,U in i8,u8 i16,u16 i32,u32 i64,u64 i128,u128
impl Num for $I {
    type Builder = $U;
    spec fn reads(r: Option<Self>, ds: Seq<u8>, negate: bool, exp: int) -> bool {
        match r {
            Some(x) => is_exact(x as int, negate, val(ds), exp),
            None => forall|x: $I| !is_exact(x as int, negate, val(ds), exp),
        }
    }
//@fn Num for $I :: from_builder | ret=r
//@entry
    proof { lemma_from_builder(value as int, exp_10 as int); }
//@end
}
//@endfor


// ---- Floats -------------------------------------------------------------------------------------------

//@include unchecked.rs
//@item enum FloatBuilder

spec fn ascii(ds: Seq<u8>) -> Seq<u8> { ds.map_values(|d: u8| (d + 48) as u8) }


/// Stand-in for `itoa::Buffer`: assumed contract of the crate itoa.
#[verifier::external_body]
struct ItoaBuffer { x: u8 }
impl ItoaBuffer {
    #[verifier::external_body]
    fn new() -> Self { unimplemented!() }
    #[verifier::external_body]
    fn format(&mut self, value: i32) -> (r: &str)
        ensures r@ == int_text(value as int), encode_utf8(r@).len() <= 11
    { unimplemented!() }
}

/// `d1 d2 .. dn e EXP`
spec fn float_text(ds: Seq<u8>, exp: int) -> Seq<u8> { ascii(ds) + encode_utf8(seq!['e']) + encode_utf8(int_text(exp)) }

proof fn lemma_digit(d: u8)
    requires d <= 9
    ensures
        encode_utf8(seq![(48 + d) as char]) == seq![(d + 48) as u8],
        valid_utf8(seq![(d + 48) as u8]),
        decode_utf8(seq![(d + 48) as u8]) == seq![(48 + d) as char],
{
    lemma_enc((48 + d) as char);
    encode_utf8_valid_utf8(seq![(48 + d) as char]);
    encode_utf8_decode_utf8(seq![(48 + d) as char]);
    assert(encode_utf8(seq![(48 + d) as char]) =~= seq![(d + 48) as u8]);
}

proof fn lemma_ascii_push(ds: Seq<u8>, d: u8)
    ensures ascii(ds.push(d)) == ascii(ds) + seq![(d + 48) as u8]
{
    assert(ascii(ds.push(d)) =~= ascii(ds) + seq![(d + 48) as u8]);
}

//@for F in f32 f64
/// Stand-in for `str::parse::<$F>().unwrap()`: assumed contract of the standard library.
#[verifier::external_body]
fn parse_$F(s: &str) -> (r: $F)
    requires exists|ds: Seq<u8>, exp: int| digits_ok(ds) && ds.len() > 0 && encode_utf8(s@) == #[trigger] float_text(ds, exp)
    ensures forall|ds: Seq<u8>, exp: int| digits_ok(ds) && ds.len() > 0 && encode_utf8(s@) == #[trigger] float_text(ds, exp) ==> r == nearest_$F(val(ds), exp)
{ unimplemented!() }

/// Stand-in for the negation of a float.
#[verifier::external_body]
fn negate_$F(x: $F) -> (r: $F)
    ensures r == neg_of_$F(x)
{ unimplemented!() }

axiom fn axiom_zero_$F(exp: int)
    ensures nearest_$F(0, exp) == 0.0$F;
//@endfor

impl FloatBuilder {
//@item const FloatBuilder :: SMALL_LEN

    spec fn bytes(&self) -> Seq<u8> {
        match self {
            FloatBuilder::Small { buf, len } => buf@.take(*len as int),
            FloatBuilder::Large(vec) => vec@,
        }
    }
    spec fn wf(&self) -> bool {
        &&& valid_utf8(self.bytes())
        &&& match self { FloatBuilder::Small { buf, len } => *len <= 32, FloatBuilder::Large(vec) => vec@.len() > 0 }
    }

//@fn FloatBuilder :: push_str
//@spec
    requires old(self).wf(), encode_utf8(s@).len() <= usize::MAX - 32
    ensures final(self).wf(), final(self).bytes() == old(self).bytes() + encode_utf8(s@)
//@entry
    broadcast use group_utf8_lib;
    let ghost old_bytes = self.bytes();
    proof {
        decode_utf8_encode_utf8(old_bytes);
        encode_utf8_concat(decode_utf8(old_bytes), s@);
        encode_utf8_valid_utf8(decode_utf8(old_bytes) + s@);
    }
//@exit
    assert(self.bytes() =~= old_bytes + encode_utf8(s@));
//@end
//@fn FloatBuilder :: push_i32
//@subst itoa :: Buffer :: new ( ) => ItoaBuffer::new()
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).bytes() == old(self).bytes() + encode_utf8(int_text(value as int))
//@end
//@fn FloatBuilder :: as_str | ret=r
//@spec
    requires self.wf(), 
    ensures encode_utf8(r@) == self.bytes()
//@end
}

impl NumBuilder for FloatBuilder {
    spec fn holds(&self, ds: Seq<u8>) -> bool { self.wf() && self.bytes() == ascii(ds) && digits_ok(ds) }
    spec fn too_big(ds: Seq<u8>) -> bool { false }
    fn fresh() -> (r: Self) { FloatBuilder::default() }
//@fn NumBuilder for FloatBuilder :: push_digit | ret=r
//@spec
    // the precondition that makes the builder well-formed comes with the trait's `holds`
//@entry
    proof {
        lemma_digit(digit);
        assert forall|ds: Seq<u8>| self.holds(ds) implies #[trigger] ascii(ds.push(digit)) == self.bytes() + seq![(digit + 48) as u8] by { lemma_ascii_push(ds, digit); }
    }
//@end
}

impl FloatBuilder {
//@fn Default for FloatBuilder :: default | ret=r name=default
//@spec
    ensures r.holds(Seq::empty())
//@entry
    proof { lemma_empty(); assert(ascii(Seq::empty()) =~= Seq::empty());
        assert forall|b: [u8; 32]| #[trigger] b@.take(0) == Seq::<u8>::empty() by { assert(b@.take(0) =~= Seq::<u8>::empty()); } }
//@end
}

//@for F in f32 f64
impl Num for $F {
    type Builder = FloatBuilder;
    spec fn reads(r: Option<Self>, ds: Seq<u8>, negate: bool, exp: int) -> bool {
        let x = nearest_$F(val(ds), exp);
        r == Some(if negate { neg_of_$F(x) } else { x })
    }
//@fn Num for $F :: from_builder | ret=r
//@subst builder . as_str ( ) . parse :: < Self > ( ) . unwrap ( ) => parse_$F(builder.as_str())
//@subst - res => negate_$F(res)
//@entry
    proof {
        axiom_zero_$F(exp_10 as int);
        lemma_enc('e');
        assert("e"@ =~= seq!['e']) by { reveal_strlit("e"); }
        assert forall|ds: Seq<u8>| #[trigger] builder.holds(ds) implies
            float_text(ds, exp_10 as int) == builder.bytes() + encode_utf8(seq!['e']) + encode_utf8(int_text(exp_10 as int)) by {}
    }
//@end
}
//@endfor
