//@include prelude.rs
use vstd::utf8::*;
use std::io;
//@include textreader.rs
//@include utf8lib.rs

//@use core/src/text_reader.rs

//@fn is_continuation | ret=r
//@spec
    ensures r == is_continuation_byte(x)
//@entry
    assert((x & 0b11000000u8 == 0b10000000u8) == (0x80u8 <= x <= 0xBFu8)) by (bit_vector);
//@end

//@fn read_utf8 | ret=res
//@sigsubst std::io::Read => IoRead
//@spec
    ensures
        final(r).faulty() == old(r).faulty(),
        match res {
            Ok(Some(ch)) => old(r).rest() == encode_utf8(seq![ch]) + final(r).rest(),
            Ok(None) => old(r).rest().len() == 0 && final(r).rest().len() == 0,
            Err(_) => old(r).faulty() || (old(r).rest().len() > 0 && !decodable(old(r).rest())),
        }
//@dropargs io::Error::new => io_error()
//@entry
    proof {
        lemma_bits();
        let b = r.rest();
        assert forall|ch: char| #[trigger] starts_with_char(b, ch) implies dec_facts(b, ch as u32) && is_scalar(ch as u32) by {
            lemma_enc(ch);
            lemma_dec_inv(b, ch as u32);
        }
        assert forall|ch: char| dec_facts(b, ch as u32) implies #[trigger] encode_utf8(seq![ch]) == b.take(width(b[0])) by {
            lemma_enc(ch);
            lemma_dec(b, ch as u32);
        }
    }
//@end

//@include reader.rs


// ---- Reading characters from bytes ---------------------------------------------------------------

//@item struct LineColumnPosition
//@item struct Utf8Reader | std::io::Read => IoRead

impl Clone for LineColumnPosition {
    fn clone(&self) -> (r: Self)
        ensures r == *self
    { LineColumnPosition { line: self.line, column: self.column } }
}
impl Copy for LineColumnPosition {}

/// The derived `Default`.
#[verifier::external_body]
fn default_position() -> (r: LineColumnPosition)
    ensures r.line == 0, r.column == 0
{ unimplemented!() }

/// Where one is after reading `ch` at `p`.
spec fn advance(p: LineColumnPosition, ch: char) -> LineColumnPosition {
    if ch == '\n' { LineColumnPosition { line: (p.line + 1) as usize, column: 0 } }
    else if ch == '\r' { p }
    else if ch == '\t' { LineColumnPosition { line: p.line, column: (p.column + 4) as usize } }
    else { LineColumnPosition { line: p.line, column: (p.column + 1) as usize } }
}

spec fn advance_all(p: LineColumnPosition, s: Seq<char>) -> LineColumnPosition
    decreases s.len()
{
    if s.len() == 0 { p } else { advance(advance_all(p, s.drop_last()), s.last()) }
}

/// Whether counting `n` more characters stays within `usize`.
spec fn room(p: LineColumnPosition, n: nat) -> bool {
    p.line + n <= usize::MAX && p.column + 4 * n <= usize::MAX
}

impl<R: IoRead> Utf8Reader<R> {
    spec fn peeked(&self) -> Seq<char> {
        match self.peek { Some(ch) => seq![ch], None => Seq::empty() }
    }
    /// The bytes not yet handed out as characters.
    spec fn bytes(&self) -> Seq<u8> { encode_utf8(self.peeked()) + self.source.rest() }

//@fn Utf8Reader :: new | ret=res
//@subst LineColumnPosition :: default ( ) => default_position()
//@spec
    ensures
        match res {
            Ok(r) => {
                &&& r.bytes() == source.rest() // #C12 #C20
                &&& r.here() == (LineColumnPosition { line: 0, column: 0 }) // #C13
                &&& !source.faulty() && valid_utf8(source.rest()) && 4 * source.rest().len() <= usize::MAX
                        ==> r.ok() && r.rest() == decode_utf8(source.rest()) // #C12 #C20
            },
            Err(_) => source.faulty() || !valid_utf8(source.rest()), // #C12 #C20
        }
//@entry
    proof { lemma_decode(source.rest()); broadcast use group_utf8_lib; }
//@end
}

impl<R: IoRead> TextReader for Utf8Reader<R> {
    spec fn rest(&self) -> Seq<char> { self.peeked() + decode_utf8(self.source.rest()) }
    spec fn ok(&self) -> bool {
        &&& !self.source.faulty()
        &&& valid_utf8(self.source.rest())
        &&& self.peek is None ==> self.source.rest().len() == 0
        &&& room(self.pos, self.rest().len())
    }
    type Position = LineColumnPosition;
    spec fn here(&self) -> LineColumnPosition { self.pos }

//@fn TextReader for Utf8Reader :: next | ret=r
//@spec
    ensures
        final(self).pos == (match r { Some(ch) => advance(old(self).pos, ch), None => old(self).pos }), // #C13
        old(self).bytes() == (match r { Some(ch) => encode_utf8(seq![ch]), None => Seq::empty() }) + final(self).bytes() // #C12 #C20
//@entry
    proof { lemma_decode(self.source.rest()); broadcast use group_utf8_lib; }
//@end
//@fn TextReader for Utf8Reader :: peek | ret=r
//@end
//@fn TextReader for Utf8Reader :: position | ret=r
//@end
}
//@include strreader.rs

//@include iowrite.rs
//@include writer.rs

//@use core/src/text_writer.rs
impl<T: TextWriter + ?Sized> TextWriter for &'_ mut T {
    type Error = T::Error;
    spec fn bytes(&self) -> Seq<u8> { (**self).bytes() }
    spec fn may_fail(&self) -> bool { (**self).may_fail() }
//@fn TextWriter for &mut T :: write_char | ret=r
//@end
//@fn TextWriter for &mut T :: write_str | ret=r
//@end
}

impl TextWriter for String {
    type Error = std::convert::Infallible;
    spec fn bytes(&self) -> Seq<u8> { encode_utf8(self@) }
    spec fn may_fail(&self) -> bool { false }
//@fn TextWriter for String :: write_char | ret=r
//@entry
    proof { encode_utf8_concat(self@, seq![ch]); assert(self@ + seq![ch] =~= self@.push(ch)); }
//@end
//@fn TextWriter for String :: write_str | ret=r
//@entry
    proof { encode_utf8_concat(self@, str@); }
//@end
}

//@item struct Utf8Writer | std::io::Write => IoWrite
impl<W: IoWrite> Utf8Writer<W> {
//@fn Utf8Writer :: new | ret=r
//@spec
    ensures r.0 == dest
//@end
//@fn Utf8Writer :: into_inner | ret=r
//@spec
    ensures r == self.0
//@end
}
impl<W: IoWrite> TextWriter for Utf8Writer<W> {
    type Error = std::io::Error;
    spec fn bytes(&self) -> Seq<u8> { self.0.written() }
    spec fn may_fail(&self) -> bool { self.0.faulty() }
//@fn TextWriter for Utf8Writer :: write_char | ret=r
//@entry
    broadcast use group_utf8_lib;
//@end
//@fn TextWriter for Utf8Writer :: write_str | ret=r
//@entry
    broadcast use group_utf8_lib;
//@end
}

} // verus!
fn main() {}
