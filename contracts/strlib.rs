// ---- Strings in memory -----------------------------------------------------------------------

/// Where the bytes of a string start in memory.
pub uninterp spec fn addr(s: &str) -> int;

pub assume_specification [str::as_ptr] (s: &str) -> (r: *const u8)
    ensures r@.addr == addr(s);

spec fn blen(s: &str) -> int { encode_utf8(s@).len() as int }

/// `suffix` is, in memory, the last part of `source`.
spec fn tail_of(source: &str, suffix: &str) -> bool {
    &&& suffix@.len() <= source@.len()
    &&& suffix@ == source@.skip(source@.len() - suffix@.len())
    &&& addr(suffix) == addr(source) + blen(source) - blen(suffix)
}

/// Stand-in for `std::str::Chars`: assumed contract of `str::chars`, `Chars::next` and `Chars::as_str`.
#[verifier::external_body]
struct StrChars<'a>(std::str::Chars<'a>);
impl<'a> StrChars<'a> {
    uninterp spec fn rest(&self) -> &'a str;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<char>)
        ensures
            r == first_of(old(self).rest()@),
            final(self).rest()@ == after_first(old(self).rest()@),
            tail_of(old(self).rest(), final(self).rest()),
            r is None ==> final(self).rest() == old(self).rest(),
    { self.0.next() }
    #[verifier::external_body]
    fn as_str(&self) -> (r: &'a str)
        ensures r == self.rest()
    { self.0.as_str() }
}
trait StrExt {
    fn str_chars(&self) -> (r: StrChars<'_>);
}
impl StrExt for str {
    #[verifier::external_body]
    fn str_chars(&self) -> (r: StrChars<'_>)
        ensures r.rest() == self
    { StrChars(self.chars()) }
}

proof fn lemma_tail(s: &str, t: &str)
    requires tail_of(s, t),
    ensures ({
        let k = s@.len() - t@.len();
        &&& s@ == s@.take(k) + t@
        &&& encode_utf8(s@).len() == encode_utf8(s@.take(k)).len() + encode_utf8(t@).len()
        &&& is_char_boundary(encode_utf8(s@), encode_utf8(s@.take(k)).len() as int)
        &&& valid_utf8(encode_utf8(s@))
        &&& decode_utf8(encode_utf8(s@).take(encode_utf8(s@.take(k)).len() as int)) == s@.take(k)
        &&& valid_utf8(encode_utf8(s@).take(encode_utf8(s@.take(k)).len() as int))
    })
{
    let k = s@.len() - t@.len();
    assert(s@ =~= s@.take(k) + t@);
    lemma_boundary(s@.take(k), t@);
    encode_utf8_concat(s@.take(k), t@);
    assert(encode_utf8(s@).take(encode_utf8(s@.take(k)).len() as int) =~= encode_utf8(s@.take(k)));
    encode_utf8_valid_utf8(s@.take(k));
}

proof fn lemma_tail_trans(s: &str, t: &str, u: &str)
    requires tail_of(s, t), tail_of(t, u)
    ensures tail_of(s, u)
{
    assert(u@ =~= s@.skip(s@.len() - u@.len()));
}

