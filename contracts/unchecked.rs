
/// The unchecked conversion: undefined behaviour unless the bytes are valid UTF-8.
pub assume_specification<'a> [std::str::from_utf8_unchecked] (v: &'a [u8]) -> (r: &'a str)
    requires valid_utf8(v@) // #C22
    ensures r@ == decode_utf8(v@), encode_utf8(r@) == v@;

pub assume_specification<'a, T> [std::slice::from_ref] (x: &'a T) -> (r: &'a [T])
    ensures r@ == seq![*x];
