// ---- UTF-8, as arithmetic (RFC 3629), and that it is what vstd's `encode_utf8` says ------------

spec fn enc(c: u32) -> Seq<u8> {
    if c < 0x80 { seq![c as u8] }
    else if c < 0x800 { seq![(0xC0 + c / 64) as u8, (0x80 + c % 64) as u8] }
    else if c < 0x10000 { seq![(0xE0 + c / 4096) as u8, (0x80 + c / 64 % 64) as u8, (0x80 + c % 64) as u8] }
    else { seq![(0xF0 + c / 262144) as u8, (0x80 + c / 4096 % 64) as u8, (0x80 + c / 64 % 64) as u8, (0x80 + c % 64) as u8] }
}

proof fn lemma_scalar(ch: char)
    ensures is_scalar(ch as u32)
{
    broadcast use group_utf8_lib;
}

proof fn lemma_enc(ch: char)
    ensures
        encode_utf8(seq![ch]) == enc(ch as u32),
        is_scalar(ch as u32),
{
    let c = ch as u32;
    lemma_scalar(ch);
    let s = seq![ch];
    assert(s.drop_first() =~= Seq::<char>::empty());
    assert(encode_utf8(s.drop_first()) =~= Seq::<u8>::empty()) by { reveal_with_fuel(encode_utf8, 2); };
    reveal_with_fuel(encode_utf8, 2);
    assert(encode_utf8(s) =~= encode_scalar(c));
    if c < 0x80 {
        assert(c < 0x80 ==> (c & 0x7F) as u8 == c as u8) by (bit_vector);
    } else if c < 0x800 {
        assert(0x80 <= c < 0x800 ==> (0xC0u8 | (((c >> 6) & 0x1F) as u8)) == (0xC0 + c / 64) as u8) by (bit_vector);
        assert((0x80u8 | ((c & 0x3F) as u8)) == (0x80 + c % 64) as u8) by (bit_vector);
    } else if c < 0x10000 {
        assert(0x800 <= c < 0x10000 ==> (0xE0u8 | (((c >> 12) & 0xF) as u8)) == (0xE0 + c / 4096) as u8) by (bit_vector);
        assert((0x80u8 | (((c >> 6) & 0x3F) as u8)) == (0x80 + c / 64 % 64) as u8) by (bit_vector);
        assert((0x80u8 | ((c & 0x3F) as u8)) == (0x80 + c % 64) as u8) by (bit_vector);
    } else {
        assert(0x10000 <= c < 0x110000 ==> (0xF0u8 | (((c >> 18) & 0x7) as u8)) == (0xF0 + c / 262144) as u8) by (bit_vector);
        assert((0x80u8 | (((c >> 12) & 0x3F) as u8)) == (0x80 + c / 4096 % 64) as u8) by (bit_vector);
        assert((0x80u8 | (((c >> 6) & 0x3F) as u8)) == (0x80 + c / 64 % 64) as u8) by (bit_vector);
        assert((0x80u8 | ((c & 0x3F) as u8)) == (0x80 + c % 64) as u8) by (bit_vector);
    }
    assert(encode_utf8(s) =~= enc(c));
}

/// Reading the encoding backwards, without division.
spec fn dec_facts(b: Seq<u8>, c: u32) -> bool {
    &&& b.len() >= 1
    &&& (b[0] < 0x80 || 0xC0 <= b[0] < 0xF8)
    &&& b[0] < 0x80 ==> c == b[0]
    &&& 0xC0 <= b[0] < 0xE0 ==> b.len() >= 2 && 0x80 <= b[1] <= 0xBF && c == (b[0] - 0xC0) * 64 + (b[1] - 0x80) && 0x80 <= c
    &&& 0xE0 <= b[0] < 0xF0 ==> b.len() >= 3 && 0x80 <= b[1] <= 0xBF && 0x80 <= b[2] <= 0xBF
            && c == (b[0] - 0xE0) * 4096 + (b[1] - 0x80) * 64 + (b[2] - 0x80) && 0x800 <= c
    &&& 0xF0 <= b[0] < 0xF8 ==> b.len() >= 4 && 0x80 <= b[1] <= 0xBF && 0x80 <= b[2] <= 0xBF && 0x80 <= b[3] <= 0xBF
            && c == (b[0] - 0xF0) * 262144 + (b[1] - 0x80) * 4096 + (b[2] - 0x80) * 64 + (b[3] - 0x80) && 0x10000 <= c
}

/// The number of bytes of the character which starts with the byte `x`.
spec fn width(x: u8) -> int {
    if x < 0x80 { 1 } else if x < 0xE0 { 2 } else if x < 0xF0 { 3 } else { 4 }
}

proof fn lemma_div(c: u32, q: int, r: int)
    requires c == q * 64 + r, 0 <= r < 64, 0 <= q,
    ensures c / 64 == q, c % 64 == r,
{
}

proof fn lemma_dec(b: Seq<u8>, c: u32)
    requires is_scalar(c), dec_facts(b, c),
    ensures enc(c) == b.take(width(b[0])),
{
    let e = enc(c);
    if b[0] < 0x80 {
        assert(e =~= b.take(1));
    } else if b[0] < 0xE0 {
        lemma_div(c, b[0] - 0xC0, b[1] - 0x80);
        assert(e =~= b.take(2));
    } else if b[0] < 0xF0 {
        let q = ((b[0] - 0xE0) * 64 + (b[1] - 0x80)) as u32;
        lemma_div(c, q as int, b[2] - 0x80);
        lemma_div(q, b[0] - 0xE0, b[1] - 0x80);
        assert(c / 4096 == q / 64);
        assert(e =~= b.take(3));
    } else {
        let q = ((b[0] - 0xF0) * 4096 + (b[1] - 0x80) * 64 + (b[2] - 0x80)) as u32;
        let q2 = ((b[0] - 0xF0) * 64 + (b[1] - 0x80)) as u32;
        lemma_div(c, q as int, b[3] - 0x80);
        lemma_div(q, q2 as int, b[2] - 0x80);
        lemma_div(q2, b[0] - 0xF0, b[1] - 0x80);
        assert(c / 4096 == q / 64);
        assert(c / 262144 == q / 4096);
        assert(q / 4096 == q2 / 64);
        assert(e =~= b.take(4));
    }
}

proof fn lemma_dec_inv(b: Seq<u8>, c: u32)
    requires is_scalar(c), enc(c).len() <= b.len(), b.take(enc(c).len() as int) == enc(c),
    ensures dec_facts(b, c), enc(c).len() == width(b[0]),
{
    let e = enc(c);
    let t = b.take(e.len() as int);
    assert(b[0] == t[0]);
    if e.len() > 1 { assert(b[1] == t[1]); }
    if e.len() > 2 { assert(b[2] == t[2]); }
    if e.len() > 3 { assert(b[3] == t[3]); }
}

/// Bit operations on the bytes of an encoding, as arithmetic.
proof fn lemma_bits()
    ensures
        forall|x: u32| 0xC0 <= x < 0xE0 ==> #[trigger] (x & 0x1Fu32) == x - 0xC0,
        forall|x: u32| 0xE0 <= x < 0xF0 ==> #[trigger] (x & 0x0Fu32) == x - 0xE0,
        forall|x: u32| 0xF0 <= x < 0xF8 ==> #[trigger] (x & 0x07u32) == x - 0xF0,
        forall|x: u32| 0x80 <= x < 0xC0 ==> #[trigger] (x & 0x3Fu32) == x - 0x80,
        forall|x: u32| #[trigger] (x & 0x3Fu32) < 64,
        forall|x: u8| 0xC0 <= x < 0xE0 ==> #[trigger] (x & 0x1Fu8) == x - 0xC0,
        forall|x: u8| 0xE0 <= x < 0xF0 ==> #[trigger] (x & 0x0Fu8) == x - 0xE0,
        forall|x: u8| 0xF0 <= x < 0xF8 ==> #[trigger] (x & 0x07u8) == x - 0xF0,
        forall|x: u8| 0x80 <= x < 0xC0 ==> #[trigger] (x & 0x3Fu8) == x - 0x80,
        forall|x: u8| #[trigger] (x & 0x3Fu8) < 64,
        forall|x: u8| (#[trigger] (x & 0xC0u8) == 0x80u8) == (0x80 <= x <= 0xBF),
        forall|a: u32, b: u32| a < 0x4000000 && b < 64 ==> #[trigger] ((a << 6u32) | b) == a * 64 + b,
        forall|a: u32| a < 0x4000000 ==> #[trigger] (a << 6u32) == a * 64,
{
    assert forall|x: u32| 0xC0 <= x < 0xE0 implies #[trigger] (x & 0x1Fu32) == x - 0xC0 by { assert(0xC0 <= x < 0xE0 ==> x & 0x1Fu32 == sub(x, 0xC0)) by (bit_vector); }
    assert forall|x: u32| 0xE0 <= x < 0xF0 implies #[trigger] (x & 0x0Fu32) == x - 0xE0 by { assert(0xE0 <= x < 0xF0 ==> x & 0x0Fu32 == sub(x, 0xE0)) by (bit_vector); }
    assert forall|x: u32| 0xF0 <= x < 0xF8 implies #[trigger] (x & 0x07u32) == x - 0xF0 by { assert(0xF0 <= x < 0xF8 ==> x & 0x07u32 == sub(x, 0xF0)) by (bit_vector); }
    assert forall|x: u32| 0x80 <= x < 0xC0 implies #[trigger] (x & 0x3Fu32) == x - 0x80 by { assert(0x80 <= x < 0xC0 ==> x & 0x3Fu32 == sub(x, 0x80)) by (bit_vector); }
    assert forall|x: u32| #[trigger] (x & 0x3Fu32) < 64 by { assert(x & 0x3Fu32 < 64) by (bit_vector); }
    assert forall|x: u8| 0xC0 <= x < 0xE0 implies #[trigger] (x & 0x1Fu8) == x - 0xC0 by { assert(0xC0 <= x < 0xE0 ==> x & 0x1Fu8 == sub(x, 0xC0)) by (bit_vector); }
    assert forall|x: u8| 0xE0 <= x < 0xF0 implies #[trigger] (x & 0x0Fu8) == x - 0xE0 by { assert(0xE0 <= x < 0xF0 ==> x & 0x0Fu8 == sub(x, 0xE0)) by (bit_vector); }
    assert forall|x: u8| 0xF0 <= x < 0xF8 implies #[trigger] (x & 0x07u8) == x - 0xF0 by { assert(0xF0 <= x < 0xF8 ==> x & 0x07u8 == sub(x, 0xF0)) by (bit_vector); }
    assert forall|x: u8| 0x80 <= x < 0xC0 implies #[trigger] (x & 0x3Fu8) == x - 0x80 by { assert(0x80 <= x < 0xC0 ==> x & 0x3Fu8 == sub(x, 0x80)) by (bit_vector); }
    assert forall|x: u8| #[trigger] (x & 0x3Fu8) < 64 by { assert(x & 0x3Fu8 < 64) by (bit_vector); }
    assert forall|x: u8| (#[trigger] (x & 0xC0u8) == 0x80u8) == (0x80 <= x <= 0xBF) by { assert((x & 0xC0u8 == 0x80u8) == (0x80u8 <= x <= 0xBFu8)) by (bit_vector); }
    assert forall|a: u32, b: u32| a < 0x4000000 && b < 64 implies #[trigger] ((a << 6u32) | b) == a * 64 + b by {
        assert(a < 0x4000000 && b < 64 ==> ((a << 6u32) | b) == add(mul(a, 64), b)) by (bit_vector);
    }
    assert forall|a: u32| a < 0x4000000 implies #[trigger] (a << 6u32) == a * 64 by {
        assert(a < 0x4000000 ==> (a << 6u32) == mul(a, 64)) by (bit_vector);
    }
}

/// The bytes start with the (standard) encoding of `ch`.
spec fn starts_with_char(bytes: Seq<u8>, ch: char) -> bool {
    let e = encode_utf8(seq![ch]);
    e.len() <= bytes.len() && bytes.take(e.len() as int) == e
}

spec fn decodable(bytes: Seq<u8>) -> bool {
    exists|ch: char| starts_with_char(bytes, ch)
}

proof fn lemma_empty()
    ensures
        encode_utf8(Seq::<char>::empty()) == Seq::<u8>::empty(),
        valid_utf8(Seq::<u8>::empty()),
        decode_utf8(Seq::<u8>::empty()) == Seq::<char>::empty(),
{
    reveal_with_fuel(encode_utf8, 2);
    assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty());
    encode_utf8_valid_utf8(Seq::<char>::empty());
    encode_utf8_decode_utf8(Seq::<char>::empty());
}

/// Only one character can start a byte sequence.
proof fn lemma_first_unique(b: Seq<u8>, a: char, c: char)
    requires starts_with_char(b, a), starts_with_char(b, c),
    ensures a == c,
{
    lemma_enc(a); lemma_dec_inv(b, a as u32);
    lemma_enc(c); lemma_dec_inv(b, c as u32);
    assert(a as u32 == c as u32);
}

proof fn lemma_decode1(b: Seq<u8>, ch: char, rest: Seq<u8>)
    requires b == encode_utf8(seq![ch]) + rest,
    ensures
        b.len() > rest.len(),
        valid_utf8(b) == valid_utf8(rest),
        valid_utf8(b) ==> decode_utf8(b) == seq![ch] + decode_utf8(rest),
        starts_with_char(b, ch),
{
    let e = encode_utf8(seq![ch]);
    lemma_enc(ch);
    lemma_empty();
    assert(b.take(e.len() as int) =~= e);
    if valid_utf8(rest) {
        let t = decode_utf8(rest);
        decode_utf8_encode_utf8(rest);
        encode_utf8_concat(seq![ch], t);
        assert(b == encode_utf8(seq![ch] + t));
        encode_utf8_valid_utf8(seq![ch] + t);
        encode_utf8_decode_utf8(seq![ch] + t);
    }
    if valid_utf8(b) {
        let cs = decode_utf8(b);
        decode_utf8_encode_utf8(b);
        assert(cs.len() > 0) by { if cs.len() == 0 { assert(cs =~= Seq::empty()); } }
        let tail = cs.drop_first();
        assert(cs =~= seq![cs[0]] + tail);
        encode_utf8_concat(seq![cs[0]], tail);
        assert(b.take(encode_utf8(seq![cs[0]]).len() as int) =~= encode_utf8(seq![cs[0]]));
        lemma_first_unique(b, ch, cs[0]);
        assert(rest =~= b.skip(e.len() as int));
        assert(rest =~= encode_utf8(tail));
        encode_utf8_valid_utf8(tail);
    }
}

/// What there is to know about decoding `b` step by step.
proof fn lemma_decode(b: Seq<u8>)
    ensures
        encode_utf8(Seq::<char>::empty()) == Seq::<u8>::empty(),
        valid_utf8(Seq::<u8>::empty()),
        decode_utf8(Seq::<u8>::empty()) == Seq::<char>::empty(),
        b.len() == 0 ==> valid_utf8(b) && decode_utf8(b) == Seq::<char>::empty(),
        valid_utf8(b) && b.len() > 0 ==> decodable(b),
        valid_utf8(b) ==> decode_utf8(b).len() <= b.len(),
        forall|ch: char, rest: Seq<u8>| b == #[trigger] (encode_utf8(seq![ch]) + rest) ==> {
            &&& valid_utf8(b) == valid_utf8(rest)
            &&& valid_utf8(b) ==> decode_utf8(b) == seq![ch] + decode_utf8(rest)
        },
    decreases b.len()
{
    lemma_empty();
    if b.len() == 0 { assert(b =~= Seq::empty()); }
    if valid_utf8(b) && b.len() > 0 {
        let cs = decode_utf8(b);
        decode_utf8_encode_utf8(b);
        assert(cs.len() > 0) by { if cs.len() == 0 { assert(cs =~= Seq::empty()); } }
        let tail = cs.drop_first();
        assert(cs =~= seq![cs[0]] + tail);
        encode_utf8_concat(seq![cs[0]], tail);
        assert(b == encode_utf8(seq![cs[0]]) + encode_utf8(tail));
        lemma_decode1(b, cs[0], encode_utf8(tail));
        encode_utf8_decode_utf8(tail);
        lemma_decode(encode_utf8(tail));
    }
    assert forall|ch: char, rest: Seq<u8>| b == #[trigger] (encode_utf8(seq![ch]) + rest) implies
        valid_utf8(b) == valid_utf8(rest) && (valid_utf8(b) ==> decode_utf8(b) == seq![ch] + decode_utf8(rest)) by {
        lemma_decode1(b, ch, rest);
    }
}

/// Between two strings is a character boundary.
proof fn lemma_boundary(a: Seq<char>, b: Seq<char>)
    ensures
        encode_utf8(a + b) == encode_utf8(a) + encode_utf8(b),
        valid_utf8(encode_utf8(a + b)),
        is_char_boundary(encode_utf8(a + b), encode_utf8(a).len() as int),
        decode_utf8(encode_utf8(a + b).take(encode_utf8(a).len() as int)) == a,
        decode_utf8(encode_utf8(a + b).skip(encode_utf8(a).len() as int)) == b,
{
    let bytes = encode_utf8(a + b);
    let n = encode_utf8(a).len() as int;
    encode_utf8_concat(a, b);
    encode_utf8_valid_utf8(a + b);
    encode_utf8_decode_utf8(a);
    encode_utf8_decode_utf8(b);
    assert(bytes.take(n) =~= encode_utf8(a));
    assert(bytes.skip(n) =~= encode_utf8(b));
    if b.len() == 0 {
        lemma_empty();
        assert(b =~= Seq::empty());
        is_char_boundary_start_end_of_seq(bytes);
    } else {
        encode_utf8_concat(seq![b[0]], b.drop_first());
        assert(b =~= seq![b[0]] + b.drop_first());
        let e = encode_utf8(b);
        assert(e.take(encode_utf8(seq![b[0]]).len() as int) =~= encode_utf8(seq![b[0]]));
        lemma_enc(b[0]);
        lemma_dec_inv(e, b[0] as u32);
        assert(bytes[n] == e[0]);
        is_char_boundary_iff_not_is_continuation_byte(bytes, n);
    }
}

pub assume_specification [char::encode_utf8] (c: char, dst: &mut [u8]) -> (r: &mut str)
    requires old(dst)@.len() >= 4
    ensures r@ == seq![c];

