// ---- JSON (RFC 8259), as functions of the text ------------------------------------------------------
// Each function takes the text still to come and answers what is recognised at its start and what is left after
// it, or None if nothing of the kind is there.

spec fn is_ws(c: char) -> bool { c == ' ' || c == '\n' || c == '\r' || c == '\t' }
spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
spec fn digit_of(c: char) -> u8 { (c as u32 - 48) as u8 }

/// What is left after the first line feed.
spec fn after_line(s: Seq<char>) -> Option<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { None } else if s[0] == '\n' { Some(s.drop_first()) } else { after_line(s.drop_first()) }
}
/// What is left after the first `*/`.
spec fn after_block(s: Seq<char>) -> Option<Seq<char>>
    decreases s.len()
{
    if s.len() < 2 { None } else if s[0] == '*' && s[1] == '/' { Some(s.skip(2)) } else { after_block(s.drop_first()) }
}
/// What is left after a comment, of which the first `/` has been read.
spec fn after_comment(s: Seq<char>) -> Option<Seq<char>> {
    if s.len() == 0 { None }
    else if s[0] == '/' { after_line(s.drop_first()) }
    else if s[0] == '*' { after_block(s.drop_first()) }
    else { None }
}
/// What is left after white space and, if they are allowed, comments. None: a broken comment.
spec fn after_ws(s: Seq<char>, comments: bool) -> Option<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { Some(s) }
    else if is_ws(s[0]) { after_ws(s.drop_first(), comments) }
    else if s[0] == '/' && comments {
        match after_comment(s.drop_first()) {
            Some(t) => if t.len() < s.len() { after_ws(t, comments) } else { None },
            None => None,
        }
    }
    else { Some(s) }
}
/// After white space comes `c`: what is left after it.
spec fn after_char(s: Seq<char>, comments: bool, c: char) -> Option<Seq<char>> {
    match after_ws(s, comments) {
        Some(t) => if t.len() > 0 && t[0] == c { Some(t.drop_first()) } else { None },
        None => None,
    }
}

// Strings. The text starts after the opening quote.

spec fn hex_of(c: char) -> Option<int> {
    if '0' <= c <= '9' { Some(c as u32 - 48) } else if 'a' <= c <= 'f' { Some(c as u32 - 87) } else if 'A' <= c <= 'F' { Some(c as u32 - 55) } else { None }
}
spec fn hex_at(s: Seq<char>, i: int) -> int { hex_of(s[i])->0 }
/// Four hexadecimal digits.
spec fn hex4(s: Seq<char>) -> Option<int> {
    if s.len() >= 4 && hex_of(s[0]) is Some && hex_of(s[1]) is Some && hex_of(s[2]) is Some && hex_of(s[3]) is Some {
        Some(hex_of(s[0])->0 * 4096 + hex_of(s[1])->0 * 256 + hex_of(s[2])->0 * 16 + hex_of(s[3])->0)
    } else { None }
}
/// After `\u`: the character (RFC 8259, section 7) and what is left.
spec fn unicode_escape(s: Seq<char>) -> Option<(char, Seq<char>)> {
    match hex4(s) {
        None => None,
        Some(h) =>
            if 0xD800 <= h < 0xDC00 {
                if s.len() >= 10 && s[4] == '\\' && s[5] == 'u' {
                    match hex4(s.skip(6)) {
                        Some(l) => if 0xDC00 <= l < 0xE000 { Some(((0x10000 + (h - 0xD800) * 1024 + (l - 0xDC00)) as char, s.skip(10))) } else { None },
                        None => None,
                    }
                } else { None }
            } else if 0xDC00 <= h < 0xE000 { None }
            else { Some((h as char, s.skip(4))) },
    }
}
proof fn lemma_hex4(s: Seq<char>)
    ensures hex4(s) is Some ==> 0 <= hex4(s)->0 < 65536 && s.len() >= 4
{
}
/// A surrogate pair, step by step.
proof fn lemma_pair(s: Seq<char>)
    ensures
        hex4(s) is Some ==> 0 <= hex4(s)->0 < 65536 && s.len() >= 4,
        s.len() >= 4 ==> "\\u"@.is_prefix_of(s.skip(4)) == (s.len() >= 6 && s[4] == '\\' && s[5] == 'u'),
        "\\u"@.len() == 2,
        s.len() >= 6 ==> s.skip(4).skip(2) == s.skip(6),
        s.len() >= 6 && hex4(s.skip(6)) is Some ==> 0 <= hex4(s.skip(6))->0 < 65536 && s.len() >= 10 && s.skip(6).skip(4) == s.skip(10),
        forall|x: u32| x < 1024 ==> #[trigger] (x << 10) == x * 1024,
{
    reveal_strlit("\\u");
    lemma_hex4(s);
    let p = "\\u"@;
    assert(p =~= seq!['\\', 'u']);
    if s.len() >= 4 {
        let t = s.skip(4);
        if p.is_prefix_of(t) { assert(t.take(2)[0] == t[0]); assert(t.take(2)[1] == t[1]); }
        if s.len() >= 6 && s[4] == '\\' && s[5] == 'u' { assert(t.take(2) =~= p); }
    }
    if s.len() >= 6 {
        assert(s.skip(4).skip(2) =~= s.skip(6));
        lemma_hex4(s.skip(6));
        if s.len() >= 10 { assert(s.skip(6).skip(4) =~= s.skip(10)); }
    }
    assert forall|x: u32| x < 1024 implies #[trigger] (x << 10) == x * 1024 by { assert(x < 1024 ==> (x << 10) == mul(x, 1024)) by (bit_vector); }
}
/// After a backslash: the character it stands for and what is left.
spec fn escape(s: Seq<char>) -> Option<(char, Seq<char>)> {
    if s.len() == 0 { None }
    else if s[0] == '"' { Some(('"', s.drop_first())) }
    else if s[0] == '\\' { Some(('\\', s.drop_first())) }
    else if s[0] == '/' { Some(('/', s.drop_first())) }
    else if s[0] == 'b' { Some(('\x08', s.drop_first())) }
    else if s[0] == 'f' { Some(('\x0C', s.drop_first())) }
    else if s[0] == 'n' { Some(('\n', s.drop_first())) }
    else if s[0] == 'r' { Some(('\r', s.drop_first())) }
    else if s[0] == 't' { Some(('\t', s.drop_first())) }
    else if s[0] == 'u' { unicode_escape(s.drop_first()) }
    else { None }
}
/// The characters of a string and what is left after its closing quote.
/// (RFC 8259 forbids raw control characters here: known finding raw-control-characters-in-strings.)
spec fn str_lit(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> { str_rest(Seq::empty(), s) }
/// The same, after the characters `cs`.
spec fn str_rest(cs: Seq<char>, s: Seq<char>) -> Option<(Seq<char>, Seq<char>)>
    decreases s.len()
{
    if s.len() == 0 { None }
    else if s[0] == '"' { Some((cs, s.drop_first())) }
    else if s[0] != '\\' { str_rest(cs.push(s[0]), s.drop_first()) }
    else {
        match escape(s.drop_first()) {
            Some((c, t)) => if t.len() < s.len() { str_rest(cs.push(c), t) } else { None },
            None => None,
        }
    }
}
proof fn lemma_escape_len(s: Seq<char>)
    ensures escape(s) is Some ==> (escape(s)->0).1.len() < s.len()
{
}

proof fn lemma_encode_push(cs: Seq<char>, c: char)
    ensures encode_utf8(cs.push(c)) == encode_utf8(cs) + encode_utf8(seq![c])
{
    encode_utf8_concat(cs, seq![c]);
    assert(cs.push(c) =~= cs + seq![c]);
}
/// The characters read so far are the first characters of the string.
proof fn lemma_str_rest(cs: Seq<char>, s: Seq<char>)
    ensures str_rest(cs, s) is Some ==> {
        let all = (str_rest(cs, s)->0).0;
        &&& cs.len() <= all.len()
        &&& forall|i: int| 0 <= i < cs.len() ==> #[trigger] all[i] == cs[i]
        &&& (str_rest(cs, s)->0).1.len() < s.len()
    }
    decreases s.len()
{
    if s.len() > 0 && s[0] != '"' {
        let (c, t) = if s[0] != '\\' { (s[0], s.drop_first()) } else { escape(s.drop_first())->0 };
        if t.len() < s.len() {
            lemma_str_rest(cs.push(c), t);
            if str_rest(cs, s) is Some {
                let all = (str_rest(cs, s)->0).0;
                assert forall|i: int| 0 <= i < cs.len() implies #[trigger] all[i] == cs[i] by { assert(cs.push(c)[i] == cs[i]); }
            }
        }
    }
}

/// A string can be read from the middle.
proof fn lemma_str_shift(cs: Seq<char>, ds: Seq<char>, s: Seq<char>)
    ensures
        str_rest(cs + ds, s) is Some == str_rest(ds, s) is Some,
        str_rest(ds, s) is Some ==> (str_rest(cs + ds, s)->0).0 == cs + (str_rest(ds, s)->0).0 && (str_rest(cs + ds, s)->0).1 == (str_rest(ds, s)->0).1,
    decreases s.len()
{
    if s.len() > 0 && s[0] != '"' {
        let (c, t) = if s[0] != '\\' { (s[0], s.drop_first()) } else { escape(s.drop_first())->0 };
        if t.len() < s.len() {
            lemma_str_shift(cs, ds.push(c), t);
            assert((cs + ds).push(c) =~= cs + ds.push(c));
        }
    }
}
/// No continuation of `cs` is `expected`.
spec fn differs(cs: Seq<char>, expected: Seq<char>) -> bool {
    cs.len() > expected.len() || exists|i: int| 0 <= i < cs.len() && #[trigger] cs[i] != expected[i]
}
proof fn lemma_differs(cs: Seq<char>, expected: Seq<char>, s: Seq<char>, before: Seq<u8>)
    requires differs(cs, expected)
    ensures
        str_rest(cs, s) is Some == str_lit(s) is Some,
        str_lit(s) is Some ==> {
            let all = str_rest(cs, s)->0;
            &&& all.0 != expected
            &&& all.1 == (str_lit(s)->0).1
            &&& before + encode_utf8(all.0) == (before + encode_utf8(cs)) + encode_utf8((str_lit(s)->0).0)
        }
{
    assert(cs + Seq::<char>::empty() =~= cs);
    lemma_str_shift(cs, Seq::empty(), s);
    lemma_str_rest(cs, s);
    if str_lit(s) is Some {
        encode_utf8_concat(cs, (str_lit(s)->0).0);
        assert(before + encode_utf8((str_rest(cs, s)->0).0) =~= (before + encode_utf8(cs)) + encode_utf8((str_lit(s)->0).0));
    }
}

// Numbers.

struct NumLit {
    negate: bool,
    /// Significant digits: those of the integer part (none if it is just 0) and of the fraction.
    ds: Seq<u8>,
    /// How many of them are in the fraction.
    frac: nat,
    negate_exp: bool,
    /// The digits of the exponent (none without one).
    exp: Seq<u8>,
}
impl NumLit {
    spec fn exp10(self) -> int { (if self.negate_exp { -val(self.exp) } else { val(self.exp) }) - self.frac }
}
spec fn starts_digit(s: Seq<char>) -> bool { s.len() > 0 && is_digit(s[0]) }

spec fn num_lit(s: Seq<char>) -> Option<(NumLit, Seq<char>)> {
    if s.len() > 0 && s[0] == '-' { num_first(s.drop_first(), true) } else { num_first(s, false) }
}
/// The first digit of the integer part: nothing but 0 may start with 0.
spec fn num_first(s: Seq<char>, negate: bool) -> Option<(NumLit, Seq<char>)> {
    if !starts_digit(s) { None }
    else if s[0] == '0' { num_point(s.drop_first(), negate, Seq::empty()) }
    else { num_int(s.drop_first(), negate, Seq::empty().push(digit_of(s[0]))) }
}
spec fn num_int(s: Seq<char>, negate: bool, ds: Seq<u8>) -> Option<(NumLit, Seq<char>)>
    decreases s.len()
{
    if starts_digit(s) { num_int(s.drop_first(), negate, ds.push(digit_of(s[0]))) } else { num_point(s, negate, ds) }
}
/// After the integer part.
spec fn num_point(s: Seq<char>, negate: bool, ds: Seq<u8>) -> Option<(NumLit, Seq<char>)> {
    if s.len() > 0 && s[0] == '.' { num_frac(s.drop_first(), negate, ds) } else { num_e(s, negate, ds, 0) }
}
/// After the decimal point: at least one digit.
spec fn num_frac(s: Seq<char>, negate: bool, ds: Seq<u8>) -> Option<(NumLit, Seq<char>)> {
    if starts_digit(s) { num_frac_digits(s.drop_first(), negate, ds.push(digit_of(s[0])), 1) } else { None }
}
spec fn num_frac_digits(s: Seq<char>, negate: bool, ds: Seq<u8>, frac: nat) -> Option<(NumLit, Seq<char>)>
    decreases s.len()
{
    if starts_digit(s) { num_frac_digits(s.drop_first(), negate, ds.push(digit_of(s[0])), frac + 1) } else { num_e(s, negate, ds, frac) }
}
/// After the fraction, if there is one.
spec fn num_e(s: Seq<char>, negate: bool, ds: Seq<u8>, frac: nat) -> Option<(NumLit, Seq<char>)> {
    if s.len() > 0 && (s[0] == 'e' || s[0] == 'E') { num_exp_sign(s.drop_first(), negate, ds, frac) }
    else { Some((NumLit { negate, ds, frac, negate_exp: false, exp: Seq::empty() }, s)) }
}
spec fn num_exp_sign(s: Seq<char>, negate: bool, ds: Seq<u8>, frac: nat) -> Option<(NumLit, Seq<char>)> {
    if s.len() > 0 && s[0] == '+' { num_exp(s.drop_first(), negate, ds, frac, false) }
    else if s.len() > 0 && s[0] == '-' { num_exp(s.drop_first(), negate, ds, frac, true) }
    else { num_exp(s, negate, ds, frac, false) }
}
spec fn num_exp(s: Seq<char>, negate: bool, ds: Seq<u8>, frac: nat, negate_exp: bool) -> Option<(NumLit, Seq<char>)> {
    if starts_digit(s) { num_exp_digits(s.drop_first(), negate, ds, frac, negate_exp, Seq::empty().push(digit_of(s[0]))) } else { None }
}
spec fn num_exp_digits(s: Seq<char>, negate: bool, ds: Seq<u8>, frac: nat, negate_exp: bool, exp: Seq<u8>) -> Option<(NumLit, Seq<char>)>
    decreases s.len()
{
    if starts_digit(s) { num_exp_digits(s.drop_first(), negate, ds, frac, negate_exp, exp.push(digit_of(s[0]))) }
    else { Some((NumLit { negate, ds, frac, negate_exp, exp }, s)) }
}

proof fn lemma_prefix_push(ds: Seq<u8>, d: u8, all: Seq<u8>)
    ensures ds.push(d).is_prefix_of(all) ==> ds.is_prefix_of(all)
{
    if ds.push(d).is_prefix_of(all) {
        assert forall|i: int| 0 <= i < ds.len() implies ds[i] == all[i] by { assert(ds.push(d)[i] == all.take(ds.len() as int + 1)[i]); }
        assert(all.take(ds.len() as int) =~= ds);
    }
}
proof fn lemma_num_exp(s: Seq<char>, negate: bool, ds: Seq<u8>, frac: nat, negate_exp: bool, exp: Seq<u8>)
    ensures num_exp_digits(s, negate, ds, frac, negate_exp, exp) is Some ==> (num_exp_digits(s, negate, ds, frac, negate_exp, exp)->0).0.ds == ds
    decreases s.len()
{
    if starts_digit(s) { lemma_num_exp(s.drop_first(), negate, ds, frac, negate_exp, exp.push(digit_of(s[0]))); }
}
proof fn lemma_num_e(s: Seq<char>, negate: bool, ds: Seq<u8>, frac: nat)
    ensures num_e(s, negate, ds, frac) is Some ==> (num_e(s, negate, ds, frac)->0).0.ds == ds
{
    if s.len() > 0 && (s[0] == 'e' || s[0] == 'E') {
        let t = s.drop_first();
        let u = if t.len() > 0 && (t[0] == '+' || t[0] == '-') { t.drop_first() } else { t };
        if starts_digit(u) { lemma_num_exp(u.drop_first(), negate, ds, frac, t[0] == '-', Seq::empty().push(digit_of(u[0]))); }
    }
}
/// The digits read so far are the first digits of the number.
proof fn lemma_num_int(s: Seq<char>, negate: bool, ds: Seq<u8>)
    ensures num_int(s, negate, ds) is Some ==> ds.is_prefix_of((num_int(s, negate, ds)->0).0.ds)
    decreases s.len()
{
    assert(ds.is_prefix_of(ds)) by { assert(ds.take(ds.len() as int) =~= ds); }
    lemma_num_e(s, negate, ds, 0);
    let all = (num_int(s, negate, ds)->0).0.ds;
    if starts_digit(s) { lemma_num_int(s.drop_first(), negate, ds.push(digit_of(s[0]))); lemma_prefix_push(ds, digit_of(s[0]), all); }
    else if s.len() > 0 && s[0] == '.' && starts_digit(s.drop_first()) {
        let t = s.drop_first();
        lemma_num_frac(t.drop_first(), negate, ds.push(digit_of(t[0])), 1);
        lemma_prefix_push(ds, digit_of(t[0]), all);
    }
}
proof fn lemma_num_frac(s: Seq<char>, negate: bool, ds: Seq<u8>, frac: nat)
    ensures num_frac_digits(s, negate, ds, frac) is Some ==> ds.is_prefix_of((num_frac_digits(s, negate, ds, frac)->0).0.ds)
    decreases s.len()
{
    assert(ds.is_prefix_of(ds)) by { assert(ds.take(ds.len() as int) =~= ds); }
    lemma_num_e(s, negate, ds, frac);
    let all = (num_frac_digits(s, negate, ds, frac)->0).0.ds;
    if starts_digit(s) { lemma_num_frac(s.drop_first(), negate, ds.push(digit_of(s[0])), frac + 1); lemma_prefix_push(ds, digit_of(s[0]), all); }
}
spec fn first_fits(s: Seq<char>) -> bool {
    let negate = s.len() > 0 && s[0] == '-';
    let t = if negate { s.drop_first() } else { s };
    starts_digit(t) && t[0] != '0' && num_lit(s) is Some ==> Seq::empty().push(digit_of(t[0])).is_prefix_of((num_lit(s)->0).0.ds)
}
proof fn lemma_pow0(b: int)
    ensures pow(b, 0) == 1
{
    vstd::arithmetic::power::lemma_pow0(b);
}
proof fn lemma_num_int_len(s: Seq<char>, negate: bool, ds: Seq<u8>)
    requires digits_ok(ds)
    ensures num_int(s, negate, ds) is Some ==> digits_ok((num_int(s, negate, ds)->0).0.ds) && (num_int(s, negate, ds)->0).0.ds.len() <= ds.len() + s.len()
    decreases s.len()
{
    if starts_digit(s) { lemma_num_int_len(s.drop_first(), negate, ds.push(digit_of(s[0]))); }
    else { lemma_num_point_len(s, negate, ds); }
}
proof fn lemma_num_point_len(s: Seq<char>, negate: bool, ds: Seq<u8>)
    requires digits_ok(ds)
    ensures num_point(s, negate, ds) is Some ==> digits_ok((num_point(s, negate, ds)->0).0.ds) && (num_point(s, negate, ds)->0).0.ds.len() <= ds.len() + s.len()
{
    lemma_num_e(s, negate, ds, 0);
    if s.len() > 0 && s[0] == '.' && starts_digit(s.drop_first()) {
        let t = s.drop_first();
        lemma_num_frac_len(t.drop_first(), negate, ds.push(digit_of(t[0])), 1);
    }
}
proof fn lemma_num_frac_len(s: Seq<char>, negate: bool, ds: Seq<u8>, frac: nat)
    requires digits_ok(ds)
    ensures num_frac_digits(s, negate, ds, frac) is Some ==> digits_ok((num_frac_digits(s, negate, ds, frac)->0).0.ds) && (num_frac_digits(s, negate, ds, frac)->0).0.ds.len() <= ds.len() + s.len()
    decreases s.len()
{
    lemma_num_e(s, negate, ds, frac);
    if starts_digit(s) { lemma_num_frac_len(s.drop_first(), negate, ds.push(digit_of(s[0])), frac + 1); }
}
proof fn lemma_num_len(s: Seq<char>)
    ensures num_lit(s) is Some ==> digits_ok((num_lit(s)->0).0.ds) && (num_lit(s)->0).0.ds.len() <= s.len()
{
    let negate = s.len() > 0 && s[0] == '-';
    let t = if negate { s.drop_first() } else { s };
    if starts_digit(t) {
        lemma_num_point_len(t.drop_first(), negate, Seq::empty());
        lemma_num_int_len(t.drop_first(), negate, Seq::empty().push(digit_of(t[0])));
    }
}
/// Every number has digits.
proof fn lemma_has_digits(v: nat) -> (ds: Seq<u8>)
    ensures val(ds) == v
    decreases v
{
    if v == 0 { Seq::empty() }
    else {
        let ds = lemma_has_digits(v / 10);
        lemma_val_push(ds, (v % 10) as u8);
        ds.push((v % 10) as u8)
    }
}

/// The outcome of reading a number.
spec fn number_read<T: Num>(s: Seq<char>, r: Option<T>) -> bool {
    match r {
        Some(_) => num_lit(s) is Some && fits::<T::Builder>((num_lit(s)->0).0.ds) && exists|exp: int| near((num_lit(s)->0).0.exp10(), exp) && #[trigger] T::reads(r, (num_lit(s)->0).0.ds, (num_lit(s)->0).0.negate, exp),
        None => num_lit(s) is Some ==> refused::<T::Builder>((num_lit(s)->0).0.ds)
            || fits::<T::Builder>((num_lit(s)->0).0.ds) && exists|exp: int| near((num_lit(s)->0).0.exp10(), exp) && #[trigger] T::reads(r, (num_lit(s)->0).0.ds, (num_lit(s)->0).0.negate, exp),
    }
}

/// The builder takes all the digits.
spec fn fits<B: NumBuilder>(ds: Seq<u8>) -> bool { exists|b: B| #[trigger] b.holds(ds) }
/// Some of the first digits are more than the builder takes.
spec fn refused<B: NumBuilder>(ds: Seq<u8>) -> bool {
    exists|a: Seq<u8>| #[trigger] B::too_big(a) && a.is_prefix_of(ds)
}

/// `*` followed by `t`, inside a block comment.
proof fn lemma_block(t: Seq<char>)
    ensures
        t.len() > 0 && t[0] != '*' ==> after_block(t) == after_block(t.drop_first()),
        t.len() > 0 && t[0] == '*' ==> t == seq!['*'] + t.drop_first(),
        t.len() == 0 ==> after_block(seq!['*'] + t) is None,
        t.len() > 0 && t[0] == '/' ==> after_block(seq!['*'] + t) == Some(t.drop_first()),
        t.len() > 0 && t[0] != '/' ==> after_block(seq!['*'] + t) == after_block(t),
{
    if t.len() > 0 {
        assert((seq!['*'] + t).skip(2) =~= t.drop_first());
        assert((seq!['*'] + t).drop_first() =~= t);
        if t[0] == '*' { assert(t =~= seq!['*'] + t.drop_first()); }
        if t[0] != '*' && t.len() == 1 { assert(after_block(t) is None); assert(after_block(t.drop_first()) is None); }
    }
}

proof fn lemma_after_line(s: Seq<char>)
    ensures after_line(s) is Some ==> after_line(s)->0.len() < s.len()
    decreases s.len()
{
    if s.len() > 0 && s[0] != '\n' { lemma_after_line(s.drop_first()); }
}
proof fn lemma_after_block(s: Seq<char>)
    ensures after_block(s) is Some ==> after_block(s)->0.len() < s.len()
    decreases s.len()
{
    if s.len() >= 2 && !(s[0] == '*' && s[1] == '/') { lemma_after_block(s.drop_first()); }
}
proof fn lemma_after_comment(s: Seq<char>)
    ensures after_comment(s) is Some ==> after_comment(s)->0.len() < s.len()
{
    if s.len() > 0 { lemma_after_line(s.drop_first()); lemma_after_block(s.drop_first()); }
}
/// White space, step by step.
proof fn lemma_ws(s: Seq<char>, comments: bool)
    ensures
        s.len() == 0 ==> after_ws(s, comments) == Some(s),
        s.len() > 0 && is_ws(s[0]) ==> after_ws(s, comments) == after_ws(s.drop_first(), comments),
        s.len() > 0 && s[0] == '/' && comments ==> after_ws(s, comments) == (match after_comment(s.drop_first()) {
            Some(t) => after_ws(t, comments),
            None => None,
        }),
        s.len() > 0 && !is_ws(s[0]) && !(s[0] == '/' && comments) ==> after_ws(s, comments) == Some(s),
{
    if s.len() > 0 { lemma_after_comment(s.drop_first()); }
}
proof fn lemma_ws_len(s: Seq<char>, comments: bool)
    ensures after_ws(s, comments) is Some ==> {
        let t = after_ws(s, comments)->0;
        t.len() <= s.len() && (t.len() > 0 ==> !is_ws(t[0]) && !(t[0] == '/' && comments))
    }
    decreases s.len()
{
    lemma_ws(s, comments);
    if s.len() > 0 {
        lemma_after_comment(s.drop_first());
        if is_ws(s[0]) { lemma_ws_len(s.drop_first(), comments); }
        else if s[0] == '/' && comments && after_comment(s.drop_first()) is Some { lemma_ws_len(after_comment(s.drop_first())->0, comments); }
    }
}

/// `true` or `false`.
spec fn bool_lit(s: Seq<char>) -> Option<(bool, Seq<char>)> {
    if seq!['t', 'r', 'u', 'e'].is_prefix_of(s) { Some((true, s.skip(4))) }
    else if seq!['f', 'a', 'l', 's', 'e'].is_prefix_of(s) { Some((false, s.skip(5))) }
    else { None }
}
/// The literal `c` + `t`, of which `c` has been read.
proof fn lemma_literal(s: Seq<char>, c: char, t: Seq<char>)
    ensures s.len() > 0 && s[0] == c ==> {
        &&& (seq![c] + t).is_prefix_of(s) == t.is_prefix_of(s.drop_first())
        &&& s.drop_first().len() >= t.len() ==> s.drop_first().skip(t.len() as int) == s.skip(t.len() as int + 1)
    }
{
    if s.len() > 0 && s[0] == c {
        if (seq![c] + t).is_prefix_of(s) {
            assert forall|i: int| 0 <= i < t.len() implies s.drop_first()[i] == t[i] by { assert((seq![c] + t)[i + 1] == t[i]); assert(s.take(t.len() as int + 1)[i + 1] == s[i + 1]); }
            assert(s.drop_first().take(t.len() as int) =~= t);
        }
        if t.is_prefix_of(s.drop_first()) {
            assert(s.drop_first().take(t.len() as int) == t);
            assert forall|i: int| 0 <= i < t.len() + 1 implies s[i] == (seq![c] + t)[i] by { if i > 0 { assert(s.drop_first().take(t.len() as int)[i - 1] == s[i]); } }
            assert(s.take(t.len() as int + 1) =~= seq![c] + t);
        }
        if s.drop_first().len() >= t.len() { assert(s.drop_first().skip(t.len() as int) =~= s.skip(t.len() as int + 1)); }
    }
}
proof fn lemma_literals(s: Seq<char>)
    ensures
        s.len() > 0 && s[0] == 't' ==> bool_lit(s) == (if "rue"@.is_prefix_of(s.drop_first()) { Some((true, s.drop_first().skip(3))) } else { None }),
        s.len() > 0 && s[0] == 'f' ==> bool_lit(s) == (if "alse"@.is_prefix_of(s.drop_first()) { Some((false, s.drop_first().skip(4))) } else { None }),
        s.len() > 0 && s[0] != 't' && s[0] != 'f' ==> bool_lit(s) is None,
        s.len() > 0 && s[0] == 'n' ==> null_lit(s) == (if "ull"@.is_prefix_of(s.drop_first()) { Some(s.drop_first().skip(3)) } else { None }),
        s.len() == 0 ==> bool_lit(s) is None,
        "rue"@.len() == 3, "alse"@.len() == 4, "ull"@.len() == 3,
{
    reveal_strlit("rue"); reveal_strlit("alse"); reveal_strlit("ull");
    lemma_literal(s, 't', "rue"@); lemma_literal(s, 'f', "alse"@); lemma_literal(s, 'n', "ull"@);
    assert("rue"@ =~= seq!['r', 'u', 'e']); assert("alse"@ =~= seq!['a', 'l', 's', 'e']); assert("ull"@ =~= seq!['u', 'l', 'l']);
    assert(seq!['t'] + "rue"@ =~= seq!['t', 'r', 'u', 'e']); assert(seq!['f'] + "alse"@ =~= seq!['f', 'a', 'l', 's', 'e']); assert(seq!['n'] + "ull"@ =~= seq!['n', 'u', 'l', 'l']);
    assert forall|t: Seq<char>| t.len() > 0 && #[trigger] t.is_prefix_of(s) implies s.len() > 0 && s[0] == t[0] by { assert(s.take(t.len() as int)[0] == s[0]); }
}
spec fn null_lit(s: Seq<char>) -> Option<Seq<char>> {
    if seq!['n', 'u', 'l', 'l'].is_prefix_of(s) { Some(s.skip(4)) } else { None }
}

// What follows a position inside an object or array.

/// A key follows (its text, after the quote), or the end of the object (what is left after it).
spec fn first_entry(s: Seq<char>, comments: bool) -> Option<(bool, Seq<char>)> {
    match after_ws(s, comments) {
        None => None,
        Some(t) => if t.len() == 0 { None } else if t[0] == '"' { Some((true, t.drop_first())) } else if t[0] == '}' { Some((false, t.drop_first())) } else { None },
    }
}
spec fn quoted(s: Seq<char>, comments: bool) -> Option<(bool, Seq<char>)> {
    match after_char(s, comments, '"') { Some(t) => Some((true, t)), None => None }
}
spec fn next_entry(s: Seq<char>, comments: bool) -> Option<(bool, Seq<char>)> {
    match after_ws(s, comments) {
        None => None,
        Some(t) => if t.len() == 0 { None } else if t[0] == ',' { quoted(t.drop_first(), comments) } else if t[0] == '}' { Some((false, t.drop_first())) } else { None },
    }
}
/// An item follows (its text), or the end of the array (what is left after it).
spec fn first_item(s: Seq<char>, comments: bool) -> Option<(bool, Seq<char>)> {
    match after_ws(s, comments) {
        None => None,
        Some(t) => if t.len() == 0 { None } else if t[0] == ']' { Some((false, t.drop_first())) } else { Some((true, t)) },
    }
}
/// The comma before an item follows (what is left after it), or the end of the array.
spec fn next_item(s: Seq<char>, comments: bool) -> Option<(bool, Seq<char>)> {
    match after_ws(s, comments) {
        None => None,
        Some(t) => if t.len() == 0 { None } else if t[0] == ',' { Some((true, t.drop_first())) } else if t[0] == ']' { Some((false, t.drop_first())) } else { None },
    }
}

// ---- Comments are white space ---------------------------------------------------------------------------

/// A complete comment.
spec fn is_comment(c: Seq<char>) -> bool {
    c.len() > 0 && c[0] == '/' && after_comment(c.drop_first()) == Some(Seq::<char>::empty())
}
spec fn all_ws(w: Seq<char>) -> bool { forall|i: int| 0 <= i < w.len() ==> is_ws(#[trigger] w[i]) }

proof fn lemma_append_line(a: Seq<char>, s: Seq<char>)
    requires after_line(a) == Some(Seq::<char>::empty())
    ensures after_line(a + s) == Some(s)
    decreases a.len()
{
    assert((a + s).drop_first() =~= a.drop_first() + s);
    if a[0] == '\n' { assert(a.drop_first() + s =~= s); } else { lemma_append_line(a.drop_first(), s); }
}
proof fn lemma_append_block(a: Seq<char>, s: Seq<char>)
    requires after_block(a) == Some(Seq::<char>::empty())
    ensures after_block(a + s) == Some(s)
    decreases a.len()
{
    assert((a + s).drop_first() =~= a.drop_first() + s);
    if a[0] == '*' && a[1] == '/' {
        assert(a.skip(2).len() == 0);
        assert((a + s).skip(2) =~= s);
    } else { lemma_append_block(a.drop_first(), s); }
}
/// Wherever white space may be skipped, a comment may be inserted (and nothing changes).
proof fn theorem_comment(w: Seq<char>, c: Seq<char>, s: Seq<char>)
    requires all_ws(w), is_comment(c)
    ensures after_ws(w + (c + s), true) == after_ws(w + s, true)
    decreases w.len()
{
    if w.len() > 0 {
        assert(is_ws(w[0]));
        assert((w + (c + s)).drop_first() =~= w.drop_first() + (c + s));
        assert((w + s).drop_first() =~= w.drop_first() + s);
        assert(all_ws(w.drop_first())) by { assert forall|i: int| 0 <= i < w.len() - 1 implies is_ws(#[trigger] w.drop_first()[i]) by { assert(is_ws(w[i + 1])); } }
        theorem_comment(w.drop_first(), c, s);
        lemma_ws(w + (c + s), true);
        lemma_ws(w + s, true);
    } else {
        assert(w + (c + s) =~= c + s);
        assert(w + s =~= s);
        let t = c.drop_first();
        assert((c + s).drop_first() =~= t + s);
        assert(t.len() > 0);
        assert((t + s).drop_first() =~= t.drop_first() + s);
        if t[0] == '/' { lemma_append_line(t.drop_first(), s); } else { lemma_append_block(t.drop_first(), s); }
        lemma_ws(c + s, true);
    }
}
/// When comments are not allowed, white space ends at the `/`, and nothing that may follow white space starts with one.
proof fn theorem_no_comment(w: Seq<char>, s: Seq<char>, x: char)
    requires all_ws(w), s.len() > 0, s[0] == '/', x != '/'
    ensures
        after_ws(w + s, false) == Some(s),
        after_char(w + s, false, x) is None,
        first_entry(w + s, false) is None,
        next_entry(w + s, false) is None,
        next_item(w + s, false) is None,
        first_item(w + s, false) == Some((true, s)),
        num_lit(s) is None,
        bool_lit(s) is None,
        null_lit(s) is None,
    decreases w.len()
{
    lemma_literals(s);
    lemma_ws(w + s, false);
    if null_lit(s) is Some { assert(s.take(4)[0] == s[0]); }
    if w.len() > 0 {
        assert(is_ws(w[0]));
        assert((w + s).drop_first() =~= w.drop_first() + s);
        assert(all_ws(w.drop_first())) by { assert forall|i: int| 0 <= i < w.len() - 1 implies is_ws(#[trigger] w.drop_first()[i]) by { assert(is_ws(w[i + 1])); } }
        theorem_no_comment(w.drop_first(), s, x);
    } else { assert(w + s =~= s); }
}
