// The lexer: what every function of TextReaderExt does with the text that is left.
/// Errors carry a position and a message; the contracts only say when there is one.
struct DeserializeError<Position> { pos: Position }
#[verifier::external_body]
fn de_error<P>() -> (r: DeserializeError<P>) { unimplemented!() }

pub assume_specification [char::from_u32] (c: u32) -> (r: Option<char>)
    ensures r == (if is_scalar(c) { Some(c as char) } else { None });

pub assume_specification [i32::saturating_add] (x: i32, y: i32) -> (r: i32)
    ensures r == (if x + y > i32::MAX { i32::MAX as int } else if x + y < i32::MIN { i32::MIN as int } else { x + y });

spec fn holds_exp(x: u32, es: Seq<u8>) -> bool { x == val(es) || x == u32::MAX && val(es) > u32::MAX }
//@use json/src/deserialize/text.rs

trait TextReaderExt: TextReader {

//@fn TextReaderExt :: skip_comment | ret=r loops=3
//@dropargs DeserializeError::new => de_error()
//@spec
    requires old(self).ok()
    ensures final(self).ok(),
        match r { Ok(_) => after_comment(old(self).rest()) == Some(final(self).rest()), Err(_) => after_comment(old(self).rest()) is None }
//@entry
    proof { assert forall|t: Seq<char>| #![trigger after_block(t)] #![trigger after_block(seq!['*'] + t)] 
        (t.len() > 0 && t[0] != '*' ==> after_block(t) == after_block(t.drop_first()))
        && (t.len() > 0 && t[0] == '*' ==> t == seq!['*'] + t.drop_first())
        && (t.len() == 0 ==> after_block(seq!['*'] + t) is None)
        && (t.len() > 0 && t[0] == '/' ==> after_block(seq!['*'] + t) == Some(t.drop_first()))
        && (t.len() > 0 && t[0] != '/' ==> after_block(seq!['*'] + t) == after_block(t)) by { lemma_block(t); } }
//@loop 1
    invariant self.ok(), after_line(self.rest()) == after_comment(old(self).rest())
    decreases self.rest().len()
//@loop 2
    invariant self.ok(), after_block(self.rest()) == after_comment(old(self).rest())
    decreases self.rest().len()
//@in 2
    let ghost n = self.rest().len();
//@loop 3
    invariant self.ok(), self.rest().len() < n, after_block(seq!['*'] + self.rest()) == after_comment(old(self).rest())
    decreases self.rest().len()
//@end

//@fn TextReaderExt :: skip_whitespace | resolve ret=r loops=1
//@dropargs DeserializeError::new => de_error()
//@spec
    requires old(self).ok()
    ensures final(self).ok(),
        match r { Ok(_) => after_ws(old(self).rest(), allow_comments) == Some(final(self).rest()), Err(_) => after_ws(old(self).rest(), allow_comments) is None }
//@loop 1
    invariant self.ok(), after_ws(self.rest(), allow_comments) == after_ws(old(self).rest(), allow_comments)
    decreases self.rest().len()
//@in 1
    proof { lemma_ws(self.rest(), allow_comments); if self.rest().len() > 0 { lemma_after_comment(self.rest().drop_first()); } }
//@end

//@fn TextReaderExt :: skip_past_colon | resolve ret=r loops=1
//@dropargs DeserializeError::new => de_error()
//@spec
    requires old(self).ok()
    ensures final(self).ok(),
        match r {
            Ok(_) => after_char(old(self).rest(), allow_comments, ':') == Some(final(self).rest()),
            Err(_) => after_char(old(self).rest(), allow_comments, ':') is None,
        }
//@loop 1
    invariant self.ok(), after_ws(self.rest(), allow_comments) == after_ws(old(self).rest(), allow_comments)
    decreases self.rest().len()
//@in 1
    proof { lemma_ws(self.rest(), allow_comments); if self.rest().len() > 0 { lemma_after_comment(self.rest().drop_first()); } }
//@end

//@fn TextReaderExt :: skip_to_first_entry | resolve ret=r loops=1
//@dropargs DeserializeError::new => de_error()
//@spec
    requires old(self).ok()
    ensures final(self).ok(),
        match r {
            Ok(x) => first_entry(old(self).rest(), allow_comments) == Some((x is Some, final(self).rest())),
            Err(_) => first_entry(old(self).rest(), allow_comments) is None,
        }
//@loop 1
    invariant self.ok(), after_ws(self.rest(), allow_comments) == after_ws(old(self).rest(), allow_comments)
    decreases self.rest().len()
//@in 1
    proof { lemma_ws(self.rest(), allow_comments); if self.rest().len() > 0 { lemma_after_comment(self.rest().drop_first()); } }
//@end

//@fn TextReaderExt :: skip_to_next_entry | resolve ret=r loops=2
//@dropargs DeserializeError::new => de_error()
//@spec
    requires old(self).ok()
    ensures final(self).ok(),
        match r {
            Ok(x) => next_entry(old(self).rest(), allow_comments) == Some((x is Some, final(self).rest())),
            Err(_) => next_entry(old(self).rest(), allow_comments) is None,
        }
//@loop 1
    invariant self.ok(), after_ws(self.rest(), allow_comments) == after_ws(old(self).rest(), allow_comments)
    decreases self.rest().len()
//@in 1
    proof { lemma_ws(self.rest(), allow_comments); if self.rest().len() > 0 { lemma_after_comment(self.rest().drop_first()); } }
//@loop 2
    invariant self.ok(), next_entry(old(self).rest(), allow_comments) == quoted(self.rest(), allow_comments)
    decreases self.rest().len()
//@in 2
    proof { lemma_ws(self.rest(), allow_comments); if self.rest().len() > 0 { lemma_after_comment(self.rest().drop_first()); } }
//@end

//@fn TextReaderExt :: skip_to_first_item | resolve ret=r loops=1
//@dropargs DeserializeError::new => de_error()
//@spec
    requires old(self).ok()
    ensures final(self).ok(),
        match r {
            Ok(x) => first_item(old(self).rest(), allow_comments) == Some((x, final(self).rest())),
            Err(_) => first_item(old(self).rest(), allow_comments) is None,
        }
//@loop 1
    invariant self.ok(), after_ws(self.rest(), allow_comments) == after_ws(old(self).rest(), allow_comments)
    decreases self.rest().len()
//@in 1
    proof { lemma_ws(self.rest(), allow_comments); if self.rest().len() > 0 { lemma_after_comment(self.rest().drop_first()); } }
//@end

//@fn TextReaderExt :: skip_to_next_item | resolve ret=r loops=1
//@dropargs DeserializeError::new => de_error()
//@spec
    requires old(self).ok()
    ensures final(self).ok(),
        match r {
            Ok(x) => next_item(old(self).rest(), allow_comments) == Some((x, final(self).rest())),
            Err(_) => next_item(old(self).rest(), allow_comments) is None,
        }
//@loop 1
    invariant self.ok(), after_ws(self.rest(), allow_comments) == after_ws(old(self).rest(), allow_comments)
    decreases self.rest().len()
//@in 1
    proof { lemma_ws(self.rest(), allow_comments); if self.rest().len() > 0 { lemma_after_comment(self.rest().drop_first()); } }
//@end

//@fn TextReaderExt :: read_eof | ret=r loops=0
//@dropargs DeserializeError::new => de_error()
//@spec
    requires old(self).ok()
    ensures final(self).ok(), final(self).rest() == old(self).rest(), r is Ok == (old(self).rest().len() == 0)
//@end

//@fn TextReaderExt :: read_bool | ret=r loops=0
//@dropargs DeserializeError::new => de_error()
//@spec
    requires old(self).ok()
    ensures final(self).ok(),
        match r {
            Ok(x) => bool_lit(old(self).rest()) == Some((x, final(self).rest())),
            Err(_) => bool_lit(old(self).rest()) is None,
        }
//@entry
    proof { lemma_literals(self.rest()); }
//@end

//@fn TextReaderExt :: read_hex_digits | ret=r loops=1
//@dropargs DeserializeError::new => de_error()
//@spec
    requires old(self).ok()
    ensures final(self).ok(),
        match r {
            Ok(x) => hex4(old(self).rest()) == Some(x as int) && final(self).rest() == old(self).rest().skip(4),
            Err(_) => hex4(old(self).rest()) is None,
        }
//@loop 1
    invariant self.ok(), it1.index() <= old(self).rest().len(), self.rest() =~= old(self).rest().skip(it1.index()),
        forall|i: int| 0 <= i < it1.index() ==> hex_of(#[trigger] old(self).rest()[i]) is Some,
        it1.index() == 0 ==> value == 0,
        it1.index() == 1 ==> value == hex_at(old(self).rest(), 0),
        it1.index() == 2 ==> value == hex_at(old(self).rest(), 0) * 16 + hex_at(old(self).rest(), 1),
        it1.index() == 3 ==> value == hex_at(old(self).rest(), 0) * 256 + hex_at(old(self).rest(), 1) * 16 + hex_at(old(self).rest(), 2),
        it1.index() == 4 ==> hex4(old(self).rest()) == Some(value as int),
//@end

//@fn TextReaderExt :: read_unicode_escape | ret=r loops=0
//@dropargs DeserializeError::new => de_error()
//@spec
    requires old(self).ok()
    ensures final(self).ok(),
        match r {
            Ok(x) => unicode_escape(old(self).rest()) == Some((x, final(self).rest())),
            Err(_) => unicode_escape(old(self).rest()) is None,
        }
//@entry
    proof { lemma_pair(self.rest()); broadcast use group_utf8_lib; }
//@end

//@fn TextReaderExt :: read_escape_sequence | ret=r loops=0
//@dropargs DeserializeError::new => de_error()
//@spec
    requires old(self).ok()
    ensures final(self).ok(),
        match r {
            Ok(x) => escape(old(self).rest()) == Some((x, final(self).rest())),
            Err(_) => escape(old(self).rest()) is None,
        }
//@end

//@fn TextReaderExt :: read_str_into | ret=r loops=1
//@dropargs DeserializeError::new => de_error()
//@spec
    requires old(self).ok()
    ensures final(self).ok(),
        match r {
            Ok(_) => str_lit(old(self).rest()) is Some && final(str)@ == old(str)@ + (str_lit(old(self).rest())->0).0 && final(self).rest() == (str_lit(old(self).rest())->0).1,
            Err(_) => str_lit(old(self).rest()) is None,
        }
//@entry
    proof { assert(str@ =~= str@ + Seq::<char>::empty()); }
//@loop 1
    invariant self.ok(), exists|cs: Seq<char>| str_rest(cs, self.rest()) == str_lit(old(self).rest()) && str@ == #[trigger] (old(str)@ + cs)
    decreases self.rest().len()
//@in 1
    proof {
        if self.rest().len() > 0 { lemma_escape_len(self.rest().drop_first()); }
        assert forall|cs: Seq<char>, c: char| #[trigger] (old(str)@ + cs).push(c) == old(str)@ + cs.push(c) by {}
    }
//@end

//@fn TextReaderExt :: read_str_bytes_into | ret=r loops=1
//@dropargs DeserializeError::new => de_error()
//@spec
    requires old(self).ok()
    ensures final(self).ok(),
        match r {
            Ok(_) => str_lit(old(self).rest()) is Some && final(data)@ == old(data)@ + encode_utf8((str_lit(old(self).rest())->0).0) && final(self).rest() == (str_lit(old(self).rest())->0).1,
            Err(_) => str_lit(old(self).rest()) is None,
        },
//@entry
    proof { lemma_empty(); assert(data@ =~= data@ + encode_utf8(Seq::<char>::empty())); }
//@loop 1
    invariant self.ok(), exists|cs: Seq<char>| str_rest(cs, self.rest()) == str_lit(old(self).rest()) && data@ =~= #[trigger] (old(data)@ + encode_utf8(cs))
    decreases self.rest().len()
//@in 1
    proof {
        broadcast use group_utf8_lib;
        if self.rest().len() > 0 { lemma_escape_len(self.rest().drop_first()); }
        let cs = choose|cs: Seq<char>| str_rest(cs, self.rest()) == str_lit(old(self).rest()) && data@ =~= #[trigger] (old(data)@ + encode_utf8(cs));
        assert forall|c: char| (old(data)@ + encode_utf8(cs)) + #[trigger] encode_utf8(seq![c]) =~= old(data)@ + encode_utf8(cs.push(c)) by { lemma_encode_push(cs, c); }
    }
//@end

//@fn TextReaderExt :: read_str_bytes_into_or_match | resolve=self,data ret=r loops=1
//@dropargs DeserializeError::new => de_error()
//@spec
    requires old(self).ok()
    ensures final(self).ok(),
        match r {
            Ok(x) => {
                &&& str_lit(old(self).rest()) is Some
                &&& final(self).rest() == (str_lit(old(self).rest())->0).1
                &&& x == ((str_lit(old(self).rest())->0).0 == expected@)
                &&& final(data)@ == if x { old(data)@ } else { old(data)@ + encode_utf8((str_lit(old(self).rest())->0).0) }
            },
            Err(_) => str_lit(old(self).rest()) is None,
        }
//@entry
    proof { lemma_empty(); assert(expected@.take(0) =~= Seq::empty()); assert(expected@.skip(0) =~= expected@); }
//@loop 1
    invariant_except_break
        str_rest(expected@.take(expected@.len() - suffix@.len()), self.rest()) == str_lit(old(self).rest()),
        data@ == old(data)@,
    invariant
        self.ok(), tail_of(expected, suffix)
    ensures
        exists|cs: Seq<char>| str_rest(cs, self.rest()) == str_lit(old(self).rest()) && differs(cs, expected@) && data@ =~= #[trigger] (old(data)@ + encode_utf8(cs)),
    decreases self.rest().len()
//@in 1
    let ghost k = expected@.len() - suffix@.len();
    proof {
        if self.rest().len() > 0 { lemma_escape_len(self.rest().drop_first()); }
        assert forall|t: &str| #[trigger] tail_of(suffix, t) implies tail_of(expected, t) by { lemma_tail_trans(expected, suffix, t); }
        if suffix@.len() > 0 { assert(expected@.take(k + 1) =~= expected@.take(k).push(suffix@[0])); }
        if suffix@.len() == 0 { assert(expected@.take(k) =~= expected@); }
        assert forall|c: char| (old(data)@ + encode_utf8(expected@.take(k))) + #[trigger] encode_utf8(seq![c]) =~= old(data)@ + encode_utf8(expected@.take(k).push(c)) by { lemma_encode_push(expected@.take(k), c); }
        assert forall|c: char| suffix@.len() == 0 || c != suffix@[0] implies differs(#[trigger] expected@.take(k).push(c), expected@) by {
            let cs = expected@.take(k).push(c);
            if suffix@.len() > 0 { assert(cs[k] == c); assert(expected@[k] == suffix@[0]); }
        }
    }
//@after-loop 1
    let ghost cs = choose|cs: Seq<char>| str_rest(cs, self.rest()) == str_lit(old(self).rest()) && differs(cs, expected@) && data@ =~= #[trigger] (old(data)@ + encode_utf8(cs));
    proof { lemma_differs(cs, expected@, self.rest(), old(data)@); }
//@end

//@fn TextReaderExt :: read_number_into_builder | isolate resolve=self,builder ret=r loops=5
//@dropargs DeserializeError::new => de_error()
//@sigsubst read_number_into_builder( => read_number_into_builder<B: NumBuilder>(
//@sigsubst &mut impl NumBuilder => &mut B
//@spec
    requires old(self).ok(), old(self).rest().len() < LIMIT, old(builder).holds(Seq::empty())
    ensures final(self).ok(),
        match r {
            Ok((negate, exp)) => num_lit(old(self).rest()) is Some && ({
                let n = (num_lit(old(self).rest())->0).0;
                &&& final(self).rest() == (num_lit(old(self).rest())->0).1
                &&& n.negate == negate
                &&& final(builder).holds(n.ds)
                &&& near(n.exp10(), exp as int)
            }),
            Err(_) => num_lit(old(self).rest()) is Some ==> refused::<B>((num_lit(old(self).rest())->0).0.ds),
        }
//@entry
    let ghost all = num_lit(self.rest());
    proof {
        let t = if self.rest().len() > 0 && self.rest()[0] == '-' { self.rest().drop_first() } else { self.rest() };
        if t.len() > 0 { lemma_num_int(t.drop_first(), self.rest()[0] == '-', Seq::empty().push(digit_of(t[0]))); }
        assert(first_fits(self.rest()));
    }
    let ghost len = self.rest().len();
//@loop 1
    invariant_except_break
        self.rest() == old(self).rest(), builder.holds(Seq::empty()), !negate, decimal_exp == 0
    invariant
        first_fits(old(self).rest()), all == num_lit(old(self).rest()), len == old(self).rest().len(), len < LIMIT,
        self.ok(), self.rest().len() - decimal_exp <= len, decimal_exp <= 0
    ensures
        exists|ds: Seq<u8>| #[trigger] builder.holds(ds) && num_exp_sign(self.rest(), negate, ds, (-decimal_exp) as nat) == all
    decreases 0int
//@loop 2
    invariant_except_break
        self.rest() == old(self).rest(), builder.holds(Seq::empty()), !negate
    invariant
        first_fits(old(self).rest()), all == num_lit(old(self).rest()), len == old(self).rest().len(), len < LIMIT,
        self.ok(), self.rest().len() - decimal_exp <= len, decimal_exp == 0
    ensures
        exists|ds: Seq<u8>| #[trigger] builder.holds(ds) && num_frac(self.rest(), negate, ds) == all
    decreases 0int
//@loop 3
    invariant
        first_fits(old(self).rest()), all == num_lit(old(self).rest()), len == old(self).rest().len(), len < LIMIT,
        self.ok(), self.rest().len() - decimal_exp <= len, decimal_exp == 0,
        exists|ds: Seq<u8>| #[trigger] builder.holds(ds) && num_int(self.rest(), negate, ds) == all
    decreases self.rest().len()
//@in 3
    proof {
        let ds = choose|ds: Seq<u8>| #[trigger] builder.holds(ds) && num_int(self.rest(), negate, ds) == all;
        if self.rest().len() > 0 { lemma_num_int(self.rest().drop_first(), negate, ds.push(digit_of(self.rest()[0]))); }
    }
//@after-loop 2
    proof {
        let ds = choose|ds: Seq<u8>| #[trigger] builder.holds(ds) && num_frac(self.rest(), negate, ds) == all;
        if self.rest().len() > 0 { lemma_num_frac(self.rest().drop_first(), negate, ds.push(digit_of(self.rest()[0])), 1); }
    }
//@in 4
    proof {
        let ds = choose|ds: Seq<u8>| #[trigger] builder.holds(ds) && num_frac_digits(self.rest(), negate, ds, (-decimal_exp) as nat) == all;
        if self.rest().len() > 0 { lemma_num_frac(self.rest().drop_first(), negate, ds.push(digit_of(self.rest()[0])), (1 - decimal_exp) as nat); }
    }
//@loop 4
    invariant
        first_fits(old(self).rest()), all == num_lit(old(self).rest()), len == old(self).rest().len(), len < LIMIT,
        self.ok(), self.rest().len() - decimal_exp <= len, decimal_exp <= 0,
        exists|ds: Seq<u8>| #[trigger] builder.holds(ds) && num_frac_digits(self.rest(), negate, ds, (-decimal_exp) as nat) == all
    decreases self.rest().len()
//@after-loop 1
    let ghost ds = choose|ds: Seq<u8>| #[trigger] builder.holds(ds) && num_exp_sign(self.rest(), negate, ds, (-decimal_exp) as nat) == all;
    let ghost frac = (-decimal_exp) as nat;
    let ghost mut es: Seq<u8> = {
        let t = self.rest();
        let u = if t.len() > 0 && (t[0] == '+' || t[0] == '-') { t.drop_first() } else { t };
        Seq::empty().push(digit_of(u[0]))
    };
    proof { assert(0u32.holds(Seq::empty())); lemma_val_push(Seq::empty(), es[0]); assert(es =~= Seq::empty().push(es[0])); }
//@loop 5
    invariant
        first_fits(old(self).rest()), all == num_lit(old(self).rest()), len == old(self).rest().len(), len < LIMIT,
        builder.holds(ds), frac < LIMIT, frac == -decimal_exp,
        self.ok(),
        holds_exp(exp_builder, es),
        num_exp_digits(self.rest(), negate, ds, frac, negate_exp, es) == all
    decreases self.rest().len()
//@in 5
    proof {
        lemma_plain_i32();
        lemma_val_nonneg(es);
        let some = lemma_has_digits(exp_builder as nat);
        assert(exp_builder.holds(some));
        assert(exp_builder.holds(es) == (exp_builder == val(es)));
        if starts_digit(self.rest()) {
            let d = digit_of(self.rest()[0]);
            lemma_val_push(es, d);
            lemma_val_push(some, d);
            es = es.push(d);
        }
    }
//@end

//@fn TextReaderExt :: read_number | ret=r loops=0
//@dropargs DeserializeError::new => de_error()
//@subst Default :: default ( ) => NumBuilder::fresh()
//@spec
    requires old(self).ok(), old(self).rest().len() < LIMIT
    ensures final(self).ok(),
        match r {
            Ok(x) => number_read(old(self).rest(), Some(x)) && final(self).rest() == (num_lit(old(self).rest())->0).1,
            Err(_) => number_read(old(self).rest(), None::<T>),
        }
//@end

}
impl<T: TextReader> TextReaderExt for T {}
