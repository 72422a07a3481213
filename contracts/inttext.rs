// An integer as it is written.
spec fn is_num(t: Seq<char>) -> bool { num_lit(t) is Some && (num_lit(t)->0).1.len() == 0 }

proof fn lemma_cons(c: char, rest: Seq<char>)
    ensures (seq![c] + rest).len() == rest.len() + 1, (seq![c] + rest)[0] == c, (seq![c] + rest).drop_first() == rest
{
    assert((seq![c] + rest).drop_first() =~= rest);
}
proof fn lemma_drop_app(s: Seq<char>, rest: Seq<char>)
    ensures s.len() > 0 ==> (s + rest).drop_first() == s.drop_first() + rest && (s + rest)[0] == s[0], s.len() == 0 ==> s + rest == rest
{
    if s.len() > 0 { assert((s + rest).drop_first() =~= s.drop_first() + rest); } else { assert(s + rest =~= rest); }
}
/// The characters of these digits.
spec fn shows(a: Seq<char>, es: Seq<u8>) -> bool { a.len() == es.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == (48 + es[i]) as char && es[i] <= 9 }
proof fn lemma_shows_drop(a: Seq<char>, es: Seq<u8>)
    requires shows(a, es), a.len() > 0
    ensures shows(a.drop_first(), es.drop_first()), a[0] == (48 + es[0]) as char, digit_of(a[0]) == es[0], is_digit(a[0])
{
    assert forall|i: int| 0 <= i < a.len() - 1 implies #[trigger] a.drop_first()[i] == (48 + es.drop_first()[i]) as char && es.drop_first()[i] <= 9 by { assert(a[i + 1] == (48 + es[i + 1]) as char); }
    assert(a[0] == (48 + es[0]) as char);
}
/// More digits.
proof fn lemma_int_digits(a: Seq<char>, t: Seq<char>, negate: bool, ds: Seq<u8>, es: Seq<u8>, rest: Seq<char>)
    requires shows(a, es), t == a + rest
    ensures num_int(t, negate, ds) == num_int(rest, negate, ds + es)
    decreases a.len()
{
    lemma_drop_app(a, rest);
    if a.len() > 0 {
        let e = es[0];
        lemma_shows_drop(a, es);
        assert(ds.push(e) + es.drop_first() =~= ds + es);
        lemma_int_digits(a.drop_first(), t.drop_first(), negate, ds.push(e), es.drop_first(), rest);
    } else { assert(ds + es =~= ds); }
}
/// The digits of a number: none for 0.
spec fn digits(v: nat) -> Seq<u8>
    decreases v
{
    if v == 0 { Seq::empty() } else { digits(v / 10).push((v % 10) as u8) }
}
proof fn lemma_digits(v: nat)
    ensures
        val(digits(v)) == v,
        v > 0 ==> shows(nat_text(v), digits(v)) && digits(v).len() > 0 && digits(v)[0] > 0,
    decreases v
{
    if v > 0 {
        let p = v / 10; let l = (v % 10) as u8;
        lemma_digits(p);
        lemma_val_push(digits(p), l);
        assert(digits(v) == digits(p).push(l));
        if p == 0 { assert(v % 10 == v); assert(digits(p) =~= Seq::<u8>::empty()); assert(nat_text(v) =~= Seq::<char>::empty().push((48 + l) as char)); lemma_shows_push(Seq::empty(), digits(p), l); }
        else { assert(nat_text(v) == nat_text(p).push((48 + l) as char)); lemma_shows_push(nat_text(p), digits(p), l); }
    }
}
proof fn lemma_shows_push(a: Seq<char>, es: Seq<u8>, e: u8)
    requires shows(a, es), e <= 9
    ensures shows(a.push((48 + e) as char), es.push(e))
{
    let b = a.push((48 + e) as char);
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] == (48 + es.push(e)[i]) as char && es.push(e)[i] <= 9 by { if i < a.len() { assert(b[i] == a[i]); } }
}
/// An integer is written as the number literal that is exactly that integer, without fraction or exponent.
proof fn theorem_int(v: int)
    ensures is_num(int_text(v)), ({ let n = (num_lit(int_text(v))->0).0;
        n.negate == (v < 0) && val(n.ds) == (if v < 0 { -v } else { v }) && n.exp10() == 0 })
{
    let negate = v < 0;
    let m = (if negate { -v } else { v }) as nat;
    let t = nat_text(m);
    let s = int_text(v);
    lemma_cons('-', t);
    lemma_digits(m);
    if m == 0 {
        assert(s.drop_first() =~= Seq::<char>::empty());
        assert(num_lit(s) == Some((NumLit { negate: false, ds: Seq::empty(), frac: 0, negate_exp: false, exp: Seq::empty() }, s.drop_first())));
    } else {
        let d = digits(m);
        lemma_shows_drop(t, d);
        let a = t.drop_first(); let es = d.drop_first();
        assert(a =~= a + Seq::<char>::empty());
        lemma_int_digits(a, a, negate, Seq::empty().push(d[0]), es, Seq::empty());
        assert(Seq::empty().push(d[0]) + es =~= d);
        assert(num_lit(s) == num_first(t, negate));
        assert(num_lit(s) == Some((NumLit { negate, ds: d, frac: 0, negate_exp: false, exp: Seq::empty() }, Seq::<char>::empty())));
    }
}

