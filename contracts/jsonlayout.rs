// ---- Indentation only adds white space between tokens ---------------------------------------------------------

/// Where in a document: outside strings, in a string, or after a backslash in one.
enum At { Out, In, Esc }
spec fn next_at(m: At, x: char) -> At {
    match m {
        At::Out => if x == '"' { At::In } else { At::Out },
        At::In => if x == '"' { At::Out } else if x == '\\' { At::Esc } else { At::In },
        At::Esc => At::In,
    }
}
spec fn keep(m: At, x: char) -> Seq<char> { if m is Out && is_ws(x) { Seq::empty() } else { seq![x] } }
/// The document without the white space outside strings.
spec fn strip(m: At, s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { keep(m, s[0]) + strip(next_at(m, s[0]), s.drop_first()) }
}
spec fn at_after(m: At, s: Seq<char>) -> At
    decreases s.len()
{
    if s.len() == 0 { m } else { at_after(next_at(m, s[0]), s.drop_first()) }
}
proof fn lemma_strip_app(m: At, t: Seq<char>, r: Seq<char>)
    ensures strip(m, t + r) == strip(m, t) + strip(at_after(m, t), r)
    decreases t.len()
{
    lemma_drop_app(t, r);
    if t.len() > 0 {
        let n = next_at(m, t[0]);
        lemma_strip_app(n, t.drop_first(), r);
        assert(keep(m, t[0]) + (strip(n, t.drop_first()) + strip(at_after(m, t), r)) =~= strip(m, t) + strip(at_after(m, t), r));
    } else { assert(strip(m, t) + strip(m, r) =~= strip(m, r)); }
}
/// White space outside strings does not count.
proof fn lemma_strip_ws(w: Seq<char>, r: Seq<char>)
    requires all_ws(w)
    ensures strip(At::Out, w + r) == strip(At::Out, r)
    decreases w.len()
{
    lemma_drop_app(w, r);
    if w.len() > 0 {
        assert(is_ws(w[0]));
        assert(all_ws(w.drop_first())) by { assert forall|i: int| 0 <= i < w.len() - 1 implies is_ws(#[trigger] w.drop_first()[i]) by { assert(is_ws(w[i + 1])); } }
        lemma_strip_ws(w.drop_first(), r);
        assert(strip(At::Out, w + r) =~= strip(At::Out, w.drop_first() + r));
    }
}
proof fn lemma_strip_nl(ind: Option<Seq<char>>, d: int, r: Seq<char>)
    requires ws_unit(ind)
    ensures strip(At::Out, nl(ind, d, r)) == strip(At::Out, r)
{
    match ind {
        Some(u) => {
            lemma_rep_ws(u, d);
            lemma_strip_ws(rep(u, d), r);
            assert(all_ws(seq!['\n']));
            lemma_strip_ws(seq!['\n'], rep(u, d) + r);
        }
        None => {}
    }
}
proof fn lemma_strip1(m: At, x: char, r: Seq<char>)
    ensures strip(m, seq![x] + r) == keep(m, x) + strip(next_at(m, x), r)
{
    lemma_cons(x, r);
}
proof fn lemma_at_chr(c: char)
    ensures at_after(At::In, esc1(c)) is In
{
    let e = esc1(c);
    reveal_strlit("\\\""); reveal_strlit("\\\\"); reveal_strlit("\\b"); reveal_strlit("\\f"); reveal_strlit("\\n"); reveal_strlit("\\r"); reveal_strlit("\\t");
    reveal_strlit("\\u000"); reveal_strlit("\\u001");
    reveal_with_fuel(at_after, 8);
    let t1 = e.drop_first();
    if e.len() > 2 {
        assert(e.len() == 6);
        assert(e[1] == 'u' && e[2] == '0' && e[3] == '0');
        assert(e[5] != '"' && e[5] != '\\');
    }
}
/// Strings stay as they are.
proof fn lemma_strip_chrs(cs: Seq<char>, r1: Seq<char>, r2: Seq<char>)
    requires strip(At::In, r1) == strip(At::In, r2)
    ensures strip(At::In, esc_to(cs, r1)) == strip(At::In, esc_to(cs, r2))
    decreases cs.len()
{
    if cs.len() > 0 {
        let e = esc1(cs.last());
        lemma_at_chr(cs.last());
        lemma_strip_app(At::In, e, r1);
        lemma_strip_app(At::In, e, r2);
        lemma_strip_chrs(cs.drop_last(), e + r1, e + r2);
    }
}
spec fn plain(x: char) -> bool { is_digit(x) || x == '-' || x == '+' || x == '.' || x == 'e' || x == 'E' }
spec fn plains(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> plain(#[trigger] s[i]) }
proof fn lemma_plains(s: Seq<char>)
    requires s.len() > 0, plain(s[0]), plains(s.drop_first())
    ensures plains(s)
{
    assert forall|i: int| 0 <= i < s.len() implies plain(#[trigger] s[i]) by { if i > 0 { assert(plain(s.drop_first()[i - 1])); } }
}
spec fn all_read(a: Option<(NumLit, Seq<char>)>) -> bool { a is Some && (a->0).1.len() == 0 }
proof fn lemma_plain_exp(s: Seq<char>, negate: bool, ds: Seq<u8>, frac: nat, negate_exp: bool, exp: Seq<u8>)
    ensures all_read(num_exp_digits(s, negate, ds, frac, negate_exp, exp)) ==> plains(s)
    decreases s.len()
{
    if starts_digit(s) { lemma_plain_exp(s.drop_first(), negate, ds, frac, negate_exp, exp.push(digit_of(s[0]))); if plains(s.drop_first()) { lemma_plains(s); } }
}
proof fn lemma_plain_e(s: Seq<char>, negate: bool, ds: Seq<u8>, frac: nat)
    ensures all_read(num_e(s, negate, ds, frac)) ==> plains(s)
{
    if s.len() > 0 && (s[0] == 'e' || s[0] == 'E') {
        let t = s.drop_first();
        let signed = t.len() > 0 && (t[0] == '+' || t[0] == '-');
        let u = if signed { t.drop_first() } else { t };
        if starts_digit(u) {
            lemma_plain_exp(u.drop_first(), negate, ds, frac, signed && t[0] == '-', Seq::empty().push(digit_of(u[0])));
            if plains(u.drop_first()) { lemma_plains(u); if signed { lemma_plains(t); } lemma_plains(s); }
        }
    }
}
proof fn lemma_plain_frac(s: Seq<char>, negate: bool, ds: Seq<u8>, frac: nat)
    ensures all_read(num_frac_digits(s, negate, ds, frac)) ==> plains(s)
    decreases s.len()
{
    lemma_plain_e(s, negate, ds, frac);
    if starts_digit(s) { lemma_plain_frac(s.drop_first(), negate, ds.push(digit_of(s[0])), frac + 1); if plains(s.drop_first()) { lemma_plains(s); } }
}
proof fn lemma_plain_point(s: Seq<char>, negate: bool, ds: Seq<u8>)
    ensures all_read(num_point(s, negate, ds)) ==> plains(s)
{
    lemma_plain_e(s, negate, ds, 0);
    if s.len() > 0 && s[0] == '.' {
        let t = s.drop_first();
        if starts_digit(t) { lemma_plain_frac(t.drop_first(), negate, ds.push(digit_of(t[0])), 1); if plains(t.drop_first()) { lemma_plains(t); lemma_plains(s); } }
    }
}
proof fn lemma_plain_int(s: Seq<char>, negate: bool, ds: Seq<u8>)
    ensures all_read(num_int(s, negate, ds)) ==> plains(s)
    decreases s.len()
{
    lemma_plain_point(s, negate, ds);
    if starts_digit(s) { lemma_plain_int(s.drop_first(), negate, ds.push(digit_of(s[0]))); if plains(s.drop_first()) { lemma_plains(s); } }
}
/// A number literal has no white space and no quotes.
proof fn lemma_plain(s: Seq<char>)
    requires is_num(s)
    ensures plains(s)
{
    let negate = s.len() > 0 && s[0] == '-';
    let t = if negate { s.drop_first() } else { s };
    if starts_digit(t) {
        lemma_plain_point(t.drop_first(), negate, Seq::empty());
        lemma_plain_int(t.drop_first(), negate, Seq::empty().push(digit_of(t[0])));
        lemma_plains(t);
        if negate { lemma_plains(s); }
    }
}
proof fn lemma_at_plain(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '"'
    ensures at_after(At::Out, s) is Out
    decreases s.len()
{
    if s.len() > 0 { lemma_at_plain(s.drop_first()); }
}
proof fn lemma_strip_tok(p: Seq<char>, r1: Seq<char>, r2: Seq<char>)
    requires strip(At::Out, r1) == strip(At::Out, r2), forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] != '"'
    ensures strip(At::Out, p + r1) == strip(At::Out, p + r2)
{
    lemma_at_plain(p);
    lemma_strip_app(At::Out, p, r1);
    lemma_strip_app(At::Out, p, r2);
}
proof fn lemma_strip_tok1(x: char, r1: Seq<char>, r2: Seq<char>)
    requires strip(At::Out, r1) == strip(At::Out, r2), x != '"'
    ensures strip(At::Out, seq![x] + r1) == strip(At::Out, seq![x] + r2)
{
    lemma_strip1(At::Out, x, r1);
    lemma_strip1(At::Out, x, r2);
}
/// A string literal.
proof fn lemma_strip_str(cs: Seq<char>, r1: Seq<char>, r2: Seq<char>)
    requires strip(At::Out, r1) == strip(At::Out, r2)
    ensures strip(At::Out, seq!['"'] + esc_to(cs, seq!['"'] + r1)) == strip(At::Out, seq!['"'] + esc_to(cs, seq!['"'] + r2))
{
    lemma_strip1(At::In, '"', r1);
    lemma_strip1(At::In, '"', r2);
    lemma_strip_chrs(cs, seq!['"'] + r1, seq!['"'] + r2);
    lemma_strip1(At::Out, '"', esc_to(cs, seq!['"'] + r1));
    lemma_strip1(At::Out, '"', esc_to(cs, seq!['"'] + r2));
}
/// Without white space outside strings, the texts of a value are the same whatever the indentation.
proof fn lemma_layout(i1: Option<Seq<char>>, d1: int, i2: Option<Seq<char>>, d2: int, j: J, r1: Seq<char>, r2: Seq<char>)
    requires wf(j), ws_unit(i1), ws_unit(i2), strip(At::Out, r1) == strip(At::Out, r2)
    ensures strip(At::Out, txt(i1, d1, j, r1)) == strip(At::Out, txt(i2, d2, j, r2))
    decreases j, 1int
{
    match j {
        J::Null => { reveal_strlit("null"); lemma_strip_tok("null"@, r1, r2); }
        J::Bool(b) => { reveal_strlit("true"); reveal_strlit("false"); lemma_strip_tok(if b { "true"@ } else { "false"@ }, r1, r2); }
        J::Num(n) => {
            lemma_plain(n);
            assert forall|i: int| 0 <= i < n.len() implies #[trigger] n[i] != '"' by { assert(plain(n[i])); }
            lemma_strip_tok(n, r1, r2);
        }
        J::Str(cs) => { lemma_strip_str(cs, r1, r2); }
        J::Arr(js) => { lemma_layout_arr(i1, d1, i2, d2, js, r1, r2); }
        J::Obj(es) => { lemma_layout_obj(i1, d1, i2, d2, es, r1, r2); }
    }
}
proof fn lemma_layout_arr(i1: Option<Seq<char>>, d1: int, i2: Option<Seq<char>>, d2: int, js: Seq<J>, r1: Seq<char>, r2: Seq<char>)
    requires wf_items(js), ws_unit(i1), ws_unit(i2), strip(At::Out, r1) == strip(At::Out, r2)
    ensures strip(At::Out, txt(i1, d1, J::Arr(js), r1)) == strip(At::Out, txt(i2, d2, J::Arr(js), r2))
    decreases js, 2int
{
    let c1 = seq![']'] + r1; let c2 = seq![']'] + r2;
    lemma_strip_tok1(']', r1, r2);
    if js.len() == 0 { lemma_strip_tok1('[', c1, c2); }
    else {
        let t1 = nl(i1, d1, c1); let t2 = nl(i2, d2, c2);
        lemma_strip_nl(i1, d1, c1);
        lemma_strip_nl(i2, d2, c2);
        lemma_layout_items(i1, d1 + 1, i2, d2 + 1, js, true, t1, t2);
        lemma_strip_tok1('[', txt_items(i1, d1 + 1, js, true, t1), txt_items(i2, d2 + 1, js, true, t2));
    }
}
proof fn lemma_layout_items(i1: Option<Seq<char>>, d1: int, i2: Option<Seq<char>>, d2: int, js: Seq<J>, first: bool, r1: Seq<char>, r2: Seq<char>)
    requires wf_items(js), ws_unit(i1), ws_unit(i2), strip(At::Out, r1) == strip(At::Out, r2)
    ensures strip(At::Out, txt_items(i1, d1, js, first, r1)) == strip(At::Out, txt_items(i2, d2, js, first, r2))
    decreases js, 0int
{
    if js.len() > 0 {
        let u1 = txt_items(i1, d1, js.drop_first(), false, r1); let u2 = txt_items(i2, d2, js.drop_first(), false, r2);
        let t1 = txt(i1, d1, js[0], u1); let t2 = txt(i2, d2, js[0], u2);
        lemma_layout_items(i1, d1, i2, d2, js.drop_first(), false, r1, r2);
        lemma_layout(i1, d1, i2, d2, js[0], u1, u2);
        lemma_item_strip(i1, d1, first, t1);
        lemma_item_strip(i2, d2, first, t2);
    }
}
proof fn lemma_item_strip(ind: Option<Seq<char>>, d: int, first: bool, t: Seq<char>)
    requires ws_unit(ind)
    ensures strip(At::Out, if ind is Some { comma_to(first, nl(ind, d, t)) } else if first { t } else { ", "@ + t })
        == (if first { strip(At::Out, t) } else { seq![','] + strip(At::Out, t) })
{
    lemma_strip_nl(ind, d, t);
    lemma_strip1(At::Out, ',', nl(ind, d, t));
    reveal_strlit(", ");
    assert(", "@ + t =~= seq![','] + (seq![' '] + t));
    lemma_strip1(At::Out, ',', seq![' '] + t);
    lemma_strip1(At::Out, ' ', t);
    assert(Seq::<char>::empty() + strip(At::Out, t) =~= strip(At::Out, t));
}
proof fn lemma_layout_obj(i1: Option<Seq<char>>, d1: int, i2: Option<Seq<char>>, d2: int, es: Seq<(Seq<char>, J)>, r1: Seq<char>, r2: Seq<char>)
    requires wf_entries(es), ws_unit(i1), ws_unit(i2), strip(At::Out, r1) == strip(At::Out, r2)
    ensures strip(At::Out, txt(i1, d1, J::Obj(es), r1)) == strip(At::Out, txt(i2, d2, J::Obj(es), r2))
    decreases es, 2int
{
    let c1 = seq!['}'] + r1; let c2 = seq!['}'] + r2;
    lemma_strip_tok1('}', r1, r2);
    if es.len() == 0 { lemma_strip_tok1('{', c1, c2); }
    else {
        let t1 = obj_tail(i1, d1, r1); let t2 = obj_tail(i2, d2, r2);
        lemma_tail_strip(i1, d1, r1);
        lemma_tail_strip(i2, d2, r2);
        lemma_layout_entries(i1, d1 + 1, i2, d2 + 1, es, true, t1, t2);
        lemma_strip_tok1('{', txt_entries(i1, d1 + 1, es, true, t1), txt_entries(i2, d2 + 1, es, true, t2));
    }
}
proof fn lemma_tail_strip(ind: Option<Seq<char>>, d: int, r: Seq<char>)
    requires ws_unit(ind)
    ensures strip(At::Out, obj_tail(ind, d, r)) == strip(At::Out, seq!['}'] + r)
{
    lemma_strip_nl(ind, d, seq!['}'] + r);
    reveal_strlit(" }");
    assert(" }"@ + r =~= seq![' '] + (seq!['}'] + r));
    lemma_strip1(At::Out, ' ', seq!['}'] + r);
    assert(Seq::<char>::empty() + strip(At::Out, seq!['}'] + r) =~= strip(At::Out, seq!['}'] + r));
}
proof fn lemma_layout_entries(i1: Option<Seq<char>>, d1: int, i2: Option<Seq<char>>, d2: int, es: Seq<(Seq<char>, J)>, first: bool, r1: Seq<char>, r2: Seq<char>)
    requires wf_entries(es), ws_unit(i1), ws_unit(i2), strip(At::Out, r1) == strip(At::Out, r2)
    ensures strip(At::Out, txt_entries(i1, d1, es, first, r1)) == strip(At::Out, txt_entries(i2, d2, es, first, r2))
    decreases es, 0int
{
    if es.len() > 0 {
        let u1 = txt_entries(i1, d1, es.drop_first(), false, r1); let u2 = txt_entries(i2, d2, es.drop_first(), false, r2);
        let t1 = txt(i1, d1, es[0].1, u1); let t2 = txt(i2, d2, es[0].1, u2);
        lemma_layout_entries(i1, d1, i2, d2, es.drop_first(), false, r1, r2);
        lemma_layout(i1, d1, i2, d2, es[0].1, u1, u2);
        reveal_strlit(": ");
        lemma_strip_tok(": "@, t1, t2);
        let k1 = seq!['"'] + esc_to(es[0].0, seq!['"'] + (": "@ + t1));
        let k2 = seq!['"'] + esc_to(es[0].0, seq!['"'] + (": "@ + t2));
        lemma_strip_str(es[0].0, ": "@ + t1, ": "@ + t2);
        lemma_entry_strip(i1, d1, first, k1);
        lemma_entry_strip(i2, d2, first, k2);
    }
}
proof fn lemma_entry_strip(ind: Option<Seq<char>>, d: int, first: bool, k: Seq<char>)
    requires ws_unit(ind)
    ensures strip(At::Out, comma_to(first, if ind is Some { nl(ind, d, k) } else { seq![' '] + k }))
        == (if first { strip(At::Out, k) } else { seq![','] + strip(At::Out, k) })
{
    let b = if ind is Some { nl(ind, d, k) } else { seq![' '] + k };
    lemma_strip_nl(ind, d, k);
    lemma_strip1(At::Out, ' ', k);
    assert(Seq::<char>::empty() + strip(At::Out, k) =~= strip(At::Out, k));
    lemma_strip1(At::Out, ',', b);
}
/// The compact and the indented document differ in white space outside strings only.
/// (Where the white space of the indented one is, `txt` says.)
proof fn theorem_layout(s: TS, u: Option<Seq<char>>, j: J)
    requires !s.in_key, !s.at_first, wf(j), ws_unit(s.indent), ws_unit(u)
    ensures ({ let e = Seq::<char>::empty();
        &&& wr(s, j).bytes == out(s.bytes, txt(s.indent, s.depth, j, e))
        &&& wr(TS { indent: u, ..s }, j).bytes == out(s.bytes, txt(u, s.depth, j, e))
        &&& strip(At::Out, txt(s.indent, s.depth, j, e)) == strip(At::Out, txt(u, s.depth, j, e)) })
{
    let e = Seq::<char>::empty();
    lemma_wr(s, j, e);
    lemma_out0(wr(s, j).bytes);
    let s2 = TS { indent: u, ..s };
    lemma_wr(s2, j, e);
    lemma_out0(wr(s2, j).bytes);
    lemma_layout(s.indent, s.depth, u, s.depth, j, e, e);
}
