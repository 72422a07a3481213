// ---- What is written reads back (RFC 8259) --------------------------------------------------------------------

/// A character that is not white space ends white space.
proof fn lemma_not_ws(s: Seq<char>, c: bool)
    requires s.len() > 0, !is_ws(s[0]), s[0] != '/'
    ensures after_ws(s, c) == Some(s)
{
    lemma_ws(s, c);
}
proof fn lemma_ws_skip(w: Seq<char>, s: Seq<char>, c: bool)
    requires all_ws(w)
    ensures after_ws(w + s, c) == after_ws(s, c)
    decreases w.len()
{
    if w.len() > 0 {
        assert(is_ws(w[0]));
        assert((w + s).drop_first() =~= w.drop_first() + s);
        assert(all_ws(w.drop_first())) by { assert forall|i: int| 0 <= i < w.len() - 1 implies is_ws(#[trigger] w.drop_first()[i]) by { assert(is_ws(w[i + 1])); } }
        lemma_ws_skip(w.drop_first(), s, c);
        lemma_ws(w + s, c);
    } else { assert(w + s =~= s); }
}
proof fn lemma_rep_ws(u: Seq<char>, n: int)
    requires all_ws(u)
    ensures all_ws(rep(u, n))
    decreases n
{
    if n > 0 {
        lemma_rep_ws(u, n - 1);
        assert forall|i: int| 0 <= i < rep(u, n).len() implies is_ws(#[trigger] rep(u, n)[i]) by {
            let k = rep(u, n - 1).len() as int;
            if i < k { assert(rep(u, n)[i] == rep(u, n - 1)[i]); assert(is_ws(rep(u, n - 1)[i])); } else { assert(rep(u, n)[i] == u[i - k]); assert(is_ws(u[i - k])); }
        }
    }
}
spec fn ws_unit(ind: Option<Seq<char>>) -> bool { match ind { Some(u) => all_ws(u), None => true } }
proof fn lemma_nl_ws(ind: Option<Seq<char>>, d: int, rest: Seq<char>, c: bool)
    requires ws_unit(ind)
    ensures after_ws(nl(ind, d, rest), c) == after_ws(rest, c), nl(ind, d, rest).len() >= rest.len(),
        ind is Some ==> nl(ind, d, rest).len() > 0 && nl(ind, d, rest)[0] == '\n',
{
    match ind {
        Some(u) => {
            lemma_rep_ws(u, d);
            lemma_ws_skip(rep(u, d), rest, c);
            lemma_cons('\n', rep(u, d) + rest);
            lemma_ws(nl(ind, d, rest), c);
        }
        None => {}
    }
}

// Strings.

proof fn lemma_hex_digit(h: int)
    requires 0 <= h < 16
    ensures hex_of(hex_digit(h)) == Some(h)
{
}
/// One character.
proof fn lemma_read_chr(a: Seq<char>, c: char, rest: Seq<char>)
    ensures str_rest(a, esc1(c) + rest) == str_rest(a.push(c), rest), (esc1(c) + rest).len() > rest.len()
{
    let e = esc1(c);
    reveal_strlit("\\\""); reveal_strlit("\\\\"); reveal_strlit("\\b"); reveal_strlit("\\f"); reveal_strlit("\\n"); reveal_strlit("\\r"); reveal_strlit("\\t");
    reveal_strlit("\\u000"); reveal_strlit("\\u001");
    let s = e + rest;
    if (c as u32) < 32 && c != '\x08' && c != '\x0C' && c != '\n' && c != '\r' && c != '\t' {
        let low = if (c as u32) < 16 { c as u32 as int } else { c as u32 - 16 };
        lemma_hex_digit(low);
        let t = s.skip(2);
        assert(s.drop_first().drop_first() =~= t);
        assert(t[0] == '0' && t[1] == '0' && t[3] == hex_digit(low));
        assert(t[2] == (if (c as u32) < 16 { '0' } else { '1' }));
        assert(hex4(t) == Some(c as u32 as int));
        assert(t.skip(4) =~= rest);
        assert(escape(s.drop_first()) == Some((c, rest)));
    } else if c == '"' || c == '\\' || (c as u32) < 32 {
        assert(s.drop_first().drop_first() =~= rest);
        assert(escape(s.drop_first()) == Some((c, rest)));
    } else {
        assert(s.drop_first() =~= rest);
    }
}
proof fn lemma_read_chrs(a: Seq<char>, cs: Seq<char>, rest: Seq<char>)
    ensures str_rest(a, esc_to(cs, rest)) == str_rest(a + cs, rest), esc_to(cs, rest).len() >= rest.len()
    decreases cs.len()
{
    if cs.len() > 0 {
        let c = cs.last();
        lemma_read_chrs(a, cs.drop_last(), esc1(c) + rest);
        lemma_read_chr(a + cs.drop_last(), c, rest);
        assert((a + cs.drop_last()).push(c) =~= a + cs);
    } else { assert(a + cs =~= a); }
}
/// A string may be written in pieces.
proof fn theorem_pieces(s: TS, a: Seq<char>, b: Seq<char>)
    ensures chrs(chrs(s, a), b) == chrs(s, a + b)
    decreases b.len()
{
    if b.len() > 0 {
        theorem_pieces(s, a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
    } else { assert(a + b =~= a); }
}
/// A string literal, as written, denotes exactly the string.
proof fn theorem_string(cs: Seq<char>, rest: Seq<char>)
    ensures str_lit(esc_to(cs, seq!['"'] + rest)) == Some((cs, rest)), esc_to(cs, seq!['"'] + rest).len() > rest.len()
{
    lemma_read_chrs(Seq::empty(), cs, seq!['"'] + rest);
    lemma_cons('"', rest);
    assert(Seq::<char>::empty() + cs =~= cs);
}

// Numbers.

/// A number ends here.
spec fn stops(rest: Seq<char>) -> bool { rest.len() == 0 || !is_digit(rest[0]) && rest[0] != '.' && rest[0] != 'e' && rest[0] != 'E' }
/// `a` read all, and `b` the same and left `rest`.
spec fn extends(a: Option<(NumLit, Seq<char>)>, b: Option<(NumLit, Seq<char>)>, rest: Seq<char>) -> bool {
    a is Some && (a->0).1.len() == 0 ==> b == Some(((a->0).0, rest))
}
proof fn lemma_ext_exp(s: Seq<char>, rest: Seq<char>, negate: bool, ds: Seq<u8>, frac: nat, negate_exp: bool, exp: Seq<u8>)
    requires stops(rest)
    ensures extends(num_exp_digits(s, negate, ds, frac, negate_exp, exp), num_exp_digits(s + rest, negate, ds, frac, negate_exp, exp), rest)
    decreases s.len()
{
    lemma_drop_app(s, rest);
    if starts_digit(s) { lemma_ext_exp(s.drop_first(), rest, negate, ds, frac, negate_exp, exp.push(digit_of(s[0]))); }
}
proof fn lemma_ext_e(s: Seq<char>, rest: Seq<char>, negate: bool, ds: Seq<u8>, frac: nat)
    requires stops(rest)
    ensures extends(num_e(s, negate, ds, frac), num_e(s + rest, negate, ds, frac), rest)
{
    lemma_drop_app(s, rest);
    if s.len() > 0 && (s[0] == 'e' || s[0] == 'E') {
        let t = s.drop_first();
        lemma_drop_app(t, rest);
        let signed = t.len() > 0 && (t[0] == '+' || t[0] == '-');
        let u = if signed { t.drop_first() } else { t };
        let n = signed && t[0] == '-';
        lemma_drop_app(u, rest);
        if starts_digit(u) { lemma_ext_exp(u.drop_first(), rest, negate, ds, frac, n, Seq::empty().push(digit_of(u[0]))); }
    }
}
proof fn lemma_ext_frac(s: Seq<char>, rest: Seq<char>, negate: bool, ds: Seq<u8>, frac: nat)
    requires stops(rest)
    ensures extends(num_frac_digits(s, negate, ds, frac), num_frac_digits(s + rest, negate, ds, frac), rest)
    decreases s.len()
{
    lemma_drop_app(s, rest);
    if starts_digit(s) { lemma_ext_frac(s.drop_first(), rest, negate, ds.push(digit_of(s[0])), frac + 1); } else { lemma_ext_e(s, rest, negate, ds, frac); }
}
proof fn lemma_ext_point(s: Seq<char>, rest: Seq<char>, negate: bool, ds: Seq<u8>)
    requires stops(rest)
    ensures extends(num_point(s, negate, ds), num_point(s + rest, negate, ds), rest)
{
    lemma_drop_app(s, rest);
    if s.len() > 0 && s[0] == '.' {
        let t = s.drop_first();
        lemma_drop_app(t, rest);
        if starts_digit(t) { lemma_ext_frac(t.drop_first(), rest, negate, ds.push(digit_of(t[0])), 1); }
    } else { lemma_ext_e(s, rest, negate, ds, 0); }
}
proof fn lemma_ext_int(s: Seq<char>, rest: Seq<char>, negate: bool, ds: Seq<u8>)
    requires stops(rest)
    ensures extends(num_int(s, negate, ds), num_int(s + rest, negate, ds), rest)
    decreases s.len()
{
    lemma_drop_app(s, rest);
    if starts_digit(s) { lemma_ext_int(s.drop_first(), rest, negate, ds.push(digit_of(s[0]))); } else { lemma_ext_point(s, rest, negate, ds); }
}
/// A number literal is read to its end, when what follows does not continue it.
proof fn lemma_ext(s: Seq<char>, rest: Seq<char>)
    requires stops(rest), is_num(s)
    ensures num_lit(s + rest) == Some(((num_lit(s)->0).0, rest)), s.len() > 0, s[0] == '-' || is_digit(s[0]), (s + rest)[0] == s[0]
{
    lemma_drop_app(s, rest);
    let negate = s.len() > 0 && s[0] == '-';
    let t = if negate { s.drop_first() } else { s };
    lemma_drop_app(t, rest);
    if starts_digit(t) {
        if t[0] == '0' { lemma_ext_point(t.drop_first(), rest, negate, Seq::empty()); }
        else { lemma_ext_int(t.drop_first(), rest, negate, Seq::empty().push(digit_of(t[0]))); }
    }
}
// Values.

/// Every number is a number literal.
spec fn wf(j: J) -> bool
    decreases j
{
    match j { J::Num(t) => is_num(t), J::Arr(js) => wf_items(js), J::Obj(es) => wf_entries(es), _ => true }
}
spec fn wf_items(js: Seq<J>) -> bool
    decreases js
{
    js.len() > 0 ==> wf(js[0]) && wf_items(js.drop_first())
}
spec fn wf_entries(es: Seq<(Seq<char>, J)>) -> bool
    decreases es
{
    es.len() > 0 ==> wf(es[0].1) && wf_entries(es.drop_first())
}
proof fn lemma_lit(p: Seq<char>, rest: Seq<char>)
    ensures p.is_prefix_of(p + rest), (p + rest).skip(p.len() as int) == rest
{
    assert((p + rest).take(p.len() as int) =~= p);
    assert((p + rest).skip(p.len() as int) =~= rest);
}
/// null, true, false.
proof fn lemma_read_lit(j: J, rest: Seq<char>, c: bool)
    requires j is Null || j is Bool
    ensures ({ let t = txt(None, 0, j, rest);
        t.len() > rest.len() && !is_ws(t[0]) && t[0] != '/' && t[0] != ']' && value_here(t, c) == Some((j, rest)) })
{
    let t = txt(None, 0, j, rest);
    match j {
        J::Null => {
            reveal_strlit("null");
            assert("null"@ =~= seq!['n', 'u', 'l', 'l']);
            lemma_lit("null"@, rest);
        }
        J::Bool(b) => {
            reveal_strlit("true"); reveal_strlit("false");
            assert("true"@ =~= seq!['t', 'r', 'u', 'e']);
            assert("false"@ =~= seq!['f', 'a', 'l', 's', 'e']);
            let p = if b { "true"@ } else { "false"@ };
            lemma_lit(p, rest);
            if !b { if seq!['t', 'r', 'u', 'e'].is_prefix_of(t) { assert(t.take(4)[0] == t[0]); } }
        }
        _ => {}
    }
}
proof fn lemma_read_num(n: Seq<char>, rest: Seq<char>, c: bool)
    requires is_num(n), stops(rest)
    ensures ({ let t = n + rest;
        t.len() > rest.len() && !is_ws(t[0]) && t[0] != '/' && t[0] != ']' && value_here(t, c) == Some((J::Num(n), rest)) })
{
    let t = n + rest;
    lemma_ext(n, rest);
    assert(t.take(t.len() - rest.len()) =~= n);
}
/// The text of a value denotes that value, wherever it stands.
proof fn lemma_read(ind: Option<Seq<char>>, d: int, j: J, rest: Seq<char>, c: bool)
    requires wf(j), ws_unit(ind), stops(rest)
    ensures ({ let t = txt(ind, d, j, rest);
        t.len() > rest.len() && !is_ws(t[0]) && t[0] != '/' && t[0] != ']' && value_here(t, c) == Some((j, rest)) && after_ws(t, c) == Some(t) })
    decreases j, 1int
{
    let t = txt(ind, d, j, rest);
    match j {
        J::Num(n) => lemma_read_num(n, rest, c),
        J::Str(cs) => {
            theorem_string(cs, rest);
            lemma_cons('"', esc_to(cs, seq!['"'] + rest));
        }
        J::Arr(js) => { lemma_read_arr(ind, d, js, rest, c); }
        J::Obj(es) => { lemma_read_obj(ind, d, es, rest, c); }
        _ => { lemma_read_lit(j, rest, c); assert(t == txt(None, 0, j, rest)); }
    }
    lemma_not_ws(t, c);
}
proof fn lemma_read_arr(ind: Option<Seq<char>>, d: int, js: Seq<J>, rest: Seq<char>, c: bool)
    requires wf_items(js), ws_unit(ind)
    ensures ({ let t = txt(ind, d, J::Arr(js), rest); t.len() > rest.len() && t[0] == '[' && value_here(t, c) == Some((J::Arr(js), rest)) })
    decreases js, 2int
{
    let t = txt(ind, d, J::Arr(js), rest);
    let close = seq![']'] + rest;
    lemma_cons(']', rest);
    let body = t.drop_first();
    if js.len() == 0 {
        lemma_cons('[', close);
        lemma_not_ws(close, c);
        assert(js =~= Seq::<J>::empty());
    } else {
        let tail = nl(ind, d, close);
        lemma_cons('[', txt_items(ind, d + 1, js, true, tail));
        let u = txt_items(ind, d + 1, js.drop_first(), false, tail);
        let first = txt(ind, d + 1, js[0], u);
        lemma_read_items(ind, d + 1, js, first, rest, c);
        lemma_after_item(ind, d + 1, js.drop_first(), rest, c);
        lemma_read(ind, d + 1, js[0], u, c);
        lemma_nl_ws(ind, d + 1, first, c);
        assert(after_ws(body, c) == Some(first));
        assert(first_item(body, c) == Some((true, first)));
    }
}
proof fn lemma_read_obj(ind: Option<Seq<char>>, d: int, es: Seq<(Seq<char>, J)>, rest: Seq<char>, c: bool)
    requires wf_entries(es), ws_unit(ind)
    ensures ({ let t = txt(ind, d, J::Obj(es), rest); t.len() > rest.len() && t[0] == '{' && value_here(t, c) == Some((J::Obj(es), rest)) })
    decreases es, 2int
{
    let t = txt(ind, d, J::Obj(es), rest);
    let close = seq!['}'] + rest;
    lemma_cons('}', rest);
    let body = t.drop_first();
    if es.len() == 0 {
        lemma_cons('{', close);
        lemma_not_ws(close, c);
        assert(es =~= Seq::<(Seq<char>, J)>::empty());
    } else {
        let tail = obj_tail(ind, d, rest);
        lemma_cons('{', txt_entries(ind, d + 1, es, true, tail));
        let k = key_txt(ind, d + 1, es, tail);
        lemma_read_entries(ind, d + 1, es, rest, c);
        lemma_cons('"', k);
        lemma_sep(ind, d + 1, seq!['"'] + k, c);
        lemma_not_ws(seq!['"'] + k, c);
        assert(first_entry(body, c) == Some((true, k)));
    }
}
spec fn obj_tail(ind: Option<Seq<char>>, d: int, rest: Seq<char>) -> Seq<char> {
    if ind is Some { nl(ind, d, seq!['}'] + rest) } else { " }"@ + rest }
}
/// What follows the quote that starts the first key.
spec fn key_txt(ind: Option<Seq<char>>, d: int, es: Seq<(Seq<char>, J)>, tail: Seq<char>) -> Seq<char> {
    esc_to(es[0].0, seq!['"'] + (": "@ + txt(ind, d, es[0].1, txt_entries(ind, d, es.drop_first(), false, tail))))
}
/// A new line or a space.
proof fn lemma_sep(ind: Option<Seq<char>>, d: int, k: Seq<char>, c: bool)
    requires ws_unit(ind)
    ensures ({ let t = if ind is Some { nl(ind, d, k) } else { seq![' '] + k }; after_ws(t, c) == after_ws(k, c) && t.len() >= k.len() && t.len() > 0 && is_ws(t[0]) })
{
    lemma_nl_ws(ind, d, k, c);
    lemma_cons(' ', k);
    lemma_ws(seq![' '] + k, c);
}
/// What follows the value of an entry.
proof fn lemma_after_entry(ind: Option<Seq<char>>, d: int, es: Seq<(Seq<char>, J)>, rest: Seq<char>, c: bool)
    requires ws_unit(ind), wf_entries(es)
    ensures ({ let u = txt_entries(ind, d, es, false, obj_tail(ind, d - 1, rest));
        &&& stops(u) && u.len() > 0
        &&& es.len() == 0 ==> next_entry(u, c) == Some((false, rest))
        &&& es.len() > 0 ==> next_entry(u, c) == Some((true, key_txt(ind, d, es, obj_tail(ind, d - 1, rest)))) && key_txt(ind, d, es, obj_tail(ind, d - 1, rest)).len() < u.len()
    })
{
    let tail = obj_tail(ind, d - 1, rest);
    let u = txt_entries(ind, d, es, false, tail);
    let close = seq!['}'] + rest;
    lemma_cons('}', rest);
    lemma_not_ws(close, c);
    if es.len() == 0 {
        lemma_nl_ws(ind, d - 1, close, c);
        if ind is None {
            reveal_strlit(" }");
            assert(" }"@ + rest =~= seq![' '] + close);
            lemma_cons(' ', close);
            lemma_ws(u, c);
        }
    } else {
        let k = key_txt(ind, d, es, tail);
        let q = seq!['"'] + k;
        let b = if ind is Some { nl(ind, d, q) } else { seq![' '] + q };
        lemma_cons('"', k);
        lemma_sep(ind, d, q, c);
        lemma_cons(',', b);
        lemma_not_ws(q, c);
        lemma_not_ws(u, c);
    }
}
proof fn lemma_read_entries(ind: Option<Seq<char>>, d: int, es: Seq<(Seq<char>, J)>, rest: Seq<char>, c: bool)
    requires ws_unit(ind), wf_entries(es), es.len() > 0
    ensures ({ let k = key_txt(ind, d, es, obj_tail(ind, d - 1, rest)); k.len() > rest.len() && entries(k, c) == Some((es, rest)) })
    decreases es, 0int
{
    let tail = obj_tail(ind, d - 1, rest);
    let more = es.drop_first();
    let u = txt_entries(ind, d, more, false, tail);
    let j = es[0].1;
    let v = txt(ind, d, j, u);
    let k = key_txt(ind, d, es, tail);
    lemma_after_entry(ind, d, more, rest, c);
    lemma_read(ind, d, j, u, c);
    theorem_string(es[0].0, ": "@ + v);
    reveal_strlit(": ");
    assert(": "@ + v =~= seq![':'] + (seq![' '] + v));
    lemma_cons(':', seq![' '] + v);
    lemma_cons(' ', v);
    lemma_not_ws(": "@ + v, c);
    lemma_ws(seq![' '] + v, c);
    assert(value(seq![' '] + v, c) == Some((j, u)));
    assert(entry(k, c) == Some(((es[0].0, j), u)));
    if more.len() == 0 { assert(seq![es[0]] =~= es); }
    else { lemma_read_entries(ind, d, more, rest, c); assert(seq![es[0]] + more =~= es); }
}
/// What follows an item.
proof fn lemma_after_item(ind: Option<Seq<char>>, d: int, js: Seq<J>, rest: Seq<char>, c: bool)
    requires ws_unit(ind), wf_items(js)
    ensures ({ let tail = nl(ind, d - 1, seq![']'] + rest); let u = txt_items(ind, d, js, false, tail);
        &&& stops(u) && u.len() > 0
        &&& js.len() == 0 ==> next_item(u, c) == Some((false, rest))
        &&& js.len() > 0 ==> ({
            let t = txt(ind, d, js[0], txt_items(ind, d, js.drop_first(), false, tail));
            next_item(u, c) is Some && (next_item(u, c)->0).0 && after_ws((next_item(u, c)->0).1, c) == after_ws(t, c) && t.len() <= (next_item(u, c)->0).1.len() < u.len() })
    })
{
    let close = seq![']'] + rest;
    let tail = nl(ind, d - 1, close);
    let u = txt_items(ind, d, js, false, tail);
    lemma_cons(']', rest);
    lemma_not_ws(close, c);
    if js.len() == 0 {
        lemma_nl_ws(ind, d - 1, close, c);
    } else {
        let t = txt(ind, d, js[0], txt_items(ind, d, js.drop_first(), false, tail));
        let b = if ind is Some { nl(ind, d, t) } else { seq![' '] + t };
        lemma_sep(ind, d, t, c);
        reveal_strlit(", ");
        assert(", "@ + t =~= seq![','] + (seq![' '] + t));
        lemma_cons(',', b);
        lemma_not_ws(u, c);
    }
}
/// `s` is the text of the items, possibly after white space.
proof fn lemma_read_items(ind: Option<Seq<char>>, d: int, js: Seq<J>, s: Seq<char>, rest: Seq<char>, c: bool)
    requires ws_unit(ind), wf_items(js), js.len() > 0,
        ({ let t = txt(ind, d, js[0], txt_items(ind, d, js.drop_first(), false, nl(ind, d - 1, seq![']'] + rest))); after_ws(s, c) == after_ws(t, c) && t.len() <= s.len() })
    ensures s.len() > rest.len(), items(s, c) == Some((js, rest))
    decreases js, 0int
{
    let tail = nl(ind, d - 1, seq![']'] + rest);
    let more = js.drop_first();
    let u = txt_items(ind, d, more, false, tail);
    let t = txt(ind, d, js[0], u);
    lemma_after_item(ind, d, more, rest, c);
    lemma_read(ind, d, js[0], u, c);
    assert(value(s, c) == Some((js[0], u)));
    lemma_cons(']', rest);
    if more.len() == 0 {
        lemma_nl_ws(ind, d - 1, seq![']'] + rest, c);
        assert(seq![js[0]] =~= js);
    } else {
        let v = (next_item(u, c)->0).1;
        lemma_read_items(ind, d, more, v, rest, c);
        assert(seq![js[0]] + more =~= js);
    }
}
/// What is written is one well-formed document, which denotes exactly what was written.
proof fn theorem_written(s: TS, j: J)
    requires !s.in_key, !s.at_first, wf(j), ws_unit(s.indent)
    ensures exists|t: Seq<char>| wr(s, j).bytes == out(s.bytes, t) && document(t, false) == Some(j) && document(t, true) == Some(j)
{
    let e = Seq::<char>::empty();
    let t = txt(s.indent, s.depth, j, e);
    lemma_wr(s, j, e);
    lemma_out0(wr(s, j).bytes);
    lemma_read(s.indent, s.depth, j, e, false);
    lemma_read(s.indent, s.depth, j, e, true);
    assert(after_ws(e, false) == Some(e) && after_ws(e, true) == Some(e));
    assert(document(t, false) == Some(j) && document(t, true) == Some(j));
}
