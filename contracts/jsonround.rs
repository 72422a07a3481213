// ---- Writing a tree of values, and what the text denotes ------------------------------------------------------

/// The operations that write `j`, in the order every caller that keeps to the protocol makes them.
spec fn wr(s: TS, j: J) -> TS
    decreases j
{
    match j {
        J::Null => emit(s, "null"@),
        J::Bool(b) => emit(s, if b { "true"@ } else { "false"@ }),
        J::Num(t) => emit(s, t),
        J::Str(cs) => string(s, cs),
        J::Arr(js) => close_list(wr_items(open(s, '['), js)),
        J::Obj(es) => close_object(wr_entries(open(s, '{'), es)),
    }
}
spec fn wr_items(s: TS, js: Seq<J>) -> TS
    decreases js
{
    if js.len() == 0 { s } else { wr_items(wr(item(s), js[0]), js.drop_first()) }
}
spec fn wr_entries(s: TS, es: Seq<(Seq<char>, J)>) -> TS
    decreases es
{
    if es.len() == 0 { s } else { wr_entries(wr(key(s, es[0].0), es[0].1), es.drop_first()) }
}

/// The text of `j` at depth `d`, followed by `rest`.
spec fn txt(ind: Option<Seq<char>>, d: int, j: J, rest: Seq<char>) -> Seq<char>
    decreases j
{
    match j {
        J::Null => "null"@ + rest,
        J::Bool(b) => (if b { "true"@ } else { "false"@ }) + rest,
        J::Num(t) => t + rest,
        J::Str(cs) => seq!['"'] + esc_to(cs, seq!['"'] + rest),
        J::Arr(js) => seq!['['] + (if js.len() == 0 { seq![']'] + rest } else { txt_items(ind, d + 1, js, true, nl(ind, d, seq![']'] + rest)) }),
        J::Obj(es) => seq!['{'] + (if es.len() == 0 { seq!['}'] + rest } else {
            txt_entries(ind, d + 1, es, true, if ind is Some { nl(ind, d, seq!['}'] + rest) } else { " }"@ + rest }) }),
    }
}
spec fn txt_items(ind: Option<Seq<char>>, d: int, js: Seq<J>, first: bool, rest: Seq<char>) -> Seq<char>
    decreases js
{
    if js.len() == 0 { rest } else {
        let t = txt(ind, d, js[0], txt_items(ind, d, js.drop_first(), false, rest));
        if ind is Some { comma_to(first, nl(ind, d, t)) } else if first { t } else { ", "@ + t }
    }
}
spec fn txt_entries(ind: Option<Seq<char>>, d: int, es: Seq<(Seq<char>, J)>, first: bool, rest: Seq<char>) -> Seq<char>
    decreases es
{
    if es.len() == 0 { rest } else {
        let t = txt(ind, d, es[0].1, txt_entries(ind, d, es.drop_first(), false, rest));
        let k = seq!['"'] + esc_to(es[0].0, seq!['"'] + (": "@ + t));
        comma_to(first, if ind is Some { nl(ind, d, k) } else { seq![' '] + k })
    }
}
spec fn comma_to(first: bool, rest: Seq<char>) -> Seq<char> { if first { rest } else { seq![','] + rest } }
/// A new line with one indentation unit per open collection.
spec fn nl(ind: Option<Seq<char>>, d: int, rest: Seq<char>) -> Seq<char> {
    match ind { Some(u) => seq!['\n'] + (rep(u, d) + rest), None => rest }
}
spec fn esc1(c: char) -> Seq<char> {
    if c == '"' { "\\\""@ }
    else if c == '\\' { "\\\\"@ }
    else if c == '\x08' { "\\b"@ }
    else if c == '\x0C' { "\\f"@ }
    else if c == '\n' { "\\n"@ }
    else if c == '\r' { "\\r"@ }
    else if c == '\t' { "\\t"@ }
    else if (c as u32) < 16 { "\\u000"@ + seq![hex_digit(c as u32 as int)] }
    else if (c as u32) < 32 { "\\u001"@ + seq![hex_digit(c as u32 - 16)] }
    else { seq![c] }
}
spec fn esc_to(cs: Seq<char>, rest: Seq<char>) -> Seq<char>
    decreases cs.len()
{
    if cs.len() == 0 { rest } else { esc_to(cs.drop_last(), esc1(cs.last()) + rest) }
}

// The operations write that text.

/// `b` is what `a` becomes by writing `x`, whatever follows (nothing else changes, except the flags).
spec fn wrote(a: TS, b: TS, d: int, at_first: bool, in_key: bool) -> bool {
    b.indent == a.indent && b.depth == a.depth + d && b.at_first == at_first && b.in_key == in_key
}
proof fn lemma_chrs(s: TS, cs: Seq<char>, rest: Seq<char>)
    ensures out(chrs(s, cs).bytes, rest) == out(s.bytes, esc_to(cs, rest)), wrote(s, chrs(s, cs), 0, s.at_first, s.in_key)
    decreases cs.len()
{
    if cs.len() > 0 {
        let t = chrs(s, cs.drop_last()); let c = cs.last();
        lemma_chrs(s, cs.drop_last(), esc1(c) + rest);
        lemma_out(t.bytes, esc1(c), rest);
        if (c as u32) < 16 { lemma_out(t.bytes, "\\u000"@, seq![hex_digit(c as u32 as int)]); }
        if 16 <= (c as u32) < 32 { lemma_out(t.bytes, "\\u001"@, seq![hex_digit(c as u32 - 16)]); }
    }
}
proof fn lemma_nl(s: TS, u: Seq<char>, d: int, rest: Seq<char>)
    ensures out(line(s, u, d).bytes, rest) == out(s.bytes, nl(Some(u), d, rest))
{
    lemma_out(out(s.bytes, seq!['\n']), rep(u, d), rest);
    lemma_out(s.bytes, seq!['\n'], rep(u, d) + rest);
}
proof fn lemma_comma(s: TS, rest: Seq<char>)
    ensures out(comma(s).bytes, rest) == out(s.bytes, comma_to(s.at_first, rest))
{
    lemma_out(s.bytes, seq![','], rest);
}
proof fn lemma_key(s: TS, cs: Seq<char>, rest: Seq<char>)
    requires !s.in_key
    ensures
        wrote(s, key(s, cs), 0, false, false),
        ({ let k = seq!['"'] + esc_to(cs, seq!['"'] + (": "@ + rest));
           out(key(s, cs).bytes, rest) == out(s.bytes, comma_to(s.at_first, if s.indent is Some { nl(s.indent, s.depth, k) } else { seq![' '] + k })) }),
{
    let a = add_entry(s);
    let c = chrs(a, cs);
    let r2 = ": "@ + rest; let r1 = seq!['"'] + r2; let r0 = seq!['"'] + esc_to(cs, r1);
    lemma_chrs(a, cs, r1);
    lemma_out(out(c.bytes, seq!['"']), ": "@, rest);
    lemma_out(c.bytes, seq!['"'], r2);
    match s.indent {
        Some(u) => {
            let t = line(comma(s), u, s.depth);
            lemma_out(t.bytes, seq!['"'], esc_to(cs, r1));
            lemma_nl(comma(s), u, s.depth, r0);
            lemma_comma(s, nl(s.indent, s.depth, r0));
        }
        None => {
            lemma_out(emit(comma(s), seq![' ']).bytes, seq!['"'], esc_to(cs, r1));
            lemma_out(comma(s).bytes, seq![' '], r0);
            lemma_comma(s, seq![' '] + r0);
        }
    }
}
proof fn lemma_wr(s: TS, j: J, rest: Seq<char>)
    requires !s.in_key, !s.at_first
    ensures out(wr(s, j).bytes, rest) == out(s.bytes, txt(s.indent, s.depth, j, rest)), wrote(s, wr(s, j), 0, false, false)
    decreases j
{
    match j {
        J::Null => { lemma_out(s.bytes, "null"@, rest); }
        J::Bool(b) => { lemma_out(s.bytes, if b { "true"@ } else { "false"@ }, rest); }
        J::Num(t) => { lemma_out(s.bytes, t, rest); }
        J::Str(cs) => {
            let r1 = seq!['"'] + rest;
            lemma_chrs(open_str(s), cs, r1);
            lemma_out(chrs(open_str(s), cs).bytes, seq!['"'], rest);
            lemma_out(s.bytes, seq!['"'], esc_to(cs, r1));
        }
        J::Arr(js) => {
            let o = open(s, '['); let r1 = seq![']'] + rest; let r0 = nl(s.indent, s.depth, r1);
            let t = wr_items(o, js);
            lemma_wr_items(o, js, r0);
            if js.len() == 0 {
                lemma_out(o.bytes, seq![']'], rest);
                lemma_out(s.bytes, seq!['['], r1);
            } else {
                lemma_out(s.bytes, seq!['['], txt_items(s.indent, s.depth + 1, js, true, r0));
                match s.indent {
                    Some(u) => {
                        let t1 = TS { depth: t.depth - 1, at_first: false, ..t };
                        lemma_nl(t1, u, t1.depth, r1);
                        lemma_out(line(t1, u, t1.depth).bytes, seq![']'], rest);
                    }
                    None => { lemma_out(t.bytes, seq![']'], rest); }
                }
            }
        }
        J::Obj(es) => {
            let o = open(s, '{'); let r1 = seq!['}'] + rest; let r0 = if s.indent is Some { nl(s.indent, s.depth, r1) } else { " }"@ + rest };
            let t = wr_entries(o, es);
            lemma_wr_entries(o, es, r0);
            if es.len() == 0 {
                lemma_out(o.bytes, seq!['}'], rest);
                lemma_out(s.bytes, seq!['{'], r1);
            } else {
                lemma_out(s.bytes, seq!['{'], txt_entries(s.indent, s.depth + 1, es, true, r0));
                match s.indent {
                    Some(u) => {
                        let t1 = TS { depth: t.depth - 1, at_first: false, ..t };
                        lemma_nl(t1, u, t1.depth, r1);
                        lemma_out(line(t1, u, t1.depth).bytes, seq!['}'], rest);
                    }
                    None => { lemma_out(t.bytes, " }"@, rest); }
                }
            }
        }
    }
}
proof fn lemma_wr_items(s: TS, js: Seq<J>, rest: Seq<char>)
    requires !s.in_key
    ensures
        out(wr_items(s, js).bytes, rest) == out(s.bytes, txt_items(s.indent, s.depth, js, s.at_first, rest)),
        wrote(s, wr_items(s, js), 0, s.at_first && js.len() == 0, false),
    decreases js
{
    if js.len() > 0 {
        let i = item(s); let n = wr(i, js[0]);
        let r1 = txt_items(s.indent, s.depth, js.drop_first(), false, rest);
        lemma_wr(i, js[0], r1);
        lemma_wr_items(n, js.drop_first(), rest);
        let t = txt(s.indent, s.depth, js[0], r1);
        match s.indent {
            Some(u) => { lemma_nl(comma(s), u, s.depth, t); lemma_comma(s, nl(s.indent, s.depth, t)); }
            None => { lemma_out(s.bytes, ", "@, t); }
        }
    }
}
proof fn lemma_wr_entries(s: TS, es: Seq<(Seq<char>, J)>, rest: Seq<char>)
    requires !s.in_key
    ensures
        out(wr_entries(s, es).bytes, rest) == out(s.bytes, txt_entries(s.indent, s.depth, es, s.at_first, rest)),
        wrote(s, wr_entries(s, es), 0, s.at_first && es.len() == 0, false),
    decreases es
{
    if es.len() > 0 {
        let i = key(s, es[0].0); let n = wr(i, es[0].1);
        let r1 = txt_entries(s.indent, s.depth, es.drop_first(), false, rest);
        let t = txt(s.indent, s.depth, es[0].1, r1);
        lemma_key(s, es[0].0, t);
        lemma_wr(i, es[0].1, r1);
        lemma_wr_entries(n, es.drop_first(), rest);
    }
}
