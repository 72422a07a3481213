// The parts of a text are shorter than the text.
proof fn lemma_char_len(s: Seq<char>, c: bool, x: char)
    ensures after_char(s, c, x) is Some ==> (after_char(s, c, x)->0).len() < s.len()
{
    lemma_ws_len(s, c);
}
proof fn lemma_follow_len(s: Seq<char>, c: bool)
    ensures
        first_entry(s, c) is Some ==> (first_entry(s, c)->0).1.len() < s.len(),
        next_entry(s, c) is Some ==> (next_entry(s, c)->0).1.len() < s.len(),
        next_entry(s, c) is Some && (next_entry(s, c)->0).0 ==> (next_entry(s, c)->0).1.len() + 2 <= s.len(),
        first_item(s, c) is Some ==> (first_item(s, c)->0).1.len() <= s.len() && (!(first_item(s, c)->0).0 ==> (first_item(s, c)->0).1.len() < s.len()),
        next_item(s, c) is Some ==> (next_item(s, c)->0).1.len() < s.len(),
{
    lemma_ws_len(s, c);
    if after_ws(s, c) is Some && (after_ws(s, c)->0).len() > 0 { lemma_char_len((after_ws(s, c)->0).drop_first(), c, '"'); }
}
proof fn lemma_str_len(cs: Seq<char>, s: Seq<char>)
    ensures str_rest(cs, s) is Some ==> ({ let (ds, t) = str_rest(cs, s)->0; ds.len() + t.len() + 1 <= cs.len() + s.len() && ds.len() >= cs.len() })
    decreases s.len()
{
    if s.len() > 0 {
        lemma_escape_len(s.drop_first());
        if s[0] == '"' {} else if s[0] != '\\' { lemma_str_len(cs.push(s[0]), s.drop_first()); }
        else { match escape(s.drop_first()) { Some((x, t)) => { if t.len() < s.len() { lemma_str_len(cs.push(x), t); } } None => {} } }
    }
}
proof fn lemma_exp_rest(s: Seq<char>, negate: bool, ds: Seq<u8>, frac: nat, negate_exp: bool, exp: Seq<u8>)
    ensures num_exp_digits(s, negate, ds, frac, negate_exp, exp) is Some ==> ({ let (n, t) = num_exp_digits(s, negate, ds, frac, negate_exp, exp)->0; n.ds == ds && t.len() <= s.len() })
    decreases s.len()
{
    if starts_digit(s) { lemma_exp_rest(s.drop_first(), negate, ds, frac, negate_exp, exp.push(digit_of(s[0]))); }
}
proof fn lemma_e_rest(s: Seq<char>, negate: bool, ds: Seq<u8>, frac: nat)
    ensures num_e(s, negate, ds, frac) is Some ==> ({ let (n, t) = num_e(s, negate, ds, frac)->0; n.ds == ds && t.len() <= s.len() })
{
    if s.len() > 0 && (s[0] == 'e' || s[0] == 'E') {
        let t = s.drop_first();
        let sign = t.len() > 0 && (t[0] == '+' || t[0] == '-');
        let u = if sign { t.drop_first() } else { t };
        if starts_digit(u) { lemma_exp_rest(u.drop_first(), negate, ds, frac, t.len() > 0 && t[0] == '-', Seq::empty().push(digit_of(u[0]))); }
    }
}
proof fn lemma_frac_rest(s: Seq<char>, negate: bool, ds: Seq<u8>, frac: nat)
    ensures num_frac_digits(s, negate, ds, frac) is Some ==> ({ let (n, t) = num_frac_digits(s, negate, ds, frac)->0; n.ds.len() + t.len() <= ds.len() + s.len() && t.len() <= s.len() })
    decreases s.len()
{
    lemma_e_rest(s, negate, ds, frac);
    if starts_digit(s) { lemma_frac_rest(s.drop_first(), negate, ds.push(digit_of(s[0])), frac + 1); }
}
proof fn lemma_point_rest(s: Seq<char>, negate: bool, ds: Seq<u8>)
    ensures num_point(s, negate, ds) is Some ==> ({ let (n, t) = num_point(s, negate, ds)->0; n.ds.len() + t.len() <= ds.len() + s.len() && t.len() <= s.len() })
{
    lemma_e_rest(s, negate, ds, 0);
    if s.len() > 0 && s[0] == '.' && starts_digit(s.drop_first()) { let t = s.drop_first(); lemma_frac_rest(t.drop_first(), negate, ds.push(digit_of(t[0])), 1); }
}
proof fn lemma_int_rest(s: Seq<char>, negate: bool, ds: Seq<u8>)
    ensures num_int(s, negate, ds) is Some ==> ({ let (n, t) = num_int(s, negate, ds)->0; n.ds.len() + t.len() <= ds.len() + s.len() && t.len() <= s.len() })
    decreases s.len()
{
    lemma_point_rest(s, negate, ds);
    if starts_digit(s) { lemma_int_rest(s.drop_first(), negate, ds.push(digit_of(s[0]))); }
}
proof fn lemma_num_rest(s: Seq<char>)
    ensures num_lit(s) is Some ==> ({ let (n, t) = num_lit(s)->0; n.ds.len() + t.len() <= s.len() && t.len() < s.len() })
{
    let negate = s.len() > 0 && s[0] == '-';
    let t = if negate { s.drop_first() } else { s };
    if starts_digit(t) {
        lemma_point_rest(t.drop_first(), negate, Seq::empty());
        lemma_int_rest(t.drop_first(), negate, Seq::empty().push(digit_of(t[0])));
    }
}
/// Every value takes a character at least.
proof fn lemma_value_len(s: Seq<char>, c: bool)
    ensures
        value_here(s, c) is Some ==> (value_here(s, c)->0).1.len() < s.len(),
        value(s, c) is Some ==> (value(s, c)->0).1.len() < s.len(),
    decreases s.len(), 4int
{
    lemma_here_len(s, c);
    lemma_ws_len(s, c);
    if after_ws(s, c) is Some { lemma_here_len(after_ws(s, c)->0, c); }
}
proof fn lemma_here_len(s: Seq<char>, c: bool)
    ensures value_here(s, c) is Some ==> (value_here(s, c)->0).1.len() < s.len(),
    decreases s.len(), 3int
{
    if s.len() > 0 {
        let d = s.drop_first();
        lemma_str_len(Seq::empty(), d); lemma_num_rest(s); lemma_follow_len(d, c);
        if first_entry(d, c) is Some { lemma_entries_len((first_entry(d, c)->0).1, c); }
        if first_item(d, c) is Some { lemma_items_len((first_item(d, c)->0).1, c); }
    }
}
proof fn lemma_entries_len(s: Seq<char>, c: bool)
    ensures
        entry(s, c) is Some ==> (entry(s, c)->0).1.len() < s.len(),
        entries(s, c) is Some ==> (entries(s, c)->0).1.len() < s.len(),
    decreases s.len(), 6int
{
    lemma_str_len(Seq::empty(), s);
    if str_lit(s) is Some { lemma_char_len((str_lit(s)->0).1, c, ':'); let u = after_char((str_lit(s)->0).1, c, ':'); if u is Some { lemma_value_len(u->0, c); } }
    if entry(s, c) is Some { let t = (entry(s, c)->0).1; lemma_follow_len(t, c); if next_entry(t, c) is Some { lemma_entries_len((next_entry(t, c)->0).1, c); } }
}
proof fn lemma_items_len(s: Seq<char>, c: bool)
    ensures items(s, c) is Some ==> (items(s, c)->0).1.len() < s.len(),
    decreases s.len(), 6int
{
    lemma_value_len(s, c);
    if value(s, c) is Some { let t = (value(s, c)->0).1; lemma_follow_len(t, c); if next_item(t, c) is Some { lemma_items_len((next_item(t, c)->0).1, c); } }
}
/// The entry that starts here, and the entries after it.
proof fn lemma_entries(s: Seq<char>, c: bool)
    ensures entries(s, c) == (match entry(s, c) { None => None, Some((e, t)) => match rem_obj(t, false, c) { None => None, Some((es, v)) => Some((seq![e] + es, v)) } })
{
    lemma_entries_len(s, c);
    if entry(s, c) is Some { let (e, t) = entry(s, c)->0; lemma_follow_len(t, c); assert(seq![e] + Seq::<(Seq<char>, J)>::empty() =~= seq![e]); }
}
proof fn lemma_entry(s: Seq<char>, c: bool)
    ensures
        entry(s, c) == (match str_lit(s) { None => None, Some((k, t)) => match after_char(t, c, ':') { None => None, Some(u) => match value(u, c) { Some((j, v)) => Some(((k, j), v)), None => None } } }),
        str_lit(s) is Some ==> ({ let (k, t) = str_lit(s)->0; k.len() + t.len() + 1 <= s.len() && (after_char(t, c, ':') is Some ==> (after_char(t, c, ':')->0).len() < t.len()) }),
{
    lemma_str_len(Seq::empty(), s);
    if str_lit(s) is Some { lemma_char_len((str_lit(s)->0).1, c, ':'); }
}
proof fn lemma_items(s: Seq<char>, c: bool)
    ensures items(s, c) == (match value(s, c) { None => None, Some((j, t)) => match rem_arr(t, false, c) { None => None, Some((js, v)) => Some((seq![j] + js, v)) } })
{
    lemma_value_len(s, c);
    if value(s, c) is Some { let (j, t) = value(s, c)->0; lemma_follow_len(t, c); assert(seq![j] + Seq::<J>::empty() =~= seq![j]); }
}
proof fn lemma_value_here(s: Seq<char>, c: bool)
    ensures value(s, c) == (match after_ws(s, c) { None => None, Some(t) => value_here(t, c) })
{
    lemma_ws_len(s, c);
}
