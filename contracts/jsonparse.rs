// ---- JSON texts and what they denote (RFC 8259) -----------------------------------------------------------

/// A value, which may have white space before it, and what is left after it.
spec fn value(s: Seq<char>, c: bool) -> Option<(J, Seq<char>)>
    decreases s.len(), 4int
{
    match after_ws(s, c) { None => None, Some(t) => if t.len() <= s.len() { value_here(t, c) } else { None } }
}
spec fn value_here(s: Seq<char>, c: bool) -> Option<(J, Seq<char>)>
    decreases s.len(), 3int
{
    if s.len() == 0 { None }
    else if s[0] == '"' { match str_lit(s.drop_first()) { Some((cs, t)) => Some((J::Str(cs), t)), None => None } }
    else if s[0] == '-' || is_digit(s[0]) { match num_lit(s) { Some((_, t)) => Some((J::Num(num_rep(s, t)), t)), None => None } }
    else if s[0] == '{' {
        match first_entry(s.drop_first(), c) {
            None => None,
            Some((false, t)) => Some((J::Obj(Seq::empty()), t)),
            Some((true, t)) => if t.len() < s.len() { match entries(t, c) { Some((es, u)) => Some((J::Obj(es), u)), None => None } } else { None },
        }
    }
    else if s[0] == '[' {
        match first_item(s.drop_first(), c) {
            None => None,
            Some((false, t)) => Some((J::Arr(Seq::empty()), t)),
            Some((true, t)) => if t.len() < s.len() { match items(t, c) { Some((js, u)) => Some((J::Arr(js), u)), None => None } } else { None },
        }
    }
    else if s[0] == 'n' { match null_lit(s) { Some(t) => Some((J::Null, t)), None => None } }
    else { match bool_lit(s) { Some((b, t)) => Some((J::Bool(b), t)), None => None } }
}
/// One entry (after the quote that starts its key) and what is left after it.
spec fn entry(s: Seq<char>, c: bool) -> Option<((Seq<char>, J), Seq<char>)>
    decreases s.len(), 5int
{
    match str_lit(s) {
        None => None,
        Some((k, t)) => match after_char(t, c, ':') {
            None => None,
            Some(u) => if u.len() < s.len() { match value(u, c) { Some((j, v)) => Some(((k, j), v)), None => None } } else { None },
        },
    }
}
/// The remaining entries of an object; the first one starts here, after its quote.
spec fn entries(s: Seq<char>, c: bool) -> Option<(Seq<(Seq<char>, J)>, Seq<char>)>
    decreases s.len(), 6int
{
    match entry(s, c) {
        None => None,
        Some((e, t)) => if t.len() < s.len() {
            match next_entry(t, c) {
                None => None,
                Some((false, u)) => Some((seq![e], u)),
                Some((true, u)) => if u.len() < s.len() { match entries(u, c) { Some((es, v)) => Some((seq![e] + es, v)), None => None } } else { None },
            }
        } else { None },
    }
}
/// The remaining items of an array; the first one starts here.
spec fn items(s: Seq<char>, c: bool) -> Option<(Seq<J>, Seq<char>)>
    decreases s.len(), 6int
{
    match value(s, c) {
        None => None,
        Some((j, t)) => if t.len() < s.len() {
            match next_item(t, c) {
                None => None,
                Some((false, u)) => Some((seq![j], u)),
                Some((true, u)) => if u.len() < s.len() { match items(u, c) { Some((js, v)) => Some((seq![j] + js, v)), None => None } } else { None },
            }
        } else { None },
    }
}
/// A whole document.
spec fn document(s: Seq<char>, c: bool) -> Option<J> {
    match value(s, c) { Some((j, t)) => if after_ws(t, c) == Some(Seq::<char>::empty()) { Some(j) } else { None }, None => None }
}
