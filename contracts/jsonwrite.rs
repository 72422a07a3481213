// ---- What the serializer writes --------------------------------------------------------------------------

/// The state of the text serializer.
struct TS { bytes: Seq<u8>, indent: Option<Seq<char>>, depth: int, in_key: bool, at_first: bool }

/// The state after one more piece of text has been written.
spec fn emit(s: TS, cs: Seq<char>) -> TS { TS { bytes: out(s.bytes, cs), ..s } }
spec fn rep(u: Seq<char>, n: int) -> Seq<char>
    decreases n
{
    if n <= 0 { Seq::empty() } else { rep(u, n - 1) + u }
}
/// A new line with `depth` indentation units.
spec fn line(s: TS, u: Seq<char>, depth: int) -> TS { emit(emit(s, seq!['\n']), rep(u, depth)) }
spec fn hex_digit(x: int) -> char { if x < 10 { (48 + x) as char } else { (87 + x) as char } }

/// A character inside a string literal.
spec fn chr(s: TS, c: char) -> TS {
    if c == '"' { emit(s, "\\\""@) }
    else if c == '\\' { emit(s, "\\\\"@) }
    else if c == '\x08' { emit(s, "\\b"@) }
    else if c == '\x0C' { emit(s, "\\f"@) }
    else if c == '\n' { emit(s, "\\n"@) }
    else if c == '\r' { emit(s, "\\r"@) }
    else if c == '\t' { emit(s, "\\t"@) }
    else if (c as u32) < 16 { emit(emit(s, "\\u000"@), seq![hex_digit(c as u32 as int)]) }
    else if (c as u32) < 32 { emit(emit(s, "\\u001"@), seq![hex_digit(c as u32 - 16)]) }
    else { emit(s, seq![c]) }
}
spec fn chrs(s: TS, cs: Seq<char>) -> TS
    decreases cs.len()
{
    if cs.len() == 0 { s } else { chr(chrs(s, cs.drop_last()), cs.last()) }
}
spec fn open_str(s: TS) -> TS { emit(s, seq!['"']) }
spec fn close_str(s: TS) -> TS {
    if s.in_key { TS { in_key: false, ..emit(emit(s, seq!['"']), ": "@) } } else { emit(s, seq!['"']) }
}
spec fn string(s: TS, cs: Seq<char>) -> TS { close_str(chrs(open_str(s), cs)) }
spec fn comma(s: TS) -> TS { if s.at_first { TS { at_first: false, ..s } } else { emit(s, seq![',']) } }
spec fn add_entry(s: TS) -> TS {
    let t = match s.indent { Some(u) => line(comma(s), u, s.depth), None => emit(comma(s), seq![' ']) };
    emit(TS { in_key: true, ..t }, seq!['"'])
}
spec fn key(s: TS, cs: Seq<char>) -> TS { close_str(chrs(add_entry(s), cs)) }
spec fn item(s: TS) -> TS {
    match s.indent { Some(u) => line(comma(s), u, s.depth), None => if s.at_first { comma(s) } else { emit(s, ", "@) } }
}
spec fn open(s: TS, c: char) -> TS { TS { depth: s.depth + 1, at_first: true, ..emit(s, seq![c]) } }
spec fn close_object(s: TS) -> TS {
    let t = TS { depth: s.depth - 1, at_first: false, ..s };
    if s.at_first { emit(t, seq!['}']) } else { match s.indent { Some(u) => emit(line(t, u, t.depth), seq!['}']), None => emit(t, " }"@) } }
}
spec fn close_list(s: TS) -> TS {
    let t = TS { depth: s.depth - 1, at_first: false, ..s };
    if s.at_first || s.indent is None { emit(t, seq![']']) } else { emit(line(t, s.indent->0, t.depth), seq![']']) }
}

proof fn lemma_out(b: Seq<u8>, x: Seq<char>, y: Seq<char>)
    ensures out(out(b, x), y) == out(b, x + y)
{
    encode_utf8_concat(x, y);
    assert((b + encode_utf8(x)) + encode_utf8(y) =~= b + (encode_utf8(x) + encode_utf8(y)));
}
proof fn lemma_out0(b: Seq<u8>)
    ensures out(b, Seq::empty()) == b
{
    lemma_empty();
    assert(b + encode_utf8(Seq::empty()) =~= b);
}
