"""Which contract units decide which property, which bounded bank stands in, and what stays trusted."""
# units: {unit: regex of the functions (paths as printed by verify.py) whose obligations this property rests on}
# proved: functions, one line each on what their contract says for this property
RAW_A = ("TextDeserializer (units textraw, textpushkey, textfold, texttop, textop, textde): KeyTable and Probe (contracts/textinv.rs, texttry.rs) state what hashbrown's raw table does; read_lookback_value is assumed to meet its contract (texttry.rs); hash_of, key_hash and same_bytes are functions of their arguments; documents are shorter than 2^28 characters")
PROPS = {
    "C08": dict(
        units={"namemap": r".*"},
        what="FixedNameMap::new / NameMap::get / NameMapLookup: get(name) = Some(v) iff (name, v) is an entry, None for any other name, "
             "for every table built by new (distinct names); incremental lookup (write_str / write_char / write_bytes, any chunking) gives the same answer as get.",
        bank_what="random tables (1 to 64 names over small alphabets, shared prefixes, multi-byte characters) x present and absent names x chunkings",
        assumptions=["tables have fewer than usize::MAX entries"],
    ),
    "C12": dict(
        units={"utf8": r"read_utf8|is_continuation|Utf8Reader"},
        what="read_utf8: for every source, Ok(Some(ch)) iff the bytes consumed are exactly the standard encoding of ch, Ok(None) only at the end, an error only when no "
             "character is encoded there (or the source reports one). Utf8Reader::new/next/peek: the characters handed out are exactly decode_utf8(bytes), in order, then None.",
        bank_what="all byte sequences up to length 2, structured and random longer ones, sources that split reads and fail",
        assumptions=["std::io::Read implementations meet the contract IoRead (contracts/textreader.rs)", "Utf8Reader::next: the source does not fail and the rest is valid UTF-8 (else known finding stream-reader-panics-on-invalid-bytes)"],
    ),
    "C13": dict(
        units={"utf8": r"Utf8Reader"},
        what="Utf8Reader::new starts at line 0, column 0; next moves the position by `advance` (line feed, tab +4, carriage return +0, other +1) of exactly the character it returns and leaves it "
             "unchanged at the end; peek and position take &self.",
        bank_what="random texts with tabs, line feeds and carriage returns, random interleavings of next / peek / position",
        assumptions=["line and column stay within usize (texts shorter than usize::MAX / 4 characters)", "derived LineColumnPosition::default is 0, 0"],
    ),
    "C20": dict(
        units={"utf8": r".*"},
        what="Both readers meet one contract (TextReader): next / peek / read_exact yield exactly the characters of `rest`, which is the string for &str and decode_utf8(bytes) for Utf8Reader whatever the split of reads; "
             "code above is generic over TextReader, so it sees the same characters. All three writers meet one contract (TextWriter): they append exactly encode_utf8 of what is written.",
        bank_what="random texts x types, read from memory and from streams with random read splits; random values written to strings and to sinks that accept little per write",
        assumptions=["std::io::Read / Write implementations meet IoRead / IoWrite (write_all repeats short writes)", "str::chars / Chars::as_str / str::as_ptr as stated in contracts/strreader.rs"],
        note="bounded: that the JSON layer treats positions of both readers alike (it is generic over them)",
    ),
    "C06": dict(
        units={"numbers": r"for [ui]\d", "lexer": r"read_number", "textraw": r"read_number", "lookback": r"LookbackNumBuilder", "textde": r"get_[iu]\d"},
        what="read_number_into_builder recognises exactly the number grammar (num_lit), hands its significant digits to the builder and returns its sign and its exponent (or one beyond 2^30 when it is beyond 2^30); "
             "push_digit appends a digit exactly or refuses because the value leaves the type; from_builder answers Some(x) only for the exact value and None only if the type has none. "
             "theorem_read_<T> (10 integer types) joins them: read_number is Ok(x) only if x is exactly the number, Err only if the text is no number, no x of the type is exactly the number, or the digits alone exceed the (unsigned) type.",
        bank_what="integer literals around every type's bounds, with fractions, exponents (up to 40 digits), leading and trailing zeros, signs; random literals; all types; in order and out of order",
        assumptions=["texts are shorter than 2^30 characters", "i32::unsigned_abs, checked_pow, wrapping_rem, wrapping_div, saturating_add as stated in contracts/numlib.rs and contracts/lexer.rs",
                     "a number that is read out of order: its digits are packed (unit lookback, LookbackNumBuilder) and read back (unit textraw, raw_read_number) as proved; that read_lookback_value keeps them where its contract says is bounded", RAW_A],
    ),
    "C07": dict(
        units={"numbers": r"FloatBuilder|for f\d", "lexer": r"read_number", "textraw": r"read_number", "lookback": r"LookbackNumBuilder", "textde": r"get_f\d"},
        what="FloatBuilder holds exactly the digits pushed, however many (inline buffer, spill to the heap); from_builder hands `digits e exponent` to the standard parser and negates for a minus sign (also for zero); "
             "theorem_read_f32 / f64: read_number is Ok for every number in the grammar and gives the nearest float of digits times ten to the exponent, negated for a minus sign.",
        bank_what="random and structured decimal literals (long digit strings, halfway cases, subnormals, extreme exponents) against the standard library's parser on the literal text, in order and out of order",
        assumptions=["texts are shorter than 2^30 characters", "str::parse::<f32/f64> of `digits e exponent` is correctly rounded and saturates beyond 2^30 (axiom_far_*)", "itoa prints integers in decimal", "float negation flips the sign"],
        note="bounded: that read_lookback_value packs the digits of a number that is read past as its contract says; that raw_read_number unpacks them into the same number is proved",
    ),
    "C11": dict(
        units={"lexer": r"skip_|read_eof|TextReaderExt"},
        what="skip_comment and the seven white space skippers are exactly the functions after_comment / after_ws / first_entry / next_entry / first_item / next_item / after_char of the text. theorem_comment: inserting a complete "
             "comment after any white space leaves after_ws unchanged (so all of them); theorem_no_comment: without permission white space ends at the `/` and nothing that may follow white space starts with one.",
        bank_what="random documents with comments inserted at random white space positions, permissive and strict, read as trees and as typed values, in order and out of order",
        assumptions=["a // comment ends with a line feed (as the property says)", "bounded: that the deserializer calls a skipper wherever JSON allows white space"],
    ),
    "C02": dict(
        units={"serializer": r".*", "jsontheory": r".*"},
        what="Every operation of the text serializer (Outliner, Serializer, JsonOutliner, JsonSerializer for TextSerializer, put_tag, append_str/put_str) appends exactly the text the contract gives it (open_str, chr, close_str, item, key, open, close_*, "
             "int_text, ...). theorem_written: for every tree whose numbers are number literals, at any indentation of white space, the operations that write the tree append one text t with document(t) = that tree, document being the RFC 8259 grammar "
             "(strict and with comments); theorem_string and theorem_int: strings and integers denote exactly what was written.",
        bank_what="random operation sequences written and parsed by an independent JSON parser; random values of the supported types",
        assumptions=["itoa prints integers in decimal; ryu prints a finite float as a JSON number literal nearest to it (third-party crates, assumed)", "the indentation unit is white space", "the caller brackets operations correctly (C16)",
                     "the methods of Outliner / Serializer are spread over several traits in the verified text (bodies unchanged)"],
        note="bounded: that a float's text denotes that float",
    ),
    "C14": dict(
        units={"serializer": r".*", "jsontheory": r".*"},
        what="Every operation of the text serializer appends exactly the text of its contract, where line / item / key / close_* place the white space. lemma_wr: writing a tree appends txt(indent, depth, tree), which puts every item and entry on a new line after one unit "
             "per open collection, the closer on its own line at the enclosing level, and nothing inside empty collections. theorem_layout: for any two indentations the two texts are equal once white space outside strings is removed.",
        bank_what="random trees written compactly and with several units; tokens compared, layout compared with a reference printer",
        assumptions=["itoa, ryu as for C02", "the indentation unit is white space", "the caller brackets operations correctly (C16)"],
    ),
    "C15": dict(
        units={"serializer": r"str|char|key|entry|tag|Outliner|Serializer", "jsontheory": r".*", "lexer": r"read_hex|read_unicode|read_escape|read_str", "textraw": r"open_str|next_char"},
        what="Writing: append_char / append_str / put_str / put_char / add_entry / open_str / close_str append exactly the escapes of `chr`; theorem_string: standard decoding of the literal gives back exactly the string. "
             "Reading: read_escape_sequence, read_unicode_escape, read_hex_digits, read_str_into, read_str_bytes_into, read_str_bytes_into_or_match accept exactly the escapes of RFC 8259 (surrogate pairs included), give exactly the denoted characters, and fail on every other escape.",
        bank_what="all single characters, random strings and random literals with valid and invalid escapes, as values, keys, tags, chars, in order and out of order",
        assumptions=["raw control characters inside strings are accepted (known finding)"],
        note="open_str and next_char of TextDeserializer, in the text and in the look-back buffer, are under contract (unit textraw). bounded: that read_lookback_value puts the string into the buffer as its contract says",
    ),
    "C16": dict(
        units={"wrap": r".*"},
        what="Every operation of an Outliner / Serializer / Deserializer / JsonOutliner / JsonSerializer / JsonDeserializer has the precondition that the abstract stack allows it (or that an operation has failed before), for any implementation. "
             "All functions of Value, Struct, Tuple, List, Object, Entry, Collection and the JSON extension methods are verified against it, for the API used in any way: misuse meets an assertion before the source is reached; used correctly (strict()), no assertion fails. "
             "On success exactly one operation was done and the completion flag went from false to true; on failure the flag stays false. Child values and flags are tied to their container by prophecy (final(child.done_flag) == final(container).ready_flag).",
        bank_what="all sequences of up to 4 (thorough 5) wrapper operations on each container, over a recording stand-in that checks the stack discipline; values fresh, consumed, failing",
        assumptions=["implementations of Serialize / Deserialize / SerializeStruct / DeserializeStruct keep to the contract Serialize / Deserialize in contracts/wrapuse.rs (consume the value they are given)",
                     "Value::ty and the *_raw functions hand out the source: using them is the caller's responsibility (as documented)", "extension trait methods are verified as inherent methods"],
        scale=1.0, thorough_scale=4.0, search_scale=2.0,
    ),
    "C17": dict(
        units={"ser": r"for (Vec|\( T0|\[ T)", "deser": r"for (Vec|\( T0|\[ T)", "jsonstd": r"push_item|close_list", "lexer": r"skip_|read_eof"},
        what="Serialize for Vec / pairs / triples / arrays makes exactly the operations that write the list, tuple of the values of its items, in order (serimpls.rs: val); Deserialize for Vec accepts exactly arrays of acceptable items and gives an item for each, in order; "
             "pairs, triples and [T; N] accept exactly arrays of exactly 2, 3, N acceptable items, each in its own position (deserimpls.rs: ok, is), for any item type and any deserializer that meets the contract treerun.rs; "
             "json push_item / close_list / push_element / close_tuple refuse an array that has too few / too many items.",
        bank_what="random lists, tuples, arrays written and read; JSON arrays of every small length read as every fixed-length type, items with comments and white space, in and out of order",
        assumptions=["implementations of Serialize / Deserialize for item types meet their trait contract", "array::from_fn, iter_mut, map are rewritten to loops over indices in the verified text"],
        note="bounded: TextDeserializer's own stack of collections (its operations are assumed to meet treerun.rs)",
    ),
    "C18": dict(
        units={"ser": r"for Option|for \( \)|serialize_struct", "deser": r"for Option|for \( \)|deserialize_struct|Value::get|inline_get", "jsonstd": r"push_field|open_struct|close_struct", "derde": r"for (Opts|Opts2|Shape|Prox|Gen|Flat|FlatEnum|Ren)\b", "textde": r"check_null|peek_"},
        what="Derived structs: a field marked default is its default if the entry is missing or null, and otherwise the value that is there; any other field takes what its type accepts (unit derde). Serialize for Option: for a serializer that supports null and a non-nullable T, None is null and Some(x) is x's value, which law() proves is not null; otherwise the struct {has_value, value}. Deserialize for Option accepts exactly those forms, and null / a missing entry as None only for non-nullable T "
             "(opt_ok, opt_is; law: no other implementation accepts null or a missing entry). push_field answers a missing entry with null, a present one with its value.",
        bank_what="options nested up to 4 levels over all kinds of types, structs with optional / default / plain fields, entries missing, null, present, in every order",
        assumptions=["implementations of Serialize / Deserialize meet their trait contract (NULLABLE is honest)"],
        note="derived fields: for the sample declarations in /verif/derived",
    ),
    "C21": dict(
        units={"ser": r"NonZero", "deser": r"NonZero|for [iu]\d", "numbers": r"for [ui]\d"},
        what="Deserialize for NonZero*: accepts exactly the number literals that the plain type of the same width reads as a number other than zero, and gives that number; Serialize writes exactly the operation of the plain integer. Which literals the plain type reads: theorem_read_<T> (unit numbers, C06).",
        bank_what="zero in every notation (signs, fractions, exponents), neighbours and bounds, random literals, for all 8 types, against the plain type",
        assumptions=["NonZero::try_from fails exactly on zero (std)"],
    ),
    "C09": dict(
        units={"jsonstd": r"get_tag|get_name|flush_name|next_char|error_invalid", "namemap": r".*", "serializer": r"tag", "derser": r"for (Tag|Shape|Kinds|OnlyUnits)", "derde": r"for (Tag|Shape|Kinds|OnlyUnits)"},
        what="The expansion of derived enums (sample declarations with renamed, reindexed and explicit-discriminant variants) writes the tag of exactly its variant, and reads exactly the wire names and the variants' indices as their variant, everything else is an error (units derser, derde). get_tag reads a string as the index of exactly that name in the tag table and nothing else, a number as itself iff it is at most max_index, and refuses any other kind of value (tag_of); flush_name / get_name look up exactly the whole string; FixedNameMap finds exactly its names; put_tag writes the name as a string, or the index if there is no name.",
        bank_what="derived enums with renames and reindexes: every name, index, near misses (prefixes, extensions, case), indices around the bounds, other kinds of values",
        assumptions=["NameMapLookup by characters and by bytes agree (proved in unit namemap: any chunking gives the answer of get)"],
        note="over declarations: the sample declarations in /verif/derived, for every value and input. bounded: TextDeserializer's own flush_name / get_name",
    ),
    "C19": dict(
        units={"derser": r".*", "derde": r".*", "ser": r"serialize_struct|inline_put|put_using", "deser": r"deserialize_struct|inline_get|get_using", "jsonstd": r"open_struct|close_struct|push_field"},
        what="rustc's own expansion of the derive macros, taken from /repo on every run for 16 sample declarations (every attribute: rename, flatten, default, proxy, tag, transparent, reindex, discriminants, generics), is verified function by function against the layout computed from the declaration: "
             "serialize_content writes exactly one entry per field, in declaration order, under its wire name, flattened fields spread in place, the tag first; deserialize_content reads exactly those from an object by name or from an array by position, leaves the rest, and rebuilds the value. For all values, all inputs, any serializer and deserializer.",
        bank_what="the types of the harness (structs, enums, attributes in combination): random values against an independently written layout, read from objects and from arrays",
        assumptions=["FixedNameMap::new(..).unfix() finds exactly its names (proved in unit namemap)", "the headers of the generated impls (generics, bounds) are written in the contract; rustc checks them in the expansion itself"],
        note="over declarations: the samples in /verif/derived, for every value and input; other declarations are covered as far as the macros treat each attribute alike",
    ),
    "C10": dict(
        units={"jsonstd": r"skip_|close_struct|push_field|open_struct", "lexer": r"skip_", "treesim": r".*", "textraw": r"next_entry|next_item|take_value|first_unread|open_object|Outline", "textpushkey": r".*", "textop": r".*", "textde": r".*", "lookback": r".*"},
        what="theorem_insert, theorem_extra: entries with other names, wherever inserted, do not change any answer to code that asks the struct for its own fields only. skip_value and skip_object (default methods of JsonDeserializer) consume exactly the value on top, whatever is nested in it, without recursion, and everything below stays as it was; if the text is malformed they report an error as the operations they use do. close_struct ends an object whatever entries are left. TextDeserializer::try_push_entry: entries read past while it looks for a key are put into the table, each under its key, and the state stays that of the same tree (units textpushkey, texttop, textop). Every operation of TextDeserializer meets the contract of the stack-based API over the tree of the text, and keeps its invariant, from new to close (textraw, textpushkey: the bodies; textfold, texttop, textop, textde: what they do to the tree that is left).",
        bank_what="structs with extra entries of random well-formed and malformed values at every position, in order and out of order",
        assumptions=[RAW_A],
        note="bounded: read_lookback_value, which copies a value that is read past into the buffer",
    ),
    "C01": dict(
        units={"round": r".*", "ser": r".*", "deser": r".*", "serializer": r".*", "jsontheory": r".*", "numbers": r"for [uif]\d"},
        what="Trait RoundTrip, proved for every supported type (bool, char, integers, non-zero integers, floats, String, unit, pairs, triples, Vec, arrays, Option, nested in any way): what Serialize writes as a tree is accepted by Deserialize, and every value it may then give is equal "
             "to the one written (round). Around it: Serialize makes exactly the operations of val (ser), the text serializer appends exactly the text of those operations and document() of that text is the tree again for any white space indentation (serializer, jsontheory), "
             "Deserialize gives what the tree says (deser), numbers are read as written (numbers: theorem_int_text).",
        bank_what="random values of all supported types, derived types among them, written compactly and with several units, read back from memory and from streams",
        assumptions=["itoa, ryu and the standard float parser: a finite float is read as the float it was printed from", "implementations of Serialize / Deserialize for item types meet their trait contract"],
        note="bounded: the operations of TextDeserializer, and the code generated by the derive macros",
    ),
    "C03": dict(
        units={"treesim": r".*", "deser": r"struct|Value::get|inline_get|for \(|for Option", "jsonstd": r".*", "textraw": r"next_entry|next_item|take_value|first_unread|open_object|push_null|read_number|get_bool|pop_null|Outline", "textpushkey": r".*", "textfold": r".*", "texttop": r".*", "textop": r".*", "textde": r".*", "lookback": r".*"},
        what="theorem_order_any_code: if two partly read values are equal up to the order of the entries of their objects, at every level, then any sequence of operations other than next_entry gets the same answers on both, fails at the same point, and leaves them equal in that sense; "
             "theorem_permutation: objects without duplicate keys that have the same entries in any order are equal in that sense. The default methods and the JSON functions of structs and tuples meet that semantics (jsonstd), and Deserialize implementations (deser). try_push_entry of TextDeserializer finds the entry that push_entry of that semantics finds, whether it was read past before or is still ahead in the text, and the other operations read from the buffer what they would read from the text. Every operation of TextDeserializer meets the contract of the stack-based API over the tree of the text, and keeps its invariant, from new to close (textraw, textpushkey: the bodies; textfold, texttop, textop, textde: what they do to the tree that is left).",
        bank_what="random objects, every permutation of up to 5 entries (sampled above), nested, with all kinds of values, and with errors in one of the values",
        assumptions=["no object has a key twice (with duplicates the first in the text need not be found first)", "the operation next_entry is not used (deserializing structs does not use it except to skip what is left)", RAW_A],
        note="bounded: read_lookback_value (its contract is assumed)",
    ),
    "C04": dict(
        units={"lexer": r".*", "jsonstd": r".*", "numbers": r"for [uif]\d|FloatBuilder", "utf8": r"read_utf8", "deser": r".*", "textraw": r".*", "textpushkey": r".*", "textop": r".*", "textde": r".*", "lookback": r".*"},
        what="All functions under contract terminate (every loop has a measure), do not overflow, index out of bounds, unwrap None or fail an assertion, for every text: lexical layer (lexer), numbers, UTF-8, default methods and JSON functions (jsonstd: skip_value and skip_object work off any nesting in a loop, "
             "without recursion, even if the text is malformed), Deserialize implementations (deser), and the operations of TextDeserializer, which keep its invariant (textraw, textpushkey, textde).",
        bank_what="all short texts over a JSON alphabet, random and mutated documents, nesting up to 200000 levels in ignored parts, read as every type and as trees",
        assumptions=["texts are shorter than 2^30 characters", "correct API use (C16)", RAW_A],
        note="bounded: read_lookback_value",
        scale=1.0, thorough_scale=8.0, search_scale=1.0,
    ),
    "C05": dict(
        units={"lexer": r".*", "jsontheory": r".*", "jsonstd": r".*", "textraw": r".*", "textpushkey": r".*", "textfold": r".*", "texttop": r".*", "textop": r".*", "textde": r".*", "lookback": r".*"},
        what="The lexical layer accepts exactly the tokens of RFC 8259 and skips exactly its white space (lexer), from which document() is built (jsontheory), which denotes the tree that was written (theorem_written) and for which no comment is white space in strict mode (theorem_no_comment); "
             "read_eof succeeds at the end only. TextDeserializer: new starts with the tree of the document, every operation reads from it what the semantics says and fails where the text is malformed, and close succeeds only if the document is well formed and exactly then when no text but white space follows (textraw, textpushkey, textfold, texttop, textop, textde).",
        bank_what="all short texts over a JSON alphabet, random documents and mutations of them, strict and permissive, against an independent RFC 8259 parser: accepted or not, and the tree",
        assumptions=["raw control characters in strings are accepted (known finding)", RAW_A],
        note="bounded: read_lookback_value",
    ),
    "C22": dict(
        units={"numbers": r"FloatBuilder|for f\d", "namemap": r".*", "lexer": r"read_str_bytes", "utf8": r"Str|prefix|for &", "textraw": r".*", "textpushkey": r".*", "textop": r".*", "textde": r".*", "lookback": r".*"},
        what="str::from_utf8_unchecked has the precondition that the bytes are valid UTF-8: proved at both sites in FloatBuilder (the digits are ASCII). read_str_bytes_into and read_str_bytes_into_or_match append exactly encode_utf8 of the characters of the string, so what is buffered is valid UTF-8; prefix cuts at a character boundary; "
             "the unchecked conversion in NameMap is a transparent wrapper. TextDeserializer: the unchecked conversion in next_char, the key slices and the indices into the look-back buffer rest on the invariant of Outline (contracts/textstate.rs, textinv.rs), under which textraw and textpushkey prove every operation that reads them, and which textfold, texttop, textop and textde prove to be kept by every operation.",
        bank_what="strings, keys and numbers of all kinds read out of order, checked against the text (characters of 1 to 4 bytes, surrogate escapes, empty, adjacent)",
        assumptions=[RAW_A],
        note="bounded: that read_lookback_value leaves the buffer as its contract says",
    ),
}
