#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the entries stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Serializing a value and reading it back gives the same value",
 "For every supported value (bool, integers, non-zero integers, finite floats, char, strings, unit, Option, pairs, triples, arrays, lists, and derived structs and enums built from them), writing it as JSON and reading that JSON back as the same type succeeds and returns an equal value. This holds in compact form and with any whitespace indentation, and for text in memory and for UTF-8 byte streams.",
 ["inputs", "programs", "configurations"], "every value of every supported type x every indentation x both readers",
 "The tests serialize and deserialize a few hand-picked values separately; they never quantify over values, and no test round-trips chars, floats, non-zero integers, nested options or awkward strings.",
 ["core/src/serialize.rs", "core/src/deserialize.rs", "json/src/serialize/text.rs", "json/src/deserialize/text.rs", "derive/src/serialize.rs", "derive/src/deserialize.rs"],
 [("Serialize impls", "core/src/serialize.rs"), ("Deserialize impls", "core/src/deserialize.rs"), ("TextSerializer", "json/src/serialize/text.rs"), ("TextDeserializer", "json/src/deserialize/text.rs")],
 observe=["to_str / from_str", "to_writer / from_reader"])

prop("C02", "Written text is well-formed JSON that denotes exactly the value",
 "Any correctly bracketed sequence of serializer operations with finite numbers produces one well-formed JSON (RFC 8259) document. Parsed independently, that document has exactly the structure, entry names, order, strings and numbers that were written.",
 ["inputs", "histories", "configurations"], "every well-bracketed sequence of serializer operations x every whitespace indentation string or none",
 "Tests compare a dozen outputs with literals; commas, colons, closers, nesting depth and escapes depend on the whole operation history.",
 ["json/src/serialize/text.rs", "json/src/serialize/mod.rs"],
 [("item/entry separators and closers", "json/src/serialize/text.rs push_item, add_entry, close_list, close_object"), ("string writing", "json/src/serialize/text.rs append_char")],
 state=[("at_first", "the innermost open collection has no item yet", "json/src/serialize/text.rs"), ("depth", "number of open collections", "json/src/serialize/text.rs"), ("in_key", "the open string is an object key", "json/src/serialize/text.rs")],
 observe=["text accumulated in the TextWriter"])

prop("C03", "Order of entries in a JSON object does not affect the result",
 "Deserializing a struct from a JSON object gives the same outcome (the same value, or an error in both cases) for every permutation of the object's entries, at every nesting level. Entries that are read past before they are asked for keep exactly the value they had in the text.",
 ["inputs", "histories"], "every object, every permutation of its (distinct-named) entries at every level, every value those entries hold",
 "Order independence rests on an out-of-order buffer (packed digits, reversed sibling links, a hash index of keys); tests cover a handful of short documents.",
 ["json/src/deserialize/text.rs"],
 [("out-of-order reading", "json/src/deserialize/text.rs try_push_entry, read_lookback_value, correct_items, take_value"), ("packed digits", "json/src/deserialize/text.rs LookbackNumBuilder, read_number")],
 state=[("lookback_items", "values read past but not yet asked for", "json/src/deserialize/text.rs Outline"), ("streaming_depth", "depth of the innermost collection still being streamed", "json/src/deserialize/text.rs DeserializerState")],
 observe=["from_str of permuted documents", "Object::try_entry / next_entry"])

prop("C04", "No text makes the deserializer panic, overflow the stack or hang",
 "Deserializing any text, valid or not, as any supported type (driven by correct API use) terminates with a value or an error. It never panics and never exhausts the stack, however deeply nested the ignored parts of the text are.",
 ["inputs", "programs"], "every finite text x every supported target type x both parser configurations",
 "Tests only use a few well-formed documents and a few errors; panics hide on unusual escapes, exponents, truncations and nesting.",
 ["json/src/deserialize/text.rs", "json/src/deserialize/mod.rs", "json/src/deserialize/number.rs", "core/src/deserialize.rs"],
 [("lexing helpers", "json/src/deserialize/text.rs TextReaderExt"), ("skipping", "json/src/deserialize/mod.rs skip_value, skip_object"), ("number building", "json/src/deserialize/number.rs")],
 observe=["from_str, from_reader", "ValueDeserializerExt::skip"])

prop("C05", "In strict mode exactly the JSON documents are accepted",
 "With the strict configuration, reading a whole document through the API succeeds if and only if the text is a well-formed JSON document (RFC 8259), and then yields exactly the tree of values the document denotes. Nothing may follow the document except whitespace.",
 ["inputs"], "every text, read generically (every value visited), skipped, or read out of order",
 "Tests check a few accepted documents and a few errors; the accepted language is only pinned by quantifying over all texts, separators, truncations and trailing data.",
 ["json/src/deserialize/text.rs", "json/src/deserialize/mod.rs"],
 [("lexing helpers", "json/src/deserialize/text.rs TextReaderExt"), ("trailing data check", "json/src/deserialize/text.rs close, read_eof")],
 observe=["Value::ty, into_object, into_list, skip; TextDeserializer::close"])

prop("C06", "Integers are read exactly or rejected",
 "Whenever reading a JSON number as an integer type succeeds, the result equals the number's exact mathematical value; a number that is not an integer in the type's range is always rejected. Every in-range integer written without fraction or exponent is accepted, and so is one written with them when its digits taken together fit the type (its unsigned counterpart for signed types).",
 ["inputs"], "every JSON number literal x i8..i64, u8..u64, in document order or read out of order",
 "Tests parse a handful of small integers; boundaries, exponent scaling, negative zero and digit-by-digit overflow need all literals.",
 ["json/src/deserialize/number.rs", "json/src/deserialize/text.rs"],
 [("digit accumulation", "json/src/deserialize/number.rs push_digit"), ("scaling and sign", "json/src/deserialize/number.rs from_builder"), ("number scanning", "json/src/deserialize/text.rs read_number_into_builder")],
 observe=["from_str::<iN/uN>"])

prop("C07", "Floats are read as the nearest representable value",
 "Reading any JSON number as a 32- or 64-bit float gives the IEEE 754 value nearest to its exact decimal value (ties to even, overflow to infinity), with the sign kept for negative numbers including negative zero. This holds however many digits are written and whatever the exponent, in document order or read out of order.",
 ["inputs"], "every JSON number literal x f32, f64",
 "Tests parse a few floats; long digit strings cross a buffer boundary and the exponent is re-assembled from fraction length and written exponent.",
 ["json/src/deserialize/number.rs", "json/src/deserialize/text.rs"],
 [("digit buffer", "json/src/deserialize/number.rs FloatBuilder"), ("decimal exponent", "json/src/deserialize/text.rs read_number_into_builder")],
 observe=["from_str::<f32/f64>"])

prop("C08", "A name table finds exactly its names, however the name arrives",
 "For a name table built from any list of distinct names, looking up a string returns the value listed with that exact name, and nothing for any string that is not one of the names. The outcome does not depend on the order in which the names were listed or on how the looked-up string is split into pieces.",
 ["inputs", "histories"], "every list of distinct names x every looked-up string x every split of it into pieces",
 "The tests use one eleven-name table and fifteen lookups; the sort and the narrowing search have order-, prefix- and split-dependent paths.",
 ["core/src/name_map.rs"],
 [("sorting", "core/src/name_map.rs sort_entries"), ("incremental narrowing search", "core/src/name_map.rs NameMapLookup::write_bytes"), ("result", "core/src/name_map.rs NameMapLookup::result")],
 state=[("cands", "the entries that agree with everything written so far", "core/src/name_map.rs NameMapLookup"), ("input_len", "number of bytes written", "core/src/name_map.rs NameMapLookup")],
 observe=["NameMap::get, NameMap::lookup"])

prop("C09", "Enum tags are written by name and read by exact name or index",
 "A derived enum's tag is written as its variant's wire name; reading accepts exactly the wire names and the variants' indices and selects that variant. Every other string, index or value kind is an error, never a different variant.",
 ["inputs", "programs"], "every tag text x every enum of unit, struct-like and transparent variants, with renamed, reindexed and explicit-discriminant variants",
 "Tests use two small enums and a few names; wrong tags, near-miss names, huge or out-of-range indices and sparse indices are not sampled.",
 ["core/src/name_map.rs", "core/src/deserialize.rs", "json/src/deserialize/mod.rs", "json/src/serialize/mod.rs", "derive/src/lib.rs", "derive/src/deserialize.rs", "derive/src/serialize.rs"],
 [("tag reading", "json/src/deserialize/mod.rs get_tag"), ("name lookup", "core/src/deserialize.rs flush_name"), ("tag writing", "json/src/serialize/mod.rs put_tag"), ("variant indices", "derive/src/lib.rs VariantRepr::get")],
 observe=["from_str / to_str of derived enums", "Value::get_tag / put_tag"])

prop("C10", "Unknown object entries are ignored without side effects",
 "Adding entries with names a struct does not have, holding any well-formed JSON values, anywhere in the JSON object of that struct does not change the outcome of deserializing it. If the value of an unknown entry is malformed, deserialization fails.",
 ["inputs"], "every struct document x every position x every extra entry (any name not in the struct, any value, any nesting)",
 "Two tests include an extra entry; skipping has to consume exactly one value of every kind, streamed or buffered.",
 ["json/src/deserialize/mod.rs", "json/src/deserialize/text.rs"],
 [("closing a struct", "json/src/deserialize/mod.rs close_struct, skip_object, skip_value"), ("reading past entries", "json/src/deserialize/text.rs try_push_entry, read_lookback_value")],
 observe=["from_str of documents with injected entries"])

prop("C11", "Comments act as whitespace when allowed and are rejected otherwise",
 "With comments allowed, inserting a complete /* */ comment or a newline-terminated // comment at any place where JSON allows whitespace does not change the outcome of deserializing. In strict mode any document with a comment outside a string is rejected.",
 ["inputs", "configurations"], "every document x every whitespace position x every comment body x both configurations x in-order and out-of-order reading",
 "Tests put comments in a few places of a few documents; each separator-skipping routine and the out-of-order path handle comments on their own.",
 ["json/src/deserialize/text.rs"],
 [("comment skipping", "json/src/deserialize/text.rs skip_whitespace, skip_comment, skip_to_first_entry, skip_to_next_entry, skip_to_first_item, skip_to_next_item, skip_past_colon, read_lookback_value")],
 observe=["TextDeserializer with permissive and strict configuration"])

prop("C12", "UTF-8 input is decoded exactly or reported as an error",
 "Reading characters from a byte stream yields exactly the characters whose standard UTF-8 encoding the bytes are, in order, then end of input. Bytes that are not valid UTF-8 (stray or missing continuation bytes, overlong forms, surrogates, values above U+10FFFF, truncation) give an error and never a character or a panic.",
 ["inputs", "fault_sequences"], "every byte sequence",
 "One test decodes eight valid characters; the decoder's validity checks need all lead and continuation byte combinations.",
 ["core/src/text_reader.rs"],
 [("decoder", "core/src/text_reader.rs read_utf8"), ("one-character look-ahead", "core/src/text_reader.rs Utf8Reader")],
 state=[("peek", "the next character, already decoded", "core/src/text_reader.rs Utf8Reader")],
 observe=["read_utf8", "Utf8Reader::new / next / peek"])

prop("C13", "Line and column positions follow the characters read",
 "A stream reader's position starts at line 0, column 0; a line feed moves to column 0 of the next line, a tab advances the column by four, a carriage return leaves it unchanged and any other character advances it by one. Peeking never changes the position, and at end of input it stays put.",
 ["inputs", "histories"], "every character sequence and every sequence of read and peek calls",
 "No test looks at line and column positions after more than a trivial prefix.",
 ["core/src/text_reader.rs"],
 [("position update", "core/src/text_reader.rs Utf8Reader::next")],
 state=[("pos", "line and column of the next character", "core/src/text_reader.rs Utf8Reader")],
 observe=["TextReader::position", "positions in deserialization errors"])

prop("C14", "Indentation only adds whitespace between tokens",
 "For every value, the indented output and the compact output are the same JSON tokens in the same order and differ only in whitespace outside strings. In indented output every item or entry starts on a new line preceded by one indentation unit per open collection, its closer stands on its own line at the enclosing level, and empty collections have no whitespace inside.",
 ["inputs", "configurations"], "every value x every indentation string made of spaces and tabs",
 "Tests compare a few pretty-printed documents of small depth; layout depends on the nesting history.",
 ["json/src/serialize/text.rs"],
 [("layout", "json/src/serialize/text.rs push_item, add_entry, close_list, close_object")],
 state=[("depth", "number of open collections", "json/src/serialize/text.rs")],
 observe=["TextSerializer with TextSerializerConfig::indent"])

prop("C15", "Strings and characters survive JSON escaping exactly",
 "Every string or character is written as a JSON string literal that standard JSON decoding maps back to it, with quotes, backslashes and control characters escaped. Reading decodes every standard escape, including \\u escapes and surrogate pairs, to exactly the denoted characters and rejects every other escape and lone surrogates; this holds for values, keys and tags, in order or out of order.",
 ["inputs"], "every Unicode string and every string literal",
 "Tests use a few ASCII strings with common escapes; no test covers control characters, \\u escapes, surrogate pairs or chars as values.",
 ["json/src/serialize/text.rs", "json/src/deserialize/text.rs"],
 [("escaping", "json/src/serialize/text.rs append_char"), ("unescaping", "json/src/deserialize/text.rs read_escape_sequence, next_char, read_str_bytes_into, read_str_bytes_into_or_match, get_char")],
 observe=["to_str / from_str of strings, chars and keys"])

prop("C16", "Wrapper misuse is caught, correct use never is",
 "Through the value, struct, tuple, list and object wrappers, an operation that would leave the underlying stack inconsistent (using a wrapper again after its value was consumed, or using a container while its current child value is unconsumed, or exceeding or underrunning a known list length) panics before it reaches the underlying serializer or deserializer. Correct use never panics, and after any wrapper operation succeeds, its completion is recorded exactly once.",
 ["histories"], "every sequence of wrapper calls, for every underlying serializer or deserializer",
 "Tests only use wrappers correctly; the flag protocol has to hold for every call sequence.",
 ["core/src/helper.rs", "json/src/helper.rs"],
 [("done_flag / ready_flag protocol", "core/src/helper.rs Value, Struct, Tuple, List"), ("object wrapper", "json/src/helper.rs Object, Entry, ValueExt")],
 state=[("done_flag", "set once the wrapped item has been popped", "core/src/helper.rs"), ("ready_flag", "the current child has been popped", "core/src/helper.rs"), ("rem_len", "items still expected in a list of known length", "core/src/helper.rs List")],
 observe=["calls reaching a recording serializer/deserializer", "panics"])

prop("C17", "Sequences keep length and order; fixed lengths are enforced",
 "A list is written and read as a JSON array with the same number of elements in the same order. Pairs, triples and fixed-size arrays are read only from JSON arrays with exactly that many elements, each element going to its own position; fewer or more elements are an error.",
 ["inputs"], "every array document and every list, tuple or array type and value, including nested and empty ones",
 "Tests read a few short lists; missing and extra elements are tried once or twice.",
 ["core/src/serialize.rs", "core/src/deserialize.rs", "json/src/deserialize/mod.rs", "json/src/deserialize/text.rs"],
 [("tuple and list impls", "core/src/serialize.rs, core/src/deserialize.rs"), ("item iteration", "json/src/deserialize/text.rs next_item; json/src/deserialize/mod.rs push_item, close_list")],
 observe=["from_str / to_str of Vec, tuples, arrays"])

prop("C18", "Null, missing entries and defaults are told apart correctly",
 "An Option of a non-nullable type is null exactly when it is None; an Option of a nullable type keeps every level distinct. In the object form of a struct a missing entry reads like null: None for such an Option, the default for a field marked default, and an error for every other field type; an entry that is present with a non-null value is never replaced by None or a default.",
 ["inputs", "programs"], "every nesting of Option, every struct with optional, default and required fields, every subset of entries present, null or set",
 "Tests cover one level of Option and one default field; the combinations of nesting, presence and order are not sampled.",
 ["core/src/serialize.rs", "core/src/deserialize.rs", "json/src/deserialize/mod.rs", "json/src/deserialize/text.rs", "derive/src/deserialize.rs"],
 [("Option impls", "core/src/serialize.rs, core/src/deserialize.rs"), ("virtual null", "json/src/deserialize/mod.rs push_field; json/src/deserialize/text.rs push_null, check_null, pop_null")],
 observe=["from_str / to_str of structs with Option and default fields"])

prop("C19", "Derived types use the declared wire layout",
 "A derived struct is written as a JSON object with one entry per field, in declaration order, under the field's wire name (its rename if given, its identifier otherwise), with flattened fields spread in place; a non-tag enum is written as an object whose first entry is the tag. It is read back from that object, or positionally from an array of the same values.",
 ["programs", "inputs"], "every derivable type definition (attributes rename, reindex, tag, transparent, flatten, default, proxy) and every value of it",
 "Tests derive about ten types and print one or two values each; the layout is a function of the definition, which tests can only sample.",
 ["derive/src/lib.rs", "derive/src/serialize.rs", "derive/src/deserialize.rs", "core/src/serialize.rs", "core/src/deserialize.rs", "json/src/deserialize/mod.rs"],
 [("derive expansion", "derive/src/serialize.rs, derive/src/deserialize.rs"), ("struct access", "core/src/helper.rs Struct; json/src/deserialize/mod.rs open_struct, push_field, close_struct")],
 observe=["to_str / from_str of derived types"])

prop("C20", "In-memory text and byte streams give the same result",
 "Deserializing a text from memory and deserializing its UTF-8 bytes from a stream, however the stream splits the bytes over reads, give the same value or both fail. Serializing to a string and to a byte sink produce the same bytes, however little the sink accepts per write.",
 ["inputs", "schedules"], "every text, every type, every split of the stream into reads and of the sink into writes",
 "Tests always read from one &str and almost always write to one String.",
 ["core/src/text_reader.rs", "core/src/text_writer.rs"],
 [("readers", "core/src/text_reader.rs impl TextReader for &str, Utf8Reader"), ("writers", "core/src/text_writer.rs String, Utf8Writer")],
 observe=["from_str vs from_reader(Utf8Reader)", "to_str vs to_writer(Utf8Writer)"])

prop("C21", "Non-zero integers never accept zero and keep every other value",
 "A non-zero integer type is read from exactly the JSON numbers its plain integer type accepts, except zero (in any notation), which is an error. It is written exactly like the plain integer.",
 ["inputs"], "every JSON value x the eight non-zero integer types",
 "Tests read one or two non-zero integers of one type.",
 ["core/src/deserialize.rs", "core/src/serialize.rs", "core/src/helper.rs"],
 [("validated reading", "core/src/helper.rs Value::validate_with; core/src/deserialize.rs NonZero impls"), ("writing", "core/src/serialize.rs NonZero impls")],
 observe=["from_str / to_str of NonZero types"])

prop("C22", "Unchecked string operations only ever see valid UTF-8",
 "Every byte range that is turned into a string without a check (buffered keys and strings read out of order, and the digit text of floats) is valid UTF-8, on character boundaries and inside its buffer. Consequently safe callers can never obtain an invalid string or read out of bounds, whatever the input.",
 ["inputs", "histories"], "every document, every order of asking for entries, keys and characters",
 "Invalid UTF-8 is undefined behaviour rather than a test failure; tests use a few ASCII keys.",
 ["json/src/deserialize/text.rs", "json/src/deserialize/number.rs", "core/src/text_reader.rs", "core/src/name_map.rs"],
 [("buffered strings", "json/src/deserialize/text.rs next_char, read_str_bytes_into, read_str_bytes_into_or_match, key_bytes, take_value"), ("float text", "json/src/deserialize/number.rs FloatBuilder::push_digit, as_str"), ("prefix", "core/src/text_reader.rs prefix")],
 observe=["strings and keys returned by the API"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
