/// The bytes `b` with a text after them.
spec fn out(b: Seq<u8>, cs: Seq<char>) -> Seq<u8> { b + encode_utf8(cs) }
