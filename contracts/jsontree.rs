// ---- JSON documents and what they denote (RFC 8259) ------------------------------------------------------

/// The value a JSON text denotes. Numbers are kept as written.
enum J { Null, Bool(bool), Num(NumT), Str(Seq<char>), Arr(Seq<J>), Obj(Seq<(Seq<char>, J)>) }

/// A number, as written.
type NumT = Seq<char>;
spec fn num_rep(s: Seq<char>, t: Seq<char>) -> NumT { s.take(s.len() - t.len()) }
//@include jsonparse.rs
