/// A number, as written.
type NumT = Seq<char>;
/// The number a literal is read as, if it is accepted (unit numbers says which; here only that the literal decides).
uninterp spec fn int_read(ty: int, t: Seq<char>) -> Option<int>;
/// Every number literal is read as some float (the nearest one: unit numbers).
uninterp spec fn f32_read(t: Seq<char>) -> f32;
uninterp spec fn f64_read(t: Seq<char>) -> f64;
