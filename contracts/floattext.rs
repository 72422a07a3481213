/// The text ryu writes for a float (assumed of the crate ryu: a number literal, when the float is finite).
uninterp spec fn f32_text(x: f32) -> Seq<char>;
uninterp spec fn f64_text(x: f64) -> Seq<char>;
