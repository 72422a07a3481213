//@for F in f32 f64
/// The value of type $F nearest to v times ten to the exp (ties to even, overflow to infinity).
uninterp spec fn nearest_$F(v: int, exp: int) -> $F;
uninterp spec fn neg_of_$F(x: $F) -> $F;
//@endfor
