//@include prelude.rs
use vstd::utf8::*;
use vstd::arithmetic::power::pow;
//@include utf8lib.rs
//@include numlib.rs
//@include grammar.rs
//@include itoatext.rs
//@include jsontree.rs
//@include writerspec.rs
//@include jsonwrite.rs
//@include jsonround.rs
//@include inttext.rs
//@include jsonread.rs
//@include jsonlayout.rs
//@include opkinds.rs
//@include textrun.rs
//@include valuetree.rs

} // verus!
fn main() {}
