//@include prelude.rs
use vstd::utf8::*;
use vstd::arithmetic::power::pow;
//@include utf8lib.rs
//@include reader.rs
//@include strreader_use.rs
//@include numlib.rs
//@include grammar.rs
//@include opkinds.rs
//@include floatdef.rs
//@include numdef.rs
//@include treerun.rs
//@include jsonparse.rs
//@include rawops.rs
//@include jsonstdsrc.rs proved=jsonstd
//@include keyedlib.rs
//@include textstate.rs
//@include lexfns.rs proved=lexer
//@include numof.rs
//@include textinv.rs
//@include textrawfns.rs proved=textraw
//@include textlens.rs proved=textraw
//@include textrawops.rs proved=textraw
//@include textpush.rs proved=textraw
//@include texttry.rs proved=textpushkey
//@include textglue.rs
} // verus!
fn main() {}
