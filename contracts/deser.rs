//@include prelude0.rs
//@include opkinds.rs
//@include numabs.rs
//@include treerun.rs
//@include ops.rs
//@include sources.rs
//@include wrappers.rs proved=wrap
//@include wrapvalidate.rs proved=wrap
//@include deserimpls.rs
} // verus!
fn main() {}
