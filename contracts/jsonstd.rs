//@include prelude0.rs
//@include opkinds.rs
//@include numabs.rs
//@include treerun.rs
//@include rawops.rs
//@include jsonstdsrc.rs
//@include jsonstdfns.rs
} // verus!
fn main() {}
