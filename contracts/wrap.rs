//@include prelude0.rs
//@include opkinds.rs
/// What an implementation remembers; any type with any behaviour.
#[verifier::external_body]
struct Sem { x: u8 }
uninterp spec fn run(s: Sem, op: Op) -> Option<(Ret, Sem)>;
//@include ops.rs
//@include sources.rs
//@include wrappers.rs
//@include jsonsources.rs
//@include jsonwrappers.rs
//@include wrapwith.rs
//@include wrapuse.rs
} // verus!
fn main() {}
