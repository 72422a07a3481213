//@include prelude0.rs
//@include opkinds.rs
/// What a serializer remembers; any type with any behaviour.
#[verifier::external_body]
struct Sem { x: u8 }
uninterp spec fn run(s: Sem, op: Op) -> Option<(Ret, Sem)>;
//@include ops.rs
//@include sources.rs
//@include wrappers.rs proved=wrap
//@include values.rs
//@include serimpls.rs
} // verus!
fn main() {}
