// The stack-based API as a history of operations. `W` is the ghost state of an Outliner: the abstract stack of the API
// documentation, whether an operation has failed already (then nothing more is promised), whether the source or
// destination may fail on its own, whether the source is malformed (then only the stack is promised, until an operation
// fails), whether `null` is supported, what the implementation remembers (`Sem`), and a bound on how much is left to read.
// `run` says what one operation does to an implementation: its answer and the state after it, or None for an error.
//@include apistack.rs
struct W { sem: Sem, stack: Stack, failed: bool, faulty: bool, bad: bool, null: bool, fuel: nat }
spec fn same(a: W, b: W) -> bool { b.faulty == a.faulty && b.bad == a.bad && b.null == a.null && b.fuel <= a.fuel }
/// Did the operation take something that is counted?
spec fn took(op: Op, ret: Ret) -> bool { match op { Op::NextItem | Op::NextEntry => ret == Ret::Bool(true), Op::NextChar => ret != Ret::MaybeChar(None), _ => false } }

spec fn may(a: W, op: Op) -> bool { a.failed || can(a.stack, op) }
/// The operation answered `ret`: state before, state after.
spec fn done(a: W, op: Op, ret: Ret, b: W) -> bool {
    &&& same(a, b) && b.failed == a.failed
    &&& !a.failed ==> b.stack == eff(a.stack, op, ret) && ret_ok(a.stack, op, ret) && (took(op, ret) ==> b.fuel < a.fuel) && (!a.bad ==> run(a.sem, op) == Some((ret, b.sem)))
}
/// The operation reported an error.
spec fn err(a: W, op: Op, b: W) -> bool {
    &&& same(a, b) && b.failed
    &&& !a.failed ==> a.faulty || a.bad || run(a.sem, op) is None
}
spec fn nat_of(n: usize) -> nat { n as nat }

/// `strict()`: wrappers are used correctly (then no assertion of a wrapper may fail). Without it an assertion may stop
/// the code, and everything after it can rely on what it asserts. Both cases are proved at once: nothing is known about it.
uninterp spec fn strict() -> bool;
#[verifier::external_body]
fn rt_assert(b: bool)
    requires strict() ==> b
    ensures b
{ assert!(b) }

/// A value wrapper whose value was not consumed has a value on top of the stack.
spec fn value_ok(w: W, done_flag: bool) -> bool { !done_flag ==> w.failed || top_is(w.stack, Fr::Value) }
/// A wrapper operation succeeded: it was not used before, the operation was done once, and this is recorded.
spec fn used(a: W, af: bool, op: Op, ret: Ret, b: W, bf: bool) -> bool { !af && bf && done(a, op, ret, b) }
/// A wrapper operation failed: nothing is recorded.
spec fn stuck(a: W, af: bool, op: Op, b: W, bf: bool) -> bool { !af && !bf && err(a, op, b) }
