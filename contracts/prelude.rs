//@include prelude0.rs

fn rt_assert(b: bool)
    requires b,
{ }

