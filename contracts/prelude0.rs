#![allow(unused_imports, unused_mut, dead_code, unused_variables, unused_assignments, non_snake_case, unused_parens, unused_braces, mismatched_lifetime_syntaxes)]
use vstd::prelude::*;
use vstd::string::*;
use vstd::slice::*;
use std::cmp::Ordering;
verus! {

/// Stand-ins for the panicking macros: reaching a panic, or a false assertion, is a failed obligation.
#[verifier::external_body]
fn rt_panic() -> !
    requires false,
{ panic!() }
