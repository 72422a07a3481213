// What a number that was read is, as a function of its literal.
spec fn read_as<T: Num>(n: NumLit, r: Option<T>) -> bool {
    match r {
        Some(_) => fits::<T::Builder>(n.ds) && exists|exp: int| near(n.exp10(), exp) && #[trigger] T::reads(r, n.ds, n.negate, exp),
        None => refused::<T::Builder>(n.ds) || fits::<T::Builder>(n.ds) && exists|exp: int| near(n.exp10(), exp) && #[trigger] T::reads(r, n.ds, n.negate, exp),
    }
}
spec fn num_fact(n: NumLit) -> bool { digits_ok(n.ds) && n.ds.len() < LIMIT }
trait NumOf: Num {
    spec fn of(n: NumLit) -> Option<Self>;
    proof fn theorem_of(n: NumLit, r: Option<Self>)
        requires num_fact(n), read_as::<Self>(n, r)
        ensures r == Self::of(n);
}
