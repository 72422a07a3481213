// What is read is a function of the literal.
//@for T,U,V in u8,u8,U8 u16,u16,U16 u32,u32,U32 u64,u64,U64 i8,u8,I8 i16,u16,I16 i32,u32,I32 i64,u64,I64
proof fn lemma_of_$T(n: NumLit, r: Option<$T>)
    requires num_fact(n), read_as(n, r)
    ensures int_of($V, n) == match r { Some(x) => Some(x as int), None => None }
{
    if r is None && refused::<$U>(n.ds) {
        let a = choose|a: Seq<u8>| #[trigger] <$U as NumBuilder>::too_big(a) && a.is_prefix_of(n.ds);
        lemma_val_prefix(n.ds, a.len() as int);
        assert(a =~= n.ds.take(a.len() as int));
        assert(val(a) > $U::MAX);
    } else {
        let exp = choose|exp: int| near(n.exp10(), exp) && #[trigger] $T::reads(r, n.ds, n.negate, exp);
        assert forall|x: $T| is_exact(x as int, n.negate, val(n.ds), exp) == is_exact(x as int, n.negate, val(n.ds), n.exp10()) by {
            lemma_near_exact(x as int, n.negate, n.ds, exp, n.exp10());
        }
        if r is Some { let x = r->0; assert(is_exact(x as int, n.negate, val(n.ds), exp)); let b = choose|b: $U| #[trigger] b.holds(n.ds); assert(b.holds(n.ds)); lemma_int_of($V, n, x as int); }
        else if int_of($V, n) is Some {
            let x = choose|x: int| int_min($V) <= x <= int_max($V) && #[trigger] lit_is(n, x);
            let y = x as $T;
            assert(y as int == x);
            assert(is_exact(y as int, n.negate, val(n.ds), exp));
        }
    }
}
impl NumOf for $T {
    spec fn of(n: NumLit) -> Option<$T> { match int_of($V, n) { Some(x) => Some(x as $T), None => None } }
    proof fn theorem_of(n: NumLit, r: Option<$T>) { lemma_of_$T(n, r); }
}
//@endfor
//@for F in f32 f64
/// Numbers beyond the range of $F are infinite or zero, whatever the exponent is exactly: assumed of the standard library's parser
/// (the number has fewer than LIMIT digits).
axiom fn axiom_far_$F(ds: Seq<u8>, exact: int, exp: int)
    requires digits_ok(ds), ds.len() < LIMIT, near(exact, exp)
    ensures nearest_$F(val(ds), exp) == nearest_$F(val(ds), exact);
impl NumOf for $F {
    spec fn of(n: NumLit) -> Option<$F> { Some($F_of(n)) }
    proof fn theorem_of(n: NumLit, r: Option<$F>) {
        if r is None && refused::<FloatBuilder>(n.ds) { }
        else {
            let exp = choose|exp: int| near(n.exp10(), exp) && #[trigger] <$F as Num>::reads(r, n.ds, n.negate, exp);
            axiom_far_$F(n.ds, n.exp10(), exp);
        }
    }
}
//@endfor
