// What a number literal is read as.
spec fn int_min(ty: int) -> int { if ty == I8 { i8::MIN as int } else if ty == I16 { i16::MIN as int } else if ty == I32 { i32::MIN as int } else if ty == I64 { i64::MIN as int } else { 0 } }
spec fn int_max(ty: int) -> int {
    if ty == I8 { i8::MAX as int } else if ty == I16 { i16::MAX as int } else if ty == I32 { i32::MAX as int } else if ty == I64 { i64::MAX as int }
    else if ty == U8 { u8::MAX as int } else if ty == U16 { u16::MAX as int } else if ty == U32 { u32::MAX as int } else { u64::MAX as int }
}
/// The digits of a number are collected in the unsigned type of the same size.
spec fn digits_max(ty: int) -> int { if ty == I8 || ty == U8 { u8::MAX as int } else if ty == I16 || ty == U16 { u16::MAX as int } else if ty == I32 || ty == U32 { u32::MAX as int } else { u64::MAX as int } }
spec fn lit_is(n: NumLit, x: int) -> bool { is_exact(x, n.negate, val(n.ds), n.exp10()) }
/// The integer of the type that the number literal is exactly; none if its digits alone are too large.
spec fn int_of(ty: int, n: NumLit) -> Option<int> {
    if val(n.ds) <= digits_max(ty) && exists|x: int| int_min(ty) <= x <= int_max(ty) && #[trigger] lit_is(n, x) { Some(choose|x: int| int_min(ty) <= x <= int_max(ty) && #[trigger] lit_is(n, x)) } else { None }
}
//@for F in f32 f64
spec fn $F_of(n: NumLit) -> $F { let x = nearest_$F(val(n.ds), n.exp10()); if n.negate { neg_of_$F(x) } else { x } }
//@endfor
proof fn lemma_exact_unique(x: int, y: int, negate: bool, v: int, exp: int)
    requires is_exact(x, negate, v, exp), is_exact(y, negate, v, exp)
    ensures x == y
{
    if exp < 0 {
        vstd::arithmetic::power::lemma_pow_positive(10, (-exp) as nat);
        let p = pow(10, (-exp) as nat);
        assert(x == y) by (nonlinear_arith) requires x * p == y * p, p >= 1;
    }
}
proof fn lemma_int_of(ty: int, n: NumLit, x: int)
    requires val(n.ds) <= digits_max(ty), int_min(ty) <= x <= int_max(ty), lit_is(n, x)
    ensures int_of(ty, n) == Some(x)
{
    let y = choose|y: int| int_min(ty) <= y <= int_max(ty) && #[trigger] lit_is(n, y);
    lemma_exact_unique(x, y, n.negate, val(n.ds), n.exp10());
}
