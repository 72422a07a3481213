//@include prelude.rs
use vstd::utf8::*;
use vstd::arithmetic::power::pow;
//@include utf8lib.rs
//@include numlib.rs
//@include grammar.rs
//@include itoatext.rs
//@include opkinds.rs
//@include floatdef.rs
//@include inttext.rs
//@include numdef.rs
//@include numread.rs
//@include numimpls.rs
//@include numof.rs
//@include numofimpls.rs

// ---- What reading a number means, type by type -----------------------------------------------------------

//@for T,U in u8,u8 u16,u16 u32,u32 u64,u64 u128,u128 i8,u8 i16,u16 i32,u32 i64,u64 i128,u128
/// What `read_number` says for this type: the number is read exactly, or it is none of this type (or its digits alone do not fit).
proof fn theorem_read_$T(s: Seq<char>, r: Option<$T>)
    requires s.len() < LIMIT, number_read::<$T>(s, r)
    ensures match r {
        Some(x) => num_lit(s) is Some && is_exact(x as int, (num_lit(s)->0).0.negate, val((num_lit(s)->0).0.ds), (num_lit(s)->0).0.exp10()),
        None => num_lit(s) is Some ==> val((num_lit(s)->0).0.ds) > $U::MAX
            || forall|x: $T| !is_exact(x as int, (num_lit(s)->0).0.negate, val((num_lit(s)->0).0.ds), (num_lit(s)->0).0.exp10()),
    }
{
    if num_lit(s) is Some {
        let n = (num_lit(s)->0).0;
        lemma_num_len(s);
        if r is None && refused::<$U>(n.ds) {
            let a = choose|a: Seq<u8>| #[trigger] <$U as NumBuilder>::too_big(a) && a.is_prefix_of(n.ds);
            lemma_val_prefix(n.ds, a.len() as int);
            assert(a =~= n.ds.take(a.len() as int));
            assert(val(a) > $U::MAX);
        } else {
            let exp = choose|exp: int| near(n.exp10(), exp) && #[trigger] $T::reads(r, n.ds, n.negate, exp);
            assert forall|x: $T| is_exact(x as int, n.negate, val(n.ds), exp) == is_exact(x as int, n.negate, val(n.ds), n.exp10()) by {
                lemma_near_exact(x as int, n.negate, n.ds, exp, n.exp10());
            }
            if r is Some { let x = r->0; assert(is_exact(x as int, n.negate, val(n.ds), exp)); }
            else { assert forall|x: $T| !is_exact(x as int, n.negate, val(n.ds), n.exp10()) by { assert(!is_exact(x as int, n.negate, val(n.ds), exp)); } }
        }
    }
}
//@endfor

//@for T,V in u8,U8 u16,U16 u32,U32 u64,U64 i8,I8 i16,I16 i32,I32 i64,I64
/// What is read is a function of the literal: `int_of`.
proof fn theorem_int_read_$T(s: Seq<char>, r: Option<$T>)
    requires s.len() < LIMIT, number_read::<$T>(s, r)
    ensures match num_lit(s) { None => r is None, Some((n, _)) => int_of($V, n) == match r { Some(x) => Some(x as int), None => None } }
{
    theorem_read_$T(s, r);
    if num_lit(s) is Some {
        let n = (num_lit(s)->0).0;
        if r is Some { lemma_int_of($V, n, r->0 as int); }
        else if int_of($V, n) is Some {
            let x = choose|x: int| int_min($V) <= x <= int_max($V) && #[trigger] lit_is(n, x);
            let y = x as $T;
            assert(y as int == x);
            assert(is_exact(y as int, n.negate, val(n.ds), n.exp10()));
        }
    }
}
//@endfor
//@for F in f32 f64
/// What `read_number` says for this type.
proof fn theorem_read_$F(s: Seq<char>, r: Option<$F>)
    requires s.len() < LIMIT, number_read::<$F>(s, r)
    ensures match r {
        Some(x) => num_lit(s) is Some && {
            let n = (num_lit(s)->0).0;
            x == $F_of(n)
        },
        None => num_lit(s) is None,
    }
{
    if num_lit(s) is Some {
        let n = (num_lit(s)->0).0;
        lemma_num_len(s);
        if r is None && refused::<FloatBuilder>(n.ds) { }
        else {
            let exp = choose|exp: int| near(n.exp10(), exp) && #[trigger] <$F as Num>::reads(r, n.ds, n.negate, exp);
            axiom_far_$F(n.ds, n.exp10(), exp);
        }
    }
}
//@endfor
} // verus!
fn main() {}
