//@include prelude.rs
use vstd::utf8::*;
use vstd::arithmetic::power::pow;
//@include utf8lib.rs
//@include reader.rs
//@include strreader_use.rs
//@include numlib.rs
//@include grammar.rs

// The contracts of the numbers, as proved in unit numbers.
//@use json/src/deserialize/number.rs
//@for U in u32
impl NumBuilder for $U {
    spec fn holds(&self, ds: Seq<u8>) -> bool { *self == val(ds) }
    spec fn too_big(ds: Seq<u8>) -> bool { val(ds) > $U::MAX }
    fn fresh() -> (r: Self) { 0 }
//@fn NumBuilder for $U :: push_digit | ret=r trusted
//@end
}
//@endfor
//@for T,U in i32,u32
impl Num for $T {
    type Builder = $U;
    spec fn reads(r: Option<Self>, ds: Seq<u8>, negate: bool, exp: int) -> bool {
        match r {
            Some(x) => is_exact(x as int, negate, val(ds), exp),
            None => forall|x: $T| !is_exact(x as int, negate, val(ds), exp),
        }
    }
//@fn Num for $T :: from_builder | ret=r trusted
//@end
}
//@endfor

proof fn lemma_plain_i32()
    ensures forall|r: Option<i32>, ds: Seq<u8>, negate: bool| #[trigger] i32::reads(r, ds, negate, 0) ==> {
        let x = if negate { -val(ds) } else { val(ds) };
        r == if i32::MIN <= x <= i32::MAX { Some(x as i32) } else { None::<i32> }
    }
{
    lemma_pow0(10);
    assert forall|r: Option<i32>, ds: Seq<u8>, negate: bool| #[trigger] i32::reads(r, ds, negate, 0) implies ({
        let x = if negate { -val(ds) } else { val(ds) };
        r == if i32::MIN <= x <= i32::MAX { Some(x as i32) } else { None::<i32> }
    }) by {
        let x = if negate { -val(ds) } else { val(ds) };
        assert(x * pow(10, 0) == x);
        assert forall|y: i32| is_exact(y as int, negate, val(ds), 0) == (y == x) by { }
        if i32::MIN <= x <= i32::MAX { assert(is_exact(x as i32 as int, negate, val(ds), 0)); }
    }
}

//@include lexfns.rs

} // verus!
fn main() {}
