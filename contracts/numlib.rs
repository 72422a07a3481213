// ---- What a JSON number denotes -----------------------------------------------------------------

/// The number whose decimal digits are `ds`.
spec fn val(ds: Seq<u8>) -> int
    decreases ds.len()
{
    if ds.len() == 0 { 0 } else { val(ds.drop_last()) * 10 + ds.last() }
}

/// `x` is exactly `v`, negated or not, times ten to the `exp`.
spec fn is_exact(x: int, negate: bool, v: int, exp: int) -> bool {
    let s = if negate { -v } else { v };
    if exp >= 0 { x == s * pow(10, exp as nat) } else { x * pow(10, (-exp) as nat) == s }
}

proof fn lemma_num(v: int, p: int)
    requires v > 0, p >= 1,
    ensures
        forall|x: int| #[trigger] (x * p) == v ==> x >= 1 && x == v / p && v % p == 0 && p <= v,
        forall|x: int| #[trigger] (x * p) == -v ==> x <= -1 && -x == v / p && v % p == 0 && p <= v,
        v % p == 0 ==> (v / p) * p == v && (-(v / p)) * p == -v,
        v * p >= p,
        v * p >= v,
        -v * p == -(v * p),
        v / p <= v,
        v / p >= 0,
{
    assert forall|x: int| #[trigger] (x * p) == v implies x >= 1 && x == v / p && v % p == 0 && p <= v by {
        assert(x >= 1 && p <= v) by (nonlinear_arith) requires x * p == v, v > 0, p >= 1;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v, p, x, 0);
    }
    assert forall|x: int| #[trigger] (x * p) == -v implies x <= -1 && -x == v / p && v % p == 0 && p <= v by {
        assert((-x) * p == v) by (nonlinear_arith) requires x * p == -v;
        assert(-x >= 1 && p <= v) by (nonlinear_arith) requires (-x) * p == v, v > 0, p >= 1;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v, p, -x, 0);
    }
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, p);
    assert(v % p == 0 ==> (v / p) * p == v && (-(v / p)) * p == -v) by (nonlinear_arith) requires v == p * (v / p) + v % p;
    assert(v * p >= p && v * p >= v && -v * p == -(v * p)) by (nonlinear_arith) requires v > 0, p >= 1;
    assert(0 <= v / p <= v) by (nonlinear_arith) requires v > 0, p >= 1;
}

/// Everything `from_builder` needs to know, for any exponent.
proof fn lemma_from_builder(v: int, exp: int)
    requires v >= 0,
    ensures
        pow(10, exp as nat) >= 1 && pow(10, (-exp) as nat) >= 1,
        v > 0 && exp >= 0 ==> v * pow(10, exp as nat) >= pow(10, exp as nat) && v * pow(10, exp as nat) >= v
            && -v * pow(10, exp as nat) == -(v * pow(10, exp as nat)),
        v == 0 ==> is_exact(0, true, v, exp) && is_exact(0, false, v, exp),
        v > 0 && exp < 0 ==> ({
            let p = pow(10, (-exp) as nat);
            &&& forall|x: int| #[trigger] (x * p) == v ==> x >= 1 && x == v / p && v % p == 0 && p <= v
            &&& forall|x: int| #[trigger] (x * p) == -v ==> x <= -1 && -x == v / p && v % p == 0 && p <= v
            &&& v % p == 0 ==> (v / p) * p == v && (-(v / p)) * p == -v
            &&& 0 <= v / p <= v
        }),
{
    vstd::arithmetic::power::lemma_pow_positive(10, exp as nat);
    vstd::arithmetic::power::lemma_pow_positive(10, (-exp) as nat);
    if v > 0 && exp >= 0 { lemma_num(v, pow(10, exp as nat)); }
    if v > 0 && exp < 0 { lemma_num(v, pow(10, (-exp) as nat)); }
    if v == 0 {
        assert(0 * pow(10, exp as nat) == 0);
        assert(0 * pow(10, (-exp) as nat) == 0);
    }
}

proof fn lemma_val_push(ds: Seq<u8>, d: u8)
    ensures val(ds.push(d)) == val(ds) * 10 + d
{
    assert(ds.push(d).drop_last() =~= ds);
}

proof fn lemma_val_nonneg(ds: Seq<u8>)
    ensures val(ds) >= 0
    decreases ds.len()
{
    if ds.len() > 0 { lemma_val_nonneg(ds.drop_last()); }
}

/// A longer number is not smaller.
proof fn lemma_val_prefix(ds: Seq<u8>, k: int)
    requires 0 <= k <= ds.len()
    ensures val(ds.take(k)) <= val(ds)
    decreases ds.len()
{
    if k < ds.len() {
        lemma_val_prefix(ds.drop_last(), k);
        assert(ds.drop_last().take(k) =~= ds.take(k));
        lemma_val_nonneg(ds.drop_last());
    } else { assert(ds.take(k) =~= ds); }
}

/// Texts are shorter than this (in characters).
spec const LIMIT: nat = 0x4000_0000;
/// More than what any integer type holds.
spec const LARGE: int = 1 + (0xFFFF_FFFF_FFFF_FFFF_FFFF_FFFF_FFFF_FFFF as int);

/// The exponent of the number, or one so large (or small) that the difference does not matter.
spec fn near(exact: int, exp: int) -> bool {
    exp == exact || LIMIT <= exp < exact || exact < exp <= -2 * LIMIT
}

spec fn digits_ok(ds: Seq<u8>) -> bool { forall|i: int| 0 <= i < ds.len() ==> #[trigger] ds[i] <= 9 }

proof fn lemma_val_bound(ds: Seq<u8>)
    requires digits_ok(ds)
    ensures 0 <= val(ds) < pow(10, ds.len())
    decreases ds.len()
{
    reveal(pow);
    if ds.len() > 0 {
        assert(digits_ok(ds.drop_last())) by { assert forall|i: int| 0 <= i < ds.len() - 1 implies #[trigger] ds.drop_last()[i] <= 9 by { assert(ds[i] <= 9); } }
        lemma_val_bound(ds.drop_last());
        assert(pow(10, ds.len()) == 10 * pow(10, (ds.len() - 1) as nat));
    }
}
/// For an exponent as extreme as this, no integer (of any of the types) but 0 is exact, whatever the exponent is.
proof fn lemma_far_exact(x: int, negate: bool, ds: Seq<u8>, exp: int)
    requires digits_ok(ds), ds.len() < LIMIT, -LARGE < x < LARGE, exp >= LIMIT || exp <= -LIMIT
    ensures is_exact(x, negate, val(ds), exp) == (x == 0 && val(ds) == 0)
{
    let v = val(ds);
    let s = if negate { -v } else { v };
    lemma_val_bound(ds);
    lemma_large();
    if exp >= 0 {
        let p = pow(10, exp as nat);
        vstd::arithmetic::power::lemma_pow_increases(10, 39, exp as nat);
        assert(p >= LARGE);
        assert(s >= 1 ==> s * p >= p) by (nonlinear_arith) requires p >= 1;
        assert(s <= -1 ==> s * p <= -p) by (nonlinear_arith) requires p >= 1;
        assert(s == 0 ==> s * p == 0) by (nonlinear_arith);
    } else {
        let p = pow(10, (-exp) as nat);
        vstd::arithmetic::power::lemma_pow_increases(10, ds.len(), (-exp) as nat);
        vstd::arithmetic::power::lemma_pow_positive(10, (-exp) as nat);
        assert(x >= 1 ==> x * p >= p) by (nonlinear_arith) requires p >= 1;
        assert(x <= -1 ==> x * p <= -p) by (nonlinear_arith) requires p >= 1;
        assert(x == 0 ==> x * p == 0) by (nonlinear_arith);
    }
}
proof fn lemma_large()
    ensures pow(10, 39) >= LARGE
{
    assert(pow(10, 39) >= LARGE) by (compute);
}
proof fn lemma_near_exact(x: int, negate: bool, ds: Seq<u8>, exp: int, exact: int)
    requires digits_ok(ds), ds.len() < LIMIT, -LARGE < x < LARGE, near(exact, exp)
    ensures is_exact(x, negate, val(ds), exp) == is_exact(x, negate, val(ds), exact)
{
    if exp != exact {
        lemma_far_exact(x, negate, ds, exp);
        lemma_far_exact(x, negate, ds, exact);
    }
}

// ---- Standard arithmetic which vstd does not specify ------------------------------------------------

pub assume_specification [i32::unsigned_abs] (x: i32) -> (r: u32)
    ensures r == (if x < 0 { -x } else { x as int });

pub assume_specification<T> [<T as From<T>>::from] (x: T) -> (r: T)
    ensures r == x;

//@for U in u8 u16 u32 u64 u128
pub assume_specification [$U::checked_pow] (x: $U, e: u32) -> (r: Option<$U>)
    ensures r == (if pow(x as int, e as nat) <= $U::MAX { Some(pow(x as int, e as nat) as $U) } else { None::<$U> });

pub assume_specification [$U::wrapping_rem] (x: $U, y: $U) -> (r: $U)
    requires y != 0
    ensures r == x % y;

pub assume_specification [$U::wrapping_div] (x: $U, y: $U) -> (r: $U)
    requires y != 0
    ensures r == x / y;
//@endfor

//@for I,U in i8,u8 i16,u16 i32,u32 i64,u64 i128,u128
pub assume_specification [<$I as TryFrom<$U>>::try_from] (x: $U) -> (r: Result<$I, <$I as TryFrom<$U>>::Error>)
    ensures r is Ok == (x <= $I::MAX), r is Ok ==> r->Ok_0 == x;
//@endfor

// ---- Building numbers -------------------------------------------------------------------------------

trait NumBuilder: Sized {
    /// The digits pushed so far are (or might be) `ds`.
    spec fn holds(&self, ds: Seq<u8>) -> bool;
    /// Digits which a builder of this type may refuse.
    spec fn too_big(ds: Seq<u8>) -> bool;
    /// The default value: no digits.
    fn fresh() -> (r: Self)
        ensures r.holds(Seq::empty());

//@use json/src/deserialize/number.rs
//@fn NumBuilder :: push_digit | ret=r sig
//@spec
    requires digit <= 9, exists|ds: Seq<u8>| #[trigger] old(self).holds(ds)
    ensures
        forall|ds: Seq<u8>| #[trigger] old(self).holds(ds) ==> if r { final(self).holds(ds.push(digit)) } else { Self::too_big(ds.push(digit)) }
//@end
}

trait Num: Sized {
    type Builder: NumBuilder;
    /// `r` is the right outcome for the number with the digits `ds` (as an integer), the sign `negate`, the exponent `exp`.
    spec fn reads(r: Option<Self>, ds: Seq<u8>, negate: bool, exp: int) -> bool;

//@fn Num :: from_builder | ret=r sig
//@spec
    requires exists|ds: Seq<u8>| #[trigger] builder.holds(ds)
    ensures forall|ds: Seq<u8>| #[trigger] builder.holds(ds) ==> Self::reads(r, ds, negate, exp_10 as int)
//@end
}
