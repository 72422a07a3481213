// What the text of a number is read as.
spec fn int_read(ty: int, t: Seq<char>) -> Option<int> { match num_lit(t) { Some((n, rest)) => if rest.len() == 0 { int_of(ty, n) } else { None }, None => None } }
//@for F in f32 f64
spec fn $F_read(t: Seq<char>) -> $F { $F_of((num_lit(t)->0).0) }
//@endfor
/// An integer is read as what was written.
proof fn theorem_int_text(ty: int, i: int)
    requires int_min(ty) <= i <= int_max(ty)
    ensures int_read(ty, int_text(i)) == Some(i)
{
    theorem_int(i);
    let n = (num_lit(int_text(i))->0).0;
    assert(pow(10, 0) == 1) by { reveal(pow); }
    assert(lit_is(n, i));
    lemma_int_of(ty, n, i);
}
