spec fn nat_text(v: nat) -> Seq<char>
    decreases v
{
    if v < 10 { seq![(48 + v) as char] } else { nat_text(v / 10).push((48 + v % 10) as char) }
}
spec fn int_text(v: int) -> Seq<char> {
    if v < 0 { seq!['-'] + nat_text((-v) as nat) } else { nat_text(v as nat) }
}
