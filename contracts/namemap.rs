//@include prelude.rs
//@use core/src/name_map.rs

// ---------------------------------------------------------------- trusted: standard library
/// A string's UTF-8 length fits `isize` (an allocation or static never exceeds it).
#[verifier::external_body]
proof fn axiom_str_len(s: &str)
    ensures vstd::utf8::encode_utf8(s@).len() <= isize::MAX,
{ }
pub assume_specification [char::encode_utf8] (_0: char, b: &mut [u8]) -> (r: &mut str)
    requires old(b)@.len() >= 4,
    ensures r@ == seq![_0];

// ---------------------------------------------------------------- specification
/// The bytes of a name.
pub open spec fn bytes(s: &str) -> Seq<u8> { vstd::utf8::encode_utf8(s@) }

/// Strict lexicographic order.
pub open spec fn lt_at(a: Seq<u8>, b: Seq<u8>, k: int) -> bool {
    &&& 0 <= k <= a.len() && k < b.len()
    &&& (forall|i: int| 0 <= i < k ==> a[i] == b[i])
    &&& (k == a.len() || a[k] < b[k])
}
pub open spec fn lt(a: Seq<u8>, b: Seq<u8>) -> bool { exists|k: int| lt_at(a, b, k) }
pub open spec fn leq(a: Seq<u8>, b: Seq<u8>) -> bool { lt(a, b) || a == b }

pub open spec fn key<T>(e: Seq<(&'static str, T)>, i: int) -> Seq<u8> { bytes(e[i].0) }

/// Strictly ascending by name.
pub open spec fn ascending<T>(e: Seq<(&'static str, T)>) -> bool {
    forall|i: int, j: int| #![trigger e[i], e[j]] 0 <= i < j < e.len() ==> lt(key(e, i), key(e, j))
}
pub open spec fn starts(s: Seq<u8>, p: Seq<u8>) -> bool {
    p.len() <= s.len() && s.subrange(0, p.len() as int) == p
}
pub open spec fn trunc(s: Seq<u8>, start: int, len: int) -> Seq<u8> {
    s.subrange(start, if start + len < s.len() { start + len } else { s.len() as int })
}
pub open spec fn distinct<T>(e: Seq<(&'static str, T)>) -> bool {
    forall|i: int, j: int| #![trigger e[i], e[j]] 0 <= i < j < e.len() ==> key(e, i) != key(e, j)
}

// ---------------------------------------------------------------- lemmas
proof fn lt_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires lt(a, b), lt(b, c),
    ensures lt(a, c),
{
    let k = choose|k: int| lt_at(a, b, k);
    let l = choose|k: int| lt_at(b, c, k);
    let m = if k < l { k } else { l };
    assert(lt_at(a, c, m));
}
proof fn le_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires leq(a, b), leq(b, c),
    ensures leq(a, c), (lt(a, b) || lt(b, c)) ==> lt(a, c),
{
    if lt(a, b) && lt(b, c) { lt_trans(a, b, c); }
}
proof fn lt_asym(a: Seq<u8>, b: Seq<u8>)
    ensures !(lt(a, b) && lt(b, a)), !lt(a, a),
{
    if lt(a, a) { let k = choose|k: int| lt_at(a, a, k); }
    if lt(a, b) && lt(b, a) { lt_trans(a, b, a); let k = choose|k: int| lt_at(a, a, k); }
}
proof fn trunc_mono(input: Seq<u8>, a: Seq<u8>, b: Seq<u8>, len: int)
    requires lt(a, b), starts(a, input), starts(b, input), len >= 0,
    ensures leq(trunc(a, input.len() as int, len), trunc(b, input.len() as int, len)),
{
    let n = input.len() as int;
    let k = choose|k: int| lt_at(a, b, k);
    assert(forall|i: int| 0 <= i < n ==> a[i] == input[i]) by { assert(forall|i: int| 0 <= i < n ==> a.subrange(0, n)[i] == a[i]); }
    assert(forall|i: int| 0 <= i < n ==> b[i] == input[i]) by { assert(forall|i: int| 0 <= i < n ==> b.subrange(0, n)[i] == b[i]); }
    let ta = trunc(a, n, len);
    let tb = trunc(b, n, len);
    if k < n + len {
        assert(lt_at(ta, tb, k - n));
    } else {
        assert(ta =~= tb);
    }
}
proof fn starts_append(s: Seq<u8>, p: Seq<u8>, d: Seq<u8>)
    requires starts(s, p),
    ensures starts(s, p + d) == (trunc(s, p.len() as int, d.len() as int) == d),
{
    let n = p.len() as int;
    let t = trunc(s, n, d.len() as int);
    if t == d {
        assert(s.subrange(0, n + d.len()) =~= s.subrange(0, n) + t);
    }
    if starts(s, p + d) {
        assert forall|i: int| 0 <= i < d.len() implies t[i] == d[i] by {
            assert(s.subrange(0, n + d.len())[n + i] == (p + d)[n + i]);
        }
        assert(t =~= d);
    }
}
proof fn starts_shorter(s: Seq<u8>, p: Seq<u8>, d: Seq<u8>)
    requires starts(s, p + d),
    ensures starts(s, p),
{
    assert(s.subrange(0, p.len() as int) =~= s.subrange(0, (p + d).len() as int).subrange(0, p.len() as int));
    assert((p + d).subrange(0, p.len() as int) =~= p);
}

// ---------------------------------------------------------------- types
//@item struct NameMap
//@item struct FixedNameMap
//@item struct NameMapLookup

impl<T> NameMap<T> {
    /// What every `NameMap` built by `FixedNameMap::new` from distinct names satisfies.
    spec fn wf(&self) -> bool { ascending(self.0@) }
    spec fn all(&self) -> Seq<(&'static str, T)> { self.0@ }
}
impl<T, const N: usize> FixedNameMap<T, N> {
    spec fn all(&self) -> Seq<(&'static str, T)> { self.0@ }
}
pub open spec fn window<T>(cands: Seq<(&'static str, T)>, all: Seq<(&'static str, T)>, input: Seq<u8>, lo: int, hi: int) -> bool {
    &&& 0 <= lo <= hi <= all.len()
    &&& cands == all.subrange(lo, hi)
    &&& forall|i: int| #![trigger all[i]] 0 <= i < all.len() ==> (lo <= i < hi <==> starts(key(all, i), input))
}
pub open spec fn windowed<T>(cands: Seq<(&'static str, T)>, all: Seq<(&'static str, T)>, input: Seq<u8>) -> bool {
    exists|lo: int, hi: int| window(cands, all, input, lo, hi)
}
impl<'a, T> NameMapLookup<'a, T> {
    /// This lookup is about the table `all`, and `input` has been written to it so far.
    spec fn repr(&self, all: Seq<(&'static str, T)>, input: Seq<u8>) -> bool {
        &&& ascending(all)
        &&& self.input_len == input.len()
        &&& windowed(self.cands@, all, input)
    }
    spec fn wf(&self) -> bool {
        exists|all: Seq<(&'static str, T)>, input: Seq<u8>| self.repr(all, input)
    }
    spec fn len(&self) -> nat { self.input_len as nat }
}
/// Looking up `name` in the table `all` has to give `r`.
pub open spec fn found<T>(all: Seq<(&'static str, T)>, name: Seq<u8>, r: Option<&T>) -> bool {
    match r {
        Some(v) => exists|i: int| #![trigger all[i]] 0 <= i < all.len() && key(all, i) == name && *v == all[i].1,
        None => forall|i: int| #![trigger all[i]] 0 <= i < all.len() ==> key(all, i) != name,
    }
}
// ---------------------------------------------------------------- code
//@fn cmp_bytes | loops=1
//@spec
    ensures
        r == Ordering::Less <==> lt(left@, right@),
        r == Ordering::Greater <==> lt(right@, left@),
        r == Ordering::Equal <==> left@ == right@,
        r == Ordering::Less || r == Ordering::Greater || r == Ordering::Equal,
//@entry
    proof { lt_asym(left@, right@); lt_asym(right@, left@); lt_asym(left@, left@); }
//@loop 1
        invariant
            i <= left.len(), i <= right.len(),
            forall|k: int| 0 <= k < i ==> left@[k] == right@[k],
            !(lt(left@, right@) && lt(right@, left@)),
            !lt(left@, left@),
        decreases left.len() - i,
//@in 1
        proof {
            if i == left.len() && i < right.len() { assert(lt_at(left@, right@, i as int)); }
            if i == right.len() && i < left.len() { assert(lt_at(right@, left@, i as int)); }
            if i < left.len() && i < right.len() && left@[i as int] < right@[i as int] { assert(lt_at(left@, right@, i as int)); }
            if i < left.len() && i < right.len() && left@[i as int] > right@[i as int] { assert(lt_at(right@, left@, i as int)); }
            if i == left.len() && i == right.len() { assert(left@ =~= right@); }
        }
//@end

//@fn cmp_str
//@spec
    ensures
        r == Ordering::Less <==> lt(bytes(left), bytes(right)),
        r == Ordering::Greater <==> lt(bytes(right), bytes(left)),
        r == Ordering::Equal <==> bytes(left) == bytes(right),
        r == Ordering::Less || r == Ordering::Greater || r == Ordering::Equal,
//@end

//@fn truncate_slice
//@spec
    requires start <= data.len(),
    ensures r@ == data@.subrange(start as int, if start + len < data@.len() { start + len } else { data@.len() as int }),
//@end

impl<T> NameMap<T> {
//@fn NameMap :: lookup
//@spec
    requires self.wf(),
    ensures r.repr(self.all(), Seq::empty()), r.len() == 0,
//@entry
    proof {
        let all = self.all();
        assert(all.subrange(0, all.len() as int) =~= all);
        assert forall|i: int| #![trigger all[i]] 0 <= i < all.len() implies starts(key(all, i), Seq::empty()) by {
            assert(key(all, i).subrange(0, 0) =~= Seq::empty());
        }
        assert(window(self.0@, all, Seq::empty(), 0, all.len() as int));
        assert(ascending(all));
        assert(Seq::<u8>::empty().len() == 0);
    }
//@end
//@fn NameMap :: get
//@spec
    requires self.wf(),
    ensures found(self.all(), bytes(name), r),
//@entry
    proof { axiom_str_len(name); let all = self.all(); assert(Seq::<u8>::empty() + bytes(name) =~= bytes(name)); }
//@end
//@fn NameMap :: size
//@spec
    ensures r == self.all().len(),
//@end
}

/// The part of the name of candidate `i` that is compared with the next `len` bytes.
pub open spec fn tk<T>(c: Seq<(&'static str, T)>, n: int, len: int, i: int) -> Seq<u8> { trunc(key(c, i), n, len) }
/// The candidates are ordered by that part.
pub open spec fn ordered<T>(c: Seq<(&'static str, T)>, n: int, data: Seq<u8>) -> bool {
    let len = data.len() as int;
    &&& forall|i: int| #![trigger c[i]] 0 <= i < c.len() ==> n <= key(c, i).len()
    &&& forall|i: int, j: int| #![trigger c[i], c[j]] 0 <= i <= j < c.len() ==> {
        &&& lt(tk(c, n, len, j), data) ==> lt(tk(c, n, len, i), data)
        &&& lt(data, tk(c, n, len, i)) ==> lt(data, tk(c, n, len, j))
        &&& tk(c, n, len, j) == data ==> leq(tk(c, n, len, i), data)
        &&& tk(c, n, len, i) == data ==> leq(data, tk(c, n, len, j))
    }
    &&& forall|i: int| #![trigger c[i]] 0 <= i < c.len() ==> {
        &&& !(lt(tk(c, n, len, i), data) && lt(data, tk(c, n, len, i)))
        &&& lt(tk(c, n, len, i), data) ==> tk(c, n, len, i) != data
        &&& lt(data, tk(c, n, len, i)) ==> tk(c, n, len, i) != data
    }
}
/// Writing `data` keeps exactly the candidates `lo..hi`.
pub open spec fn narrowed<T>(cands: Seq<(&'static str, T)>, n: int, data: Seq<u8>, lo: int, hi: int) -> bool {
    &&& 0 <= lo <= hi <= cands.len()
    &&& forall|i: int| #![trigger cands[i]] 0 <= i < cands.len() ==> (lo <= i < hi <==> tk(cands, n, data.len() as int, i) == data)
}
proof fn repr_narrow<T>(old_cands: Seq<(&'static str, T)>, all: Seq<(&'static str, T)>, input: Seq<u8>, data: Seq<u8>, wlo: int, whi: int, lo: int, hi: int)
    requires
        window(old_cands, all, input, wlo, whi),
        narrowed(old_cands, input.len() as int, data, lo, hi),
    ensures
        window(old_cands.subrange(lo, hi), all, input + data, wlo + lo, wlo + hi),
{
    assert(old_cands.subrange(lo, hi) =~= all.subrange(wlo + lo, wlo + hi));
    assert forall|i: int| #![trigger all[i]] 0 <= i < all.len() implies (wlo + lo <= i < wlo + hi <==> starts(key(all, i), input + data)) by {
        if wlo <= i < whi {
            assert(old_cands[i - wlo] == all[i]);
            assert(key(old_cands, i - wlo) == key(all, i));
            starts_append(key(all, i), input, data);
        } else {
            if starts(key(all, i), input + data) { starts_shorter(key(all, i), input, data); }
        }
    }
}

proof fn ordered_cands<T>(c: Seq<(&'static str, T)>, all: Seq<(&'static str, T)>, input: Seq<u8>, data: Seq<u8>, lo: int, hi: int)
    requires window(c, all, input, lo, hi), ascending(all),
    ensures ordered(c, input.len() as int, data),
{
    let n = input.len() as int;
    let len = data.len() as int;
    assert forall|i: int| #![trigger c[i]] 0 <= i < c.len() implies starts(key(c, i), input) by {
        assert(c[i] == all[lo + i]);
        assert(key(all, lo + i) == key(c, i));
    }
    assert forall|i: int, j: int| #![trigger c[i], c[j]] 0 <= i <= j < c.len() implies {
        &&& lt(tk(c, n, len, j), data) ==> lt(tk(c, n, len, i), data)
        &&& lt(data, tk(c, n, len, i)) ==> lt(data, tk(c, n, len, j))
        &&& tk(c, n, len, j) == data ==> leq(tk(c, n, len, i), data)
        &&& tk(c, n, len, i) == data ==> leq(data, tk(c, n, len, j))
    } by {
        assert(key(all, lo + i) == key(c, i));
        assert(key(all, lo + j) == key(c, j));
        let a = tk(c, n, len, i);
        let b = tk(c, n, len, j);
        if i < j { trunc_mono(input, key(c, i), key(c, j), len); }
        assert(leq(a, b));
        if lt(b, data) { le_trans(a, b, data); }
        if lt(data, a) { le_trans(data, a, b); }
    }
    assert forall|i: int| #![trigger c[i]] 0 <= i < c.len() implies {
        &&& !(lt(tk(c, n, len, i), data) && lt(data, tk(c, n, len, i)))
        &&& lt(tk(c, n, len, i), data) ==> tk(c, n, len, i) != data
        &&& lt(data, tk(c, n, len, i)) ==> tk(c, n, len, i) != data
    } by {
        lt_asym(tk(c, n, len, i), data); lt_asym(data, data);
    }
}

/// The shortest name with the prefix `input` comes first; it is `input` itself if that is a name.
proof fn result_found<T>(c: Seq<(&'static str, T)>, all: Seq<(&'static str, T)>, input: Seq<u8>)
    requires ascending(all), windowed(c, all, input),
    ensures
        c.len() > 0 && key(c, 0).len() == input.len() ==> found(all, input, Some(&c[0].1)),
        !(c.len() > 0 && key(c, 0).len() == input.len()) ==> found::<T>(all, input, None),
{
    let (lo, hi): (int, int) = choose|lo: int, hi: int| window(c, all, input, lo, hi);
    if c.len() > 0 {
        assert(c[0] == all[lo]);
        if key(c, 0).len() == input.len() {
            assert(key(all, lo).subrange(0, input.len() as int) =~= key(all, lo));
            assert(key(all, lo) == input);
        }
    }
    assert forall|i: int| #![trigger all[i]] 0 <= i < all.len() && key(all, i) == input implies
        c.len() > 0 && key(c, 0).len() == input.len() by {
        assert(input.subrange(0, input.len() as int) =~= input);
        assert(starts(key(all, i), input));
        assert(lo <= i < hi);
        if lo < i {
            assert(lt(key(all, lo), key(all, i)));
            assert(starts(key(all, lo), input));
            let k = choose|k: int| lt_at(key(all, lo), key(all, i), k);
            assert(key(all, lo).subrange(0, input.len() as int)[k] == key(all, lo)[k]);
        }
    }
}

impl<'a, T> NameMapLookup<'a, T> {
//@fn NameMapLookup :: write_str
//@spec
    requires old(self).wf(), old(self).len() + bytes(str).len() <= usize::MAX,
    ensures
        forall|all: Seq<(&'static str, T)>, input: Seq<u8>| #[trigger] old(self).repr(all, input) ==> final(self).repr(all, input + bytes(str)),
        final(self).wf(), final(self).len() == old(self).len() + bytes(str).len(),
//@end

//@fn NameMapLookup :: write_char
//@spec
    requires old(self).wf(), old(self).len() + vstd::utf8::encode_utf8(seq![ch]).len() <= usize::MAX,
    ensures
        forall|all: Seq<(&'static str, T)>, input: Seq<u8>| #[trigger] old(self).repr(all, input) ==> final(self).repr(all, input + vstd::utf8::encode_utf8(seq![ch])),
        final(self).wf(), final(self).len() == old(self).len() + vstd::utf8::encode_utf8(seq![ch]).len(),
//@end

//@fn NameMapLookup :: write_bytes | loops=3
//@spec
    requires old(self).wf(), old(self).len() + data@.len() <= usize::MAX,
    ensures
        forall|all: Seq<(&'static str, T)>, input: Seq<u8>| #[trigger] old(self).repr(all, input) ==> final(self).repr(all, input + data@),
        final(self).wf(), final(self).len() == old(self).len() + data@.len(),
//@entry
        let ghost (gall, ginput): (Seq<(&'static str, T)>, Seq<u8>) = choose|all: Seq<(&'static str, T)>, input: Seq<u8>| self.repr(all, input);
        let ghost (glo, ghi): (int, int) = choose|lo: int, hi: int| window(self.cands@, gall, ginput, lo, hi);
        let ghost c = self.cands@;
        let ghost n = self.input_len as int;
        let ghost len = data@.len() as int;
        proof { ordered_cands(c, gall, ginput, data@, glo, ghi); }
//@loop 1
            invariant_except_break
                forall|i: int| #![trigger c[i]] 0 <= i < lo ==> lt(tk(c, n, len, i), data@),
                forall|i: int| #![trigger c[i]] hi <= i < c.len() ==> lt(data@, tk(c, n, len, i)),
            invariant
                lo <= hi <= c.len(), c == self.cands@, n == self.input_len, len == data@.len(), *self == *old(self), ordered(c, n, data@),
            ensures
                narrowed(c, n, data@, lo as int, hi as int),
            decreases hi - lo,
//@loop 2
                        invariant
                            lo <= lo_hi < hi_lo <= hi <= c.len(), c == self.cands@, n == self.input_len, len == data@.len(), *self == *old(self), ordered(c, n, data@),
                            forall|i: int| #![trigger c[i]] 0 <= i < lo ==> lt(tk(c, n, len, i), data@),
                            forall|i: int| #![trigger c[i]] hi <= i < c.len() ==> lt(data@, tk(c, n, len, i)),
                            forall|i: int| #![trigger c[i]] lo_hi <= i < hi_lo ==> tk(c, n, len, i) == data@,
                        decreases lo_hi - lo,
//@in 2
                    proof { assert(tk(c, n, len, lo_hi as int) == data@); }
//@loop 3
                        invariant
                            lo < hi_lo <= hi <= c.len(), c == self.cands@, n == self.input_len, len == data@.len(), *self == *old(self), ordered(c, n, data@),
                            forall|i: int| #![trigger c[i]] 0 <= i < lo ==> lt(tk(c, n, len, i), data@),
                            forall|i: int| #![trigger c[i]] hi <= i < c.len() ==> lt(data@, tk(c, n, len, i)),
                            forall|i: int| #![trigger c[i]] lo <= i < hi_lo ==> tk(c, n, len, i) == data@,
                        decreases hi - hi_lo,
//@in 3
                    proof { assert(tk(c, n, len, hi_lo - 1) == data@); }
//@exit
        proof {
            assert(self.cands@ == c.subrange(lo as int, hi as int));
            assert forall|all: Seq<(&'static str, T)>, input: Seq<u8>| old(self).repr(all, input) implies
                self.repr(all, input + data@) by {
                let (wlo, whi): (int, int) = choose|l: int, h: int| window(c, all, input, l, h);
                repr_narrow(c, all, input, data@, wlo, whi, lo as int, hi as int);
            }
            assert(old(self).repr(gall, ginput));
            assert(self.repr(gall, ginput + data@));
        }
//@end

//@fn NameMapLookup :: result
//@spec
    requires self.wf(),
    ensures forall|all: Seq<(&'static str, T)>, input: Seq<u8>| #[trigger] self.repr(all, input) ==> found(all, input, r),
//@entry
        proof {
            let c = self.cands@;
            if c.len() > 0 { axiom_str_len(c[0].0); }
            assert forall|all: Seq<(&'static str, T)>, input: Seq<u8>| #[trigger] self.repr(all, input) implies
                (if c.len() > 0 && key(c, 0).len() == self.input_len { found(all, input, Some(&c[0].1)) } else { found(all, input, None) }) by {
                result_found(c, all, input);
            }
        }
//@end
}

// ---------------------------------------------------------------- sorting
/// `b` is `a` with the entries `lo..hi` rearranged.
spec fn perm<T>(a: Seq<(&'static str, T)>, b: Seq<(&'static str, T)>, lo: int, hi: int) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| #![trigger b[i]] 0 <= i < a.len() && !(lo <= i < hi) ==> b[i] == a[i]
    &&& a.to_multiset() == b.to_multiset()
}
spec fn sorted<T>(v: Seq<(&'static str, T)>, lo: int, hi: int) -> bool {
    forall|i: int, j: int| #![trigger v[i], v[j]] lo <= i < j < hi ==> leq(key(v, i), key(v, j))
}
/// Within `lo0..hi0` only pairs inside `lo..hi` may still be out of order.
spec fn cross<T>(v: Seq<(&'static str, T)>, lo0: int, hi0: int, lo: int, hi: int) -> bool {
    forall|i: int, j: int| #![trigger v[i], v[j]] lo0 <= i < j < hi0 && (i < lo || j >= hi) ==> leq(key(v, i), key(v, j))
}
spec fn all_le<T>(v: Seq<(&'static str, T)>, lo: int, hi: int, p: Seq<u8>) -> bool {
    forall|i: int| #![trigger v[i]] lo <= i < hi ==> leq(key(v, i), p)
}
spec fn all_ge<T>(v: Seq<(&'static str, T)>, lo: int, hi: int, p: Seq<u8>) -> bool {
    forall|i: int| #![trigger v[i]] lo <= i < hi ==> leq(p, key(v, i))
}
spec fn among<T>(a: Seq<(&'static str, T)>, lo: int, hi: int, x: (&'static str, T)) -> bool {
    exists|j: int| lo <= j < hi && x == #[trigger] a[j]
}
proof fn perm_mem<T>(a: Seq<(&'static str, T)>, b: Seq<(&'static str, T)>, lo: int, hi: int)
    requires perm(a, b, lo, hi), 0 <= lo <= hi <= a.len(),
    ensures forall|i: int| #![trigger b[i]] lo <= i < hi ==> among(a, lo, hi, b[i]),
{
    let n = a.len() as int;
    let (a1, a2, a3) = (a.subrange(0, lo), a.subrange(lo, hi), a.subrange(hi, n));
    let (b1, b2, b3) = (b.subrange(0, lo), b.subrange(lo, hi), b.subrange(hi, n));
    assert(a1 =~= b1);
    assert(a3 =~= b3);
    assert(a =~= a1 + (a2 + a3));
    assert(b =~= b1 + (b2 + b3));
    vstd::seq_lib::lemma_multiset_commutative(a1, a2 + a3);
    vstd::seq_lib::lemma_multiset_commutative(b1, b2 + b3);
    vstd::seq_lib::lemma_multiset_commutative(a2, a3);
    vstd::seq_lib::lemma_multiset_commutative(b2, b3);
    assert forall|i: int| #![trigger b[i]] lo <= i < hi implies among(a, lo, hi, b[i]) by {
        let x = b[i];
        assert(b2[i - lo] == x);
        assert(b2.contains(x));
        b2.to_multiset_ensures();
        a2.to_multiset_ensures();
        assert(b2.to_multiset().count(x) > 0);
        assert(a.to_multiset().count(x) == a1.to_multiset().count(x) + a2.to_multiset().count(x) + a3.to_multiset().count(x));
        assert(b.to_multiset().count(x) == b1.to_multiset().count(x) + b2.to_multiset().count(x) + b3.to_multiset().count(x));
        assert(a2.to_multiset().count(x) > 0);
        assert(a2.contains(x));
        let j = choose|j: int| 0 <= j < a2.len() && a2[j] == x;
        assert(a[j + lo] == x);
    }
}
proof fn perm_swap<T>(a: Seq<(&'static str, T)>, i: int, j: int, lo: int, hi: int)
    requires 0 <= lo <= i < j < hi <= a.len(),
    ensures perm(a, a.update(i, a[j]).update(j, a[i]), lo, hi),
{
    vstd::seq_lib::to_multiset_update(a, i, a[j]);
    vstd::seq_lib::to_multiset_update(a.update(i, a[j]), j, a[i]);
    assert(a.update(i, a[j]).update(j, a[i]).to_multiset() =~= a.to_multiset()) by {
        a.to_multiset_ensures();
        assert(a.contains(a[i]));
        assert(a.to_multiset().count(a[i]) > 0);
        let m = a.to_multiset();
        let m1 = a.update(i, a[j]).to_multiset();
        assert(m1 =~= m.insert(a[j]).remove(a[i]));
        a.update(i, a[j]).to_multiset_ensures();
        assert(a.update(i, a[j])[j] == a[j]);
        let m2 = a.update(i, a[j]).update(j, a[i]).to_multiset();
        assert(m2 =~= m1.insert(a[i]).remove(a[j]));
    }
}
proof fn perm_trans<T>(a: Seq<(&'static str, T)>, b: Seq<(&'static str, T)>, c: Seq<(&'static str, T)>, lo0: int, hi0: int, lo: int, hi: int)
    requires perm(a, b, lo0, hi0), perm(b, c, lo, hi), 0 <= lo0 <= lo <= hi <= hi0 <= a.len(),
    ensures perm(a, c, lo0, hi0),
{
    assert forall|i: int| #![trigger c[i]] 0 <= i < a.len() && !(lo0 <= i < hi0) implies c[i] == a[i] by {
        assert(c[i] == b[i]);
    }
}
proof fn perm_bounds<T>(a: Seq<(&'static str, T)>, b: Seq<(&'static str, T)>, lo: int, hi: int, p: Seq<u8>)
    requires perm(a, b, lo, hi), 0 <= lo <= hi <= a.len(),
    ensures
        all_le(a, lo, hi, p) ==> all_le(b, lo, hi, p),
        all_ge(a, lo, hi, p) ==> all_ge(b, lo, hi, p),
{
    perm_mem(a, b, lo, hi);
    assert forall|i: int| #![trigger b[i]] lo <= i < hi implies (all_le(a, lo, hi, p) ==> leq(key(b, i), p)) && (all_ge(a, lo, hi, p) ==> leq(p, key(b, i))) by {
        let j = choose|j: int| lo <= j < hi && b[i] == #[trigger] a[j];
        assert(key(a, j) == key(b, i));
    }
}
proof fn perm_cross<T>(a: Seq<(&'static str, T)>, b: Seq<(&'static str, T)>, lo0: int, hi0: int, lo: int, hi: int)
    requires perm(a, b, lo, hi), 0 <= lo0 <= lo <= hi <= hi0 <= a.len(), cross(a, lo0, hi0, lo, hi),
    ensures cross(b, lo0, hi0, lo, hi),
{
    perm_mem(a, b, lo, hi);
    assert forall|i: int, j: int| #![trigger b[i], b[j]] lo0 <= i < j < hi0 && (i < lo || j >= hi) implies leq(key(b, i), key(b, j)) by {
        let i2 = if lo <= i < hi { choose|k: int| lo <= k < hi && b[i] == #[trigger] a[k] } else { i };
        let j2 = if lo <= j < hi { choose|k: int| lo <= k < hi && b[j] == #[trigger] a[k] } else { j };
        assert(b[i] == a[i2]);
        assert(b[j] == a[j2]);
        assert(leq(key(a, i2), key(a, j2)));
    }
}
/// One step: the part below (above) the split is sorted.
proof fn split_step<T>(v: Seq<(&'static str, T)>, w: Seq<(&'static str, T)>, lo0: int, hi0: int, lo: int, hi: int, q: int, p: Seq<u8>, left: bool)
    requires
        0 <= lo0 <= lo < q < hi <= hi0 <= v.len(),
        cross(v, lo0, hi0, lo, hi), all_le(v, lo, q, p), all_ge(v, q, hi, p),
        left ==> perm(v, w, lo, q) && sorted(w, lo, q),
        !left ==> perm(v, w, q, hi) && sorted(w, q, hi),
    ensures
        left ==> cross(w, lo0, hi0, q, hi),
        !left ==> cross(w, lo0, hi0, lo, q),
{
    assert(perm(v, w, lo, hi));
    perm_cross(v, w, lo0, hi0, lo, hi);
    if left { perm_bounds(v, w, lo, q, p); } else { perm_bounds(v, w, q, hi, p); }
    assert(all_le(w, lo, q, p));
    assert(all_ge(w, q, hi, p));
    assert forall|i: int, j: int| #![trigger w[i], w[j]] lo <= i < q && q <= j < hi implies leq(key(w, i), key(w, j)) by {
        le_trans(key(w, i), p, key(w, j));
    }
}

proof fn less_facts(p: Seq<u8>)
    ensures
        forall|x: Seq<u8>| leq(p, x) ==> !#[trigger] lt(x, p),
        forall|x: Seq<u8>| leq(x, p) ==> !#[trigger] lt(p, x),
        !lt(p, p),
{
    lt_asym(p, p);
    assert forall|x: Seq<u8>| leq(p, x) implies !#[trigger] lt(x, p) by { lt_asym(p, x); }
    assert forall|x: Seq<u8>| leq(x, p) implies !#[trigger] lt(p, x) by { lt_asym(p, x); }
}
//@fn sort_entries | loops=4
//@spec
    requires lo <= hi <= N, N < usize::MAX,
    ensures perm(values@, r@, lo as int, hi as int), sorted(r@, lo as int, hi as int),
    decreases hi - lo,
//@entry
    let ghost (v0, lo0, hi0) = (values@, lo as int, hi as int);
//@loop 1
        invariant
            lo0 <= lo <= hi <= hi0 <= N, perm(v0, values@, lo0, hi0), cross(values@, lo0, hi0, lo as int, hi as int),
        decreases hi - lo,
//@in 1
        let ghost (v1, lo1, hi1) = (values@, lo as int, hi as int);
        let ghost mid = lo + (hi - lo) / 2;
        let ghost pk = key(values@, mid);
        proof { less_facts(pk); }
//@loop 2
            invariant_except_break
                le < ge,
                (le == lo && ge == hi && values@ == v1) || (lo < le && ge < hi),
            invariant
                pk == bytes(p),
                perm(v1, values@, lo as int, hi as int),
                lo <= le, ge <= hi,
                all_le(values@, lo as int, le as int, pk), all_ge(values@, ge as int, hi as int, pk),
            ensures
                le == ge, lo < le < hi,
            decreases ge - le,
//@in 2
            let ghost (le1, ge1, v2) = (le as int, ge as int, values@);
            proof {
                assert forall|i: int, j: int| #![trigger v2.update(i, v2[j]).update(j, v2[i])] lo <= i < j < hi implies
                    perm(v1, v2.update(i, v2[j]).update(j, v2[i]), lo as int, hi as int) by {
                    perm_swap(v2, i, j, lo as int, hi as int);
                    perm_trans(v1, v2, v2.update(i, v2[j]).update(j, v2[i]), lo as int, hi as int, lo as int, hi as int);
                }
            }
//@loop 3
                invariant
                    le1 <= le < hi,
                    le1 == lo ==> le <= mid,
                    le1 > lo ==> le <= ge1,
                    all_le(values@, lo as int, le as int, pk),
                ensures
                    leq(pk, key(values@, le as int)),
                decreases hi - le,
//@loop 4
                invariant
                    lo <= ge < ge1,
                    le1 == lo ==> mid <= ge,
                    le1 > lo ==> le1 - 1 <= ge,
                    all_ge(values@, ge + 1, hi as int, pk),
                ensures
                    leq(key(values@, ge as int), pk),
                decreases ge,
//@after-loop 2
        proof {
            perm_trans(v0, v1, values@, lo0, hi0, lo1, hi1);
            perm_cross(v1, values@, lo0, hi0, lo1, hi1);
            let (v, q) = (values@, le as int);
            assert forall|w: Seq<(&'static str, T)>| #[trigger] perm(v, w, lo1, q) && sorted(w, lo1, q) implies cross(w, lo0, hi0, q, hi1) && perm(v0, w, lo0, hi0) by {
                split_step(v, w, lo0, hi0, lo1, hi1, q, pk, true);
                perm_trans(v0, v, w, lo0, hi0, lo1, q);
            }
            assert forall|w: Seq<(&'static str, T)>| #[trigger] perm(v, w, q, hi1) && sorted(w, q, hi1) implies cross(w, lo0, hi0, lo1, q) && perm(v0, w, lo0, hi0) by {
                split_step(v, w, lo0, hi0, lo1, hi1, q, pk, false);
                perm_trans(v0, v, w, lo0, hi0, q, hi1);
            }
        }
//@end

proof fn sorted_ascending<T>(e: Seq<(&'static str, T)>, r: Seq<(&'static str, T)>)
    requires e.len() == r.len(), e.to_multiset() == r.to_multiset(), sorted(r, 0, r.len() as int), distinct(e),
    ensures ascending(r),
{
    e.to_multiset_ensures();
    r.to_multiset_ensures();
    assert(e.no_duplicates());
    e.lemma_multiset_has_no_duplicates();
    r.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() implies lt(key(r, i), key(r, j)) by {
        assert(r.contains(r[i]));
        assert(r.contains(r[j]));
        assert(r.to_multiset().count(r[i]) > 0);
        assert(r.to_multiset().count(r[j]) > 0);
        assert(e.contains(r[i]) && e.contains(r[j]));
        let a = choose|a: int| 0 <= a < e.len() && e[a] == r[i];
        let b = choose|b: int| 0 <= b < e.len() && e[b] == r[j];
        assert(a != b);
        assert(key(e, a) == key(r, i));
        assert(key(e, b) == key(r, j));
    }
}

impl<T: Copy, const N: usize> FixedNameMap<T, N> {
//@fn FixedNameMap :: new
//@spec
    requires N < usize::MAX,
    ensures
        r.all().len() == N, r.all().to_multiset() == entries@.to_multiset(),
        distinct(entries@) ==> ascending(r.all()),
//@entry
    proof {
        let e = entries@;
        assert forall|w: Seq<(&'static str, T)>| #[trigger] perm(e, w, 0, N as int) && sorted(w, 0, N as int) && distinct(e) implies ascending(w) by {
            sorted_ascending(e, w);
        }
    }
//@end
//@fn FixedNameMap :: unfix | trusted
//@spec
    ensures r.all() == self.all(), ascending(self.all()) ==> r.wf(),
//@end
}

// ---------------------------------------------------------------- C08, stated over the contracts above
/// The order in which the names were listed is irrelevant.
proof fn c08_order_irrelevant<T>(e: Seq<(&'static str, T)>, r: Seq<(&'static str, T)>, name: Seq<u8>, res: Option<&T>)
    requires e.len() == r.len(), e.to_multiset() == r.to_multiset(), found(r, name, res),
    ensures found(e, name, res),
{
    e.to_multiset_ensures();
    r.to_multiset_ensures();
    if let Some(v) = res {
        let i = choose|i: int| #![trigger r[i]] 0 <= i < r.len() && key(r, i) == name && *v == r[i].1;
        assert(r.contains(r[i]));
        assert(e.to_multiset().count(r[i]) > 0);
        let j = choose|j: int| 0 <= j < e.len() && e[j] == r[i];
        assert(key(e, j) == name);
    } else {
        assert forall|j: int| #![trigger e[j]] 0 <= j < e.len() implies key(e, j) != name by {
            assert(e.contains(e[j]));
            assert(r.to_multiset().count(e[j]) > 0);
            let i = choose|i: int| 0 <= i < r.len() && r[i] == e[j];
            assert(key(r, i) == key(e, j));
        }
    }
}
spec fn joined(p: Seq<&[u8]>, n: int) -> Seq<u8>
    decreases n,
{
    if n <= 0 { Seq::empty() } else { joined(p, n - 1) + p[n - 1]@ }
}
proof fn joined_len(p: Seq<&[u8]>, n: int, m: int)
    requires 0 <= n <= m,
    ensures joined(p, n).len() <= joined(p, m).len(),
    decreases m,
{
    if n < m { joined_len(p, n, m - 1); }
}
/// A client of the real code: a table built from any distinct names, and a name arriving in any pieces.
fn c08_client<'a, T: Copy, const N: usize>(entries: [(&'static str, T); N], pieces: &Vec<&'a [u8]>) -> (r: Option<T>)
    requires
        distinct(entries@), N < usize::MAX, joined(pieces@, pieces.len() as int).len() <= usize::MAX,
    ensures
        r is Some <==> exists|i: int| #![trigger entries@[i]] 0 <= i < N && key(entries@, i) == joined(pieces@, pieces.len() as int),
        r is Some ==> exists|i: int| #![trigger entries@[i]] 0 <= i < N && key(entries@, i) == joined(pieces@, pieces.len() as int) && r == Some(entries@[i].1),
{
    let t = FixedNameMap::new(entries);
    let map = t.unfix();
    let mut lookup = map.lookup();
    let mut i: usize = 0;
    while i < pieces.len()
        invariant
            i <= pieces.len(), ascending(map.all()), lookup.wf(),
            lookup.repr(map.all(), joined(pieces@, i as int)), lookup.len() == joined(pieces@, i as int).len(),
            joined(pieces@, pieces.len() as int).len() <= usize::MAX,
        decreases pieces.len() - i,
    {
        proof { joined_len(pieces@, i + 1, pieces.len() as int); }
        lookup.write_bytes(pieces[i]);
        i += 1;
    }
    let res = lookup.result();
    proof {
        let name = joined(pieces@, pieces.len() as int);
        assert(found(map.all(), name, res));
        c08_order_irrelevant(entries@, map.all(), name, res);
    }
    match res { Some(v) => Some(*v), None => None }
}
}
fn main() {}
