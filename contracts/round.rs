//@include prelude0.rs
//@include opkinds.rs
//@include numabs.rs
//@include treerun.rs
//@include itoatext.rs
//@include floattext.rs
//@include ops.rs
//@include sources.rs
//@include wrappers.rs proved=wrap
//@include wrapvalidate.rs proved=wrap
//@include values.rs
//@include serimpls.rs proved=ser
//@include deserimpls.rs proved=deser
//@include tree.rs
// ---- What is written as a tree is read back from that tree ---------------------------------------------------
/// The range of an integer type.
spec fn int_min(ty: int) -> int { if ty == I8 { i8::MIN as int } else if ty == I16 { i16::MIN as int } else if ty == I32 { i32::MIN as int } else if ty == I64 { i64::MIN as int } else { 0 } }
spec fn int_max(ty: int) -> int {
    if ty == I8 { i8::MAX as int } else if ty == I16 { i16::MAX as int } else if ty == I32 { i32::MAX as int } else if ty == I64 { i64::MAX as int }
    else if ty == U8 { u8::MAX as int } else if ty == U16 { u16::MAX as int } else if ty == U32 { u32::MAX as int } else { u64::MAX as int }
}
/// Proved in unit numbers: theorem_int_text (there for the definition of int_read).
axiom fn theorem_int_text(ty: int, i: int)
    requires int_min(ty) <= i <= int_max(ty)
    ensures int_read(ty, int_text(i)) == Some(i);
//@for F in f32 f64
/// Is it finite (not an infinity, not NaN)?
uninterp spec fn finite_$F(x: $F) -> bool;
/// Assumed of ryu and of the standard parser: a finite float is written as the literal that is read as exactly it.
axiom fn axiom_$F_text(x: $F)
    requires finite_$F(x)
    ensures $F_read($F_text(x)) == x;
//@endfor
/// What a value of this type is written as, it is read as, and as nothing else.
trait RoundTrip<S: Serializer + ?Sized, CS: ?Sized, D: Deserializer + ?Sized, CD: ?Sized>: Serialize<S, CS> + Deserialize<D, CD> {
    /// Are all floats in the value finite?
    spec fn fin(&self) -> bool;
    /// Equality of values.
    spec fn same_as(&self, y: Self) -> bool;
    proof fn round(&self, y: Self, null: bool)
        requires self.fin()
        ensures
            <Self as Deserialize<D, CD>>::ok(DF::Val(tree(self.val(null))), null),
            <Self as Deserialize<D, CD>>::is(DF::Val(tree(self.val(null))), y, null) ==> self.same_as(y),
    ;
    proof fn nullable()
        ensures <Self as Serialize<S, CS>>::NULLABLE == <Self as Deserialize<D, CD>>::NULLABLE
    ;
}
//@for T in bool
impl<S: Serializer + ?Sized, CS: ?Sized, D: Deserializer + ?Sized, CD: ?Sized> RoundTrip<S, CS, D, CD> for $T {
    spec fn fin(&self) -> bool { true }
    spec fn same_as(&self, y: Self) -> bool { *self == y }
    proof fn nullable() {}
    proof fn round(&self, y: Self, null: bool) {}
}
//@endfor
impl<S: Serializer + ?Sized, CS: ?Sized, D: Deserializer + ?Sized, CD: ?Sized> RoundTrip<S, CS, D, CD> for char {
    spec fn fin(&self) -> bool { true }
    spec fn same_as(&self, y: Self) -> bool { *self == y }
    proof fn nullable() {}
    proof fn round(&self, y: Self, null: bool) { let cs = seq![*self]; assert(cs.len() == 1 && cs[0] == *self); }
}
//@for T,V in i8,I8 i16,I16 i32,I32 i64,I64 u8,U8 u16,U16 u32,U32 u64,U64
impl<S: Serializer + ?Sized, CS: ?Sized, D: Deserializer + ?Sized, CD: ?Sized> RoundTrip<S, CS, D, CD> for $T {
    spec fn fin(&self) -> bool { true }
    spec fn same_as(&self, y: Self) -> bool { *self == y }
    proof fn nullable() {}
    proof fn round(&self, y: Self, null: bool) { theorem_int_text($V, *self as int); }
}
//@endfor
//@for T,V in NonZeroI8,I8 NonZeroI16,I16 NonZeroI32,I32 NonZeroI64,I64 NonZeroU8,U8 NonZeroU16,U16 NonZeroU32,U32 NonZeroU64,U64
impl<S: Serializer + ?Sized, CS: ?Sized, D: Deserializer + ?Sized, CD: ?Sized> RoundTrip<S, CS, D, CD> for std::num::$T {
    spec fn fin(&self) -> bool { self@ != 0 }
    spec fn same_as(&self, y: Self) -> bool { self@ == y@ }
    proof fn nullable() {}
    proof fn round(&self, y: Self, null: bool) { theorem_int_text($V, self@ as int); }
}
//@endfor
//@for F in f32 f64
impl<S: Serializer + ?Sized, CS: ?Sized, D: Deserializer + ?Sized, CD: ?Sized> RoundTrip<S, CS, D, CD> for $F {
    spec fn fin(&self) -> bool { finite_$F(*self) }
    spec fn same_as(&self, y: Self) -> bool { *self == y }
    proof fn nullable() {}
    proof fn round(&self, y: Self, null: bool) { axiom_$F_text(*self); }
}
//@endfor
impl<S: Serializer + ?Sized, CS: ?Sized, D: Deserializer + ?Sized, CD: ?Sized> RoundTrip<S, CS, D, CD> for String {
    spec fn fin(&self) -> bool { true }
    spec fn same_as(&self, y: Self) -> bool { self@ == y@ }
    proof fn nullable() {}
    proof fn round(&self, y: Self, null: bool) {}
}
impl<S: Serializer + ?Sized, CS: ?Sized, D: Deserializer + ?Sized, CD: ?Sized> RoundTrip<S, CS, D, CD> for () {
    spec fn fin(&self) -> bool { true }
    spec fn same_as(&self, y: Self) -> bool { true }
    proof fn nullable() {}
    proof fn round(&self, y: Self, null: bool) {}
}
proof fn lemma_trees(vs: Seq<V>)
    ensures trees(vs).len() == vs.len(), forall|i: int| 0 <= i < vs.len() ==> #[trigger] trees(vs)[i] == tree(vs[i])
    decreases vs.len()
{
    if vs.len() > 0 { lemma_trees(vs.drop_last()); }
}
proof fn lemma_trees_f(fs: Seq<(Seq<char>, V)>)
    ensures trees_f(fs).len() == fs.len(), forall|i: int| 0 <= i < fs.len() ==> #[trigger] trees_f(fs)[i] == (fs[i].0, tree(fs[i].1))
    decreases fs.len()
{
    if fs.len() > 0 { lemma_trees_f(fs.drop_last()); }
}
impl<S: Serializer + ?Sized, CS: ?Sized, D: Deserializer + ?Sized, CD: ?Sized, T0: RoundTrip<S, CS, D, CD>, T1: RoundTrip<S, CS, D, CD>> RoundTrip<S, CS, D, CD> for (T0, T1) {
    spec fn fin(&self) -> bool { self.0.fin() && self.1.fin() }
    spec fn same_as(&self, y: Self) -> bool { self.0.same_as(y.0) && self.1.same_as(y.1) }
    proof fn nullable() {}
    proof fn round(&self, y: Self, null: bool) {
        self.0.round(y.0, null); self.1.round(y.1, null);
        lemma_trees(seq![self.0.val(null), self.1.val(null)]);
    }
}
impl<S: Serializer + ?Sized, CS: ?Sized, D: Deserializer + ?Sized, CD: ?Sized, T0: RoundTrip<S, CS, D, CD>, T1: RoundTrip<S, CS, D, CD>, T2: RoundTrip<S, CS, D, CD>> RoundTrip<S, CS, D, CD> for (T0, T1, T2) {
    spec fn fin(&self) -> bool { self.0.fin() && self.1.fin() && self.2.fin() }
    spec fn same_as(&self, y: Self) -> bool { self.0.same_as(y.0) && self.1.same_as(y.1) && self.2.same_as(y.2) }
    proof fn nullable() {}
    proof fn round(&self, y: Self, null: bool) {
        self.0.round(y.0, null); self.1.round(y.1, null); self.2.round(y.2, null);
        lemma_trees(seq![self.0.val(null), self.1.val(null), self.2.val(null)]);
    }
}
impl<S: Serializer + ?Sized, CS: ?Sized, D: Deserializer + ?Sized, CD: ?Sized, T: RoundTrip<S, CS, D, CD>> RoundTrip<S, CS, D, CD> for Vec<T> {
    spec fn fin(&self) -> bool { forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).fin() }
    spec fn same_as(&self, y: Self) -> bool { self@.len() == y@.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).same_as(y@[i]) }
    proof fn nullable() {}
    proof fn round(&self, y: Self, null: bool) {
        let vs = vals::<T, S, CS>(self@, null); let js = trees(vs);
        lemma_trees(vs);
        assert forall|i: int| 0 <= i < js.len() implies <T as Deserialize<D, CD>>::ok(DF::Val(#[trigger] js[i]), null) by { self@[i].round(self@[i], null); assert(js[i] == tree(vs[i])); }
        if <Self as Deserialize<D, CD>>::is(DF::Val(J::Arr(js)), y, null) {
            assert forall|i: int| 0 <= i < self@.len() implies (#[trigger] self@[i]).same_as(y@[i]) by { self@[i].round(y@[i], null); assert(js[i] == tree(vs[i])); assert(<T as Deserialize<D, CD>>::is(DF::Val(js[i]), y@[i], null)); }
        }
    }
}
impl<S: Serializer + ?Sized, CS: ?Sized, D: Deserializer + ?Sized, CD: ?Sized, T: RoundTrip<S, CS, D, CD>, const N: usize> RoundTrip<S, CS, D, CD> for [T; N] {
    spec fn fin(&self) -> bool { forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).fin() }
    spec fn same_as(&self, y: Self) -> bool { self@.len() == y@.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).same_as(y@[i]) }
    proof fn nullable() {}
    proof fn round(&self, y: Self, null: bool) {
        let vs = vals::<T, S, CS>(self@, null); let js = trees(vs);
        lemma_trees(vs);
        assert forall|i: int| 0 <= i < js.len() implies <T as Deserialize<D, CD>>::ok(DF::Val(#[trigger] js[i]), null) by { self@[i].round(self@[i], null); assert(js[i] == tree(vs[i])); }
        if <Self as Deserialize<D, CD>>::is(DF::Val(J::Arr(js)), y, null) {
            assert forall|i: int| 0 <= i < self@.len() implies (#[trigger] self@[i]).same_as(y@[i]) by { self@[i].round(y@[i], null); assert(js[i] == tree(vs[i])); assert(<T as Deserialize<D, CD>>::is(DF::Val(js[i]), y@[i], null)); }
        }
    }
}
/// An option. What makes it work is that nothing but null is written as null.
impl<S: Serializer + ?Sized, CS: ?Sized, D: Deserializer + ?Sized, CD: ?Sized, T: RoundTrip<S, CS, D, CD>> RoundTrip<S, CS, D, CD> for Option<T> {
    spec fn fin(&self) -> bool { self is Some ==> self->0.fin() }
    spec fn same_as(&self, y: Self) -> bool { match self { None => y is None, Some(x) => y is Some && x.same_as(y->0) } }
    proof fn nullable() {}
    proof fn round(&self, y: Self, null: bool) {
        reveal_strlit("has_value"); reveal_strlit("value");
        T::nullable();
        let niche = null && !<T as Serialize<S, CS>>::NULLABLE;
        match self {
            Some(x) => {
                if y is Some { x.round(y->0, null); } else { x.round(*x, null); }
                <T as Serialize<S, CS>>::law(x);
                <T as Deserialize<D, CD>>::law(null);
                let v = x.val(null);
                let fs = seq![("has_value"@, V::Bool(true)), ("value"@, v)];
                lemma_trees_f(fs);
                let es = trees_f(fs);
                assert(at_key(es, "has_value"@) == Some(0int));
                assert(es.remove(0) =~= seq![("value"@, tree(v))]);
                assert(at_key(es.remove(0), "value"@) == Some(0int));
            }
            None => {
                let fs = seq![("has_value"@, V::Bool(false))];
                lemma_trees_f(fs);
                let es = trees_f(fs);
                assert(at_key(es, "has_value"@) == Some(0int));
            }
        }
    }
}
} // verus!
fn main() {}
