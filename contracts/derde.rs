//@include prelude0.rs
//@include opkinds.rs
//@include numabs.rs
//@include treerun.rs
//@include ops.rs
//@include sources.rs
//@include wrappers.rs proved=wrap
//@include wrapvalidate.rs proved=wrap
//@include deserimpls.rs proved=deser
// Written by tools/derived.py: what each sample declaration must be read from, and as what.
/// FixedNameMap::new(entries).unfix(), for distinct names (unit namemap).
#[verifier::external_body]
fn names_of<const N: usize>(entries: [(&'static str, usize); N]) -> (r: &'static NameMap<usize>)
    requires forall|i: int, j: int| 0 <= i < j < N ==> (#[trigger] entries@[i]).0@ != (#[trigger] entries@[j]).0@
    ensures
        forall|i: int| 0 <= i < N ==> r@.dom().contains((#[trigger] entries@[i]).0@) && r@[entries@[i].0@] == entries@[i].1,
        forall|cs: Seq<char>| #[trigger] r@.dom().contains(cs) ==> exists|i: int| 0 <= i < N && (#[trigger] entries@[i]).0@ == cs,
{ unimplemented!() }
/// Null, or a missing entry.
spec fn nothing(v: DF) -> bool { v is Missing || v == DF::Val(J::Null) }
//@use @derived
//@item struct Empty
impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for Empty {
//@item const Deserialize for Empty :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool { opened(v) is Some && <Empty as DeserializeStruct<D, Ctx>>::sok(opened(v)->0, null) && closes(<Empty as DeserializeStruct<D, Ctx>>::rest(opened(v)->0)) }
    spec fn is(v: DF, x: Self, null: bool) -> bool { opened(v) is Some && <Empty as DeserializeStruct<D, Ctx>>::sis(opened(v)->0, x, null) }
    proof fn law(null: bool) {}
//@fn Deserialize for Empty :: deserialize | ret=r
//@end
}
impl<D: Deserializer + ?Sized, Ctx: ?Sized> DeserializeStruct<D, Ctx> for Empty {
    spec fn sok(v: DF, null: bool) -> bool { true }
    spec fn sis(v: DF, x: Self, null: bool) -> bool { true }
    spec fn rest(v: DF) -> DF { v }
//@fn DeserializeStruct for Empty :: deserialize_content | ret=r
//@end
}
//@item struct UnitS
impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for UnitS {
//@item const Deserialize for UnitS :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool { opened(v) is Some && <UnitS as DeserializeStruct<D, Ctx>>::sok(opened(v)->0, null) && closes(<UnitS as DeserializeStruct<D, Ctx>>::rest(opened(v)->0)) }
    spec fn is(v: DF, x: Self, null: bool) -> bool { opened(v) is Some && <UnitS as DeserializeStruct<D, Ctx>>::sis(opened(v)->0, x, null) }
    proof fn law(null: bool) {}
//@fn Deserialize for UnitS :: deserialize | ret=r
//@end
}
impl<D: Deserializer + ?Sized, Ctx: ?Sized> DeserializeStruct<D, Ctx> for UnitS {
    spec fn sok(v: DF, null: bool) -> bool { true }
    spec fn sis(v: DF, x: Self, null: bool) -> bool { true }
    spec fn rest(v: DF) -> DF { v }
//@fn DeserializeStruct for UnitS :: deserialize_content | ret=r
//@end
}
//@item struct P
impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for P {
//@item const Deserialize for P :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool { opened(v) is Some && <P as DeserializeStruct<D, Ctx>>::sok(opened(v)->0, null) && closes(<P as DeserializeStruct<D, Ctx>>::rest(opened(v)->0)) }
    spec fn is(v: DF, x: Self, null: bool) -> bool { opened(v) is Some && <P as DeserializeStruct<D, Ctx>>::sis(opened(v)->0, x, null) }
    proof fn law(null: bool) {}
//@fn Deserialize for P :: deserialize | ret=r
//@end
}
impl<D: Deserializer + ?Sized, Ctx: ?Sized> DeserializeStruct<D, Ctx> for P {
    spec fn sok(v: DF, null: bool) -> bool { field(v, "x"@) is Some && <i32 as Deserialize<D, Ctx>>::ok((field(v, "x"@)->0).0, null) && field((field(v, "x"@)->0).1, "y"@) is Some && <f64 as Deserialize<D, Ctx>>::ok((field((field(v, "x"@)->0).1, "y"@)->0).0, null) }
    spec fn sis(v: DF, x: Self, null: bool) -> bool { (<i32 as Deserialize<D, Ctx>>::is((field(v, "x"@)->0).0, x.x, null)) && (<f64 as Deserialize<D, Ctx>>::is((field((field(v, "x"@)->0).1, "y"@)->0).0, x.y, null)) }
    spec fn rest(v: DF) -> DF { (field((field(v, "x"@)->0).1, "y"@)->0).1 }
//@fn DeserializeStruct for P :: deserialize_content | ret=r
//@end
}
//@item struct Ren
impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for Ren {
//@item const Deserialize for Ren :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool { opened(v) is Some && <Ren as DeserializeStruct<D, Ctx>>::sok(opened(v)->0, null) && closes(<Ren as DeserializeStruct<D, Ctx>>::rest(opened(v)->0)) }
    spec fn is(v: DF, x: Self, null: bool) -> bool { opened(v) is Some && <Ren as DeserializeStruct<D, Ctx>>::sis(opened(v)->0, x, null) }
    proof fn law(null: bool) {}
//@fn Deserialize for Ren :: deserialize | ret=r
//@end
}
impl<D: Deserializer + ?Sized, Ctx: ?Sized> DeserializeStruct<D, Ctx> for Ren {
    spec fn sok(v: DF, null: bool) -> bool { field(v, "type"@) is Some && <String as Deserialize<D, Ctx>>::ok((field(v, "type"@)->0).0, null) && field((field(v, "type"@)->0).1, "weird \" name\n"@) is Some && <bool as Deserialize<D, Ctx>>::ok((field((field(v, "type"@)->0).1, "weird \" name\n"@)->0).0, null) && field((field((field(v, "type"@)->0).1, "weird \" name\n"@)->0).1, "é😀"@) is Some && <Option<char> as Deserialize<D, Ctx>>::ok((field((field((field(v, "type"@)->0).1, "weird \" name\n"@)->0).1, "é😀"@)->0).0, null) && field((field((field((field(v, "type"@)->0).1, "weird \" name\n"@)->0).1, "é😀"@)->0).1, "kind"@) is Some && <u8 as Deserialize<D, Ctx>>::ok((field((field((field((field(v, "type"@)->0).1, "weird \" name\n"@)->0).1, "é😀"@)->0).1, "kind"@)->0).0, null) && field((field((field((field((field(v, "type"@)->0).1, "weird \" name\n"@)->0).1, "é😀"@)->0).1, "kind"@)->0).1, ""@) is Some && <i16 as Deserialize<D, Ctx>>::ok((field((field((field((field((field(v, "type"@)->0).1, "weird \" name\n"@)->0).1, "é😀"@)->0).1, "kind"@)->0).1, ""@)->0).0, null) }
    spec fn sis(v: DF, x: Self, null: bool) -> bool { (<String as Deserialize<D, Ctx>>::is((field(v, "type"@)->0).0, x.kind, null)) && (<bool as Deserialize<D, Ctx>>::is((field((field(v, "type"@)->0).1, "weird \" name\n"@)->0).0, x.odd, null)) && (<Option<char> as Deserialize<D, Ctx>>::is((field((field((field(v, "type"@)->0).1, "weird \" name\n"@)->0).1, "é😀"@)->0).0, x.uni, null)) && (<u8 as Deserialize<D, Ctx>>::is((field((field((field((field(v, "type"@)->0).1, "weird \" name\n"@)->0).1, "é😀"@)->0).1, "kind"@)->0).0, x.swapped, null)) && (<i16 as Deserialize<D, Ctx>>::is((field((field((field((field((field(v, "type"@)->0).1, "weird \" name\n"@)->0).1, "é😀"@)->0).1, "kind"@)->0).1, ""@)->0).0, x._under, null)) }
    spec fn rest(v: DF) -> DF { (field((field((field((field((field(v, "type"@)->0).1, "weird \" name\n"@)->0).1, "é😀"@)->0).1, "kind"@)->0).1, ""@)->0).1 }
//@fn DeserializeStruct for Ren :: deserialize_content | ret=r
//@end
}
//@item struct Opts
impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for Opts {
//@item const Deserialize for Opts :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool { opened(v) is Some && <Opts as DeserializeStruct<D, Ctx>>::sok(opened(v)->0, null) && closes(<Opts as DeserializeStruct<D, Ctx>>::rest(opened(v)->0)) }
    spec fn is(v: DF, x: Self, null: bool) -> bool { opened(v) is Some && <Opts as DeserializeStruct<D, Ctx>>::sis(opened(v)->0, x, null) }
    proof fn law(null: bool) {}
//@fn Deserialize for Opts :: deserialize | ret=r
//@end
}
impl<D: Deserializer + ?Sized, Ctx: ?Sized> DeserializeStruct<D, Ctx> for Opts {
    spec fn sok(v: DF, null: bool) -> bool { field(v, "a"@) is Some && <Option<u8> as Deserialize<D, Ctx>>::ok((field(v, "a"@)->0).0, null) && field((field(v, "a"@)->0).1, "c"@) is Some && (null && nothing((field((field(v, "a"@)->0).1, "c"@)->0).0) || <u32 as Deserialize<D, Ctx>>::ok((field((field(v, "a"@)->0).1, "c"@)->0).0, null)) && field((field((field(v, "a"@)->0).1, "c"@)->0).1, "d"@) is Some && <String as Deserialize<D, Ctx>>::ok((field((field((field(v, "a"@)->0).1, "c"@)->0).1, "d"@)->0).0, null) }
    spec fn sis(v: DF, x: Self, null: bool) -> bool { (<Option<u8> as Deserialize<D, Ctx>>::is((field(v, "a"@)->0).0, x.a, null)) && (if null && nothing((field((field(v, "a"@)->0).1, "c"@)->0).0) { call_ensures(<u32 as Default>::default, (), x.c) } else { <u32 as Deserialize<D, Ctx>>::is((field((field(v, "a"@)->0).1, "c"@)->0).0, x.c, null) }) && (<String as Deserialize<D, Ctx>>::is((field((field((field(v, "a"@)->0).1, "c"@)->0).1, "d"@)->0).0, x.d, null)) }
    spec fn rest(v: DF) -> DF { (field((field((field(v, "a"@)->0).1, "c"@)->0).1, "d"@)->0).1 }
//@fn DeserializeStruct for Opts :: deserialize_content | ret=r
//@end
}
//@item struct Opts2
impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for Opts2 {
//@item const Deserialize for Opts2 :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool { opened(v) is Some && <Opts2 as DeserializeStruct<D, Ctx>>::sok(opened(v)->0, null) && closes(<Opts2 as DeserializeStruct<D, Ctx>>::rest(opened(v)->0)) }
    spec fn is(v: DF, x: Self, null: bool) -> bool { opened(v) is Some && <Opts2 as DeserializeStruct<D, Ctx>>::sis(opened(v)->0, x, null) }
    proof fn law(null: bool) {}
//@fn Deserialize for Opts2 :: deserialize | ret=r
//@end
}
impl<D: Deserializer + ?Sized, Ctx: ?Sized> DeserializeStruct<D, Ctx> for Opts2 {
    spec fn sok(v: DF, null: bool) -> bool { field(v, "ee"@) is Some && (null && nothing((field(v, "ee"@)->0).0) || <Option<Option<bool>> as Deserialize<D, Ctx>>::ok((field(v, "ee"@)->0).0, null)) && field((field(v, "ee"@)->0).1, "eff"@) is Some && (null && nothing((field((field(v, "ee"@)->0).1, "eff"@)->0).0) || <bool as Deserialize<D, Ctx>>::ok((field((field(v, "ee"@)->0).1, "eff"@)->0).0, null)) }
    spec fn sis(v: DF, x: Self, null: bool) -> bool { (if null && nothing((field(v, "ee"@)->0).0) { call_ensures(<Option<Option<bool>> as Default>::default, (), x.e) } else { <Option<Option<bool>> as Deserialize<D, Ctx>>::is((field(v, "ee"@)->0).0, x.e, null) }) && (if null && nothing((field((field(v, "ee"@)->0).1, "eff"@)->0).0) { call_ensures(<bool as Default>::default, (), x.f) } else { <bool as Deserialize<D, Ctx>>::is((field((field(v, "ee"@)->0).1, "eff"@)->0).0, x.f, null) }) }
    spec fn rest(v: DF) -> DF { (field((field(v, "ee"@)->0).1, "eff"@)->0).1 }
//@fn DeserializeStruct for Opts2 :: deserialize_content | ret=r
//@end
}
//@item enum Tag
spec fn index_of_tag(v: DF) -> Option<int> { match v { DF::Val(J::Str(cs)) => if cs == "A"@ { Some(0int) } else if cs == "B"@ { Some(1int) } else if cs == "C"@ { Some(2int) } else { None::<int> }, DF::Val(J::Num(t)) => { let i = int_read(U64, t); if i == Some(0int) { i } else if i == Some(1int) { i } else if i == Some(2int) { i } else { None::<int> } }, _ => None } }
spec fn variant_of_tag(i: Option<usize>) -> Option<int> { if i == Some(0usize) { Some(0int) } else if i == Some(1usize) { Some(1int) } else if i == Some(2usize) { Some(2int) } else { None } }
impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for Tag {
//@item const Deserialize for Tag :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool { index_of_tag(v) is Some }
    spec fn is(v: DF, x: Self, null: bool) -> bool { match x { Self::A => index_of_tag(v) == Some(0int), Self::B => index_of_tag(v) == Some(1int), Self::C => index_of_tag(v) == Some(2int) } }
    proof fn law(null: bool) {}
//@fn Deserialize for Tag :: deserialize | ret=r
//@subst const NAMES : & NameMap < usize > = FixedNameMap :: new ( => let NAMED = (
//@subst . unfix ( ) ; => ; proof { reveal_strlit("A"); assert(NAMED@[0].0@ == "A"@); assert(NAMED@[0].1 == 0usize); reveal_strlit("B"); assert(NAMED@[1].0@ == "B"@); assert(NAMED@[1].1 == 1usize); reveal_strlit("C"); assert(NAMED@[2].0@ == "C"@); assert(NAMED@[2].1 == 2usize); assert("A"@[0] != "B"@[0]); assert("A"@[0] != "C"@[0]); assert("B"@[0] != "C"@[0]); assert forall|i: int, j: int| 0 <= i < j < 3 implies (#[trigger] NAMED@[i]).0@ != (#[trigger] NAMED@[j]).0@ by { assert(i == 0 || i == 1 || i == 2); assert(j == 0 || j == 1 || j == 2); } } let NAMES : & NameMap < usize > = names_of ( NAMED ) ; proof { assert(NAMES@.dom().contains(NAMED@[0].0@)); assert(lookup(NAMES@, "A"@) == Some(0usize)); assert(NAMES@.dom().contains(NAMED@[1].0@)); assert(lookup(NAMES@, "B"@) == Some(1usize)); assert(NAMES@.dom().contains(NAMED@[2].0@)); assert(lookup(NAMES@, "C"@) == Some(2usize)); assert forall|cs: Seq<char>| #[trigger] NAMES@.dom().contains(cs) implies cs == "A"@ || cs == "B"@ || cs == "C"@ by { let i = choose|i: int| 0 <= i < 3 && (#[trigger] NAMED@[i]).0@ == cs; assert(i == 0 || i == 1 || i == 2); } assert forall|v: DF| #[trigger] index_of_tag(v) == match v { DF::Val(j) => variant_of_tag(tag_of(2, NAMES@, j)), _ => None } by { } }
//@end
}
//@item struct Inner
impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for Inner {
//@item const Deserialize for Inner :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool { opened(v) is Some && <Inner as DeserializeStruct<D, Ctx>>::sok(opened(v)->0, null) && closes(<Inner as DeserializeStruct<D, Ctx>>::rest(opened(v)->0)) }
    spec fn is(v: DF, x: Self, null: bool) -> bool { opened(v) is Some && <Inner as DeserializeStruct<D, Ctx>>::sis(opened(v)->0, x, null) }
    proof fn law(null: bool) {}
//@fn Deserialize for Inner :: deserialize | ret=r
//@end
}
impl<D: Deserializer + ?Sized, Ctx: ?Sized> DeserializeStruct<D, Ctx> for Inner {
    spec fn sok(v: DF, null: bool) -> bool { field(v, "in"@) is Some && <Tag as Deserialize<D, Ctx>>::ok((field(v, "in"@)->0).0, null) && <UnitS as DeserializeStruct<D, Ctx>>::sok((field(v, "in"@)->0).1, null) && field(<UnitS as DeserializeStruct<D, Ctx>>::rest((field(v, "in"@)->0).1), "_z"@) is Some && <(u8, bool) as Deserialize<D, Ctx>>::ok((field(<UnitS as DeserializeStruct<D, Ctx>>::rest((field(v, "in"@)->0).1), "_z"@)->0).0, null) }
    spec fn sis(v: DF, x: Self, null: bool) -> bool { (<Tag as Deserialize<D, Ctx>>::is((field(v, "in"@)->0).0, x.i, null)) && <UnitS as DeserializeStruct<D, Ctx>>::sis((field(v, "in"@)->0).1, x.u, null) && (<(u8, bool) as Deserialize<D, Ctx>>::is((field(<UnitS as DeserializeStruct<D, Ctx>>::rest((field(v, "in"@)->0).1), "_z"@)->0).0, x._z, null)) }
    spec fn rest(v: DF) -> DF { (field(<UnitS as DeserializeStruct<D, Ctx>>::rest((field(v, "in"@)->0).1), "_z"@)->0).1 }
//@fn DeserializeStruct for Inner :: deserialize_content | ret=r
//@end
}
//@item struct Flat
impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for Flat {
//@item const Deserialize for Flat :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool { opened(v) is Some && <Flat as DeserializeStruct<D, Ctx>>::sok(opened(v)->0, null) && closes(<Flat as DeserializeStruct<D, Ctx>>::rest(opened(v)->0)) }
    spec fn is(v: DF, x: Self, null: bool) -> bool { opened(v) is Some && <Flat as DeserializeStruct<D, Ctx>>::sis(opened(v)->0, x, null) }
    proof fn law(null: bool) {}
//@fn Deserialize for Flat :: deserialize | ret=r
//@end
}
impl<D: Deserializer + ?Sized, Ctx: ?Sized> DeserializeStruct<D, Ctx> for Flat {
    spec fn sok(v: DF, null: bool) -> bool { field(v, "PreFix"@) is Some && <u8 as Deserialize<D, Ctx>>::ok((field(v, "PreFix"@)->0).0, null) && <P as DeserializeStruct<D, Ctx>>::sok((field(v, "PreFix"@)->0).1, null) && field(<P as DeserializeStruct<D, Ctx>>::rest((field(v, "PreFix"@)->0).1), "post"@) is Some && <Option<String> as Deserialize<D, Ctx>>::ok((field(<P as DeserializeStruct<D, Ctx>>::rest((field(v, "PreFix"@)->0).1), "post"@)->0).0, null) && <Inner as DeserializeStruct<D, Ctx>>::sok((field(<P as DeserializeStruct<D, Ctx>>::rest((field(v, "PreFix"@)->0).1), "post"@)->0).1, null) }
    spec fn sis(v: DF, x: Self, null: bool) -> bool { (<u8 as Deserialize<D, Ctx>>::is((field(v, "PreFix"@)->0).0, x.PreFix, null)) && <P as DeserializeStruct<D, Ctx>>::sis((field(v, "PreFix"@)->0).1, x.p, null) && (<Option<String> as Deserialize<D, Ctx>>::is((field(<P as DeserializeStruct<D, Ctx>>::rest((field(v, "PreFix"@)->0).1), "post"@)->0).0, x.post, null)) && <Inner as DeserializeStruct<D, Ctx>>::sis((field(<P as DeserializeStruct<D, Ctx>>::rest((field(v, "PreFix"@)->0).1), "post"@)->0).1, x.q, null) }
    spec fn rest(v: DF) -> DF { <Inner as DeserializeStruct<D, Ctx>>::rest((field(<P as DeserializeStruct<D, Ctx>>::rest((field(v, "PreFix"@)->0).1), "post"@)->0).1) }
//@fn DeserializeStruct for Flat :: deserialize_content | ret=r
//@end
}
//@item struct Gen
impl<D: Deserializer + ?Sized, Ctx: ?Sized, T: Deserialize<D, Ctx>> Deserialize<D, Ctx> for Gen<T> {
//@item const Deserialize for Gen :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool { opened(v) is Some && <Gen<T> as DeserializeStruct<D, Ctx>>::sok(opened(v)->0, null) && closes(<Gen<T> as DeserializeStruct<D, Ctx>>::rest(opened(v)->0)) }
    spec fn is(v: DF, x: Self, null: bool) -> bool { opened(v) is Some && <Gen<T> as DeserializeStruct<D, Ctx>>::sis(opened(v)->0, x, null) }
    proof fn law(null: bool) {}
//@fn Deserialize for Gen :: deserialize | ret=r
//@end
}
impl<D: Deserializer + ?Sized, Ctx: ?Sized, T: Deserialize<D, Ctx>> DeserializeStruct<D, Ctx> for Gen<T> {
    spec fn sok(v: DF, null: bool) -> bool { field(v, "v"@) is Some && <T as Deserialize<D, Ctx>>::ok((field(v, "v"@)->0).0, null) && field((field(v, "v"@)->0).1, "w"@) is Some && <Vec<T> as Deserialize<D, Ctx>>::ok((field((field(v, "v"@)->0).1, "w"@)->0).0, null) && field((field((field(v, "v"@)->0).1, "w"@)->0).1, "o"@) is Some && <Option<u8> as Deserialize<D, Ctx>>::ok((field((field((field(v, "v"@)->0).1, "w"@)->0).1, "o"@)->0).0, null) }
    spec fn sis(v: DF, x: Self, null: bool) -> bool { (<T as Deserialize<D, Ctx>>::is((field(v, "v"@)->0).0, x.v, null)) && (<Vec<T> as Deserialize<D, Ctx>>::is((field((field(v, "v"@)->0).1, "w"@)->0).0, x.w, null)) && (<Option<u8> as Deserialize<D, Ctx>>::is((field((field((field(v, "v"@)->0).1, "w"@)->0).1, "o"@)->0).0, x.o, null)) }
    spec fn rest(v: DF) -> DF { (field((field((field(v, "v"@)->0).1, "w"@)->0).1, "o"@)->0).1 }
//@fn DeserializeStruct for Gen :: deserialize_content | ret=r
//@end
}
//@item enum Tag2
spec fn index_of_tag2(v: DF) -> Option<int> { match v { DF::Val(J::Str(cs)) => if cs == "First"@ { Some(3int) } else if cs == "Second"@ { Some(4int) } else if cs == "bee"@ { Some(5int) } else if cs == "Fourth"@ { Some(40int) } else if cs == "Fifth"@ { Some(7int) } else if cs == "Bé\n\""@ { Some(100int) } else if cs == ""@ { Some(0int) } else if cs == "bees"@ { Some(1int) } else { None::<int> }, DF::Val(J::Num(t)) => { let i = int_read(U64, t); if i == Some(3int) { i } else if i == Some(4int) { i } else if i == Some(5int) { i } else if i == Some(40int) { i } else if i == Some(7int) { i } else if i == Some(100int) { i } else if i == Some(0int) { i } else if i == Some(1int) { i } else { None::<int> } }, _ => None } }
spec fn variant_of_tag2(i: Option<usize>) -> Option<int> { if i == Some(3usize) { Some(3int) } else if i == Some(4usize) { Some(4int) } else if i == Some(5usize) { Some(5int) } else if i == Some(40usize) { Some(40int) } else if i == Some(7usize) { Some(7int) } else if i == Some(100usize) { Some(100int) } else if i == Some(0usize) { Some(0int) } else if i == Some(1usize) { Some(1int) } else { None } }
impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for Tag2 {
//@item const Deserialize for Tag2 :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool { index_of_tag2(v) is Some }
    spec fn is(v: DF, x: Self, null: bool) -> bool { match x { Self::First => index_of_tag2(v) == Some(3int), Self::Second => index_of_tag2(v) == Some(4int), Self::Third => index_of_tag2(v) == Some(5int), Self::Fourth => index_of_tag2(v) == Some(40int), Self::Fifth => index_of_tag2(v) == Some(7int), Self::Sixth => index_of_tag2(v) == Some(100int), Self::Seventh => index_of_tag2(v) == Some(0int), Self::Eighth => index_of_tag2(v) == Some(1int) } }
    proof fn law(null: bool) {}
//@fn Deserialize for Tag2 :: deserialize | ret=r
//@subst const NAMES : & NameMap < usize > = FixedNameMap :: new ( => let NAMED = (
//@subst . unfix ( ) ; => ; proof { reveal_strlit("First"); assert(NAMED@[0].0@ == "First"@); assert(NAMED@[0].1 == 3usize); reveal_strlit("Second"); assert(NAMED@[1].0@ == "Second"@); assert(NAMED@[1].1 == 4usize); reveal_strlit("bee"); assert(NAMED@[2].0@ == "bee"@); assert(NAMED@[2].1 == 5usize); reveal_strlit("Fourth"); assert(NAMED@[3].0@ == "Fourth"@); assert(NAMED@[3].1 == 40usize); reveal_strlit("Fifth"); assert(NAMED@[4].0@ == "Fifth"@); assert(NAMED@[4].1 == 7usize); reveal_strlit("Bé\n\""); assert(NAMED@[5].0@ == "Bé\n\""@); assert(NAMED@[5].1 == 100usize); reveal_strlit(""); assert(NAMED@[6].0@ == ""@); assert(NAMED@[6].1 == 0usize); reveal_strlit("bees"); assert(NAMED@[7].0@ == "bees"@); assert(NAMED@[7].1 == 1usize); assert("First"@.len() != "Second"@.len()); assert("First"@.len() != "bee"@.len()); assert("Second"@.len() != "bee"@.len()); assert("First"@.len() != "Fourth"@.len()); assert("Second"@[0] != "Fourth"@[0]); assert("bee"@.len() != "Fourth"@.len()); assert("First"@[2] != "Fifth"@[2]); assert("Second"@.len() != "Fifth"@.len()); assert("bee"@.len() != "Fifth"@.len()); assert("Fourth"@.len() != "Fifth"@.len()); assert("First"@.len() != "Bé\n\""@.len()); assert("Second"@.len() != "Bé\n\""@.len()); assert("bee"@.len() != "Bé\n\""@.len()); assert("Fourth"@.len() != "Bé\n\""@.len()); assert("Fifth"@.len() != "Bé\n\""@.len()); assert("First"@.len() != ""@.len()); assert("Second"@.len() != ""@.len()); assert("bee"@.len() != ""@.len()); assert("Fourth"@.len() != ""@.len()); assert("Fifth"@.len() != ""@.len()); assert("Bé\n\""@.len() != ""@.len()); assert("First"@.len() != "bees"@.len()); assert("Second"@.len() != "bees"@.len()); assert("bee"@.len() != "bees"@.len()); assert("Fourth"@.len() != "bees"@.len()); assert("Fifth"@.len() != "bees"@.len()); assert("Bé\n\""@[0] != "bees"@[0]); assert(""@.len() != "bees"@.len()); assert forall|i: int, j: int| 0 <= i < j < 8 implies (#[trigger] NAMED@[i]).0@ != (#[trigger] NAMED@[j]).0@ by { assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5 || i == 6 || i == 7); assert(j == 0 || j == 1 || j == 2 || j == 3 || j == 4 || j == 5 || j == 6 || j == 7); } } let NAMES : & NameMap < usize > = names_of ( NAMED ) ; proof { assert(NAMES@.dom().contains(NAMED@[0].0@)); assert(lookup(NAMES@, "First"@) == Some(3usize)); assert(NAMES@.dom().contains(NAMED@[1].0@)); assert(lookup(NAMES@, "Second"@) == Some(4usize)); assert(NAMES@.dom().contains(NAMED@[2].0@)); assert(lookup(NAMES@, "bee"@) == Some(5usize)); assert(NAMES@.dom().contains(NAMED@[3].0@)); assert(lookup(NAMES@, "Fourth"@) == Some(40usize)); assert(NAMES@.dom().contains(NAMED@[4].0@)); assert(lookup(NAMES@, "Fifth"@) == Some(7usize)); assert(NAMES@.dom().contains(NAMED@[5].0@)); assert(lookup(NAMES@, "Bé\n\""@) == Some(100usize)); assert(NAMES@.dom().contains(NAMED@[6].0@)); assert(lookup(NAMES@, ""@) == Some(0usize)); assert(NAMES@.dom().contains(NAMED@[7].0@)); assert(lookup(NAMES@, "bees"@) == Some(1usize)); assert forall|cs: Seq<char>| #[trigger] NAMES@.dom().contains(cs) implies cs == "First"@ || cs == "Second"@ || cs == "bee"@ || cs == "Fourth"@ || cs == "Fifth"@ || cs == "Bé\n\""@ || cs == ""@ || cs == "bees"@ by { let i = choose|i: int| 0 <= i < 8 && (#[trigger] NAMED@[i]).0@ == cs; assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5 || i == 6 || i == 7); } assert forall|v: DF| #[trigger] index_of_tag2(v) == match v { DF::Val(j) => variant_of_tag2(tag_of(100, NAMES@, j)), _ => None } by { } }
//@end
}
//@item enum Shape
spec fn index_of_shape(v: DF) -> Option<int> { match v { DF::Val(J::Str(cs)) => if cs == "Nothing"@ { Some(0int) } else if cs == "Rect"@ { Some(1int) } else if cs == "Point"@ { Some(2int) } else if cs == "pt"@ { Some(3int) } else { None::<int> }, DF::Val(J::Num(t)) => { let i = int_read(U64, t); if i == Some(0int) { i } else if i == Some(1int) { i } else if i == Some(2int) { i } else if i == Some(3int) { i } else { None::<int> } }, _ => None } }
spec fn variant_of_shape(i: Option<usize>) -> Option<int> { if i == Some(0usize) { Some(0int) } else if i == Some(1usize) { Some(1int) } else if i == Some(2usize) { Some(2int) } else if i == Some(3usize) { Some(3int) } else { None } }
impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for Shape {
//@item const Deserialize for Shape :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool { opened(v) is Some && <Shape as DeserializeStruct<D, Ctx>>::sok(opened(v)->0, null) && closes(<Shape as DeserializeStruct<D, Ctx>>::rest(opened(v)->0)) }
    spec fn is(v: DF, x: Self, null: bool) -> bool { opened(v) is Some && <Shape as DeserializeStruct<D, Ctx>>::sis(opened(v)->0, x, null) }
    proof fn law(null: bool) {}
//@fn Deserialize for Shape :: deserialize | ret=r
//@end
}
impl<D: Deserializer + ?Sized, Ctx: ?Sized> DeserializeStruct<D, Ctx> for Shape {
    spec fn sok(v: DF, null: bool) -> bool { field(v, "type"@) is Some && index_of_shape((field(v, "type"@)->0).0) is Some && { let i = index_of_shape((field(v, "type"@)->0).0)->0; if i == 0int { true } else if i == 1int { field((field(v, "type"@)->0).1, "height"@) is Some && <u32 as Deserialize<D, Ctx>>::ok((field((field(v, "type"@)->0).1, "height"@)->0).0, null) && field((field((field(v, "type"@)->0).1, "height"@)->0).1, "fill"@) is Some && (null && nothing((field((field((field(v, "type"@)->0).1, "height"@)->0).1, "fill"@)->0).0) || <bool as Deserialize<D, Ctx>>::ok((field((field((field(v, "type"@)->0).1, "height"@)->0).1, "fill"@)->0).0, null)) } else if i == 2int { <P as DeserializeStruct<D, Ctx>>::sok((field(v, "type"@)->0).1, null) } else if i == 3int { <P as DeserializeStruct<D, Ctx>>::sok((field(v, "type"@)->0).1, null) } else { false } } }
    spec fn sis(v: DF, x: Self, null: bool) -> bool { match x { Self::Nothing => index_of_shape((field(v, "type"@)->0).0) == Some(0int) && true, Self::Rect { h: z0, fill: z1 } => index_of_shape((field(v, "type"@)->0).0) == Some(1int) && (<u32 as Deserialize<D, Ctx>>::is((field((field(v, "type"@)->0).1, "height"@)->0).0, z0, null)) && (if null && nothing((field((field((field(v, "type"@)->0).1, "height"@)->0).1, "fill"@)->0).0) { call_ensures(<bool as Default>::default, (), z1) } else { <bool as Deserialize<D, Ctx>>::is((field((field((field(v, "type"@)->0).1, "height"@)->0).1, "fill"@)->0).0, z1, null) }), Self::Point { inner: z0 } => index_of_shape((field(v, "type"@)->0).0) == Some(2int) && <P as DeserializeStruct<D, Ctx>>::sis((field(v, "type"@)->0).1, z0, null), Self::Pt(z0) => index_of_shape((field(v, "type"@)->0).0) == Some(3int) && <P as DeserializeStruct<D, Ctx>>::sis((field(v, "type"@)->0).1, z0, null) } }
    spec fn rest(v: DF) -> DF { let i = index_of_shape((field(v, "type"@)->0).0)->0; if i == 0int { (field(v, "type"@)->0).1 } else if i == 1int { (field((field((field(v, "type"@)->0).1, "height"@)->0).1, "fill"@)->0).1 } else if i == 2int { <P as DeserializeStruct<D, Ctx>>::rest((field(v, "type"@)->0).1) } else if i == 3int { <P as DeserializeStruct<D, Ctx>>::rest((field(v, "type"@)->0).1) } else { v } }
//@fn DeserializeStruct for Shape :: deserialize_content | ret=r
//@subst const NAMES : & NameMap < usize > = FixedNameMap :: new ( => let NAMED = (
//@subst . unfix ( ) ; => ; proof { reveal_strlit("Nothing"); assert(NAMED@[0].0@ == "Nothing"@); assert(NAMED@[0].1 == 0usize); reveal_strlit("Rect"); assert(NAMED@[1].0@ == "Rect"@); assert(NAMED@[1].1 == 1usize); reveal_strlit("Point"); assert(NAMED@[2].0@ == "Point"@); assert(NAMED@[2].1 == 2usize); reveal_strlit("pt"); assert(NAMED@[3].0@ == "pt"@); assert(NAMED@[3].1 == 3usize); assert("Nothing"@.len() != "Rect"@.len()); assert("Nothing"@.len() != "Point"@.len()); assert("Rect"@.len() != "Point"@.len()); assert("Nothing"@.len() != "pt"@.len()); assert("Rect"@.len() != "pt"@.len()); assert("Point"@.len() != "pt"@.len()); assert forall|i: int, j: int| 0 <= i < j < 4 implies (#[trigger] NAMED@[i]).0@ != (#[trigger] NAMED@[j]).0@ by { assert(i == 0 || i == 1 || i == 2 || i == 3); assert(j == 0 || j == 1 || j == 2 || j == 3); } } let NAMES : & NameMap < usize > = names_of ( NAMED ) ; proof { assert(NAMES@.dom().contains(NAMED@[0].0@)); assert(lookup(NAMES@, "Nothing"@) == Some(0usize)); assert(NAMES@.dom().contains(NAMED@[1].0@)); assert(lookup(NAMES@, "Rect"@) == Some(1usize)); assert(NAMES@.dom().contains(NAMED@[2].0@)); assert(lookup(NAMES@, "Point"@) == Some(2usize)); assert(NAMES@.dom().contains(NAMED@[3].0@)); assert(lookup(NAMES@, "pt"@) == Some(3usize)); assert forall|cs: Seq<char>| #[trigger] NAMES@.dom().contains(cs) implies cs == "Nothing"@ || cs == "Rect"@ || cs == "Point"@ || cs == "pt"@ by { let i = choose|i: int| 0 <= i < 4 && (#[trigger] NAMED@[i]).0@ == cs; assert(i == 0 || i == 1 || i == 2 || i == 3); } assert forall|v: DF| #[trigger] index_of_shape(v) == match v { DF::Val(j) => variant_of_shape(tag_of(3, NAMES@, j)), _ => None } by { } }
//@end
}
//@item enum Kinds
spec fn index_of_kinds(v: DF) -> Option<int> { match v { DF::Val(J::Str(cs)) => if cs == "One"@ { Some(0int) } else if cs == "two"@ { Some(9int) } else if cs == "Three"@ { Some(2int) } else { None::<int> }, DF::Val(J::Num(t)) => { let i = int_read(U64, t); if i == Some(0int) { i } else if i == Some(9int) { i } else if i == Some(2int) { i } else { None::<int> } }, _ => None } }
spec fn variant_of_kinds(i: Option<usize>) -> Option<int> { if i == Some(0usize) { Some(0int) } else if i == Some(9usize) { Some(9int) } else if i == Some(2usize) { Some(2int) } else { None } }
impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for Kinds {
//@item const Deserialize for Kinds :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool { opened(v) is Some && <Kinds as DeserializeStruct<D, Ctx>>::sok(opened(v)->0, null) && closes(<Kinds as DeserializeStruct<D, Ctx>>::rest(opened(v)->0)) }
    spec fn is(v: DF, x: Self, null: bool) -> bool { opened(v) is Some && <Kinds as DeserializeStruct<D, Ctx>>::sis(opened(v)->0, x, null) }
    proof fn law(null: bool) {}
//@fn Deserialize for Kinds :: deserialize | ret=r
//@end
}
impl<D: Deserializer + ?Sized, Ctx: ?Sized> DeserializeStruct<D, Ctx> for Kinds {
    spec fn sok(v: DF, null: bool) -> bool { field(v, "kind"@) is Some && index_of_kinds((field(v, "kind"@)->0).0) is Some && { let i = index_of_kinds((field(v, "kind"@)->0).0)->0; if i == 0int { true } else if i == 9int { true } else if i == 2int { <P as DeserializeStruct<D, Ctx>>::sok((field(v, "kind"@)->0).1, null) && field(<P as DeserializeStruct<D, Ctx>>::rest((field(v, "kind"@)->0).1), "v"@) is Some && <(u8, u8) as Deserialize<D, Ctx>>::ok((field(<P as DeserializeStruct<D, Ctx>>::rest((field(v, "kind"@)->0).1), "v"@)->0).0, null) } else { false } } }
    spec fn sis(v: DF, x: Self, null: bool) -> bool { match x { Self::One => index_of_kinds((field(v, "kind"@)->0).0) == Some(0int) && true, Self::Two => index_of_kinds((field(v, "kind"@)->0).0) == Some(9int) && true, Self::Three { t: z0, v: z1 } => index_of_kinds((field(v, "kind"@)->0).0) == Some(2int) && <P as DeserializeStruct<D, Ctx>>::sis((field(v, "kind"@)->0).1, z0, null) && (<(u8, u8) as Deserialize<D, Ctx>>::is((field(<P as DeserializeStruct<D, Ctx>>::rest((field(v, "kind"@)->0).1), "v"@)->0).0, z1, null)) } }
    spec fn rest(v: DF) -> DF { let i = index_of_kinds((field(v, "kind"@)->0).0)->0; if i == 0int { (field(v, "kind"@)->0).1 } else if i == 9int { (field(v, "kind"@)->0).1 } else if i == 2int { (field(<P as DeserializeStruct<D, Ctx>>::rest((field(v, "kind"@)->0).1), "v"@)->0).1 } else { v } }
//@fn DeserializeStruct for Kinds :: deserialize_content | ret=r
//@subst const NAMES : & NameMap < usize > = FixedNameMap :: new ( => let NAMED = (
//@subst . unfix ( ) ; => ; proof { reveal_strlit("One"); assert(NAMED@[0].0@ == "One"@); assert(NAMED@[0].1 == 0usize); reveal_strlit("two"); assert(NAMED@[1].0@ == "two"@); assert(NAMED@[1].1 == 9usize); reveal_strlit("Three"); assert(NAMED@[2].0@ == "Three"@); assert(NAMED@[2].1 == 2usize); assert("One"@[0] != "two"@[0]); assert("One"@.len() != "Three"@.len()); assert("two"@.len() != "Three"@.len()); assert forall|i: int, j: int| 0 <= i < j < 3 implies (#[trigger] NAMED@[i]).0@ != (#[trigger] NAMED@[j]).0@ by { assert(i == 0 || i == 1 || i == 2); assert(j == 0 || j == 1 || j == 2); } } let NAMES : & NameMap < usize > = names_of ( NAMED ) ; proof { assert(NAMES@.dom().contains(NAMED@[0].0@)); assert(lookup(NAMES@, "One"@) == Some(0usize)); assert(NAMES@.dom().contains(NAMED@[1].0@)); assert(lookup(NAMES@, "two"@) == Some(9usize)); assert(NAMES@.dom().contains(NAMED@[2].0@)); assert(lookup(NAMES@, "Three"@) == Some(2usize)); assert forall|cs: Seq<char>| #[trigger] NAMES@.dom().contains(cs) implies cs == "One"@ || cs == "two"@ || cs == "Three"@ by { let i = choose|i: int| 0 <= i < 3 && (#[trigger] NAMED@[i]).0@ == cs; assert(i == 0 || i == 1 || i == 2); } assert forall|v: DF| #[trigger] index_of_kinds(v) == match v { DF::Val(j) => variant_of_kinds(tag_of(9, NAMES@, j)), _ => None } by { } }
//@end
}
//@item enum OnlyUnits
spec fn index_of_onlyunits(v: DF) -> Option<int> { match v { DF::Val(J::Str(cs)) => if cs == "X"@ { Some(0int) } else if cs == "Y"@ { Some(1int) } else { None::<int> }, DF::Val(J::Num(t)) => { let i = int_read(U64, t); if i == Some(0int) { i } else if i == Some(1int) { i } else { None::<int> } }, _ => None } }
spec fn variant_of_onlyunits(i: Option<usize>) -> Option<int> { if i == Some(0usize) { Some(0int) } else if i == Some(1usize) { Some(1int) } else { None } }
impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for OnlyUnits {
//@item const Deserialize for OnlyUnits :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool { opened(v) is Some && <OnlyUnits as DeserializeStruct<D, Ctx>>::sok(opened(v)->0, null) && closes(<OnlyUnits as DeserializeStruct<D, Ctx>>::rest(opened(v)->0)) }
    spec fn is(v: DF, x: Self, null: bool) -> bool { opened(v) is Some && <OnlyUnits as DeserializeStruct<D, Ctx>>::sis(opened(v)->0, x, null) }
    proof fn law(null: bool) {}
//@fn Deserialize for OnlyUnits :: deserialize | ret=r
//@end
}
impl<D: Deserializer + ?Sized, Ctx: ?Sized> DeserializeStruct<D, Ctx> for OnlyUnits {
    spec fn sok(v: DF, null: bool) -> bool { field(v, "t"@) is Some && index_of_onlyunits((field(v, "t"@)->0).0) is Some && { let i = index_of_onlyunits((field(v, "t"@)->0).0)->0; if i == 0int { true } else if i == 1int { true } else { false } } }
    spec fn sis(v: DF, x: Self, null: bool) -> bool { match x { Self::X => index_of_onlyunits((field(v, "t"@)->0).0) == Some(0int) && true, Self::Y => index_of_onlyunits((field(v, "t"@)->0).0) == Some(1int) && true } }
    spec fn rest(v: DF) -> DF { let i = index_of_onlyunits((field(v, "t"@)->0).0)->0; if i == 0int { (field(v, "t"@)->0).1 } else if i == 1int { (field(v, "t"@)->0).1 } else { v } }
//@fn DeserializeStruct for OnlyUnits :: deserialize_content | ret=r
//@subst const NAMES : & NameMap < usize > = FixedNameMap :: new ( => let NAMED = (
//@subst . unfix ( ) ; => ; proof { reveal_strlit("X"); assert(NAMED@[0].0@ == "X"@); assert(NAMED@[0].1 == 0usize); reveal_strlit("Y"); assert(NAMED@[1].0@ == "Y"@); assert(NAMED@[1].1 == 1usize); assert("X"@[0] != "Y"@[0]); assert forall|i: int, j: int| 0 <= i < j < 2 implies (#[trigger] NAMED@[i]).0@ != (#[trigger] NAMED@[j]).0@ by { assert(i == 0 || i == 1); assert(j == 0 || j == 1); } } let NAMES : & NameMap < usize > = names_of ( NAMED ) ; proof { assert(NAMES@.dom().contains(NAMED@[0].0@)); assert(lookup(NAMES@, "X"@) == Some(0usize)); assert(NAMES@.dom().contains(NAMED@[1].0@)); assert(lookup(NAMES@, "Y"@) == Some(1usize)); assert forall|cs: Seq<char>| #[trigger] NAMES@.dom().contains(cs) implies cs == "X"@ || cs == "Y"@ by { let i = choose|i: int| 0 <= i < 2 && (#[trigger] NAMED@[i]).0@ == cs; assert(i == 0 || i == 1); } assert forall|v: DF| #[trigger] index_of_onlyunits(v) == match v { DF::Val(j) => variant_of_onlyunits(tag_of(1, NAMES@, j)), _ => None } by { } }
//@end
}
//@item struct FlatEnum
impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for FlatEnum {
//@item const Deserialize for FlatEnum :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool { opened(v) is Some && <FlatEnum as DeserializeStruct<D, Ctx>>::sok(opened(v)->0, null) && closes(<FlatEnum as DeserializeStruct<D, Ctx>>::rest(opened(v)->0)) }
    spec fn is(v: DF, x: Self, null: bool) -> bool { opened(v) is Some && <FlatEnum as DeserializeStruct<D, Ctx>>::sis(opened(v)->0, x, null) }
    proof fn law(null: bool) {}
//@fn Deserialize for FlatEnum :: deserialize | ret=r
//@end
}
impl<D: Deserializer + ?Sized, Ctx: ?Sized> DeserializeStruct<D, Ctx> for FlatEnum {
    spec fn sok(v: DF, null: bool) -> bool { field(v, "id"@) is Some && <u32 as Deserialize<D, Ctx>>::ok((field(v, "id"@)->0).0, null) && <Shape as DeserializeStruct<D, Ctx>>::sok((field(v, "id"@)->0).1, null) && field(<Shape as DeserializeStruct<D, Ctx>>::rest((field(v, "id"@)->0).1), "last"@) is Some && <Option<u8> as Deserialize<D, Ctx>>::ok((field(<Shape as DeserializeStruct<D, Ctx>>::rest((field(v, "id"@)->0).1), "last"@)->0).0, null) }
    spec fn sis(v: DF, x: Self, null: bool) -> bool { (<u32 as Deserialize<D, Ctx>>::is((field(v, "id"@)->0).0, x.id, null)) && <Shape as DeserializeStruct<D, Ctx>>::sis((field(v, "id"@)->0).1, x.shape, null) && (<Option<u8> as Deserialize<D, Ctx>>::is((field(<Shape as DeserializeStruct<D, Ctx>>::rest((field(v, "id"@)->0).1), "last"@)->0).0, x.last, null)) }
    spec fn rest(v: DF) -> DF { (field(<Shape as DeserializeStruct<D, Ctx>>::rest((field(v, "id"@)->0).1), "last"@)->0).1 }
//@fn DeserializeStruct for FlatEnum :: deserialize_content | ret=r
//@end
}
//@item struct Prox
impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for Prox {
//@item const Deserialize for Prox :: NULLABLE
    spec fn ok(v: DF, null: bool) -> bool { opened(v) is Some && <Prox as DeserializeStruct<D, Ctx>>::sok(opened(v)->0, null) && closes(<Prox as DeserializeStruct<D, Ctx>>::rest(opened(v)->0)) }
    spec fn is(v: DF, x: Self, null: bool) -> bool { opened(v) is Some && <Prox as DeserializeStruct<D, Ctx>>::sis(opened(v)->0, x, null) }
    proof fn law(null: bool) {}
//@fn Deserialize for Prox :: deserialize | ret=r
//@end
}
impl<D: Deserializer + ?Sized, Ctx: ?Sized> DeserializeStruct<D, Ctx> for Prox {
    spec fn sok(v: DF, null: bool) -> bool { field(v, "a"@) is Some && <u8 as Deserialize<D, Ctx>>::ok((field(v, "a"@)->0).0, null) && field((field(v, "a"@)->0).1, "bb"@) is Some && (null && nothing((field((field(v, "a"@)->0).1, "bb"@)->0).0) || <u16 as Deserialize<D, Ctx>>::ok((field((field(v, "a"@)->0).1, "bb"@)->0).0, null)) && field((field((field(v, "a"@)->0).1, "bb"@)->0).1, "c"@) is Some && <i64 as Deserialize<D, Ctx>>::ok((field((field((field(v, "a"@)->0).1, "bb"@)->0).1, "c"@)->0).0, null) }
    spec fn sis(v: DF, x: Self, null: bool) -> bool { (exists|p: u8| <u8 as Deserialize<D, Ctx>>::is((field(v, "a"@)->0).0, p, null) && call_ensures(<u8 as Into<u32>>::into, (p,), x.a)) && (if null && nothing((field((field(v, "a"@)->0).1, "bb"@)->0).0) { call_ensures(<u64 as Default>::default, (), x.b) } else { exists|p: u16| <u16 as Deserialize<D, Ctx>>::is((field((field(v, "a"@)->0).1, "bb"@)->0).0, p, null) && call_ensures(<u16 as Into<u64>>::into, (p,), x.b) }) && (<i64 as Deserialize<D, Ctx>>::is((field((field((field(v, "a"@)->0).1, "bb"@)->0).1, "c"@)->0).0, x.c, null)) }
    spec fn rest(v: DF) -> DF { (field((field((field(v, "a"@)->0).1, "bb"@)->0).1, "c"@)->0).1 }
//@fn DeserializeStruct for Prox :: deserialize_content | ret=r
//@end
}
} // verus!
fn main() {}
