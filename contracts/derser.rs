//@include prelude0.rs
//@include opkinds.rs
/// What a serializer remembers; any type with any behaviour.
#[verifier::external_body]
struct Sem { x: u8 }
uninterp spec fn run(s: Sem, op: Op) -> Option<(Ret, Sem)>;
//@include ops.rs
//@include sources.rs
//@include wrappers.rs proved=wrap
//@include values.rs
//@include serimpls.rs proved=ser
// Written by tools/derived.py: what each sample declaration must be written as.
proof fn lemma_append_fields(s: Option<Sem>, a: Seq<(Seq<char>, V)>, b: Seq<(Seq<char>, V)>)
    ensures wv_fields(s, a + b) == wv_fields(wv_fields(s, a), b), wv_fields(None, b) is None
    decreases b.len()
{
    lemma_fields_none(None, b, 0);
    if b.len() > 0 { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_append_fields(s, a, b.drop_last()); } else { assert(a + b =~= a); }
}
//@use @derived
//@item struct Empty
impl<S: Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for Empty {
//@item const Serialize for Empty :: NULLABLE
    spec fn val(&self, null: bool) -> V { V::Struct(Some("Empty"@), <Empty as SerializeStruct<S, Ctx>>::fields(self, null)) }
    proof fn law(&self) {}
//@fn Serialize for Empty :: serialize | ret=r
//@end
}
impl<S: Serializer + ?Sized, Ctx: ?Sized> SerializeStruct<S, Ctx> for Empty {
    spec fn fields(&self, null: bool) -> Seq<(Seq<char>, V)> { Seq::<(Seq<char>, V)>::empty() }
//@fn SerializeStruct for Empty :: serialize_content | ret=r
//@end
}
//@item struct UnitS
impl<S: Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for UnitS {
//@item const Serialize for UnitS :: NULLABLE
    spec fn val(&self, null: bool) -> V { V::Struct(Some("UnitS"@), <UnitS as SerializeStruct<S, Ctx>>::fields(self, null)) }
    proof fn law(&self) {}
//@fn Serialize for UnitS :: serialize | ret=r
//@end
}
impl<S: Serializer + ?Sized, Ctx: ?Sized> SerializeStruct<S, Ctx> for UnitS {
    spec fn fields(&self, null: bool) -> Seq<(Seq<char>, V)> { Seq::<(Seq<char>, V)>::empty() }
//@fn SerializeStruct for UnitS :: serialize_content | ret=r
//@end
}
//@item struct P
impl<S: Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for P {
//@item const Serialize for P :: NULLABLE
    spec fn val(&self, null: bool) -> V { V::Struct(Some("P"@), <P as SerializeStruct<S, Ctx>>::fields(self, null)) }
    proof fn law(&self) {}
//@fn Serialize for P :: serialize | ret=r
//@end
}
impl<S: Serializer + ?Sized, Ctx: ?Sized> SerializeStruct<S, Ctx> for P {
    spec fn fields(&self, null: bool) -> Seq<(Seq<char>, V)> { Seq::<(Seq<char>, V)>::empty().push(("x"@, <i32 as Serialize<S, Ctx>>::val(&self.x, null))).push(("y"@, <f64 as Serialize<S, Ctx>>::val(&self.y, null))) }
//@fn SerializeStruct for P :: serialize_content | ret=r
//@entry
    proof { let o = Some(st.source.w().sem); let null = st.source.w().null; lemma_push_field(o, Seq::<(Seq<char>, V)>::empty(), ("x"@, <i32 as Serialize<S, Ctx>>::val(&self.x, null))); lemma_push_field(o, Seq::<(Seq<char>, V)>::empty().push(("x"@, <i32 as Serialize<S, Ctx>>::val(&self.x, null))), ("y"@, <f64 as Serialize<S, Ctx>>::val(&self.y, null))); }
//@end
}
//@item struct Ren
impl<S: Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for Ren {
//@item const Serialize for Ren :: NULLABLE
    spec fn val(&self, null: bool) -> V { V::Struct(Some("Ren"@), <Ren as SerializeStruct<S, Ctx>>::fields(self, null)) }
    proof fn law(&self) {}
//@fn Serialize for Ren :: serialize | ret=r
//@end
}
impl<S: Serializer + ?Sized, Ctx: ?Sized> SerializeStruct<S, Ctx> for Ren {
    spec fn fields(&self, null: bool) -> Seq<(Seq<char>, V)> { Seq::<(Seq<char>, V)>::empty().push(("type"@, <String as Serialize<S, Ctx>>::val(&self.kind, null))).push(("weird \" name\n"@, <bool as Serialize<S, Ctx>>::val(&self.odd, null))).push(("é😀"@, <Option<char> as Serialize<S, Ctx>>::val(&self.uni, null))).push(("kind"@, <u8 as Serialize<S, Ctx>>::val(&self.swapped, null))).push((""@, <i16 as Serialize<S, Ctx>>::val(&self._under, null))) }
//@fn SerializeStruct for Ren :: serialize_content | ret=r
//@entry
    proof { let o = Some(st.source.w().sem); let null = st.source.w().null; lemma_push_field(o, Seq::<(Seq<char>, V)>::empty(), ("type"@, <String as Serialize<S, Ctx>>::val(&self.kind, null))); lemma_push_field(o, Seq::<(Seq<char>, V)>::empty().push(("type"@, <String as Serialize<S, Ctx>>::val(&self.kind, null))), ("weird \" name\n"@, <bool as Serialize<S, Ctx>>::val(&self.odd, null))); lemma_push_field(o, Seq::<(Seq<char>, V)>::empty().push(("type"@, <String as Serialize<S, Ctx>>::val(&self.kind, null))).push(("weird \" name\n"@, <bool as Serialize<S, Ctx>>::val(&self.odd, null))), ("é😀"@, <Option<char> as Serialize<S, Ctx>>::val(&self.uni, null))); lemma_push_field(o, Seq::<(Seq<char>, V)>::empty().push(("type"@, <String as Serialize<S, Ctx>>::val(&self.kind, null))).push(("weird \" name\n"@, <bool as Serialize<S, Ctx>>::val(&self.odd, null))).push(("é😀"@, <Option<char> as Serialize<S, Ctx>>::val(&self.uni, null))), ("kind"@, <u8 as Serialize<S, Ctx>>::val(&self.swapped, null))); lemma_push_field(o, Seq::<(Seq<char>, V)>::empty().push(("type"@, <String as Serialize<S, Ctx>>::val(&self.kind, null))).push(("weird \" name\n"@, <bool as Serialize<S, Ctx>>::val(&self.odd, null))).push(("é😀"@, <Option<char> as Serialize<S, Ctx>>::val(&self.uni, null))).push(("kind"@, <u8 as Serialize<S, Ctx>>::val(&self.swapped, null))), (""@, <i16 as Serialize<S, Ctx>>::val(&self._under, null))); }
//@end
}
//@item struct Opts
impl<S: Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for Opts {
//@item const Serialize for Opts :: NULLABLE
    spec fn val(&self, null: bool) -> V { V::Struct(Some("Opts"@), <Opts as SerializeStruct<S, Ctx>>::fields(self, null)) }
    proof fn law(&self) {}
//@fn Serialize for Opts :: serialize | ret=r
//@end
}
impl<S: Serializer + ?Sized, Ctx: ?Sized> SerializeStruct<S, Ctx> for Opts {
    spec fn fields(&self, null: bool) -> Seq<(Seq<char>, V)> { Seq::<(Seq<char>, V)>::empty().push(("a"@, <Option<u8> as Serialize<S, Ctx>>::val(&self.a, null))).push(("c"@, <u32 as Serialize<S, Ctx>>::val(&self.c, null))).push(("d"@, <String as Serialize<S, Ctx>>::val(&self.d, null))) }
//@fn SerializeStruct for Opts :: serialize_content | ret=r
//@entry
    proof { let o = Some(st.source.w().sem); let null = st.source.w().null; lemma_push_field(o, Seq::<(Seq<char>, V)>::empty(), ("a"@, <Option<u8> as Serialize<S, Ctx>>::val(&self.a, null))); lemma_push_field(o, Seq::<(Seq<char>, V)>::empty().push(("a"@, <Option<u8> as Serialize<S, Ctx>>::val(&self.a, null))), ("c"@, <u32 as Serialize<S, Ctx>>::val(&self.c, null))); lemma_push_field(o, Seq::<(Seq<char>, V)>::empty().push(("a"@, <Option<u8> as Serialize<S, Ctx>>::val(&self.a, null))).push(("c"@, <u32 as Serialize<S, Ctx>>::val(&self.c, null))), ("d"@, <String as Serialize<S, Ctx>>::val(&self.d, null))); }
//@end
}
//@item struct Opts2
impl<S: Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for Opts2 {
//@item const Serialize for Opts2 :: NULLABLE
    spec fn val(&self, null: bool) -> V { V::Struct(Some("Opts2"@), <Opts2 as SerializeStruct<S, Ctx>>::fields(self, null)) }
    proof fn law(&self) {}
//@fn Serialize for Opts2 :: serialize | ret=r
//@end
}
impl<S: Serializer + ?Sized, Ctx: ?Sized> SerializeStruct<S, Ctx> for Opts2 {
    spec fn fields(&self, null: bool) -> Seq<(Seq<char>, V)> { Seq::<(Seq<char>, V)>::empty().push(("ee"@, <Option<Option<bool>> as Serialize<S, Ctx>>::val(&self.e, null))).push(("eff"@, <bool as Serialize<S, Ctx>>::val(&self.f, null))) }
//@fn SerializeStruct for Opts2 :: serialize_content | ret=r
//@entry
    proof { let o = Some(st.source.w().sem); let null = st.source.w().null; lemma_push_field(o, Seq::<(Seq<char>, V)>::empty(), ("ee"@, <Option<Option<bool>> as Serialize<S, Ctx>>::val(&self.e, null))); lemma_push_field(o, Seq::<(Seq<char>, V)>::empty().push(("ee"@, <Option<Option<bool>> as Serialize<S, Ctx>>::val(&self.e, null))), ("eff"@, <bool as Serialize<S, Ctx>>::val(&self.f, null))); }
//@end
}
//@item enum Tag
impl<S: Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for Tag {
//@item const Serialize for Tag :: NULLABLE
    spec fn val(&self, null: bool) -> V { match self { Self::A => V::Tag(2, 0, Some("A"@)), Self::B => V::Tag(2, 1, Some("B"@)), Self::C => V::Tag(2, 2, Some("C"@)) } }
    proof fn law(&self) {}
//@fn Serialize for Tag :: serialize | ret=r
//@end
}
//@item struct Inner
impl<S: Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for Inner {
//@item const Serialize for Inner :: NULLABLE
    spec fn val(&self, null: bool) -> V { V::Struct(Some("Inner"@), <Inner as SerializeStruct<S, Ctx>>::fields(self, null)) }
    proof fn law(&self) {}
//@fn Serialize for Inner :: serialize | ret=r
//@end
}
impl<S: Serializer + ?Sized, Ctx: ?Sized> SerializeStruct<S, Ctx> for Inner {
    spec fn fields(&self, null: bool) -> Seq<(Seq<char>, V)> { (Seq::<(Seq<char>, V)>::empty().push(("in"@, <Tag as Serialize<S, Ctx>>::val(&self.i, null))) + <UnitS as SerializeStruct<S, Ctx>>::fields(&self.u, null)).push(("_z"@, <(u8, bool) as Serialize<S, Ctx>>::val(&self._z, null))) }
//@fn SerializeStruct for Inner :: serialize_content | ret=r
//@entry
    proof { let o = Some(st.source.w().sem); let null = st.source.w().null; lemma_push_field(o, Seq::<(Seq<char>, V)>::empty(), ("in"@, <Tag as Serialize<S, Ctx>>::val(&self.i, null))); lemma_append_fields(o, Seq::<(Seq<char>, V)>::empty().push(("in"@, <Tag as Serialize<S, Ctx>>::val(&self.i, null))), <UnitS as SerializeStruct<S, Ctx>>::fields(&self.u, null)); lemma_push_field(o, (Seq::<(Seq<char>, V)>::empty().push(("in"@, <Tag as Serialize<S, Ctx>>::val(&self.i, null))) + <UnitS as SerializeStruct<S, Ctx>>::fields(&self.u, null)), ("_z"@, <(u8, bool) as Serialize<S, Ctx>>::val(&self._z, null))); }
//@end
}
//@item struct Flat
impl<S: Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for Flat {
//@item const Serialize for Flat :: NULLABLE
    spec fn val(&self, null: bool) -> V { V::Struct(Some("Flat"@), <Flat as SerializeStruct<S, Ctx>>::fields(self, null)) }
    proof fn law(&self) {}
//@fn Serialize for Flat :: serialize | ret=r
//@end
}
impl<S: Serializer + ?Sized, Ctx: ?Sized> SerializeStruct<S, Ctx> for Flat {
    spec fn fields(&self, null: bool) -> Seq<(Seq<char>, V)> { ((Seq::<(Seq<char>, V)>::empty().push(("PreFix"@, <u8 as Serialize<S, Ctx>>::val(&self.PreFix, null))) + <P as SerializeStruct<S, Ctx>>::fields(&self.p, null)).push(("post"@, <Option<String> as Serialize<S, Ctx>>::val(&self.post, null))) + <Inner as SerializeStruct<S, Ctx>>::fields(&self.q, null)) }
//@fn SerializeStruct for Flat :: serialize_content | ret=r
//@entry
    proof { let o = Some(st.source.w().sem); let null = st.source.w().null; lemma_push_field(o, Seq::<(Seq<char>, V)>::empty(), ("PreFix"@, <u8 as Serialize<S, Ctx>>::val(&self.PreFix, null))); lemma_append_fields(o, Seq::<(Seq<char>, V)>::empty().push(("PreFix"@, <u8 as Serialize<S, Ctx>>::val(&self.PreFix, null))), <P as SerializeStruct<S, Ctx>>::fields(&self.p, null)); lemma_push_field(o, (Seq::<(Seq<char>, V)>::empty().push(("PreFix"@, <u8 as Serialize<S, Ctx>>::val(&self.PreFix, null))) + <P as SerializeStruct<S, Ctx>>::fields(&self.p, null)), ("post"@, <Option<String> as Serialize<S, Ctx>>::val(&self.post, null))); lemma_append_fields(o, (Seq::<(Seq<char>, V)>::empty().push(("PreFix"@, <u8 as Serialize<S, Ctx>>::val(&self.PreFix, null))) + <P as SerializeStruct<S, Ctx>>::fields(&self.p, null)).push(("post"@, <Option<String> as Serialize<S, Ctx>>::val(&self.post, null))), <Inner as SerializeStruct<S, Ctx>>::fields(&self.q, null)); }
//@end
}
//@item struct Gen
impl<S: Serializer + ?Sized, Ctx: ?Sized, T: Serialize<S, Ctx>> Serialize<S, Ctx> for Gen<T> {
//@item const Serialize for Gen :: NULLABLE
    spec fn val(&self, null: bool) -> V { V::Struct(Some("Gen"@), <Gen<T> as SerializeStruct<S, Ctx>>::fields(self, null)) }
    proof fn law(&self) {}
//@fn Serialize for Gen :: serialize | ret=r
//@end
}
impl<S: Serializer + ?Sized, Ctx: ?Sized, T: Serialize<S, Ctx>> SerializeStruct<S, Ctx> for Gen<T> {
    spec fn fields(&self, null: bool) -> Seq<(Seq<char>, V)> { Seq::<(Seq<char>, V)>::empty().push(("v"@, <T as Serialize<S, Ctx>>::val(&self.v, null))).push(("w"@, <Vec<T> as Serialize<S, Ctx>>::val(&self.w, null))).push(("o"@, <Option<u8> as Serialize<S, Ctx>>::val(&self.o, null))) }
//@fn SerializeStruct for Gen :: serialize_content | ret=r
//@entry
    proof { let o = Some(st.source.w().sem); let null = st.source.w().null; lemma_push_field(o, Seq::<(Seq<char>, V)>::empty(), ("v"@, <T as Serialize<S, Ctx>>::val(&self.v, null))); lemma_push_field(o, Seq::<(Seq<char>, V)>::empty().push(("v"@, <T as Serialize<S, Ctx>>::val(&self.v, null))), ("w"@, <Vec<T> as Serialize<S, Ctx>>::val(&self.w, null))); lemma_push_field(o, Seq::<(Seq<char>, V)>::empty().push(("v"@, <T as Serialize<S, Ctx>>::val(&self.v, null))).push(("w"@, <Vec<T> as Serialize<S, Ctx>>::val(&self.w, null))), ("o"@, <Option<u8> as Serialize<S, Ctx>>::val(&self.o, null))); }
//@end
}
//@item enum Tag2
impl<S: Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for Tag2 {
//@item const Serialize for Tag2 :: NULLABLE
    spec fn val(&self, null: bool) -> V { match self { Self::First => V::Tag(100, 3, Some("First"@)), Self::Second => V::Tag(100, 4, Some("Second"@)), Self::Third => V::Tag(100, 5, Some("bee"@)), Self::Fourth => V::Tag(100, 40, Some("Fourth"@)), Self::Fifth => V::Tag(100, 7, Some("Fifth"@)), Self::Sixth => V::Tag(100, 100, Some("Bé\n\""@)), Self::Seventh => V::Tag(100, 0, Some(""@)), Self::Eighth => V::Tag(100, 1, Some("bees"@)) } }
    proof fn law(&self) {}
//@fn Serialize for Tag2 :: serialize | ret=r
//@end
}
//@item enum Shape
impl<S: Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for Shape {
//@item const Serialize for Shape :: NULLABLE
    spec fn val(&self, null: bool) -> V { V::Struct(Some("Shape"@), <Shape as SerializeStruct<S, Ctx>>::fields(self, null)) }
    proof fn law(&self) {}
//@fn Serialize for Shape :: serialize | ret=r
//@end
}
impl<S: Serializer + ?Sized, Ctx: ?Sized> SerializeStruct<S, Ctx> for Shape {
    spec fn fields(&self, null: bool) -> Seq<(Seq<char>, V)> { match self { Self::Nothing => Seq::<(Seq<char>, V)>::empty().push(("type"@, V::Tag(3, 0, Some("Nothing"@)))), Self::Rect { h: z0, fill: z1 } => Seq::<(Seq<char>, V)>::empty().push(("type"@, V::Tag(3, 1, Some("Rect"@)))).push(("height"@, <u32 as Serialize<S, Ctx>>::val(z0, null))).push(("fill"@, <bool as Serialize<S, Ctx>>::val(z1, null))), Self::Point { inner: z0 } => (Seq::<(Seq<char>, V)>::empty().push(("type"@, V::Tag(3, 2, Some("Point"@)))) + <P as SerializeStruct<S, Ctx>>::fields(z0, null)), Self::Pt(z0) => (Seq::<(Seq<char>, V)>::empty().push(("type"@, V::Tag(3, 3, Some("pt"@)))) + <P as SerializeStruct<S, Ctx>>::fields(z0, null)) } }
//@fn SerializeStruct for Shape :: serialize_content | ret=r
//@entry
    proof { let o = Some(st.source.w().sem); let null = st.source.w().null; match self { Self::Nothing => { lemma_push_field(o, Seq::<(Seq<char>, V)>::empty(), ("type"@, V::Tag(3, 0, Some("Nothing"@))));  } Self::Rect { h: z0, fill: z1 } => { lemma_push_field(o, Seq::<(Seq<char>, V)>::empty(), ("type"@, V::Tag(3, 1, Some("Rect"@)))); lemma_push_field(o, Seq::<(Seq<char>, V)>::empty().push(("type"@, V::Tag(3, 1, Some("Rect"@)))), ("height"@, <u32 as Serialize<S, Ctx>>::val(z0, null))); lemma_push_field(o, Seq::<(Seq<char>, V)>::empty().push(("type"@, V::Tag(3, 1, Some("Rect"@)))).push(("height"@, <u32 as Serialize<S, Ctx>>::val(z0, null))), ("fill"@, <bool as Serialize<S, Ctx>>::val(z1, null))); } Self::Point { inner: z0 } => { lemma_push_field(o, Seq::<(Seq<char>, V)>::empty(), ("type"@, V::Tag(3, 2, Some("Point"@)))); lemma_append_fields(o, Seq::<(Seq<char>, V)>::empty().push(("type"@, V::Tag(3, 2, Some("Point"@)))), <P as SerializeStruct<S, Ctx>>::fields(z0, null)); } Self::Pt(z0) => { lemma_push_field(o, Seq::<(Seq<char>, V)>::empty(), ("type"@, V::Tag(3, 3, Some("pt"@)))); lemma_append_fields(o, Seq::<(Seq<char>, V)>::empty().push(("type"@, V::Tag(3, 3, Some("pt"@)))), <P as SerializeStruct<S, Ctx>>::fields(z0, null)); } } }
//@end
}
//@item enum Kinds
impl<S: Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for Kinds {
//@item const Serialize for Kinds :: NULLABLE
    spec fn val(&self, null: bool) -> V { V::Struct(Some("Kinds"@), <Kinds as SerializeStruct<S, Ctx>>::fields(self, null)) }
    proof fn law(&self) {}
//@fn Serialize for Kinds :: serialize | ret=r
//@end
}
impl<S: Serializer + ?Sized, Ctx: ?Sized> SerializeStruct<S, Ctx> for Kinds {
    spec fn fields(&self, null: bool) -> Seq<(Seq<char>, V)> { match self { Self::One => Seq::<(Seq<char>, V)>::empty().push(("kind"@, V::Tag(9, 0, Some("One"@)))), Self::Two => Seq::<(Seq<char>, V)>::empty().push(("kind"@, V::Tag(9, 9, Some("two"@)))), Self::Three { t: z0, v: z1 } => (Seq::<(Seq<char>, V)>::empty().push(("kind"@, V::Tag(9, 2, Some("Three"@)))) + <P as SerializeStruct<S, Ctx>>::fields(z0, null)).push(("v"@, <(u8, u8) as Serialize<S, Ctx>>::val(z1, null))) } }
//@fn SerializeStruct for Kinds :: serialize_content | ret=r
//@entry
    proof { let o = Some(st.source.w().sem); let null = st.source.w().null; match self { Self::One => { lemma_push_field(o, Seq::<(Seq<char>, V)>::empty(), ("kind"@, V::Tag(9, 0, Some("One"@))));  } Self::Two => { lemma_push_field(o, Seq::<(Seq<char>, V)>::empty(), ("kind"@, V::Tag(9, 9, Some("two"@))));  } Self::Three { t: z0, v: z1 } => { lemma_push_field(o, Seq::<(Seq<char>, V)>::empty(), ("kind"@, V::Tag(9, 2, Some("Three"@)))); lemma_append_fields(o, Seq::<(Seq<char>, V)>::empty().push(("kind"@, V::Tag(9, 2, Some("Three"@)))), <P as SerializeStruct<S, Ctx>>::fields(z0, null)); lemma_push_field(o, (Seq::<(Seq<char>, V)>::empty().push(("kind"@, V::Tag(9, 2, Some("Three"@)))) + <P as SerializeStruct<S, Ctx>>::fields(z0, null)), ("v"@, <(u8, u8) as Serialize<S, Ctx>>::val(z1, null))); } } }
//@end
}
//@item enum OnlyUnits
impl<S: Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for OnlyUnits {
//@item const Serialize for OnlyUnits :: NULLABLE
    spec fn val(&self, null: bool) -> V { V::Struct(Some("Other"@), <OnlyUnits as SerializeStruct<S, Ctx>>::fields(self, null)) }
    proof fn law(&self) {}
//@fn Serialize for OnlyUnits :: serialize | ret=r
//@end
}
impl<S: Serializer + ?Sized, Ctx: ?Sized> SerializeStruct<S, Ctx> for OnlyUnits {
    spec fn fields(&self, null: bool) -> Seq<(Seq<char>, V)> { match self { Self::X => Seq::<(Seq<char>, V)>::empty().push(("t"@, V::Tag(1, 0, Some("X"@)))), Self::Y => Seq::<(Seq<char>, V)>::empty().push(("t"@, V::Tag(1, 1, Some("Y"@)))) } }
//@fn SerializeStruct for OnlyUnits :: serialize_content | ret=r
//@entry
    proof { let o = Some(st.source.w().sem); let null = st.source.w().null; match self { Self::X => { lemma_push_field(o, Seq::<(Seq<char>, V)>::empty(), ("t"@, V::Tag(1, 0, Some("X"@))));  } Self::Y => { lemma_push_field(o, Seq::<(Seq<char>, V)>::empty(), ("t"@, V::Tag(1, 1, Some("Y"@))));  } } }
//@end
}
//@item struct FlatEnum
impl<S: Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for FlatEnum {
//@item const Serialize for FlatEnum :: NULLABLE
    spec fn val(&self, null: bool) -> V { V::Struct(Some("FlatEnum"@), <FlatEnum as SerializeStruct<S, Ctx>>::fields(self, null)) }
    proof fn law(&self) {}
//@fn Serialize for FlatEnum :: serialize | ret=r
//@end
}
impl<S: Serializer + ?Sized, Ctx: ?Sized> SerializeStruct<S, Ctx> for FlatEnum {
    spec fn fields(&self, null: bool) -> Seq<(Seq<char>, V)> { (Seq::<(Seq<char>, V)>::empty().push(("id"@, <u32 as Serialize<S, Ctx>>::val(&self.id, null))) + <Shape as SerializeStruct<S, Ctx>>::fields(&self.shape, null)).push(("last"@, <Option<u8> as Serialize<S, Ctx>>::val(&self.last, null))) }
//@fn SerializeStruct for FlatEnum :: serialize_content | ret=r
//@entry
    proof { let o = Some(st.source.w().sem); let null = st.source.w().null; lemma_push_field(o, Seq::<(Seq<char>, V)>::empty(), ("id"@, <u32 as Serialize<S, Ctx>>::val(&self.id, null))); lemma_append_fields(o, Seq::<(Seq<char>, V)>::empty().push(("id"@, <u32 as Serialize<S, Ctx>>::val(&self.id, null))), <Shape as SerializeStruct<S, Ctx>>::fields(&self.shape, null)); lemma_push_field(o, (Seq::<(Seq<char>, V)>::empty().push(("id"@, <u32 as Serialize<S, Ctx>>::val(&self.id, null))) + <Shape as SerializeStruct<S, Ctx>>::fields(&self.shape, null)), ("last"@, <Option<u8> as Serialize<S, Ctx>>::val(&self.last, null))); }
//@end
}
} // verus!
fn main() {}
