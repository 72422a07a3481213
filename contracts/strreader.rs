//@include strlib.rs
//@use core/src/text_reader.rs
//@item struct StrPosition
impl<'a> Clone for StrPosition<'a> {
    fn clone(&self) -> (r: Self) ensures r == *self { StrPosition(self.0) }
}

impl<'a> TextReader for &'a str {
    spec fn rest(&self) -> Seq<char> { self@ }
    spec fn ok(&self) -> bool { true }
    type Position = StrPosition<'a>;
    spec fn here(&self) -> StrPosition<'a> { StrPosition(*self) }

//@fn TextReader for &str :: next | ret=r
//@subst#* . chars ( ) => .str_chars()
//@spec
    ensures tail_of(*old(self), *final(self))
//@end
//@fn TextReader for &str :: peek | ret=r
//@subst#* . chars ( ) => .str_chars()
//@end
//@fn TextReader for &str :: position | ret=r
//@end
}

//@fn prefix | ret=r
//@spec
    requires tail_of(source, suffix) // #C22 #C03 #C20
    ensures r@ == source@.take(source@.len() - suffix@.len()) // #C22 #C03 #C20
//@entry
    proof { lemma_tail(source, suffix); broadcast use group_utf8_lib; }
//@end
