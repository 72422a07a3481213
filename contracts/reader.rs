// ---- The contract every source of characters has to meet ----------------------------------------

spec fn first_of(s: Seq<char>) -> Option<char> {
    if s.len() == 0 { None } else { Some(s[0]) }
}

spec fn after_first(s: Seq<char>) -> Seq<char> {
    if s.len() == 0 { s } else { s.drop_first() }
}

trait TextReader {
    /// The characters still to come.
    spec fn rest(&self) -> Seq<char>;
    /// The source works and what it still delivers is text.
    spec fn ok(&self) -> bool;
    /// What `position` answers.
    spec fn here(&self) -> Self::Position;

    type Position: Clone;

//@use core/src/text_reader.rs
//@fn TextReader :: next | ret=r sig
//@spec
    requires old(self).ok()
    ensures
        final(self).ok(),
        r == first_of(old(self).rest()),
        final(self).rest() == after_first(old(self).rest()),
        r is None ==> final(self).here() == old(self).here()
//@end
//@fn TextReader :: peek | ret=r sig
//@spec
    requires self.ok()
    ensures r == first_of(self.rest())
//@end
//@fn TextReader :: position | ret=r sig
//@spec
    ensures r == self.here()
//@end
//@fn TextReader :: read_exact | ret=r loops=1
//@spec
    requires old(self).ok()
    ensures
        final(self).ok(),
        r == str@.is_prefix_of(old(self).rest()),
        r ==> final(self).rest() == old(self).rest().skip(str@.len() as int),
        final(self).rest().len() <= old(self).rest().len()
//@entry
    proof { assert(self.rest().skip(0) =~= self.rest()); }
//@loop 1
    invariant
        self.ok(),
        it1.seq() == str@,
        it1.index() <= old(self).rest().len(),
        self.rest() =~= old(self).rest().skip(it1.index()),
        str@.take(it1.index()) =~= old(self).rest().take(it1.index())
//@end
}
