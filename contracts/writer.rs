// ---- The contract every destination of text has to meet -------------------------------------------

//@include writerspec.rs

trait TextWriter {
    type Error;
    /// The bytes written so far.
    spec fn bytes(&self) -> Seq<u8>;
    /// May writing fail?
    spec fn may_fail(&self) -> bool;

//@use core/src/text_writer.rs
//@fn TextWriter :: write_char | ret=r sig
//@spec
    ensures
        (*final(self)).may_fail() == (*old(self)).may_fail(),
        match r {
            Ok(_) => (*final(self)).bytes() == out((*old(self)).bytes(), seq![ch]),
            Err(_) => (*old(self)).may_fail(),
        }
//@end
//@fn TextWriter :: write_str | ret=r loops=1
//@spec
    ensures
        (*final(self)).may_fail() == (*old(self)).may_fail(),
        match r {
            Ok(_) => (*final(self)).bytes() == out((*old(self)).bytes(), str@),
            Err(_) => (*old(self)).may_fail(),
        }
//@entry
    proof {
        lemma_empty();
        assert(str@.take(0) =~= Seq::empty());
        assert((*self).bytes() =~= (*self).bytes() + encode_utf8(str@.take(0)));
        assert(str@.take(str@.len() as int) =~= str@);
        assert forall|k: int| 0 <= k < str@.len() implies
            #[trigger] encode_utf8(str@.take(k)) + encode_utf8(seq![str@[k]]) == encode_utf8(str@.take(k + 1)) by {
            encode_utf8_concat(str@.take(k), seq![str@[k]]);
            assert(str@.take(k) + seq![str@[k]] =~= str@.take(k + 1));
        }
    }
//@loop 1
    invariant
        (*self).may_fail() == (*old(self)).may_fail(),
        it1.seq() == str@,
        (*self).bytes() =~= (*old(self)).bytes() + encode_utf8(str@.take(it1.index())),
//@end
}
