//@use core/src/helper.rs
impl<'a, D: Deserializer + ?Sized> Value<'a, D> {
//@fn Value :: validate_with | ret=r
//@sigsubst E: std::error::Error + Send + Sync + 'static => E
//@spec
    requires strict() ==> !*self.done_flag, value_ok(self.source.w(), *self.done_flag),
        forall|v: Value<D>| v.source.w() == self.source.w() && !*v.done_flag ==> f.requires((v,)),
        strict() ==> forall|v: Value<D>, x: Result<R, E>| v.source.w() == self.source.w() && !*v.done_flag && #[trigger] f.ensures((v,), Ok(x)) ==> *final(v.done_flag),
    ensures
        (exists|v: Value<D>, y: Result<R, E>| v.source.w() == old(self.source).w() && !*v.done_flag && #[trigger] f.ensures((v,), Ok(y))
            && *final(v.done_flag) && *final(self.done_flag) && final(v.source).w() == final(self.source).w()
            && (r is Ok <==> y is Ok) && (r is Ok ==> r->Ok_0 == y->Ok_0))
        || (r is Err && exists|v: Value<D>| v.source.w() == old(self.source).w() && !*v.done_flag && #[trigger] f.ensures((v,), Err(r->Err_0))
            && *final(v.done_flag) == *final(self.done_flag) && final(v.source).w() == final(self.source).w())
//@dropargs Box::new => boxed_error()
//@end
}
