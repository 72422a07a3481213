// The operations as a JSON deserializer has them: on its stack, a struct is an object or an array, and a tuple is an array.
//@include apistack.rs
spec const LIST: Fr = Fr::List(None);
spec fn top_coll(s: Stack) -> bool { top_is(s, Fr::Object) || top_is(s, LIST) }
spec fn rcan(s: Stack, op: Op) -> bool {
    match op {
        Op::PopNull | Op::OpenStr | Op::OpenStruct(_) | Op::OpenTuple(_) | Op::GetBool | Op::GetInt(_) | Op::GetF32 | Op::GetF64 | Op::GetChar
        | Op::ReadStr | Op::GetName(_) | Op::GetTag(_, _) | Op::CheckNull | Op::OpenList | Op::OpenObject | Op::SkipValue => top_is(s, Fr::Value),
        Op::CloseStr | Op::NextChar | Op::FlushStr | Op::SkipStr | Op::FlushName(_) => top_is(s, Fr::Str),
        Op::PushField(_) | Op::CloseStruct | Op::PushNull => top_coll(s),
        Op::PushElement | Op::CloseTuple | Op::PushItem | Op::CloseList | Op::NextItem => top_is(s, LIST),
        Op::PushEntry(_) | Op::CloseObject | Op::TryPushEntry(_) | Op::NextEntry | Op::SkipObject => top_is(s, Fr::Object),
        _ => false,
    }
}
spec fn reff(s: Stack, op: Op, ret: Ret, t: Stack) -> bool {
    match op {
        Op::OpenStruct(_) => t =~= s.drop_last().push(Fr::Object) || t =~= s.drop_last().push(LIST),
        Op::OpenTuple(_) | Op::OpenList => t =~= s.drop_last().push(LIST),
        Op::OpenObject => t =~= s.drop_last().push(Fr::Object),
        Op::OpenStr => t =~= s.drop_last().push(Fr::Str),
        Op::PushField(_) | Op::PushElement | Op::PushItem | Op::PushEntry(_) | Op::PushNull => t =~= s.push(Fr::Value),
        Op::NextChar => t =~= if ret =~= Ret::MaybeChar(None) { s.drop_last() } else { s },
        Op::CheckNull => t =~= if ret =~= Ret::Bool(true) { s.drop_last() } else { s },
        Op::NextItem => t =~= if ret =~= Ret::Bool(true) { s.push(Fr::Value) } else { s.drop_last() },
        Op::TryPushEntry(_) => t =~= if ret =~= Ret::Bool(true) { s.push(Fr::Value) } else { s },
        Op::NextEntry => t =~= if ret =~= Ret::Bool(true) { s.push(Fr::Value).push(Fr::Str) } else { s.drop_last() },
        _ => t =~= s.drop_last(),
    }
}
spec fn frame(d: DF) -> Fr { match d { DF::Val(_) | DF::Missing => Fr::Value, DF::Obj(_) => Fr::Object, DF::Arr(_) => LIST, DF::Str(_) => Fr::Str } }
/// The stack that goes with what is left to read.
spec fn frames(s: Sem) -> Stack { Seq::new(s.len(), |i: int| frame(s[i])) }
struct W { sem: Sem, stack: Stack, failed: bool, faulty: bool, bad: bool, null: bool, fuel: nat }
spec fn same(a: W, b: W) -> bool { b.faulty == a.faulty && b.bad == a.bad && b.null == a.null && b.fuel <= a.fuel }
spec fn took(op: Op, ret: Ret) -> bool { match op { Op::NextItem | Op::NextEntry => ret == Ret::Bool(true), Op::NextChar => ret != Ret::MaybeChar(None), _ => false } }
spec fn fit(a: W) -> bool { !a.bad ==> a.stack =~= frames(a.sem) }
/// The operation may be used; texts are shorter than 2^30 characters.
spec fn may(a: W, op: Op) -> bool { !a.failed && rcan(a.stack, op) && fit(a) && a.fuel < 0x4000_0000 }
spec fn done(a: W, op: Op, ret: Ret, b: W) -> bool {
    &&& same(a, b) && !b.failed && reff(a.stack, op, ret, b.stack) && (took(op, ret) ==> b.fuel < a.fuel)
    &&& !a.bad ==> run(a.sem, op) is Some && (run(a.sem, op)->0).0 == ret && b.sem =~= (run(a.sem, op)->0).1 && fit(b)
}
/// The operation reported an error (from then on the caller counts the state as failed).
spec fn err(a: W, op: Op, b: W) -> bool { b.faulty == a.faulty && b.bad == a.bad && b.null == a.null && (a.faulty || a.bad || run(a.sem, op) is None) }
/// A stack of the API and the stack of a JSON deserializer.
spec fn alike_fr(f: Fr, g: Fr) -> bool {
    match f { Fr::Value | Fr::Str | Fr::Object => g == f, Fr::List(n) => n is None && g == LIST, Fr::Tuple => g == LIST, Fr::Struct => g == LIST || g == Fr::Object }
}
spec fn alike(s: Stack, t: Stack) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] alike_fr(s[i], t[i]) }
/// What only a serializer does.
spec fn writes(op: Op) -> bool {
    op is PutBool || op is PutInt || op is PutF32 || op is PutF64 || op is PutChar || op is AppendChar || op is AppendStr || op is PutStr || op is PutTag || op is OpenListSized || op is OpenListStreaming || op is AddEntry
}
/// Every operation that the API allows, the deserializer allows, and they stay alike.
proof fn theorem_stack(s: Stack, t: Stack, op: Op, ret: Ret, u: Stack)
    requires alike(s, t), can(s, op), !writes(op)
    ensures rcan(t, op), reff(t, op, ret, u) && (op is OpenList ==> ret == Ret::Len(None)) ==> alike(eff(s, op, ret), u)
{
    assert(alike_fr(s.last(), t.last()));
    if reff(t, op, ret, u) && (op is OpenList ==> ret == Ret::Len(None)) {
        let e = eff(s, op, ret);
        assert(e.len() == u.len());
        assert forall|i: int| 0 <= i < e.len() implies #[trigger] alike_fr(e[i], u[i]) by { if i < s.len() { assert(alike_fr(s[i], t[i])); } }
    }
}
