// The abstract stack of the API documentation.
type Stack = Seq<Fr>;
spec fn top_is(s: Stack, f: Fr) -> bool { s.len() > 0 && s.last() == f }
spec fn top_list(s: Stack) -> bool { s.len() > 0 && s.last() is List }
spec fn top_fields(s: Stack) -> bool { s.len() > 0 && (s.last() is Struct || s.last() is Object) }

/// May the operation be used with this stack (the preconditions in the API documentation)?
spec fn can(s: Stack, op: Op) -> bool {
    match op {
        Op::PopNull | Op::OpenStr | Op::OpenStruct(_) | Op::OpenTuple(_) | Op::PutBool(_) | Op::PutInt(_, _) | Op::PutF32(_) | Op::PutF64(_) | Op::PutChar(_)
        | Op::PutStr(_) | Op::PutTag(_, _, _) | Op::OpenListSized(_) | Op::OpenListStreaming | Op::GetBool | Op::GetInt(_) | Op::GetF32 | Op::GetF64 | Op::GetChar
        | Op::ReadStr | Op::GetName(_) | Op::GetTag(_, _) | Op::CheckNull | Op::OpenList | Op::OpenObject | Op::SkipValue => top_is(s, Fr::Value),
        Op::CloseStr | Op::AppendChar(_) | Op::AppendStr(_) | Op::NextChar | Op::FlushStr | Op::SkipStr | Op::FlushName(_) => top_is(s, Fr::Str),
        Op::PushField(_) | Op::PushNull => top_fields(s),
        Op::CloseStruct => top_is(s, Fr::Struct),
        Op::PushElement | Op::CloseTuple => top_is(s, Fr::Tuple),
        Op::PushItem => top_list(s) && (s.last()->List_0 is Some ==> s.last()->List_0->0 > 0),
        Op::CloseList => top_list(s) && (s.last()->List_0 is Some ==> s.last()->List_0->0 == 0),
        Op::NextItem => top_list(s),
        Op::PushEntry(_) | Op::CloseObject | Op::AddEntry | Op::TryPushEntry(_) | Op::NextEntry | Op::SkipObject => top_is(s, Fr::Object),
    }
}
spec fn dec(f: Fr) -> Fr { match f { Fr::List(Some(n)) => Fr::List(Some((n - 1) as nat)), x => x } }
/// The stack after the operation has answered `ret`.
spec fn eff(s: Stack, op: Op, ret: Ret) -> Stack {
    match op {
        Op::PopNull | Op::PutBool(_) | Op::PutInt(_, _) | Op::PutF32(_) | Op::PutF64(_) | Op::PutChar(_) | Op::PutStr(_) | Op::PutTag(_, _, _)
        | Op::GetBool | Op::GetInt(_) | Op::GetF32 | Op::GetF64 | Op::GetChar | Op::ReadStr | Op::GetName(_) | Op::GetTag(_, _) | Op::SkipValue
        | Op::CloseStr | Op::FlushStr | Op::SkipStr | Op::FlushName(_) | Op::CloseStruct | Op::CloseTuple | Op::CloseList | Op::CloseObject | Op::SkipObject => s.drop_last(),
        Op::OpenStr => s.drop_last().push(Fr::Str),
        Op::OpenStruct(_) => s.drop_last().push(Fr::Struct),
        Op::OpenTuple(_) => s.drop_last().push(Fr::Tuple),
        Op::OpenObject => s.drop_last().push(Fr::Object),
        Op::OpenListSized(n) => s.drop_last().push(Fr::List(Some(n))),
        Op::OpenListStreaming => s.drop_last().push(Fr::List(None)),
        Op::OpenList => s.drop_last().push(Fr::List(match ret { Ret::Len(Some(n)) => Some(n as nat), _ => None })),
        Op::PushField(_) | Op::PushElement | Op::PushEntry(_) | Op::PushNull => s.push(Fr::Value),
        Op::PushItem => s.drop_last().push(dec(s.last())).push(Fr::Value),
        Op::AddEntry => s.push(Fr::Value).push(Fr::Str),
        Op::AppendChar(_) | Op::AppendStr(_) => s,
        Op::NextChar => if ret == Ret::MaybeChar(None) { s.drop_last() } else { s },
        Op::CheckNull => if ret == Ret::Bool(true) { s.drop_last() } else { s },
        Op::NextItem => if ret == Ret::Bool(true) { s.drop_last().push(dec(s.last())).push(Fr::Value) } else { s.drop_last() },
        Op::TryPushEntry(_) => if ret == Ret::Bool(true) { s.push(Fr::Value) } else { s },
        Op::NextEntry => if ret == Ret::Bool(true) { s.push(Fr::Value).push(Fr::Str) } else { s.drop_last() },
    }
}
/// What an answer must respect: a list of known length has a next item iff items remain.
spec fn ret_ok(s: Stack, op: Op, ret: Ret) -> bool {
    op is NextItem && s.last()->List_0 is Some ==> (ret == Ret::Bool(true)) == (s.last()->List_0->0 > 0)
}
