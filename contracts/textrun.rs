// What each operation does to the text serializer.
spec fn srun(s: TS, op: Op) -> Option<TS> {
    match op {
        Op::PopNull => Some(emit(s, "null"@)),
        Op::OpenStr => Some(open_str(s)),
        Op::CloseStr => Some(close_str(s)),
        Op::AppendChar(c) => Some(chr(s, c)),
        Op::AppendStr(cs) => Some(chrs(s, cs)),
        Op::PutBool(b) => Some(emit(s, if b { "true"@ } else { "false"@ })),
        Op::PutInt(_, i) => Some(emit(s, int_text(i))),
        Op::PutF32(x) => Some(emit(s, f32_text(x))),
        Op::PutF64(x) => Some(emit(s, f64_text(x))),
        Op::PutChar(c) => Some(close_str(chr(open_str(s), c))),
        Op::PutStr(cs) => Some(string(s, cs)),
        Op::PutTag(_, index, name) => Some(match name { Some(cs) => string(s, cs), None => emit(s, int_text(index)) }),
        Op::OpenStruct(_) | Op::OpenObject => Some(open(s, '{')),
        Op::PushField(k) | Op::PushEntry(k) => Some(key(s, k)),
        Op::AddEntry => Some(add_entry(s)),
        Op::CloseStruct | Op::CloseObject => Some(close_object(s)),
        Op::OpenTuple(_) | Op::OpenListSized(_) | Op::OpenListStreaming => Some(open(s, '[')),
        Op::PushElement | Op::PushItem => Some(item(s)),
        Op::CloseTuple | Op::CloseList => Some(close_list(s)),
        _ => None,
    }
}
