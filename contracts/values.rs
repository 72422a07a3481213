// What a value of a Rust type is made of, and the operations that write it.

/// The logical content of a value, before any format is chosen.
enum V {
    Null, Bool(bool), Int(int, int), F32(f32), F64(f64), Char(char), Str(Seq<char>), Tag(int, int, Option<Seq<char>>),
    Struct(Option<Seq<char>>, Seq<(Seq<char>, V)>), Tuple(Option<Seq<char>>, Seq<V>), List(Seq<V>),
}
/// One more operation that answers nothing.
spec fn then(s: Option<Sem>, op: Op) -> Option<Sem> {
    match s { None => None, Some(x) => match run(x, op) { Some((Ret::Unit, y)) => Some(y), _ => None } }
}
/// The operations that write `v`, in the order every caller that keeps to the protocol makes them.
spec fn wv(s: Option<Sem>, v: V) -> Option<Sem>
    decreases v
{
    match v {
        V::Null => then(s, Op::PopNull),
        V::Bool(b) => then(s, Op::PutBool(b)),
        V::Int(ty, i) => then(s, Op::PutInt(ty, i)),
        V::F32(x) => then(s, Op::PutF32(x)),
        V::F64(x) => then(s, Op::PutF64(x)),
        V::Char(c) => then(s, Op::PutChar(c)),
        V::Str(cs) => then(s, Op::PutStr(cs)),
        V::Tag(max, index, name) => then(s, Op::PutTag(max, index, name)),
        V::Struct(name, fs) => then(wv_fields(then(s, Op::OpenStruct(name)), fs), Op::CloseStruct),
        V::Tuple(name, vs) => then(wv_elements(then(s, Op::OpenTuple(name)), vs), Op::CloseTuple),
        V::List(vs) => then(wv_items(then(s, Op::OpenListSized(vs.len())), vs), Op::CloseList),
    }
}
spec fn wv_fields(s: Option<Sem>, fs: Seq<(Seq<char>, V)>) -> Option<Sem>
    decreases fs
{
    if fs.len() == 0 { s } else { wv(then(wv_fields(s, fs.drop_last()), Op::PushField(fs.last().0)), fs.last().1) }
}
spec fn wv_elements(s: Option<Sem>, vs: Seq<V>) -> Option<Sem>
    decreases vs
{
    if vs.len() == 0 { s } else { wv(then(wv_elements(s, vs.drop_last()), Op::PushElement), vs.last()) }
}
spec fn wv_items(s: Option<Sem>, vs: Seq<V>) -> Option<Sem>
    decreases vs
{
    if vs.len() == 0 { s } else { wv(then(wv_items(s, vs.drop_last()), Op::PushItem), vs.last()) }
}
/// A failed operation fails all that contains it.
proof fn lemma_wv_none(v: V)
    ensures wv(None, v) is None
    decreases v
{
    match v {
        V::Struct(_, fs) => lemma_fields_none(None, fs, 0),
        V::Tuple(_, vs) => lemma_elements_none(None, vs, 0),
        V::List(vs) => lemma_items_none(None, vs, 0),
        _ => {}
    }
}
proof fn lemma_fields_none(s: Option<Sem>, fs: Seq<(Seq<char>, V)>, k: int)
    requires 0 <= k <= fs.len(), wv_fields(s, fs.take(k)) is None
    ensures wv_fields(s, fs) is None
    decreases fs, 0int
{
    if k == fs.len() { assert(fs.take(k) =~= fs); } else {
        assert(fs.drop_last().take(k) =~= fs.take(k));
        lemma_fields_none(s, fs.drop_last(), k);
        lemma_wv_none(fs.last().1);
    }
}
proof fn lemma_elements_none(s: Option<Sem>, vs: Seq<V>, k: int)
    requires 0 <= k <= vs.len(), wv_elements(s, vs.take(k)) is None
    ensures wv_elements(s, vs) is None
    decreases vs, 0int
{
    if k == vs.len() { assert(vs.take(k) =~= vs); } else {
        assert(vs.drop_last().take(k) =~= vs.take(k));
        lemma_elements_none(s, vs.drop_last(), k);
        lemma_wv_none(vs.last());
    }
}
proof fn lemma_items_none(s: Option<Sem>, vs: Seq<V>, k: int)
    requires 0 <= k <= vs.len(), wv_items(s, vs.take(k)) is None
    ensures wv_items(s, vs) is None
    decreases vs, 0int
{
    if k == vs.len() { assert(vs.take(k) =~= vs); } else {
        assert(vs.drop_last().take(k) =~= vs.take(k));
        lemma_items_none(s, vs.drop_last(), k);
        lemma_wv_none(vs.last());
    }
}
proof fn lemma_push_field(s: Option<Sem>, fs: Seq<(Seq<char>, V)>, f: (Seq<char>, V))
    ensures
        wv_fields(s, fs.push(f)) == wv(then(wv_fields(s, fs), Op::PushField(f.0)), f.1),
        wv(None, f.1) is None,
{
    assert(fs.push(f).drop_last() =~= fs);
    lemma_wv_none(f.1);
}
proof fn lemma_element(s: Option<Sem>, vs: Seq<V>, v: V)
    ensures
        wv_elements(s, vs.push(v)) == wv(then(wv_elements(s, vs), Op::PushElement), v),
        wv(None, v) is None,
{
    assert(vs.push(v).drop_last() =~= vs);
    lemma_wv_none(v);
}
proof fn lemma_item(s: Option<Sem>, vs: Seq<V>, v: V)
    ensures
        wv_items(s, vs.push(v)) == wv(then(wv_items(s, vs), Op::PushItem), v),
        wv(None, v) is None,
{
    assert(vs.push(v).drop_last() =~= vs);
    lemma_wv_none(v);
}
