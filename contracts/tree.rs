/// The tree a value is written as.
spec fn tree(v: V) -> J
    decreases v
{
    match v {
        V::Null => J::Null,
        V::Bool(b) => J::Bool(b),
        V::Int(_, i) => J::Num(int_text(i)),
        V::F32(x) => J::Num(f32_text(x)),
        V::F64(x) => J::Num(f64_text(x)),
        V::Char(c) => J::Str(seq![c]),
        V::Str(cs) => J::Str(cs),
        V::Tag(_, index, name) => match name { Some(cs) => J::Str(cs), None => J::Num(int_text(index)) },
        V::Struct(_, fs) => J::Obj(trees_f(fs)),
        V::Tuple(_, vs) => J::Arr(trees(vs)),
        V::List(vs) => J::Arr(trees(vs)),
    }
}
spec fn trees(vs: Seq<V>) -> Seq<J>
    decreases vs
{
    if vs.len() == 0 { Seq::empty() } else { trees(vs.drop_last()).push(tree(vs.last())) }
}
spec fn trees_f(fs: Seq<(Seq<char>, V)>) -> Seq<(Seq<char>, J)>
    decreases fs
{
    if fs.len() == 0 { Seq::empty() } else { trees_f(fs.drop_last()).push((fs.last().0, tree(fs.last().1))) }
}
