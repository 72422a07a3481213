// ---- Values and their trees --------------------------------------------------------------------------------

//@include floattext.rs
type Sem = TS;
spec fn run(s: TS, op: Op) -> Option<(Ret, TS)> { match srun(s, op) { Some(t) => Some((Ret::Unit, t)), None => None } }
//@include values.rs

//@include tree.rs
proof fn lemma_wr_items_push(s: TS, js: Seq<J>, j: J)
    ensures wr_items(s, js.push(j)) == wr(item(wr_items(s, js)), j)
    decreases js.len()
{
    let t = js.push(j);
    if js.len() == 0 {
        assert(t.drop_first() =~= Seq::<J>::empty());
        assert(wr_items(wr(item(s), j), Seq::<J>::empty()) == wr(item(s), j));
    } else {
        assert(t.drop_first() =~= js.drop_first().push(j));
        lemma_wr_items_push(wr(item(s), js[0]), js.drop_first(), j);
    }
}
proof fn lemma_wr_entries_push(s: TS, es: Seq<(Seq<char>, J)>, e: (Seq<char>, J))
    ensures wr_entries(s, es.push(e)) == wr(key(wr_entries(s, es), e.0), e.1)
    decreases es.len()
{
    let t = es.push(e);
    if es.len() == 0 {
        assert(t.drop_first() =~= Seq::<(Seq<char>, J)>::empty());
        assert(wr_entries(wr(key(s, e.0), e.1), Seq::<(Seq<char>, J)>::empty()) == wr(key(s, e.0), e.1));
    } else {
        assert(t.drop_first() =~= es.drop_first().push(e));
        lemma_wr_entries_push(wr(key(s, es[0].0), es[0].1), es.drop_first(), e);
    }
}
/// The operations that write a value write its tree.
proof fn theorem_value(s: TS, v: V)
    ensures wv(Some(s), v) == Some(wr(s, tree(v)))
    decreases v, 1int
{
    match v {
        V::Char(c) => { assert(seq![c].drop_last() =~= Seq::<char>::empty()); assert(chrs(open_str(s), seq![c].drop_last()) == open_str(s)); }
        V::Struct(_, fs) => lemma_value_fields(open(s, '{'), fs),
        V::Tuple(_, vs) => lemma_value_elements(open(s, '['), vs),
        V::List(vs) => lemma_value_items(open(s, '['), vs),
        _ => {}
    }
}
proof fn lemma_value_fields(s: TS, fs: Seq<(Seq<char>, V)>)
    ensures wv_fields(Some(s), fs) == Some(wr_entries(s, trees_f(fs)))
    decreases fs
{
    if fs.len() > 0 {
        lemma_value_fields(s, fs.drop_last());
        let t = wr_entries(s, trees_f(fs.drop_last()));
        theorem_value(key(t, fs.last().0), fs.last().1);
        lemma_wr_entries_push(s, trees_f(fs.drop_last()), (fs.last().0, tree(fs.last().1)));
    }
}
proof fn lemma_value_elements(s: TS, vs: Seq<V>)
    ensures wv_elements(Some(s), vs) == Some(wr_items(s, trees(vs)))
    decreases vs
{
    if vs.len() > 0 {
        lemma_value_elements(s, vs.drop_last());
        let t = wr_items(s, trees(vs.drop_last()));
        theorem_value(item(t), vs.last());
        lemma_wr_items_push(s, trees(vs.drop_last()), tree(vs.last()));
    }
}
proof fn lemma_value_items(s: TS, vs: Seq<V>)
    ensures wv_items(Some(s), vs) == Some(wr_items(s, trees(vs)))
    decreases vs
{
    if vs.len() > 0 {
        lemma_value_items(s, vs.drop_last());
        let t = wr_items(s, trees(vs.drop_last()));
        theorem_value(item(t), vs.last());
        lemma_wr_items_push(s, trees(vs.drop_last()), tree(vs.last()));
    }
}
/// Every float is written as a number literal.
spec fn finite(v: V) -> bool
    decreases v
{
    match v {
        V::F32(x) => is_num(f32_text(x)), V::F64(x) => is_num(f64_text(x)),
        V::Struct(_, fs) => finite_f(fs), V::Tuple(_, vs) => finite_s(vs), V::List(vs) => finite_s(vs), _ => true,
    }
}
spec fn finite_s(vs: Seq<V>) -> bool
    decreases vs
{
    vs.len() > 0 ==> finite_s(vs.drop_last()) && finite(vs.last())
}
spec fn finite_f(fs: Seq<(Seq<char>, V)>) -> bool
    decreases fs
{
    fs.len() > 0 ==> finite_f(fs.drop_last()) && finite(fs.last().1)
}
proof fn lemma_wf_items_push(js: Seq<J>, j: J)
    ensures wf_items(js.push(j)) == (wf_items(js) && wf(j))
    decreases js.len()
{
    let t = js.push(j);
    if js.len() == 0 { assert(t.drop_first() =~= Seq::<J>::empty()); assert(wf_items(t.drop_first())); }
    else { assert(t.drop_first() =~= js.drop_first().push(j)); lemma_wf_items_push(js.drop_first(), j); }
}
proof fn lemma_wf_entries_push(es: Seq<(Seq<char>, J)>, e: (Seq<char>, J))
    ensures wf_entries(es.push(e)) == (wf_entries(es) && wf(e.1))
    decreases es.len()
{
    let t = es.push(e);
    if es.len() == 0 { assert(t.drop_first() =~= Seq::<(Seq<char>, J)>::empty()); assert(wf_entries(t.drop_first())); }
    else { assert(t.drop_first() =~= es.drop_first().push(e)); lemma_wf_entries_push(es.drop_first(), e); }
}
proof fn lemma_finite(v: V)
    requires finite(v)
    ensures wf(tree(v))
    decreases v, 1int
{
    match v {
        V::Int(_, i) => theorem_int(i),
        V::Tag(_, index, None) => theorem_int(index),
        V::Struct(_, fs) => lemma_finite_f(fs),
        V::Tuple(_, vs) => lemma_finite_s(vs),
        V::List(vs) => lemma_finite_s(vs),
        _ => {}
    }
}
proof fn lemma_finite_s(vs: Seq<V>)
    requires finite_s(vs)
    ensures wf_items(trees(vs))
    decreases vs
{
    if vs.len() > 0 { lemma_finite_s(vs.drop_last()); lemma_finite(vs.last()); lemma_wf_items_push(trees(vs.drop_last()), tree(vs.last())); }
}
proof fn lemma_finite_f(fs: Seq<(Seq<char>, V)>)
    requires finite_f(fs)
    ensures wf_entries(trees_f(fs))
    decreases fs
{
    if fs.len() > 0 { lemma_finite_f(fs.drop_last()); lemma_finite(fs.last().1); lemma_wf_entries_push(trees_f(fs.drop_last()), (fs.last().0, tree(fs.last().1))); }
}
/// A value is written as one well-formed document, which denotes its tree.
proof fn theorem_value_written(s: TS, v: V)
    requires !s.in_key, !s.at_first, finite(v), ws_unit(s.indent)
    ensures exists|t: Seq<char>| wv(Some(s), v) == Some(TS { bytes: out(s.bytes, t), ..s }) && document(t, false) == Some(tree(v)) && document(t, true) == Some(tree(v))
{
    theorem_value(s, v); lemma_finite(v); theorem_written(s, tree(v));
    lemma_wr(s, tree(v), Seq::empty());
}
