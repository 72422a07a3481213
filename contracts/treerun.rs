// What each operation does when a tree of values is read. What is left to read is a stack of partly read values.

/// The value of a JSON text (as in jsontree.rs).
enum J { Null, Bool(bool), Num(NumT), Str(Seq<char>), Arr(Seq<J>), Obj(Seq<(Seq<char>, J)>) }
/// A partly read value: a value, the null that stands for a missing entry, what is left of an object, array or string.
enum DF { Val(J), Missing, Obj(Seq<(Seq<char>, J)>), Arr(Seq<J>), Str(Seq<char>) }
type Sem = Seq<DF>;

/// The entry with a given key.
spec fn at_key(es: Seq<(Seq<char>, J)>, k: Seq<char>) -> Option<int>
    decreases es.len()
{
    if es.len() == 0 { None } else if es[0].0 == k { Some(0) } else { match at_key(es.drop_first(), k) { Some(i) => Some(i + 1), None => None } }
}
spec fn lookup(names: Map<Seq<char>, usize>, cs: Seq<char>) -> Option<usize> { if names.dom().contains(cs) { Some(names[cs]) } else { None } }
/// The tag a value stands for.
spec fn tag_of(max: int, names: Map<Seq<char>, usize>, j: J) -> Option<usize> {
    match j {
        J::Str(cs) => lookup(names, cs),
        J::Num(t) => match int_read(U64, t) { Some(i) => if 0 <= i <= max { Some(i as usize) } else { None }, None => None },
        _ => None,
    }
}
spec fn some<A>(o: Option<A>, r: spec_fn(A) -> Ret, s: Sem) -> Option<(Ret, Sem)> { match o { Some(x) => Some((r(x), s)), None => None } }

spec fn run(s: Sem, op: Op) -> Option<(Ret, Sem)> {
    if s.len() == 0 { None } else {
        let p = s.drop_last();
        match s.last() {
            DF::Val(j) => run_val(p, j, op),
            DF::Missing => match op {
                Op::PopNull | Op::SkipValue => Some((Ret::Unit, p)),
                Op::CheckNull => Some((Ret::Bool(true), p)),
                _ => None,
            },
            DF::Obj(es) => run_obj(p, es, op),
            DF::Arr(js) => run_arr(p, js, op),
            DF::Str(cs) => match op {
                Op::NextChar => if cs.len() == 0 { Some((Ret::MaybeChar(None), p)) } else { Some((Ret::MaybeChar(Some(cs[0])), p.push(DF::Str(cs.drop_first())))) },
                Op::FlushStr => Some((Ret::Str(cs), p)),
                Op::SkipStr => Some((Ret::Unit, p)),
                Op::CloseStr => if cs.len() == 0 { Some((Ret::Unit, p)) } else { None },
                Op::FlushName(names) => some(lookup(names, cs), |x: usize| Ret::Index(x), p),
                _ => None,
            },
        }
    }
}
spec fn run_val(p: Sem, j: J, op: Op) -> Option<(Ret, Sem)> {
    match op {
        Op::SkipValue => Some((Ret::Unit, p)),
        Op::PopNull => if j is Null { Some((Ret::Unit, p)) } else { None },
        Op::CheckNull => if j is Null { Some((Ret::Bool(true), p)) } else { Some((Ret::Bool(false), p.push(DF::Val(j)))) },
        Op::GetBool => match j { J::Bool(b) => Some((Ret::Bool(b), p)), _ => None },
        Op::GetInt(ty) => match j { J::Num(t) => some(int_read(ty, t), |x: int| Ret::Int(x), p), _ => None },
        Op::GetF32 => match j { J::Num(t) => Some((Ret::F32(f32_read(t)), p)), _ => None },
        Op::GetF64 => match j { J::Num(t) => Some((Ret::F64(f64_read(t)), p)), _ => None },
        Op::GetChar => match j { J::Str(cs) => if cs.len() == 1 { Some((Ret::Char(cs[0]), p)) } else { None }, _ => None },
        Op::OpenStr => match j { J::Str(cs) => Some((Ret::Unit, p.push(DF::Str(cs)))), _ => None },
        Op::ReadStr => match j { J::Str(cs) => Some((Ret::Str(cs), p)), _ => None },
        Op::GetName(names) => match j { J::Str(cs) => some(lookup(names, cs), |x: usize| Ret::Index(x), p), _ => None },
        Op::GetTag(max, names) => some(tag_of(max, names, j), |x: usize| Ret::Index(x), p),
        Op::OpenObject => match j { J::Obj(es) => Some((Ret::Unit, p.push(DF::Obj(es)))), _ => None },
        Op::OpenStruct(_) => match j { J::Obj(es) => Some((Ret::Unit, p.push(DF::Obj(es)))), J::Arr(js) => Some((Ret::Unit, p.push(DF::Arr(js)))), _ => None },
        Op::OpenTuple(_) => match j { J::Arr(js) => Some((Ret::Unit, p.push(DF::Arr(js)))), _ => None },
        Op::OpenList => match j { J::Arr(js) => Some((Ret::Len(None), p.push(DF::Arr(js)))), _ => None },
        _ => None,
    }
}
spec fn run_obj(p: Sem, es: Seq<(Seq<char>, J)>, op: Op) -> Option<(Ret, Sem)> {
    match op {
        Op::TryPushEntry(k) => match at_key(es, k) { Some(i) => Some((Ret::Bool(true), p.push(DF::Obj(es.remove(i))).push(DF::Val(es[i].1)))), None => Some((Ret::Bool(false), p.push(DF::Obj(es)))) },
        Op::PushEntry(k) => match at_key(es, k) { Some(i) => Some((Ret::Unit, p.push(DF::Obj(es.remove(i))).push(DF::Val(es[i].1)))), None => None },
        Op::PushField(k) => match at_key(es, k) { Some(i) => Some((Ret::Unit, p.push(DF::Obj(es.remove(i))).push(DF::Val(es[i].1)))), None => Some((Ret::Unit, p.push(DF::Obj(es)).push(DF::Missing))) },
        Op::PushNull => Some((Ret::Unit, p.push(DF::Obj(es)).push(DF::Missing))),
        Op::NextEntry => if es.len() == 0 { Some((Ret::Bool(false), p)) } else { Some((Ret::Bool(true), p.push(DF::Obj(es.drop_first())).push(DF::Val(es[0].1)).push(DF::Str(es[0].0)))) },
        Op::CloseObject => if es.len() == 0 { Some((Ret::Unit, p)) } else { None },
        Op::SkipObject | Op::CloseStruct => Some((Ret::Unit, p)),
        _ => None,
    }
}
spec fn run_arr(p: Sem, js: Seq<J>, op: Op) -> Option<(Ret, Sem)> {
    match op {
        Op::NextItem => if js.len() == 0 { Some((Ret::Bool(false), p)) } else { Some((Ret::Bool(true), p.push(DF::Arr(js.drop_first())).push(DF::Val(js[0])))) },
        Op::PushItem | Op::PushElement | Op::PushField(_) => if js.len() == 0 { None } else { Some((Ret::Unit, p.push(DF::Arr(js.drop_first())).push(DF::Val(js[0])))) },
        Op::PushNull => Some((Ret::Unit, p.push(DF::Arr(js)).push(DF::Missing))),
        Op::CloseList | Op::CloseTuple | Op::CloseStruct => if js.len() == 0 { Some((Ret::Unit, p)) } else { None },
        _ => None,
    }
}
