// How what the operations of a TextDeserializer do to its fields adds up to the API.

// ---- in general ----
proof fn lemma_base(fs: Seq<Fold>)
    requires fs.len() > 0
    ensures base_of(fs) =~= base_of(fs.drop_last()).push(if fs.last().obj { Fr::Object } else { LIST }), base_of(fs).len() == fs.len()
{
}
proof fn lemma_frames_push(s: Sem, d: DF)
    ensures frames(s.push(d)) =~= frames(s).push(frame(d)), s.push(d).drop_last() =~= s, s.push(d).last() == d
{
}
proof fn lemma_unwind_frames(ns: Nodes, fs: Seq<Fold>, sd: int, s: Seq<char>, start: bool, c: bool)
    ensures unwind(ns, fs, sd, s, start, c) is Some ==> frames((unwind(ns, fs, sd, s, start, c)->0).0) =~= base_of(fs)
    decreases fs.len()
{
    if fs.len() > 0 {
        let fp = fs.drop_last(); let f = fs.last();
        lemma_base(fs);
        if fs.len() > sd {
            lemma_unwind_frames(ns, fp, sd, s, start, c);
            if unwind(ns, fp, sd, s, start, c) is Some { lemma_frames_push((unwind(ns, fp, sd, s, start, c)->0).0, if f.obj { DF::Obj(fold_es(ns, f)) } else { DF::Arr(fold_js(ns, f)) }); }
        } else if f.obj {
            if rem_obj(s, start, c) is Some {
                let (es, t) = rem_obj(s, start, c)->0; let u = unwind(ns, fp, sd - 1, t, false, c);
                lemma_unwind_frames(ns, fp, sd - 1, t, false, c);
                if u is Some { lemma_frames_push((u->0).0, DF::Obj(fold_es(ns, f) + es)); }
            }
        } else {
            if rem_arr(s, start, c) is Some {
                let (js, t) = rem_arr(s, start, c)->0; let u = unwind(ns, fp, sd - 1, t, false, c);
                lemma_unwind_frames(ns, fp, sd - 1, t, false, c);
                if u is Some { lemma_frames_push((u->0).0, DF::Arr(fold_js(ns, f) + js)); }
            }
        }
    }
}
proof fn lemma_above(a: Option<(Sem, Seq<char>)>, d: DF)
    ensures above(a, d) is Some <==> a is Some, a is Some ==> ({ let x = (above(a, d)->0).0; (above(a, d)->0).1 == (a->0).1 && x.len() > 0 && x.last() == d && x.drop_last() =~= (a->0).0 && frames(x) =~= frames((a->0).0).push(frame(d)) })
{
    if a is Some { lemma_frames_push((a->0).0, d); }
}
/// Objects without duplicate keys stay without.
proof fn lemma_keyed_run(s: Sem, op: Op)
    requires keyed_sem(s), run(s, op) is Some
    ensures keyed_sem((run(s, op)->0).1)
{
    let p = s.drop_last(); let t = (run(s, op)->0).1;
    assert(keyed_df(s[s.len() - 1]));
    assert forall|i: int| 0 <= i < p.len() implies keyed_df(#[trigger] p[i]) by { assert(keyed_df(s[i])); }
    match s.last() {
        DF::Obj(es) => {
            match op {
                Op::TryPushEntry(k) | Op::PushEntry(k) | Op::PushField(k) => { lemma_at_key(es, k); if at_key(es, k) is Some { lemma_keyed_remove(es, at_key(es, k)->0); } }
                Op::NextEntry => { if es.len() > 0 { assert(keyed(es[0].1) && keyed_entries(es.drop_first())); } }
                _ => {}
            }
        }
        DF::Arr(js) => { if js.len() > 0 { assert(keyed(js[0]) && keyed_items(js.drop_first())); } }
        _ => {}
    }
    assert forall|i: int| 0 <= i < t.len() implies keyed_df(#[trigger] t[i]) by { if i < p.len() { assert(keyed_df(p[i])); } }
}
/// What a value on top stands for, and the text after it.
spec fn top_value<R: TextReader>(a: TextDeserializer<R>) -> Option<(DF, Seq<char>)> {
    match a.state {
        DeserializerState::StreamingValue => match value_here(a.rest(), a.c()) { None => None, Some((j, t)) => Some((DF::Val(j), t)) },
        DeserializerState::LookbackValue { index, .. } => Some((DF::Val(a.ns()[index as int].tree), a.rest())),
        DeserializerState::NullValue { .. } => Some((DF::Missing, a.rest())),
        _ => None,
    }
}
spec fn on_value(st: DeserializerState) -> bool { st is StreamingValue || st is LookbackValue || st is NullValue }
/// What answers the operation.
spec fn answers(d: DF, op: Op, ret: Ret) -> bool {
    match d { DF::Val(j) => forall|p: Sem| #[trigger] run_val(p, j, op) == Some((ret, p)), DF::Missing => op is PopNull && ret == Ret::Unit, _ => false }
}
spec fn refuses(d: DF, op: Op) -> bool {
    match d { DF::Val(j) => forall|p: Sem| #[trigger] run_val(p, j, op) is None, DF::Missing => !(op is PopNull || op is CheckNull || op is SkipValue), _ => false }
}
proof fn lemma_items_taken<P>(ns: Nodes, its: Items<P>, data: Seq<u8>, dlen: int, fs: Seq<Fold>, stk: Seq<StackItem<P>>, nb: int, x: int)
    requires items_ok(ns, its, data, dlen, x), folds_ok(ns, its, fs, stk, nb), 0 <= x < its.len(), ns[x].gone
    ensures items_ok(ns, taken(its, x), data, dlen, -1), folds_ok(ns, taken(its, x), fs, stk, nb)
{
    let jts = taken(its, x);
    assert forall|i: int| 0 <= i < jts.len() implies #[trigger] item_ok(ns, jts, data, dlen, i, -1) by {
        assert(item_ok(ns, its, data, dlen, i, x));
        assert(dend(jts, dlen, i) == dend(its, dlen, i));
        assert forall|m: int| 0 <= m < ns[i].kids.len() implies #[trigger] kid_ok(ns, jts, i, m) by { assert(kid_ok(ns, its, i, m)); }
    }
    assert forall|k: int| 0 <= k < fs.len() implies #[trigger] fold_ok(ns, jts, fs, stk, k, nb) by {
        assert(fold_ok(ns, its, fs, stk, k, nb));
        let t = term(fs, its.len() as int, k, nb);
        assert forall|m: int| 0 <= m < fs[k].all.len() implies #[trigger] child_ok(ns, jts, fs[k], m, t) by { assert(child_ok(ns, its, fs[k], m, t)); }
    }
}
impl<Reader: TextReader> TextDeserializer<Reader> {
    proof fn lemma_fit(self)
        requires self.abs() is Some
        ensures stack_of(self.fs(), self.state) =~= frames((self.abs()->0).0)
    {
        let ns = self.ns(); let fs = self.fs(); let c = self.c(); let s = self.rest(); let n = fs.len() as int;
        match self.state {
            DeserializerState::StreamingValue => { let (j, t) = value_here(s, c)->0; lemma_unwind_frames(ns, fs, n, t, false, c); lemma_above(unwind(ns, fs, n, t, false, c), DF::Val(j)); }
            DeserializerState::LookbackValue { index, streaming_depth } => { let sd = sdn(streaming_depth); lemma_unwind_frames(ns, fs, sd, s, false, c); lemma_above(unwind(ns, fs, sd, s, false, c), DF::Val(ns[index as int].tree)); }
            DeserializerState::NullValue { at_start, streaming_depth, .. } => { let sd = sdn(streaming_depth); let b = at_first(at_start, streaming_depth, n); lemma_unwind_frames(ns, fs, sd, s, b, c); lemma_above(unwind(ns, fs, sd, s, b, c), DF::Missing); }
            DeserializerState::Collection { at_start, streaming_depth } => { lemma_unwind_frames(ns, fs, sdn(streaming_depth), s, at_first(at_start, streaming_depth, n), c); }
            DeserializerState::StreamingString { is_key } => {
                let (cs, t) = str_lit(s)->0;
                if is_key {
                    let (j, v) = value(after_char(t, c, ':')->0, c)->0; let u = unwind(ns, fs, n, v, false, c);
                    lemma_unwind_frames(ns, fs, n, v, false, c); lemma_above(u, DF::Val(j)); lemma_above(above(u, DF::Val(j)), DF::Str(cs));
                } else { lemma_unwind_frames(ns, fs, n, t, false, c); lemma_above(unwind(ns, fs, n, t, false, c), DF::Str(cs)); }
            }
            DeserializerState::LookbackString { head_index, end_index, value_index, streaming_depth } => {
                let u = unwind(ns, fs, sdn(streaming_depth), s, false, c); let cs = decode_utf8(self.data().subrange(head_index as int, end_index as int));
                lemma_unwind_frames(ns, fs, sdn(streaming_depth), s, false, c);
                if value_index is Some { let d = DF::Val(ns[value_index->0 as int].tree); lemma_above(u, d); lemma_above(above(u, d), DF::Str(cs)); } else { lemma_above(u, DF::Str(cs)); }
            }
        }
    }
    /// An operation that did what it should.
    proof fn lemma_done(self, op: Op, ret: Ret, b: Self)
        requires
            self.inv(), self.marks(b), b.sound(), b.fuel() <= self.fuel(), took(op, ret) ==> b.fuel() < self.fuel(),
            self.abs() is None ==> b.abs() is None,
            self.abs() is Some && !self.bad() ==> b.abs() is Some && run((self.abs()->0).0, op) is Some && (run((self.abs()->0).0, op)->0).0 == ret && (run((self.abs()->0).0, op)->0).1 =~= (b.abs()->0).0 && (b.abs()->0).1 == (self.abs()->0).1,
            reff(stack_of(self.fs(), self.state), op, ret, stack_of(b.fs(), b.state)),
        ensures b.inv(), done(self.state_w(), op, ret, b.state_w())
    {
        if !self.bad() { lemma_keyed_run((self.abs()->0).0, op); b.lemma_fit(); }
    }
    proof fn lemma_err(self, op: Op, b: Self)
        requires self.inv(), self.marks(b), !self.bad() ==> run((self.abs()->0).0, op) is None
        ensures err(self.state_w(), op, b.state_w())
    {
    }
    /// On top of what is under it is a value.
    proof fn lemma_on_value(self)
        requires self.inv(), on_value(self.state)
        ensures
            !self.bad() ==> top_value(self) is Some,
            self.abs() is Some ==> top_value(self) is Some && (self.abs()->0).0.len() > 0 && (self.abs()->0).0.last() == (top_value(self)->0).0,
            self.state is LookbackValue ==> ({ let i = self.state->LookbackValue_index as int; 0 <= i < self.its().len() && item_ok(self.ns(), self.its(), self.data(), self.data().len() as int, i, i) && self.its()[i].value is Some && self.ns()[i].gone
                && has_value(self.its(), self.data(), i) && null_bytes(self) && shape(self.its()[i].value->0, self.ns()[i].tree, value_bytes(self.its(), self.data(), i)) }),
            self.value_pre(),
    {
        let ns = self.ns(); let fs = self.fs(); let c = self.c(); let s = self.rest(); let n = fs.len() as int;
        match self.state {
            DeserializerState::StreamingValue => { if value_here(s, c) is Some { let (j, t) = value_here(s, c)->0; lemma_above(unwind(ns, fs, n, t, false, c), DF::Val(j)); } }
            DeserializerState::LookbackValue { index, streaming_depth } => { lemma_above(unwind(ns, fs, sdn(streaming_depth), s, false, c), DF::Val(ns[index as int].tree)); assert(item_ok(ns, self.its(), self.data(), self.data().len() as int, index as int, index as int)); }
            DeserializerState::NullValue { at_start, streaming_depth, .. } => { lemma_above(unwind(ns, fs, sdn(streaming_depth), s, at_first(at_start, streaming_depth, n), c), DF::Missing); }
            _ => {}
        }
    }
    proof fn lemma_refused(self, op: Op, b: Self)
        requires self.inv(), self.marks(b), on_value(self.state), !self.bad() ==> top_value(self) is Some ==> refuses((top_value(self)->0).0, op)
        ensures err(self.state_w(), op, b.state_w())
    {
        self.lemma_on_value();
        self.lemma_err(op, b);
    }
    /// A value was read.
    proof fn lemma_popped(self, op: Op, ret: Ret, b: Self)
        requires
            self.inv(), self.marks(b), on_value(self.state), self.popped(b), top_value(self) is Some, (top_value(self)->0).1 == b.rest(), answers((top_value(self)->0).0, op, ret),
            !took(op, ret), reff(stack_of(self.fs(), self.state), op, ret, base_of(self.fs())),
        ensures b.inv(), done(self.state_w(), op, ret, b.state_w())
    {
        let ns = self.ns(); let fs = self.fs(); let c = self.c(); let s = self.rest(); let n = fs.len() as int; let d = (top_value(self)->0).0;
        self.lemma_on_value();
        lemma_value_len(s, c);
        if self.state is LookbackValue { lemma_items_taken(ns, self.its(), self.data(), self.data().len() as int, fs, self.stk(), self.nb(), self.state->LookbackValue_index as int); }
        assert(b.sound());
        assert(self.abs() == above(b.abs(), d));
        lemma_above(b.abs(), d);
        if self.abs() is Some { let p = (b.abs()->0).0; assert((self.abs()->0).0.drop_last() == p); if d is Val { assert(run_val(p, d->Val_0, op) == Some((ret, p))); } }
        self.lemma_done(op, ret, b);
    }
}
// ---- a collection is opened ----
spec fn kids_of<R: TextReader>(a: TextDeserializer<R>) -> Seq<int> { a.ns()[a.state->LookbackValue_index as int].kids }
spec fn new_fold<R: TextReader>(a: TextDeserializer<R>, obj: bool) -> Fold {
    if a.state is StreamingValue { Fold { obj, all: Seq::empty(), base: a.its().len() as int, read: 0, born: true, hole: -(a.fs().len() + 1) } }
    else { Fold { obj, all: kids_of(a), base: link(kids_of(a), 0, usize::MAX as int), read: 0, born: false, hole: a.state->LookbackValue_index as int } }
}
spec fn new_born<R: TextReader>(a: TextDeserializer<R>) -> int { a.nb() + if a.state is StreamingValue { 1int } else { 0 } }
proof fn lemma_sorted<P>(its: Items<P>, ks: Seq<int>, t: int)
    requires forward(its), forall|m: int| 0 <= m < ks.len() ==> 0 <= #[trigger] ks[m] < its.len() && its[ks[m]].next_sibling_index == link(ks, m + 1, t)
    ensures sorted(ks, 0)
    decreases ks.len()
{
    if ks.len() > 0 {
        let l = ks.drop_last();
        assert forall|m: int| 0 <= m < l.len() implies 0 <= #[trigger] l[m] < its.len() && its[l[m]].next_sibling_index == link(l, m + 1, ks.last()) by { assert(l[m] == ks[m]); }
        lemma_sorted(its, l, ks.last());
        assert forall|a: int, b: int| 0 <= a < b < ks.len() implies #[trigger] ks[a] < #[trigger] ks[b] by {
            if b < l.len() { assert(l[a] < l[b]); } else {
                if a < b - 1 { assert(l[a] < l[b - 1]); }
                assert(its[ks[b - 1]].next_sibling_index == link(ks, b, t));
            }
        }
    }
}
/// The text of an object or array that starts here.
proof fn lemma_opens(s: Seq<char>, c: bool)
    ensures
        s.len() > 0 && s[0] == '{' ==> value_here(s, c) == (match rem_obj(s.drop_first(), true, c) { None => None, Some((es, t)) => Some((J::Obj(es), t)) }),
        s.len() > 0 && s[0] == '[' ==> value_here(s, c) == (match rem_arr(s.drop_first(), true, c) { None => None, Some((js, t)) => Some((J::Arr(js), t)) }),
        value_here(s, c) is Some ==> s.len() > 0 && ((value_here(s, c)->0).0 is Obj <==> s[0] == '{') && ((value_here(s, c)->0).0 is Arr <==> s[0] == '[') && ((value_here(s, c)->0).0 is Str <==> s[0] == '"'),
{
    if s.len() > 0 { lemma_follow_len(s.drop_first(), c); }
}
proof fn lemma_folds_opened<P>(ns: Nodes, its: Items<P>, fs: Seq<Fold>, stk: Seq<StackItem<P>>, stl: Seq<StackItem<P>>, nb: int, f: Fold, nb2: int, len: int)
    requires
        folds_ok(ns, its, fs, stk, nb), stl.len() == stk.len() + 1, stl.drop_last() =~= stk, len == its.len(),
        f.born ==> nb == fs.len() && nb2 == nb + 1 && f == (Fold { obj: f.obj, all: Seq::empty(), base: len, read: 0, born: true, hole: -(fs.len() + 1) }),
        !f.born ==> nb2 == nb && 0 <= f.hole < len && its[f.hole].value is None && f.all == ns[f.hole].kids && (if f.obj { ns[f.hole].tree is Obj } else { ns[f.hole].tree is Arr }) && kids_ok(ns, its, f.hole)
            && f.base == link(f.all, 0, usize::MAX as int) && f.read == 0,
        forall|k: int| 0 <= k < fs.len() ==> (#[trigger] fs[k]).hole != f.hole,
        stl.last().collection_type is Object <==> f.obj, stl.last().first_child_index == f.base,
    ensures folds_ok(ns, its, fs.push(f), stl, nb2)
{
    let gs = fs.push(f); let n = fs.len() as int;
    assert forall|k: int| 0 <= k < gs.len() implies #[trigger] fold_ok(ns, its, gs, stl, k, nb2) by {
        let t2 = term(gs, len, k, nb2);
        if k < n {
            assert(fold_ok(ns, its, fs, stk, k, nb));
            assert(stl[k] == stl.drop_last()[k]);
            let t = term(fs, len, k, nb);
            assert(t == t2);
            assert forall|m: int| 0 <= m < gs[k].all.len() implies #[trigger] child_ok(ns, its, gs[k], m, t2) by { assert(child_ok(ns, its, fs[k], m, t)); }
        } else {
            assert forall|m: int| 0 <= m < f.all.len() implies #[trigger] child_ok(ns, its, f, m, t2) by { assert(kid_ok(ns, its, f.hole, m)); }
        }
    }
    assert forall|k: int, l: int| 0 <= k < l < gs.len() implies (#[trigger] gs[k]).hole != (#[trigger] gs[l]).hole by { if l < n { assert(fs[k].hole != fs[l].hole); } }
}
impl<Reader: TextReader> TextDeserializer<Reader> {
    proof fn lemma_opening(self)
        requires self.inv(), self.state is LookbackValue, (self.its()[self.state->LookbackValue_index as int].value->0) is Object
        ensures self.opening(self.state->LookbackValue_index as int)
    {
        let x = self.state->LookbackValue_index as int; let ks = self.ns()[x].kids; let ns = self.ns(); let its = self.its(); let data = self.data(); let dlen = data.len() as int;
        self.lemma_on_value();
        lemma_forward(ns, its, data, dlen, x);
        assert(self.outline.lookback_items.len() <= usize::MAX);
        assert forall|m: int| 0 <= m < ks.len() implies #[trigger] kid_here(ns, its, data, x, m) by {
            assert(kid_ok(ns, its, x, m)); assert(item_ok(ns, its, data, dlen, ks[m], x));
            if m + 1 < ks.len() { assert(kid_ok(ns, its, x, m + 1)); }
        }
        assert forall|m: int| 0 <= m < ks.len() implies 0 <= #[trigger] ks[m] < its.len() && its[ks[m]].next_sibling_index == link(ks, m + 1, usize::MAX as int) by { assert(kid_ok(ns, its, x, m)); }
        lemma_sorted(its, ks, usize::MAX as int);
        assert forall|m: int| 0 <= m < ks.len() implies !self.keys().dom().contains(((self.stk().len() + 1) as int, #[trigger] ks[m])) by {
            assert(self.keys().dom().contains(((self.stk().len() + 1) as int, ks[m])) <==> in_table(ns, self.fs(), (self.stk().len() + 1) as int, ks[m]));
        }
    }
    proof fn lemma_opened(self, op: Op, ret: Ret, obj: bool, b0: Self, b: Self)
        requires
            self.inv(), self.marks(b), self.state is StreamingValue || self.state is LookbackValue, self.opened(b0, obj), b.reader.ok(), b.its() == b0.its(), b.stk() == b0.stk(), b.keys() == b0.keys(), b.data() == b0.data(), b.ns() == b0.ns(),
            b.rest() == b0.rest(), b.state == b0.state,
            b.fs() == self.fs().push(new_fold(self, obj)), b.nb() == new_born(self),
            obj ==> table_ok(b.keys(), b.its(), b.data()),
            obj && self.state is LookbackValue ==> forall|d: int, i: int| #![trigger b.keys().dom().contains((d, i))] b.keys().dom().contains((d, i)) <==> self.keys().dom().contains((d, i)) || d == self.stk().len() + 1 && kids_of(self).contains(i),
            !took(op, ret), obj ==> op is OpenObject && ret == Ret::Unit, !obj ==> op is OpenList && ret == Ret::Len(None),
        ensures b.inv(), done(self.state_w(), op, ret, b.state_w())
    {
        let ns = self.ns(); let fs = self.fs(); let c = self.c(); let s = self.rest(); let n = fs.len() as int; let f = new_fold(self, obj); let its = self.its(); let data = self.data(); let dlen = data.len() as int;
        let gs = fs.push(f);
        self.lemma_on_value();
        assert(self.outline.lookback_items.len() <= usize::MAX);
        lemma_opens(s, c);
        assert(gs.drop_last() =~= fs);
        assert(gs.last() == f);
        lemma_left_in(ns, Seq::empty());
        let d = (top_value(self)->0).0;
        assert forall|k: int| 0 <= k < n implies (#[trigger] fs[k]).hole != f.hole by { assert(fold_ok(ns, its, fs, self.stk(), k, self.nb())); }
        if self.state is StreamingValue {
            lemma_folds_opened(ns, its, fs, self.stk(), b.stk(), self.nb(), f, b.nb(), its.len() as int);
            assert(left(ns, f.all) =~= Seq::empty());
            assert forall|d: int, i: int| in_table(ns, gs, d, i) == #[trigger] in_table(ns, fs, d, i) by { if d <= n { assert(1 <= d ==> gs[d - 1] == fs[d - 1]); } }
            assert(keys_ok(b.keys(), ns, gs));
            assert(b.sound());
            let t = (top_value(self)->0).1;
            if obj {
                if rem_obj(s.drop_first(), true, c) is Some { let es = (rem_obj(s.drop_first(), true, c)->0).0; assert(fold_es(ns, f) + es =~= es); lemma_above(unwind(ns, fs, n, t, false, c), DF::Val(J::Obj(es))); lemma_above(unwind(ns, fs, n, t, false, c), DF::Obj(es)); }
            } else {
                if rem_arr(s.drop_first(), true, c) is Some { let js = (rem_arr(s.drop_first(), true, c)->0).0; assert(fold_js(ns, f) + js =~= js); lemma_above(unwind(ns, fs, n, t, false, c), DF::Val(J::Arr(js))); lemma_above(unwind(ns, fs, n, t, false, c), DF::Arr(js)); }
            }
        } else {
            let x = self.state->LookbackValue_index as int; let ks = ns[x].kids; let jts = taken(its, x);
            let sd = sdn(self.state->LookbackValue_streaming_depth);
            lemma_items_taken(ns, its, data, dlen, fs, self.stk(), self.nb(), x);
            assert(item_ok(ns, jts, data, dlen, x, -1));
            lemma_folds_opened(ns, jts, fs, self.stk(), b.stk(), self.nb(), f, b.nb(), its.len() as int);
            assert forall|m: int| 0 <= m < ks.len() implies !(#[trigger] ns[ks[m]]).gone by { assert(kid_ok(ns, its, x, m)); }
            lemma_left_all(ns, ks);
            assert forall|d: int, i: int| #![trigger b.keys().dom().contains((d, i))] b.keys().dom().contains((d, i)) <==> in_table(ns, gs, d, i) by {
                assert(self.keys().dom().contains((d, i)) <==> in_table(ns, fs, d, i));
                if 1 <= d <= n { assert(gs[d - 1] == fs[d - 1]); }
                if d == n + 1 { assert(gs[d - 1] == f); if ks.contains(i) { let m = choose|m: int| 0 <= m < ks.len() && ks[m] == i; assert(!ns[ks[m]].gone); } }
            }
            assert forall|d: int, i: int| #![trigger b.keys().dom().contains((d, i))] b.keys().dom().contains((d, i)) implies b.keys()[(d, i)] == hash_of(d, encode_utf8(ns[i].key)) by {
                if obj { assert(item_ok(ns, jts, data, dlen, i, -1)); } else { assert(self.keys().dom().contains((d, i))); }
            }
            assert(keys_ok(b.keys(), ns, gs));
            assert(b.sound());
            let u = unwind(ns, fs, sd, s, false, c);
            lemma_above(u, d);
            if u is Some { let p = (u->0).0; if obj { lemma_frames_push(p, DF::Obj(fold_es(ns, f))); } else { lemma_frames_push(p, DF::Arr(fold_js(ns, f))); } }
        }
        lemma_base(gs);
        self.lemma_done(op, ret, b);
    }
}
// ---- an item is handed out, a collection ends ----
spec fn below_same(ns: Nodes, ms: Nodes, fs: Seq<Fold>, gs: Seq<Fold>, n: int) -> bool {
    n <= fs.len() && n <= gs.len() && forall|d: int| 0 <= d < n ==> (#[trigger] fs[d]).obj == gs[d].obj && fold_es(ns, fs[d]) == fold_es(ms, gs[d]) && fold_js(ns, fs[d]) == fold_js(ms, gs[d])
}
proof fn lemma_below(ns: Nodes, ms: Nodes, fs: Seq<Fold>, gs: Seq<Fold>, sd: int, s: Seq<char>, start: bool, c: bool)
    requires fs.len() > 0, gs.len() > 0, below_same(ns, ms, fs, gs, fs.len() - 1), fs.len() == gs.len()
    ensures unwind(ns, fs.drop_last(), sd, s, start, c) == unwind(ms, gs.drop_last(), sd, s, start, c)
{
    let fp = fs.drop_last(); let gp = gs.drop_last();
    assert forall|d: int| 0 <= d < fp.len() implies (#[trigger] fp[d]).obj == gp[d].obj && fold_es(ns, fp[d]) == fold_es(ms, gp[d]) && fold_js(ns, fp[d]) == fold_js(ms, gp[d]) by { assert(fp[d] == fs[d] && gp[d] == gs[d]); }
    lemma_unwind_frame(ns, ms, fp, gp, sd, s, start, c);
}
/// What is under the top does not change with it.
proof fn lemma_unwind_top(ns: Nodes, ms: Nodes, fs: Seq<Fold>, gs: Seq<Fold>, sd: int, s: Seq<char>, start: bool, c: bool) -> (e: (Es, Seq<J>))
    requires fs.len() > 0, gs.len() == fs.len(), below_same(ns, ms, fs, gs, fs.len() - 1), fs.last().obj == gs.last().obj
    ensures match (unwind(ns, fs, sd, s, start, c), unwind(ms, gs, sd, s, start, c)) {
        (None, None) => true,
        (Some((p, t)), Some((q, u))) => t == u && p.len() > 0 && q.len() > 0 && p.drop_last() =~= q.drop_last()
            && if fs.last().obj { p.last() == DF::Obj(fold_es(ns, fs.last()) + e.0) && q.last() == DF::Obj(fold_es(ms, gs.last()) + e.0) } else { p.last() == DF::Arr(fold_js(ns, fs.last()) + e.1) && q.last() == DF::Arr(fold_js(ms, gs.last()) + e.1) },
        _ => false,
    }
{
    let f = fs.last(); let g = gs.last(); let ee: Es = Seq::empty(); let ej: Seq<J> = Seq::empty();
    if fs.len() > sd {
        lemma_below(ns, ms, fs, gs, sd, s, start, c);
        assert(fold_es(ns, f) + ee =~= fold_es(ns, f)); assert(fold_js(ns, f) + ej =~= fold_js(ns, f));
        assert(fold_es(ms, g) + ee =~= fold_es(ms, g)); assert(fold_js(ms, g) + ej =~= fold_js(ms, g));
        if unwind(ns, fs.drop_last(), sd, s, start, c) is Some {
            let p = (unwind(ns, fs.drop_last(), sd, s, start, c)->0).0;
            lemma_frames_push(p, if f.obj { DF::Obj(fold_es(ns, f)) } else { DF::Arr(fold_js(ns, f)) }); lemma_frames_push(p, if f.obj { DF::Obj(fold_es(ms, g)) } else { DF::Arr(fold_js(ms, g)) });
        }
        (ee, ej)
    } else if f.obj {
        match rem_obj(s, start, c) {
            None => (ee, ej),
            Some((es, t)) => {
                lemma_below(ns, ms, fs, gs, sd - 1, t, false, c);
                let u = unwind(ns, fs.drop_last(), sd - 1, t, false, c);
                lemma_above(u, DF::Obj(fold_es(ns, f) + es)); lemma_above(u, DF::Obj(fold_es(ms, g) + es));
                (es, ej)
            }
        }
    } else {
        match rem_arr(s, start, c) {
            None => (ee, ej),
            Some((js, t)) => {
                lemma_below(ns, ms, fs, gs, sd - 1, t, false, c);
                let u = unwind(ns, fs.drop_last(), sd - 1, t, false, c);
                lemma_above(u, DF::Arr(fold_js(ns, f) + js)); lemma_above(u, DF::Arr(fold_js(ms, g) + js));
                (ee, js)
            }
        }
    }
}
proof fn lemma_handed<P>(ns: Nodes, its: Items<P>, data: Seq<u8>, fs: Seq<Fold>, stk: Seq<StackItem<P>>, nb: int, i: int, r: int) -> (m: int)
    requires items_ok(ns, its, data, data.len() as int, -1), folds_ok(ns, its, fs, stk, nb), fs.len() > 0, fs.last().all.contains(i), !ns[i].gone
    ensures ({
        let ms = gone(ns, i); let gs = read_to(fs, r); let f = fs.last();
        &&& below_same(ns, ms, fs, gs, fs.len() - 1) && gs.last().obj == f.obj
        &&& 0 <= i < its.len() && 0 <= m < fold_es(ns, f).len() && fold_js(ns, f).len() == fold_es(ns, f).len() && fold_es(ns, f)[m] == (ns[i].key, ns[i].tree) && fold_js(ns, f)[m] == ns[i].tree
        &&& fold_es(ms, gs.last()) == fold_es(ns, f).remove(m) && fold_js(ms, gs.last()) == fold_js(ns, f).remove(m)
        &&& first_left(ns, f, r) && f.all[r] == i ==> m == 0
    })
{
    let ms = gone(ns, i); let gs = read_to(fs, r); let n = fs.len() as int; let f = fs[n - 1];
    lemma_forward(ns, its, data, data.len() as int, -1);
    assert(fold_ok(ns, its, fs, stk, n - 1, nb));
    let t = term(fs, its.len() as int, n - 1, nb);
    assert forall|m: int| 0 <= m < f.all.len() implies 0 <= #[trigger] f.all[m] < its.len() && its[f.all[m]].next_sibling_index == link(f.all, m + 1, t) by { assert(child_ok(ns, its, f, m, t)); }
    lemma_sorted(its, f.all, t);
    let q = choose|q: int| 0 <= q < f.all.len() && f.all[q] == i;
    assert(child_ok(ns, its, f, q, t));
    let l = left(ns, f.all);
    lemma_left_in(ns, f.all);
    assert(l.contains(i));
    let m = choose|m: int| 0 <= m < l.len() && l[m] == i;
    lemma_left_take(ns, f.all, i, m);
    assert(ents(ms, l.remove(m)) =~= ents(ns, l).remove(m));
    assert(vals(ms, l.remove(m)) =~= vals(ns, l).remove(m));
    assert forall|d: int| 0 <= d < n - 1 implies (#[trigger] fs[d]).obj == gs[d].obj && fold_es(ns, fs[d]) == fold_es(ms, gs[d]) && fold_js(ns, fs[d]) == fold_js(ms, gs[d]) by {
        let g = fs[d];
        assert(fold_ok(ns, its, fs, stk, d, nb));
        assert(g.hole != f.hole);
        assert forall|m: int| 0 <= m < g.all.len() implies ns[#[trigger] g.all[m]] == ms[g.all[m]] by { assert(child_ok(ns, its, g, m, term(fs, its.len() as int, d, nb))); }
        lemma_left_same(ns, ms, g.all);
    }
    if first_left(ns, f, r) && f.all[r] == i {
        lemma_left_first(ns, f.all, r);
        if m > 0 {
            lemma_left_sorted(ns, f.all);
            assert(l[0] < l[m]);
        }
    }
    m
}
proof fn lemma_left_sorted(ns: Nodes, ks: Seq<int>)
    requires sorted(ks, 0)
    ensures sorted(left(ns, ks), 0)
    decreases ks.len()
{
    if ks.len() > 0 {
        let t = ks.drop_first(); let l = left(ns, t); let r = left(ns, ks);
        assert(sorted(t, 0)) by { assert forall|a: int, b: int| 0 <= a < b < t.len() implies #[trigger] t[a] < #[trigger] t[b] by { assert(t[a] == ks[a + 1] && t[b] == ks[b + 1]); } }
        lemma_left_sorted(ns, t);
        lemma_left_in(ns, t);
        if !ns[ks[0]].gone {
            assert forall|a: int, b: int| 0 <= a < b < r.len() implies #[trigger] r[a] < #[trigger] r[b] by {
                assert(r[b] == l[b - 1]);
                if a > 0 { assert(r[a] == l[a - 1]); assert(l[a - 1] < l[b - 1]); }
                else { assert(l.contains(l[b - 1])); assert(t.contains(l[b - 1])); let j = choose|j: int| 0 <= j < t.len() && t[j] == l[b - 1]; assert(ks[j + 1] == l[b - 1] && ks[0] < ks[j + 1]); }
            }
        }
    }
}
/// The top collection is closed; what is left of its items belongs to the one below.
spec fn closed(fs: Seq<Fold>) -> Seq<Fold> {
    let n = fs.len() as int; let fp = fs.drop_last();
    if fs[n - 1].born && n >= 2 { fp.update(n - 2, Fold { all: fs[n - 2].all + fs[n - 1].all, ..fs[n - 2] }) } else { fp }
}
spec fn closed_born(fs: Seq<Fold>, nb: int) -> int { if fs.last().born { fs.len() - 1 } else { nb } }
proof fn lemma_closed<P>(ns: Nodes, its: Items<P>, fs: Seq<Fold>, stk: Seq<StackItem<P>>, keys: Keys, nb: int)
    requires folds_ok(ns, its, fs, stk, nb), keys_ok(keys, ns, fs), fs.len() > 0, none_left(ns, fs.last())
    ensures
        folds_ok(ns, its, closed(fs), stk.drop_last(), closed_born(fs, nb)), keys_ok(keys, ns, closed(fs)),
        below_same(ns, ns, fs.drop_last(), closed(fs), fs.len() - 1), closed(fs).len() == fs.len() - 1,
        fold_es(ns, fs.last()).len() == 0, fold_js(ns, fs.last()).len() == 0,
        fs.last().born <==> nb == fs.len(),
{
    let n = fs.len() as int; let gs = closed(fs); let nb2 = closed_born(fs, nb); let stl = stk.drop_last(); let len = its.len() as int; let f = fs[n - 1];
    assert(fold_ok(ns, its, fs, stk, n - 1, nb));
    lemma_left_gone(ns, f.all);
    let tl = term(fs, len, n - 1, nb);
    assert forall|m: int| 0 <= m < f.all.len() implies (#[trigger] ns[f.all[m]]).gone && child_ok(ns, its, f, m, tl) by {}
    assert forall|k: int| 0 <= k < n - 1 implies #[trigger] fold_ok(ns, its, gs, stl, k, nb2) by {
        assert(fold_ok(ns, its, fs, stk, k, nb));
        assert(stl[k] == stk[k]);
        let t = term(fs, len, k, nb); let t2 = term(gs, len, k, nb2); let g = gs[k];
        if k == n - 2 && f.born {
            assert(t == f.base && t2 == len && tl == len);
            assert(g.all == fs[k].all + f.all);
            assert forall|m: int| 0 <= m < g.all.len() implies #[trigger] child_ok(ns, its, g, m, t2) by {
                if m < fs[k].all.len() { assert(child_ok(ns, its, fs[k], m, t)); } else { let l = m - fs[k].all.len(); assert(g.all[m] == f.all[l]); assert(ns[f.all[l]].gone); assert(child_ok(ns, its, f, l, tl)); }
            }
        } else {
            assert(g == fs[k]);
            if k < n - 2 && f.born { assert(gs[k + 1].base == fs[k + 1].base); }
            assert(t == t2);
            assert forall|m: int| 0 <= m < g.all.len() implies #[trigger] child_ok(ns, its, g, m, t2) by { assert(child_ok(ns, its, fs[k], m, t)); }
        }
    }
    assert forall|k: int, l: int| 0 <= k < l < gs.len() implies (#[trigger] gs[k]).hole != (#[trigger] gs[l]).hole by { assert(fs[k].hole != fs[l].hole); }
    assert forall|d: int, i: int| in_table(ns, fs, d, i) == #[trigger] in_table(ns, gs, d, i) by {
        if d == n && in_table(ns, fs, d, i) { let m = choose|m: int| 0 <= m < f.all.len() && f.all[m] == i; assert(ns[f.all[m]].gone); }
        if d == n - 1 && f.born && 1 <= d {
            let g = fs[n - 2];
            if in_table(ns, fs, d, i) { let m = choose|m: int| 0 <= m < g.all.len() && g.all[m] == i; assert((g.all + f.all)[m] == i); }
            if in_table(ns, gs, d, i) { let m = choose|m: int| 0 <= m < (g.all + f.all).len() && (g.all + f.all)[m] == i; if m < g.all.len() { assert(g.all[m] == i); } else { assert(ns[f.all[m - g.all.len()]].gone); } }
        }
        if 1 <= d < n - 1 { assert(gs[d - 1] == fs[d - 1]); }
    }
    if f.born && n >= 2 {
        lemma_left_add(ns, fs[n - 2].all, f.all);
        assert(left(ns, fs[n - 2].all) + left(ns, f.all) =~= left(ns, fs[n - 2].all));
    }
    let fp = fs.drop_last();
    assert forall|d: int| 0 <= d < n - 1 implies (#[trigger] fp[d]).obj == gs[d].obj && fold_es(ns, fp[d]) == fold_es(ns, gs[d]) && fold_js(ns, fp[d]) == fold_js(ns, gs[d]) by { assert(fp[d] == fs[d]); }
}
// ---- next_item, next_entry ----
/// The same but for what stands for the items.
spec fn ghosted<R: TextReader>(b0: TextDeserializer<R>, b: TextDeserializer<R>) -> bool {
    b.reader.ok() && b.its() == b0.its() && b.stk() == b0.stk() && b.keys() == b0.keys() && b.data() == b0.data() && b.rest() == b0.rest() && b.state == b0.state && b.config == b0.config && b.malformed == b0.malformed && b.dup == b0.dup
}
proof fn lemma_ws_done(s: Seq<char>, c: bool)
    ensures after_ws(s, c) is Some ==> after_ws(after_ws(s, c)->0, c) == after_ws(s, c)
{
    lemma_ws_len(s, c);
    if after_ws(s, c) is Some { lemma_ws(after_ws(s, c)->0, c); }
}
/// The first item of an array is read from where it starts.
proof fn lemma_item_start(s: Seq<char>, start: bool, c: bool)
    ensures
        item_start(s, start, c) is None ==> rem_arr(s, start, c) is None,
        item_start(s, start, c) is Some ==> (item_start(s, start, c)->0).1.len() <= s.len() && ({
            let (x, u) = item_start(s, start, c)->0;
            if x { (!start ==> u.len() < s.len()) && rem_arr(s, start, c) == (match value_here(u, c) { None => None, Some((j, t)) => match rem_arr(t, false, c) { None => None, Some((js, v)) => Some((seq![j] + js, v)) } }) }
            else { rem_arr(s, start, c) == Some((Seq::<J>::empty(), u)) }
        }),
{
    lemma_ws_done(s, c);
    lemma_follow_len(s, c);
    let f = if start { first_item(s, c) } else { next_item(s, c) };
    if f is Some && (f->0).0 {
        let t = (f->0).1;
        lemma_items(t, c); lemma_value_here(t, c); lemma_ws_len(t, c);
    }
}
proof fn lemma_entry_start(s: Seq<char>, start: bool, c: bool)
    ensures
        entry_start(s, start, c) is None ==> rem_obj(s, start, c) is None,
        entry_start(s, start, c) is Some ==> (entry_start(s, start, c)->0).1.len() < s.len() && ({
            let (x, u) = entry_start(s, start, c)->0;
            if x { rem_obj(s, start, c) == (match str_lit(u) { None => None, Some((k, t)) => match after_char(t, c, ':') { None => None, Some(w) => match value(w, c) { None => None, Some((j, v)) => match rem_obj(v, false, c) { None => None, Some((es, z)) => Some((seq![(k, j)] + es, z)) } } } }) }
            else { rem_obj(s, start, c) == Some((Es::empty(), u)) }
        }),
{
    lemma_follow_len(s, c);
    let f = if start { first_entry(s, c) } else { next_entry(s, c) };
    if f is Some && (f->0).0 { let t = (f->0).1; lemma_entries(t, c); lemma_entry(t, c); }
}
spec fn emptied(f: Fold) -> DF { if f.obj { DF::Obj(Es::empty()) } else { DF::Arr(Seq::empty()) } }
proof fn lemma_run_entry(p: Sem, q: Sem, es: Es, e: Es, k: Seq<char>, j: J)
    requires p.len() > 0, p.last() == DF::Obj(es + e), es.len() > 0, es[0] == (k, j), q.len() > 0, q.drop_last() =~= p.drop_last(), q.last() == DF::Obj(es.remove(0) + e)
    ensures run(p, Op::NextEntry) is Some, (run(p, Op::NextEntry)->0).0 == Ret::Bool(true), (run(p, Op::NextEntry)->0).1 =~= q.push(DF::Val(j)).push(DF::Str(k))
{
    assert((es + e).drop_first() =~= es.remove(0) + e);
    assert(q =~= p.drop_last().push(q.last()));
}
proof fn lemma_run_item(p: Sem, q: Sem, js: Seq<J>, e: Seq<J>, j: J)
    requires p.len() > 0, p.last() == DF::Arr(js + e), js.len() > 0, js[0] == j, q.len() > 0, q.drop_last() =~= p.drop_last(), q.last() == DF::Arr(js.remove(0) + e)
    ensures run(p, Op::NextItem) is Some, (run(p, Op::NextItem)->0).0 == Ret::Bool(true), (run(p, Op::NextItem)->0).1 =~= q.push(DF::Val(j))
{
    assert((js + e).drop_first() =~= js.remove(0) + e);
    assert(q =~= p.drop_last().push(q.last()));
}
impl<Reader: TextReader> TextDeserializer<Reader> {
    /// The collection on top.
    proof fn lemma_on_coll(self)
        requires self.inv(), self.state is Collection, self.fs().len() > 0
        ensures
            self.coll_pre(), self.stk().len() == self.fs().len(), self.stk().last().collection_type is Object <==> self.fs().last().obj, self.its().len() <= usize::MAX,
            self.more().1 == depth_of(self.fs().len() as int) <==> sdn(self.more().1) == self.fs().len(), sdn(self.more().1) <= self.fs().len(),
            sdn(self.more().1) == self.fs().len() ==> self.nb() == self.fs().len(),
            self.nb() == self.fs().len() && !self.fs().last().obj ==> none_left(self.ns(), self.fs().last()),
            sd_ok(self.more().1, self.nb(), self.fs().len() as int), self.fs().last().born <==> self.nb() == self.fs().len(), 0 <= self.fs().last().read,
            table_ok(self.keys(), self.its(), self.data()),
            items_ok(self.ns(), self.its(), self.data(), self.data().len() as int, -1), folds_ok(self.ns(), self.its(), self.fs(), self.stk(), self.nb()), keys_ok(self.keys(), self.ns(), self.fs()),
    {
        let ns = self.ns(); let its = self.its(); let fs = self.fs(); let n = fs.len() as int; let f = fs.last();
        lemma_forward(ns, its, self.data(), self.data().len() as int, -1);
        assert(fold_ok(ns, its, fs, self.stk(), n - 1, self.nb()));
        assert(self.outline.lookback_items.len() <= usize::MAX);
        lemma_table(ns, its, self.data(), fs, self.stk(), self.keys(), self.nb());
        if self.nb() == n && !f.obj { assert forall|m: int| 0 <= m < f.all.len() implies (#[trigger] ns[f.all[m]]).gone by { assert(child_ok(ns, its, f, m, term(fs, its.len() as int, n - 1, self.nb()))); } }
    }
    /// There is nothing more in the collection on top.
    proof fn lemma_end(self, op: Op, b0: Self, b: Self, sd: Option<NonZeroU32>)
        requires
            self.inv(), self.state is Collection, self.fs().len() > 0, none_left(self.ns(), self.fs().last()), self.marks(b),
            ghosted(b0, b), b.its() == self.its(), b.keys() == self.keys(), b.data() == self.data(), self.left_coll(b0, sd), b.rest().len() <= self.rest().len(),
            b.ns() == self.ns(), b.fs() == closed(self.fs()), b.nb() == closed_born(self.fs(), self.nb()), sd_ok(sd, b.nb(), self.fs().len() - 1),
            self.abs() == above(unwind(self.ns(), self.fs().drop_last(), sdn(sd), b.rest(), false, self.c()), emptied(self.fs().last())),
            if self.fs().last().obj { op is NextEntry } else { op is NextItem },
        ensures b.inv(), done(self.state_w(), op, Ret::Bool(false), b.state_w())
    {
        let ns = self.ns(); let fs = self.fs(); let n = fs.len() as int; let c = self.c();
        lemma_closed(ns, self.its(), fs, self.stk(), self.keys(), self.nb());
        lemma_unwind_frame(ns, ns, fs.drop_last(), closed(fs), sdn(sd), b.rest(), false, c);
        let u = unwind(ns, fs.drop_last(), sdn(sd), b.rest(), false, c);
        lemma_above(u, emptied(fs.last()));
        assert(b.abs() == u);
        assert(b.sound());
        lemma_base(fs);
        assert(base_of(closed(fs)) =~= base_of(fs.drop_last())) by { let fp = fs.drop_last(); assert forall|d: int| 0 <= d < n - 1 implies closed(fs)[d].obj == #[trigger] fp[d].obj by {} }
        self.lemma_done(op, Ret::Bool(false), b);
    }
    /// An item of the buffer is handed out.
    spec fn handing(self, b0: Self, b: Self, i: int, r: int) -> bool {
        &&& self.fs().len() > 0 && self.marks(b) && ghosted(b0, b) && self.here() == Some(i) && first_left(self.ns(), self.fs().last(), r) && self.fs().last().all[r] == i
        &&& folds_ok(self.ns(), self.its(), read_to(self.fs(), r), start_of(self.stk(), i as usize), self.nb())
        &&& b.data() == self.data() && b.rest() == self.rest() && b.stk() =~= start_of(self.stk(), i as usize)
        &&& b.ns() == gone(self.ns(), i) && b.fs() == read_to(self.fs(), r) && b.nb() == self.nb()
        &&& if self.fs().last().obj {
                b.its() =~= inactive(self.its(), i) && b.keys() == self.keys().remove((self.fs().len() as int, i)) && match b.state {
                    DeserializerState::LookbackString { head_index, end_index, value_index, streaming_depth } => head_index <= end_index <= self.data().len() && value_index == Some(i as usize) && streaming_depth == self.more().1
                        && self.data().subrange(head_index as int, end_index as int) == self.data().subrange(self.its()[i].data_index as int, kend(self.its()[i])),
                    _ => false }
            } else { b.its() == self.its() && b.keys() == self.keys() && b.state == (DeserializerState::LookbackValue { index: i as usize, streaming_depth: self.more().1 }) }
    }
    proof fn lemma_item_struct(self, b0: Self, b: Self, i: int, r: int)
        requires self.inv(), self.state is Collection, self.handing(b0, b, i, r)
        ensures
            items_ok(b.ns(), b.its(), b.data(), b.data().len() as int, pend(b.state)), folds_ok(b.ns(), b.its(), b.fs(), b.stk(), b.nb()), keys_ok(b.keys(), b.ns(), b.fs()),
            self.fs().last().all.contains(i), !self.ns()[i].gone, 0 <= i < self.ns().len() <= usize::MAX, i as usize == i, item_ok(self.ns(), self.its(), self.data(), self.data().len() as int, i, -1),
            total(b.ns()) + weight(self.ns()[i]) == total(self.ns()),
    {
        hide(unwind); hide(left); hide(items_ok); hide(folds_ok); hide(keys_ok); hide(total); hide(abs_of); hide(keyed_sem); hide(item_ok); hide(kids_ok); hide(bytes_ok);
        let ns = self.ns(); let its = self.its(); let fs = self.fs(); let nb = self.nb();
        self.lemma_on_coll();
        assert(fs.last().all[r] == i);
        assert(fs.last().all.contains(i));
        lemma_here(its, self.stk().last().first_child_index as int);
        lemma_read_same(ns, fs, self.keys(), r, 0, self.rest(), false, self.c());
        lemma_hand_out(ns, its, self.data(), read_to(fs, r), b.stk(), self.keys(), nb, i, b.its());
        assert(items_ok(ns, its, self.data(), self.data().len() as int, -1) ==> ns.len() == its.len() && item_ok(ns, its, self.data(), self.data().len() as int, i, -1)) by { reveal(items_ok); }
        lemma_total_gone(ns, i);
    }
    proof fn lemma_item_sound(self, b0: Self, b: Self, i: int, r: int)
        requires self.inv(), self.state is Collection, self.handing(b0, b, i, r)
        ensures b.sound(), b.fuel() < self.fuel(), !at_first(self.more().0, self.more().1, self.fs().len() as int), base_of(b.fs()) =~= base_of(self.fs()),
            self.fs().last().obj ==> decode_utf8(self.data().subrange(b.state->head_index as int, b.state->end_index as int)) == self.ns()[i].key
    {
        hide(unwind); hide(left); hide(items_ok); hide(folds_ok); hide(keys_ok); hide(total); hide(abs_of); hide(keyed_sem); hide(kids_ok);
        let ns = self.ns();
        self.lemma_on_coll();
        self.lemma_item_struct(b0, b, i, r);
        if self.fs().last().obj {
            let h = b.state->head_index as int; let l = b.state->end_index as int;
            encode_utf8_decode_utf8(ns[i].key); encode_utf8_valid_utf8(ns[i].key);
            assert(self.data().subrange(h, l) == encode_utf8(ns[i].key));
        }
    }
    proof fn lemma_item_out(self, op: Op, b0: Self, b: Self, i: int, r: int)
        requires self.inv(), self.state is Collection, self.handing(b0, b, i, r), op == if self.fs().last().obj { Op::NextEntry } else { Op::NextItem }
        ensures b.inv(), done(self.state_w(), op, Ret::Bool(true), b.state_w())
    {
        hide(unwind); hide(left); hide(fold_es); hide(fold_js); hide(items_ok); hide(folds_ok); hide(keys_ok); hide(total); hide(run); hide(TextDeserializer::sound); hide(keyed_sem); hide(item_ok); hide(done);
        let ns = self.ns(); let fs = self.fs(); let n = fs.len() as int; let c = self.c(); let s = self.rest(); let f = fs.last(); let ms = gone(ns, i); let gs = read_to(fs, r);
        let sd = sdn(self.more().1);
        self.lemma_item_sound(b0, b, i, r); self.lemma_item_struct(b0, b, i, r);
        self.lemma_on_coll();
        let m = lemma_handed(ns, self.its(), self.data(), fs, self.stk(), self.nb(), i, r);
        let e = lemma_unwind_top(ns, ms, fs, gs, sd, s, false, c);
        let u = unwind(ms, gs, sd, s, false, c); let v = above(u, DF::Val(ns[i].tree)); let w = above(v, DF::Str(ns[i].key));
        lemma_above(u, DF::Val(ns[i].tree));
        lemma_above(v, DF::Str(ns[i].key));
        assert(self.abs() == unwind(ns, fs, sd, s, false, c));
        assert(b.abs() == if f.obj { w } else { v });
        if self.abs() is Some {
            let p = (self.abs()->0).0; let q = (u->0).0;
            if f.obj { lemma_run_entry(p, q, fold_es(ns, f), e.0, ns[i].key, ns[i].tree); } else { lemma_run_item(p, q, fold_js(ns, f), e.1, ns[i].tree); }
        }
        self.lemma_done(op, Ret::Bool(true), b);
    }
}
proof fn lemma_run_end(p: Sem, obj: bool)
    requires p.len() > 0, p.last() == if obj { DF::Obj(Es::empty()) } else { DF::Arr(Seq::empty()) }
    ensures run(p, if obj { Op::NextEntry } else { Op::NextItem }) == Some((Ret::Bool(false), p.drop_last()))
{
}
/// What is left when the collection on top goes on in the text.
proof fn lemma_unwind_here(ns: Nodes, fs: Seq<Fold>, s: Seq<char>, start: bool, c: bool)
    requires fs.len() > 0, none_left(ns, fs.last())
    ensures
        fold_es(ns, fs.last()).len() == 0, fold_js(ns, fs.last()).len() == 0,
        unwind(ns, fs, fs.len() as int, s, start, c) == if fs.last().obj {
            match rem_obj(s, start, c) { None => None, Some((es, t)) => above(unwind(ns, fs.drop_last(), fs.len() - 1, t, false, c), DF::Obj(es)) }
        } else {
            match rem_arr(s, start, c) { None => None, Some((js, t)) => above(unwind(ns, fs.drop_last(), fs.len() - 1, t, false, c), DF::Arr(js)) }
        },
{
    let f = fs.last();
    lemma_left_gone(ns, f.all);
    if f.obj { if rem_obj(s, start, c) is Some { let es = (rem_obj(s, start, c)->0).0; assert(fold_es(ns, f) + es =~= es); } }
    else { if rem_arr(s, start, c) is Some { let js = (rem_arr(s, start, c)->0).0; assert(fold_js(ns, f) + js =~= js); } }
}
/// What is left when the text of the collection on top was read.
proof fn lemma_unwind_past(ns: Nodes, fs: Seq<Fold>, sd: int, s: Seq<char>, start: bool, c: bool)
    requires fs.len() > sd, fs.len() > 0, none_left(ns, fs.last())
    ensures unwind(ns, fs, sd, s, start, c) == above(unwind(ns, fs.drop_last(), sd, s, start, c), emptied(fs.last()))
{
    lemma_left_gone(ns, fs.last().all);
    assert(fold_es(ns, fs.last()) =~= Es::empty());
    assert(fold_js(ns, fs.last()) =~= Seq::<J>::empty());
}
impl<Reader: TextReader> TextDeserializer<Reader> {
    spec fn none_out(self, b0: Self, b: Self, sd: Option<NonZeroU32>) -> bool {
        &&& ghosted(b0, b) && b.its() == self.its() && b.keys() == self.keys() && b.data() == self.data() && self.left_coll(b0, sd)
        &&& b.ns() == self.ns() && b.fs() == closed(self.fs()) && b.nb() == closed_born(self.fs(), self.nb())
    }
    /// Nothing was left in the buffer, and the text of the collection was read already.
    proof fn lemma_end_past(self, op: Op, b0: Self, b: Self)
        requires
            self.inv(), self.state is Collection, self.fs().len() > 0, self.marks(b), none_left(self.ns(), self.fs().last()), !self.streams(), self.none_out(b0, b, self.more().1), b.rest() == self.rest(),
            if self.fs().last().obj { op is NextEntry } else { op is NextItem },
        ensures b.inv(), done(self.state_w(), op, Ret::Bool(false), b.state_w())
    {
        hide(unwind); hide(left); hide(fold_es); hide(fold_js); hide(items_ok); hide(folds_ok); hide(keys_ok); hide(run); hide(TextDeserializer::sound); hide(keyed_sem); hide(none_left); hide(done);
        self.lemma_on_coll();
        lemma_unwind_past(self.ns(), self.fs(), sdn(self.more().1), self.rest(), false, self.c());
        self.lemma_end(op, b0, b, self.more().1);
    }
    /// The text of the collection ends.
    proof fn lemma_end_here(self, op: Op, b0: Self, b: Self)
        requires
            self.inv(), self.state is Collection, self.fs().len() > 0, self.marks(b), none_left(self.ns(), self.fs().last()), self.streams(), self.none_out(b0, b, depth_of(self.fs().len() - 1)),
            if self.fs().last().obj { op is NextEntry && rem_obj(self.rest(), self.more().0, self.c()) == Some((Es::empty(), b.rest())) } else { op is NextItem && rem_arr(self.rest(), self.more().0, self.c()) == Some((Seq::<J>::empty(), b.rest())) },
            b.rest().len() <= self.rest().len(),
        ensures b.inv(), done(self.state_w(), op, Ret::Bool(false), b.state_w())
    {
        hide(unwind); hide(left); hide(fold_es); hide(fold_js); hide(items_ok); hide(folds_ok); hide(keys_ok); hide(run); hide(TextDeserializer::sound); hide(keyed_sem); hide(none_left); hide(done);
        let n = self.fs().len();
        self.lemma_on_coll();
        lemma_unwind_here(self.ns(), self.fs(), self.rest(), self.more().0, self.c());
        self.lemma_end(op, b0, b, depth_of(n - 1));
    }
    spec fn reading(self, b: Self) -> bool {
        self.marks(b) && b.reader.ok() && b.its() == self.its() && b.keys() == self.keys() && b.data() == self.data() && b.stk() == self.stk() && b.ns() == self.ns() && b.fs() == self.fs() && b.nb() == self.nb()
    }
    /// The next item comes from the text.
    proof fn lemma_item_here(self, b: Self)
        requires
            self.inv(), self.state is Collection, self.fs().len() > 0, !self.fs().last().obj, self.streams(), self.reading(b), b.state is StreamingValue,
            item_start(self.rest(), self.more().0, self.c()) == Some((true, b.rest())),
        ensures b.inv(), done(self.state_w(), Op::NextItem, Ret::Bool(true), b.state_w())
    {
        hide(unwind); hide(left); hide(fold_es); hide(fold_js); hide(items_ok); hide(folds_ok); hide(keys_ok); hide(none_left); hide(done); hide(rem_arr); hide(item_start); hide(value_here); hide(keyed_sem);
        let ns = self.ns(); let fs = self.fs(); let n = fs.len() as int; let c = self.c(); let start = self.more().0; let u = b.rest();
        self.lemma_on_coll();
        lemma_item_start(self.rest(), start, c);
        lemma_unwind_here(ns, fs, self.rest(), start, c);
        if value_here(u, c) is Some {
            let (j, t) = value_here(u, c)->0;
            lemma_unwind_here(ns, fs, t, false, c);
            lemma_above(unwind(ns, fs, n, t, false, c), DF::Val(j));
            if rem_arr(t, false, c) is Some {
                let (js, v) = rem_arr(t, false, c)->0; let r = unwind(ns, fs.drop_last(), n - 1, v, false, c);
                lemma_above(r, DF::Arr(js)); lemma_above(r, DF::Arr(seq![j] + js));
                assert((seq![j] + js).drop_first() =~= js);
            }
        }
        assert(b.sound());
        self.lemma_done(Op::NextItem, Ret::Bool(true), b);
    }
    proof fn lemma_entry_here(self, b: Self)
        requires
            self.inv(), self.state is Collection, self.fs().len() > 0, self.fs().last().obj, self.streams(), none_left(self.ns(), self.fs().last()), self.reading(b), b.state == (DeserializerState::StreamingString { is_key: true }),
            entry_start(self.rest(), self.more().0, self.c()) == Some((true, b.rest())),
        ensures b.inv(), done(self.state_w(), Op::NextEntry, Ret::Bool(true), b.state_w())
    {
        hide(unwind); hide(left); hide(fold_es); hide(fold_js); hide(items_ok); hide(folds_ok); hide(keys_ok); hide(none_left); hide(done); hide(rem_obj); hide(entry_start); hide(value); hide(str_rest); hide(after_char); hide(keyed_sem); hide(run); hide(frames);
        let ns = self.ns(); let fs = self.fs(); let n = fs.len() as int; let c = self.c(); let start = self.more().0; let u = b.rest();
        self.lemma_on_coll();
        lemma_entry_start(self.rest(), start, c);
        lemma_unwind_here(ns, fs, self.rest(), start, c);
        if str_lit(u) is Some {
            let (k, t) = str_lit(u)->0;
            if after_char(t, c, ':') is Some && value(after_char(t, c, ':')->0, c) is Some {
                let (j, v) = value(after_char(t, c, ':')->0, c)->0;
                lemma_unwind_here(ns, fs, v, false, c);
                let a = unwind(ns, fs, n, v, false, c);
                lemma_above(a, DF::Val(j)); lemma_above(above(a, DF::Val(j)), DF::Str(k));
                if rem_obj(v, false, c) is Some {
                    let (es, z) = rem_obj(v, false, c)->0; let r = unwind(ns, fs.drop_last(), n - 1, z, false, c);
                    lemma_above(r, DF::Obj(es)); lemma_above(r, DF::Obj(seq![(k, j)] + es));
                    assert(seq![(k, j)].remove(0) + es =~= es);
                    if r is Some { lemma_run_entry((self.abs()->0).0, (a->0).0, seq![(k, j)], es, k, j); }
                }
            }
        }
        assert(b.sound());
        self.lemma_done(Op::NextEntry, Ret::Bool(true), b);
    }
    /// The text is not one of JSON.
    proof fn lemma_start_failed(self, op: Op, b: Self)
        requires
            self.inv(), self.state is Collection, self.fs().len() > 0, self.marks(b), self.streams(),
            if self.fs().last().obj { none_left(self.ns(), self.fs().last()) && entry_start(self.rest(), self.more().0, self.c()) is None } else { item_start(self.rest(), self.more().0, self.c()) is None },
        ensures err(self.state_w(), op, b.state_w())
    {
        hide(unwind); hide(left); hide(fold_es); hide(fold_js); hide(items_ok); hide(folds_ok); hide(keys_ok); hide(none_left); hide(rem_obj); hide(rem_arr); hide(entry_start); hide(item_start); hide(keyed_sem);
        self.lemma_on_coll();
        lemma_entry_start(self.rest(), self.more().0, self.c()); lemma_item_start(self.rest(), self.more().0, self.c());
        lemma_unwind_here(self.ns(), self.fs(), self.rest(), self.more().0, self.c());
        assert(self.abs() is None);
        self.lemma_err(op, b);
    }
}
