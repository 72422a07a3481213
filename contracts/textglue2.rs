// Operations on values and strings.
spec fn on_str(st: DeserializerState) -> bool { st is StreamingString || st is LookbackString }
impl<Reader: TextReader> TextDeserializer<Reader> {
    /// What is on top of the stack tells the state.
    proof fn lemma_tops(self)
        ensures
            top_is(stack_of(self.fs(), self.state), Fr::Value) ==> on_value(self.state),
            top_is(stack_of(self.fs(), self.state), Fr::Str) ==> on_str(self.state),
            top_is(stack_of(self.fs(), self.state), Fr::Object) ==> self.state is Collection && self.fs().len() > 0 && self.fs().last().obj,
            top_is(stack_of(self.fs(), self.state), LIST) ==> self.state is Collection && self.fs().len() > 0 && !self.fs().last().obj,
    {
    }
    proof fn lemma_base_push(self)
        ensures on_value(self.state) ==> stack_of(self.fs(), self.state).drop_last() =~= base_of(self.fs())
    {
    }
    proof fn lemma_pop_null(self, b: Self, ok: bool)
        requires self.inv(), on_value(self.state), self.marks(b),
            ok ==> self.popped(b) && match self.state {
                DeserializerState::StreamingValue => null_lit(self.rest()) == Some(b.rest()),
                DeserializerState::LookbackValue { index, .. } => self.its()[index as int].value->0 is Null,
                DeserializerState::NullValue { .. } => true,
                _ => false,
            },
            !ok ==> match self.state {
                DeserializerState::StreamingValue => null_lit(self.rest()) is None,
                DeserializerState::LookbackValue { index, .. } => !(self.its()[index as int].value->0 is Null),
                _ => false,
            },
        ensures if ok { done(self.state_w(), Op::PopNull, Ret::Unit, b.state_w()) } else { err(self.state_w(), Op::PopNull, b.state_w()) }
    {
        hide(unwind); hide(num_lit); hide(str_lit); hide(entries); hide(items); hide(first_entry); hide(first_item); hide(total); hide(items_ok); hide(folds_ok); hide(keys_ok);
        let s = self.rest();
        self.lemma_on_value(); self.lemma_base_push();
        lemma_literals(s);
        if null_lit(s) is Some { assert(s.take(4)[0] == s[0]); }
        if ok { self.lemma_popped(Op::PopNull, Ret::Unit, b); } else { self.lemma_refused(Op::PopNull, b); }
    }
    proof fn lemma_get_bool(self, b: Self, r: Option<bool>)
        requires self.inv(), on_value(self.state), self.marks(b),
            match r {
                Some(x) => self.popped(b) && match self.state {
                    DeserializerState::StreamingValue => bool_lit(self.rest()) == Some((x, b.rest())),
                    DeserializerState::LookbackValue { index, .. } => self.its()[index as int].value->0 == LookbackValue::Bool(x),
                    _ => false,
                },
                None => match self.state {
                    DeserializerState::StreamingValue => bool_lit(self.rest()) is None,
                    DeserializerState::LookbackValue { index, .. } => !(self.its()[index as int].value->0 is Bool),
                    DeserializerState::NullValue { .. } => true,
                    _ => false,
                }
            }
        ensures match r { Some(x) => done(self.state_w(), Op::GetBool, Ret::Bool(x), b.state_w()), None => err(self.state_w(), Op::GetBool, b.state_w()) }
    {
        hide(unwind); hide(num_lit); hide(str_lit); hide(entries); hide(items); hide(first_entry); hide(first_item); hide(total); hide(items_ok); hide(folds_ok); hide(keys_ok);
        let s = self.rest();
        self.lemma_on_value(); self.lemma_base_push();
        lemma_literals(s);
        if bool_lit(s) is Some { assert(s.len() > 0 && (s[0] == 't' || s[0] == 'f')); assert(!is_digit(s[0])); }
        match r { Some(x) => { self.lemma_popped(Op::GetBool, Ret::Bool(x), b); } None => { self.lemma_refused(Op::GetBool, b); } }
    }
    /// A number is on top: the literal.
    spec fn num_top(self) -> Option<NumLit> {
        match self.state {
            DeserializerState::StreamingValue => match num_lit(self.rest()) { Some((n, _)) => Some(n), None => None },
            DeserializerState::LookbackValue { index, .. } => if self.its()[index as int].value->0 is Number { Some(self.ns()[index as int].tree->Num_0) } else { None },
            _ => None,
        }
    }
    spec fn num_result(self, b: Self, op: Op, ret: Option<Ret>) -> bool {
        match ret {
            Some(x) => self.popped(b) && self.num_top() is Some && (self.state is StreamingValue ==> b.rest() == (num_lit(self.rest())->0).1) && forall|p: Sem| #[trigger] run_val(p, J::Num(self.num_top()->0), op) == Some((x, p)),
            None => self.num_top() is Some ==> forall|p: Sem| #[trigger] run_val(p, J::Num(self.num_top()->0), op) is None,
        }
    }
    proof fn lemma_get_num(self, b: Self, op: Op, r: Option<Ret>)
        requires self.inv(), on_value(self.state), self.marks(b), op is GetInt || op is GetF32 || op is GetF64, self.num_result(b, op, r)
        ensures match r { Some(x) => done(self.state_w(), op, x, b.state_w()), None => err(self.state_w(), op, b.state_w()) }
    {
        hide(unwind); hide(num_lit); hide(str_lit); hide(entries); hide(items); hide(first_entry); hide(first_item); hide(total); hide(items_ok); hide(folds_ok); hide(keys_ok);
        let s = self.rest();
        self.lemma_on_value(); self.lemma_base_push();
        lemma_num_head(s);
        match r { Some(x) => { self.lemma_popped(op, x, b); } None => { self.lemma_refused(op, b); } }
    }
}
/// A number starts with a digit or a sign.
proof fn lemma_num_head(s: Seq<char>)
    ensures num_lit(s) is Some ==> s.len() > 0 && (s[0] == '-' || is_digit(s[0])) && s[0] != '"'
{
}

// ---- strings ----
/// The first character of a string literal.
spec fn char_in(s: Seq<char>, t: Seq<char>, ch: char) -> bool {
    s.len() > 0 && s[0] != '"' && if s[0] == '\\' { escape(s.drop_first()) == Some((ch, t)) } else { ch == s[0] && t == s.drop_first() }
}
proof fn lemma_next_in(s: Seq<char>, t: Seq<char>, ch: char)
    requires char_in(s, t, ch)
    ensures t.len() < s.len(), match str_lit(t) { None => str_lit(s) is None, Some((cs, u)) => str_lit(s) == Some((seq![ch] + cs, u)) }
{
    lemma_escape_len(s.drop_first());
    lemma_str_shift(seq![ch], Seq::empty(), t);
    assert(seq![ch] + Seq::<char>::empty() =~= seq![ch]);
    assert(Seq::<char>::empty().push(ch) =~= seq![ch]);
}
proof fn lemma_str_end(s: Seq<char>)
    ensures
        s.len() > 0 && s[0] == '"' ==> str_lit(s) == Some((Seq::<char>::empty(), s.drop_first())),
        s.len() == 0 || s[0] == '\\' && escape(s.drop_first()) is None ==> str_lit(s) is None,
{
}
proof fn lemma_colon(s: Seq<char>, c: bool)
    ensures
        after_colon(s, c) is None ==> after_char(s, c, ':') is None || value(after_char(s, c, ':')->0, c) is None,
        after_colon(s, c) is Some ==> after_char(s, c, ':') is Some && value(after_char(s, c, ':')->0, c) == value_here(after_colon(s, c)->0, c) && (after_colon(s, c)->0).len() <= s.len(),
{
    lemma_ws_len(s, c);
    if after_char(s, c, ':') is Some { lemma_ws_len(after_char(s, c, ':')->0, c); }
}
proof fn lemma_run_char(p: Sem, cs: Seq<char>, ch: char)
    ensures run(p.push(DF::Str(seq![ch] + cs)), Op::NextChar) == Some((Ret::MaybeChar(Some(ch)), p.push(DF::Str(cs)))), run(p.push(DF::Str(Seq::empty())), Op::NextChar) == Some((Ret::MaybeChar(None), p))
{
    assert(p.push(DF::Str(seq![ch] + cs)).drop_last() =~= p);
    assert(p.push(DF::Str(Seq::empty())).drop_last() =~= p);
    assert((seq![ch] + cs).drop_first() =~= cs);
}
impl<Reader: TextReader> TextDeserializer<Reader> {
    /// The reader moved on, nothing else.
    spec fn moved(&self, b: Self) -> bool { self.kept(b) && self.same_outline(b) }
    proof fn lemma_char_text(self, b: Self, ch: char)
        requires self.inv(), self.state is StreamingString, self.moved(b), b.state == self.state, char_in(self.rest(), b.rest(), ch)
        ensures done(self.state_w(), Op::NextChar, Ret::MaybeChar(Some(ch)), b.state_w())
    {
        hide(unwind); hide(entries); hide(items); hide(total); hide(items_ok); hide(folds_ok); hide(keys_ok); hide(run); hide(str_rest); hide(value); hide(after_char); hide(escape); hide(keyed_sem); hide(frames); hide(char_in); hide(done);
        let ns = self.ns(); let fs = self.fs(); let c = self.c(); let n = fs.len() as int;
        lemma_next_in(self.rest(), b.rest(), ch);
        if str_lit(b.rest()) is Some {
            let (cs, t) = str_lit(b.rest())->0; let v = unwind(ns, fs, n, t, false, c);
            if self.state->StreamingString_is_key {
                if after_char(t, c, ':') is Some && value(after_char(t, c, ':')->0, c) is Some {
                    let (j, z) = value(after_char(t, c, ':')->0, c)->0; let u = unwind(ns, fs, n, z, false, c);
                    if u is Some { lemma_run_char((above(u, DF::Val(j))->0).0, cs, ch); }
                }
            } else if v is Some { lemma_run_char((v->0).0, cs, ch); }
        }
        assert(b.sound());
        self.lemma_done(Op::NextChar, Ret::MaybeChar(Some(ch)), b);
    }
    proof fn lemma_str_done(self, b: Self)
        requires self.inv(), self.state is StreamingString, self.moved(b), self.rest().len() > 0, self.rest()[0] == '"',
            if self.state->StreamingString_is_key { b.state is StreamingValue && after_colon(self.rest().drop_first(), self.c()) == Some(b.rest()) } else { b.state == coll(false, depth_of(self.stk().len() as int)) && b.rest() == self.rest().drop_first() },
        ensures done(self.state_w(), Op::NextChar, Ret::MaybeChar(None), b.state_w())
    {
        hide(unwind); hide(entries); hide(items); hide(total); hide(items_ok); hide(keys_ok); hide(run); hide(str_rest); hide(value); hide(value_here); hide(after_char); hide(after_colon); hide(keyed_sem); hide(frames); hide(done); hide(fold_ok);
        let ns = self.ns(); let fs = self.fs(); let c = self.c(); let n = fs.len() as int;
        let s = self.rest().drop_first();
        lemma_str_end(self.rest()); lemma_colon(s, c);
        if self.state->StreamingString_is_key {
            let t = b.rest();
            if value_here(t, c) is Some { let (j, z) = value_here(t, c)->0; let u = unwind(ns, fs, n, z, false, c); if u is Some { lemma_run_char((above(u, DF::Val(j))->0).0, Seq::empty(), 'x'); } }
        } else {
            let u = unwind(ns, fs, n, s, false, c);
            if u is Some { lemma_run_char((u->0).0, Seq::empty(), 'x'); }
        }
        assert(b.sound());
        self.lemma_done(Op::NextChar, Ret::MaybeChar(None), b);
    }
    proof fn lemma_str_failed(self, b: Self)
        requires self.inv(), self.state is StreamingString, self.marks(b),
            self.rest().len() == 0 || self.rest()[0] == '\\' && escape(self.rest().drop_first()) is None || self.state->StreamingString_is_key && self.rest()[0] == '"' && after_colon(self.rest().drop_first(), self.c()) is None,
        ensures err(self.state_w(), Op::NextChar, b.state_w())
    {
        hide(unwind); hide(entries); hide(items); hide(items_ok); hide(folds_ok); hide(keys_ok); hide(run); hide(str_lit); hide(value); hide(value_here); hide(after_char); hide(after_colon); hide(escape);
        lemma_str_end(self.rest());
        if self.rest().len() > 0 { lemma_colon(self.rest().drop_first(), self.c()); }
        assert(self.abs() is None);
        self.lemma_err(Op::NextChar, b);
    }
    /// A character of a string in the buffer.
    proof fn lemma_char_kept(self, b: Self, ch: char)
        requires self.inv(), self.state is LookbackString, self.moved(b), b.rest() == self.rest(), self.head().len() > 0, ch == self.head()[0], b.str_pre(), b.state is LookbackString, b.head() == self.head().drop_first(),
            b.state->LookbackString_value_index == self.state->LookbackString_value_index, b.state->LookbackString_streaming_depth == self.state->LookbackString_streaming_depth,
        ensures done(self.state_w(), Op::NextChar, Ret::MaybeChar(Some(ch)), b.state_w())
    {
        hide(unwind); hide(entries); hide(items); hide(total); hide(items_ok); hide(folds_ok); hide(keys_ok); hide(run); hide(keyed_sem); hide(frames); hide(done);
        let ns = self.ns(); let fs = self.fs(); let c = self.c();
        let u = unwind(ns, fs, sdn(self.state->LookbackString_streaming_depth), self.rest(), false, c);
        let cs = b.head();
        assert(self.head() =~= seq![ch] + cs);
        if u is Some {
            match self.state->LookbackString_value_index { Some(i) => { lemma_run_char((above(u, DF::Val(ns[i as int].tree))->0).0, cs, ch); } None => { lemma_run_char((u->0).0, cs, ch); } }
        }
        assert(b.sound());
        self.lemma_done(Op::NextChar, Ret::MaybeChar(Some(ch)), b);
    }
    proof fn lemma_kept_done(self, b: Self)
        requires self.inv(), self.state is LookbackString, self.moved(b), b.rest() == self.rest(), self.head().len() == 0,
            b.state == (match self.state->LookbackString_value_index { Some(index) => DeserializerState::LookbackValue { index, streaming_depth: self.state->LookbackString_streaming_depth }, None => coll(false, self.state->LookbackString_streaming_depth) }),
        ensures done(self.state_w(), Op::NextChar, Ret::MaybeChar(None), b.state_w())
    {
        hide(unwind); hide(entries); hide(items); hide(total); hide(items_ok); hide(folds_ok); hide(keys_ok); hide(run); hide(keyed_sem); hide(frames); hide(done);
        let ns = self.ns(); let fs = self.fs(); let c = self.c();
        let u = unwind(ns, fs, sdn(self.state->LookbackString_streaming_depth), self.rest(), false, c);
        assert(self.head() =~= Seq::empty());
        if u is Some {
            match self.state->LookbackString_value_index { Some(i) => { lemma_run_char((above(u, DF::Val(ns[i as int].tree))->0).0, Seq::empty(), 'x'); } None => { lemma_run_char((u->0).0, Seq::empty(), 'x'); } }
        }
        assert(b.sound());
        self.lemma_done(Op::NextChar, Ret::MaybeChar(None), b);
    }
    proof fn lemma_open_str(self, b: Self, ok: bool)
        requires self.inv(), on_value(self.state), self.marks(b),
            ok ==> self.kept(b) && b.stk() == self.stk() && b.keys() == self.keys() && match self.state {
                DeserializerState::StreamingValue => self.rest().len() > 0 && self.rest()[0] == '"' && b.rest() == self.rest().drop_first() && b.its() == self.its() && b.state == (DeserializerState::StreamingString { is_key: false }),
                DeserializerState::LookbackValue { index, streaming_depth } => self.its()[index as int].value->0 is String && b.rest() == self.rest() && b.its() == taken(self.its(), index as int)
                    && match b.state {
                        DeserializerState::LookbackString { head_index, end_index, value_index, streaming_depth: sd } => head_index <= end_index <= self.data().len() && value_index is None && sd == streaming_depth
                            && self.data().subrange(head_index as int, end_index as int) == value_bytes(self.its(), self.data(), index as int),
                        _ => false,
                    },
                _ => false,
            },
            !ok ==> match self.state {
                DeserializerState::StreamingValue => !(self.rest().len() > 0 && self.rest()[0] == '"'),
                DeserializerState::LookbackValue { index, .. } => !(self.its()[index as int].value->0 is String),
                DeserializerState::NullValue { .. } => true,
                _ => false,
            },
        ensures if ok { done(self.state_w(), Op::OpenStr, Ret::Unit, b.state_w()) } else { err(self.state_w(), Op::OpenStr, b.state_w()) }
    {
        hide(unwind); hide(entries); hide(items); hide(total); hide(items_ok); hide(folds_ok); hide(keys_ok); hide(keyed_sem); hide(frames); hide(done); hide(first_entry); hide(first_item); hide(str_rest); hide(num_lit);
        let ns = self.ns(); let fs = self.fs(); let c = self.c(); let n = fs.len() as int; let s = self.rest();
        self.lemma_on_value();
        if !ok { self.lemma_refused(Op::OpenStr, b); }
        else {
            if self.state is LookbackValue {
                let i = self.state->LookbackValue_index as int; let cs = ns[i].tree->Str_0;
                encode_utf8_valid_utf8(cs); encode_utf8_decode_utf8(cs);
                lemma_items_taken(ns, self.its(), self.data(), self.data().len() as int, fs, self.stk(), self.nb(), i);
                let u = unwind(ns, fs, sdn(self.state->LookbackValue_streaming_depth), s, false, c);
                lemma_above(u, DF::Val(J::Str(cs))); lemma_above(u, DF::Str(cs));
                assert(b.head() == cs);
            } else if str_lit(s.drop_first()) is Some {
                let (cs, t) = str_lit(s.drop_first())->0; let u = unwind(ns, fs, n, t, false, c);
                lemma_above(u, DF::Val(J::Str(cs))); lemma_above(u, DF::Str(cs));
            }
            assert(b.sound());
            self.lemma_done(Op::OpenStr, Ret::Unit, b);
        }
    }
    proof fn lemma_push_null(self, b: Self)
        requires self.inv(), self.state is Collection, self.fs().len() > 0, self.moved(b), b.rest() == self.rest(), b.state is NullValue, b.state->NullValue_at_start == self.more().0, b.state->NullValue_streaming_depth == self.more().1
        ensures done(self.state_w(), Op::PushNull, Ret::Unit, b.state_w())
    {
        hide(total); hide(items_ok); hide(folds_ok); hide(keys_ok); hide(keyed_sem); hide(frames); hide(done); hide(unwind);
        let s = (self.abs()->0).0;
        let u = unwind(self.ns(), self.fs(), sdn(self.more().1), self.rest(), at_first(self.more().0, self.more().1, self.fs().len() as int), self.c());
        lemma_above(u, DF::Missing);
        if self.abs() is Some { self.lemma_fit(); lemma_unwind_len(self.ns(), self.fs(), sdn(self.more().1), self.rest(), at_first(self.more().0, self.more().1, self.fs().len() as int), self.c()); lemma_run_null(s, self.fs().last().obj, self.fs()); }
        assert(b.sound());
        self.lemma_done(Op::PushNull, Ret::Unit, b);
    }
}
proof fn lemma_run_null(s: Sem, obj: bool, fs: Seq<Fold>)
    requires s.len() == fs.len(), fs.len() > 0, frames(s) =~= base_of(fs)
    ensures run(s, Op::PushNull) is Some, (run(s, Op::PushNull)->0).0 == Ret::Unit, (run(s, Op::PushNull)->0).1 =~= s.push(DF::Missing)
{
    assert(frames(s)[s.len() - 1] == base_of(fs)[fs.len() - 1]);
    assert(s =~= s.drop_last().push(s.last()));
}
// ---- try_push_entry ----
proof fn lemma_run_try(p: Sem, q: Sem, es: Es, e: Es, m: int, k: Seq<char>, j: J)
    requires p.len() > 0, p.last() == DF::Obj(es + e), 0 <= m < es.len(), es[m] == (k, j), q.len() > 0, q.drop_last() =~= p.drop_last(), q.last() == DF::Obj(es.remove(m) + e), keyed_entries(es + e)
    ensures run(p, Op::TryPushEntry(k)) is Some, (run(p, Op::TryPushEntry(k))->0).0 == Ret::Bool(true), (run(p, Op::TryPushEntry(k))->0).1 =~= q.push(DF::Val(j))
{
    lemma_keyed_remove(es + e, m);
    assert((es + e)[m] == es[m]);
    assert((es + e).remove(m) =~= es.remove(m) + e);
    assert(q =~= p.drop_last().push(q.last()));
}
proof fn lemma_run_found(p: Sem, q: Sem, es: Es, e1: Es, e: Es, k: Seq<char>, j: J)
    requires p.len() > 0, p.last() == DF::Obj(es), es =~= e1 + (seq![(k, j)] + e), at_key(e1, k) is None, q.len() > 0, q.drop_last() =~= p.drop_last(), q.last() == DF::Obj(e1 + e)
    ensures run(p, Op::TryPushEntry(k)) is Some, (run(p, Op::TryPushEntry(k))->0).0 == Ret::Bool(true), (run(p, Op::TryPushEntry(k))->0).1 =~= q.push(DF::Val(j))
{
    let m = e1.len() as int;
    lemma_at_key(e1, k);
    assert(es[m] == (k, j));
    assert forall|i: int| 0 <= i < m implies (#[trigger] es[i]).0 != k by { assert(es[i] == e1[i]); }
    lemma_is_first(es, k, m);
    assert(es.remove(m) =~= e1 + e);
    assert(q =~= p.drop_last().push(q.last()));
}
proof fn lemma_run_none(p: Sem, es: Es, k: Seq<char>)
    requires p.len() > 0, p.last() == DF::Obj(es), at_key(es, k) is None
    ensures run(p, Op::TryPushEntry(k)) is Some, (run(p, Op::TryPushEntry(k))->0).0 == Ret::Bool(false), (run(p, Op::TryPushEntry(k))->0).1 =~= p
{
    assert(p =~= p.drop_last().push(p.last()));
}
proof fn lemma_unwind_obj(ns: Nodes, fs: Seq<Fold>, s: Seq<char>, start: bool, c: bool)
    requires fs.len() > 0, fs.last().obj
    ensures unwind(ns, fs, fs.len() as int, s, start, c) == match rem_obj(s, start, c) { None => None, Some((es, t)) => above(unwind(ns, fs.drop_last(), fs.len() - 1, t, false, c), DF::Obj(fold_es(ns, fs.last()) + es)) }
{
}
proof fn lemma_unwind_kept(ns: Nodes, fs: Seq<Fold>, sd: int, s: Seq<char>, start: bool, c: bool)
    requires fs.len() > sd, fs.len() > 0, fs.last().obj
    ensures unwind(ns, fs, sd, s, start, c) == above(unwind(ns, fs.drop_last(), sd, s, start, c), DF::Obj(fold_es(ns, fs.last())))
{
}
impl<Reader: TextReader> TextDeserializer<Reader> {
    spec fn on_obj(self) -> bool { self.inv() && self.state is Collection && self.fs().len() > 0 && self.fs().last().obj }
    proof fn lemma_try_pre(self)
        requires self.on_obj()
        ensures self.try_pre()
    {
        hide(items_ok); hide(folds_ok); hide(keys_ok); hide(total); hide(abs_of); hide(keyed_sem);
        self.lemma_on_coll();
    }
    /// The entry was in the buffer.
    proof fn lemma_try_kept(self, key: Seq<char>, b: Self)
        requires self.on_obj(), self.marks(b), self.tried(key, b, true), b.state is LookbackValue
        ensures done(self.state_w(), Op::TryPushEntry(key), Ret::Bool(true), b.state_w())
    {
        hide(unwind); hide(left); hide(fold_es); hide(fold_js); hide(items_ok); hide(folds_ok); hide(keys_ok); hide(total); hide(run); hide(item_ok); hide(done); hide(frames); hide(data_fits);
        let ns = self.ns(); let fs = self.fs(); let n = fs.len() as int; let c = self.c(); let s = self.rest(); let f = fs.last(); let i = b.state->LookbackValue_index as int; let ms = gone(ns, i); let r = b.fs().last().read; let gs = read_to(fs, r);
        let sd = sdn(self.more().1);
        self.lemma_on_coll();
        assert(!at_first(self.more().0, self.more().1, n));
        lemma_total_gone(ns, i);
        let m = lemma_handed(ns, self.its(), self.data(), fs, self.stk(), self.nb(), i, r);
        let e = lemma_unwind_top(ns, ms, fs, gs, sd, s, false, c);
        let u = unwind(ms, gs, sd, s, false, c);
        lemma_above(u, DF::Val(ns[i].tree));
        assert(self.abs() == unwind(ns, fs, sd, s, false, c));
        assert(b.abs() == above(u, DF::Val(ns[i].tree)));
        if self.abs() is Some && !self.bad() {
            let p = (self.abs()->0).0; let q = (u->0).0;
            assert(keyed_df(p[p.len() - 1]));
            lemma_run_try(p, q, fold_es(ns, f), e.0, m, key, ns[i].tree);
        }
        assert(base_of(b.fs()) =~= base_of(fs));
        assert(b.sound()) by { reveal(data_fits); }
        self.lemma_done(Op::TryPushEntry(key), Ret::Bool(true), b);
    }
    /// The entry is in the text.
    proof fn lemma_try_text(self, key: Seq<char>, b: Self)
        requires self.on_obj(), self.marks(b), self.tried(key, b, true), b.state is StreamingValue
        ensures done(self.state_w(), Op::TryPushEntry(key), Ret::Bool(true), b.state_w())
    {
        hide(unwind); hide(left); hide(fold_es); hide(fold_js); hide(items_ok); hide(folds_ok); hide(keys_ok); hide(total); hide(run); hide(item_ok); hide(done); hide(frames); hide(rem_obj); hide(value_here);
        let ns = self.ns(); let fs = self.fs(); let n = fs.len() as int; let c = self.c(); let s = self.rest(); let ms = b.ns(); let gs = b.fs(); let op = Op::TryPushEntry(key); let start = self.more().0;
        let e0 = fold_es(ns, fs.last()); let e1 = fold_es(ms, gs.last());
        self.lemma_on_coll();
        assert(below_same(ns, ms, fs, gs, n - 1));
        assert(gs.last() == gs[n - 1] && fs.last() == fs[n - 1]);
        lemma_unwind_obj(ns, fs, s, start, c);
        assert(self.abs() == unwind(ns, fs, n, s, start, c));
        if value_here(b.rest(), c) is Some {
            let (j, t) = value_here(b.rest(), c)->0;
            let u = unwind(ms, gs, n, t, false, c);
            lemma_unwind_obj(ms, gs, t, false, c);
            lemma_above(u, DF::Val(j));
            assert(b.abs() == above(u, DF::Val(j)));
            if rem_obj(t, false, c) is Some {
                let (es, z) = rem_obj(t, false, c)->0; let x = (rem_obj(s, start, c)->0).0;
                lemma_below(ns, ms, fs, gs, n - 1, z, false, c);
                let l = unwind(ns, fs.drop_last(), n - 1, z, false, c);
                lemma_above(l, DF::Obj(e1 + es)); lemma_above(l, DF::Obj(e0 + x));
                if l is Some { lemma_run_found((self.abs()->0).0, (u->0).0, e0 + x, e1, es, key, j); }
            }
        }
        assert(base_of(gs) =~= base_of(fs)) by { assert forall|d: int| 0 <= d < n implies gs[d].obj == #[trigger] fs[d].obj by {} }
        assert(b.sound());
        self.lemma_done(op, Ret::Bool(true), b);
    }
    /// There is no such entry.
    proof fn lemma_try_none(self, key: Seq<char>, b: Self)
        requires self.on_obj(), self.marks(b), self.tried(key, b, false)
        ensures done(self.state_w(), Op::TryPushEntry(key), Ret::Bool(false), b.state_w())
    {
        hide(unwind); hide(left); hide(fold_es); hide(fold_js); hide(items_ok); hide(folds_ok); hide(keys_ok); hide(total); hide(run); hide(item_ok); hide(done); hide(frames); hide(rem_obj);
        let ns = self.ns(); let fs = self.fs(); let n = fs.len() as int; let c = self.c(); let s = self.rest(); let ms = b.ns(); let gs = b.fs(); let op = Op::TryPushEntry(key); let start = self.more().0;
        let e0 = fold_es(ns, fs.last()); let e1 = fold_es(ms, gs.last());
        let sd = sdn(self.more().1); let sd2 = sdn(b.state->Collection_streaming_depth);
        self.lemma_on_coll();
        assert(below_same(ns, ms, fs, gs, n - 1));
        assert(gs.last() == gs[n - 1] && fs.last() == fs[n - 1]);
        assert(sd2 < n);
        assert(b.abs() == unwind(ms, gs, sd2, b.rest(), false, c));
        lemma_unwind_kept(ms, gs, sd2, b.rest(), false, c);
        lemma_below(ns, ms, fs, gs, sd2, b.rest(), false, c);
        if self.streams() {
            lemma_unwind_obj(ns, fs, s, start, c);
            assert(self.abs() == unwind(ns, fs, n, s, start, c));
            if rem_obj(s, start, c) is Some { assert(e0 + (rem_obj(s, start, c)->0).0 =~= e1 + Es::empty()); assert(e1 + Es::empty() =~= e1); }
        } else {
            lemma_unwind_kept(ns, fs, sd, s, false, c);
            assert(self.abs() == unwind(ns, fs, sd, s, false, c));
        }
        lemma_above(unwind(ns, fs.drop_last(), sd2, b.rest(), false, c), DF::Obj(e1));
        assert(self.abs() == b.abs());
        if self.abs() is Some { lemma_run_none((self.abs()->0).0, e1, key); }
        assert(base_of(gs) =~= base_of(fs)) by { assert forall|d: int| 0 <= d < n implies gs[d].obj == #[trigger] fs[d].obj by {} }
        assert(b.sound());
        self.lemma_done(op, Ret::Bool(false), b);
    }
    proof fn lemma_try(self, key: Seq<char>, b: Self, r: Option<bool>)
        requires self.on_obj(), self.marks(b), match r { Some(x) => self.tried(key, b, x), None => self.streams() && self.left_here() is None }
        ensures match r { Some(x) => done(self.state_w(), Op::TryPushEntry(key), Ret::Bool(x), b.state_w()), None => err(self.state_w(), Op::TryPushEntry(key), b.state_w()) }
    {
        hide(done); hide(items_ok); hide(folds_ok); hide(keys_ok); hide(run); hide(rem_obj);
        match r {
            Some(true) => { if b.state is LookbackValue { self.lemma_try_kept(key, b); } else { self.lemma_try_text(key, b); } }
            Some(false) => { self.lemma_try_none(key, b); }
            None => { self.lemma_on_coll(); lemma_unwind_obj(self.ns(), self.fs(), self.rest(), self.more().0, self.c()); assert(self.abs() is None); self.lemma_err(Op::TryPushEntry(key), b); }
        }
    }
}
