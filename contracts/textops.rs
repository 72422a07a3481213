// The operations of a TextDeserializer, as the API has them: each is the real one (raw_..., proved in unit textraw) with the ghost state brought up to date.
impl<Reader: TextReader> TextDeserializer<Reader> {
    spec fn tops(self, f: Fr) -> bool { !self.state_w().failed && top_is(self.state_w().stack, f) }
    /*@in textde*/ proof fn lemma_top_value(self)
        requires self.tops(Fr::Value)
        ensures self.inv(), on_value(self.state), self.value_pre(),
            self.state is LookbackValue ==> null_bytes(self) && ({ let i = self.state->LookbackValue_index as int; 0 <= i < self.its().len() && self.its()[i].value is Some && shape(self.its()[i].value->0, self.ns()[i].tree, value_bytes(self.its(), self.data(), i)) }),
    {
        hide(TextDeserializer::inv); hide(shape);
        self.lemma_tops(); self.lemma_on_value();
    }
    /*@in textde*/ proof fn lemma_top_str(self)
        requires self.tops(Fr::Str)
        ensures self.inv(), on_str(self.state), self.str_pre()
    {
        self.lemma_tops();
    }
    /*@in textde*/ proof fn lemma_top_coll(self)
        requires self.tops(Fr::Object) || self.tops(LIST)
        ensures self.inv(), self.state is Collection, self.fs().len() > 0, self.tops(Fr::Object) <==> self.fs().last().obj, self.fs().last().obj ==> self.on_obj(), self.fs().len() == self.stk().len(),
            self.stk().last().collection_type is Object <==> self.fs().last().obj,
    {
        self.lemma_tops();
        assert(fold_ok(self.ns(), self.its(), self.fs(), self.stk(), self.fs().len() - 1, self.nb()));
    }
    /*@in textde*/ proof fn lemma_opening_pre(self)
        requires self.tops(Fr::Value)
        ensures self.state is LookbackValue ==> table_ok(self.keys(), self.its(), self.data()), self.state is StreamingValue ==> table_ok(self.keys(), self.its(), self.data()), self.state is NullValue ==> table_ok(self.keys(), self.its(), self.data()),
            self.state is LookbackValue ==> self.its()[self.state->LookbackValue_index as int].value->0 is Object ==> self.opening(self.state->LookbackValue_index as int),
    {
        hide(items_ok); hide(folds_ok); hide(keys_ok); hide(abs_of); hide(unwind); hide(total); hide(item_ok); hide(TextDeserializer::opening); hide(table_ok); hide(taken);
        self.lemma_top_value();
        if self.state is LookbackValue {
            let x = self.state->LookbackValue_index as int;
            lemma_items_taken(self.ns(), self.its(), self.data(), self.data().len() as int, self.fs(), self.stk(), self.nb(), x);
            lemma_table(self.ns(), taken(self.its(), x), self.data(), self.fs(), self.stk(), self.keys(), self.nb());
            lemma_table_taken(self.keys(), self.its(), self.data(), x);
            if self.its()[x].value->0 is Object { self.lemma_opening(); }
        } else { lemma_table(self.ns(), self.its(), self.data(), self.fs(), self.stk(), self.keys(), self.nb()); }
    }
    /*@in textde*/ proof fn lemma_open_refused(self, op: Op, obj: bool, b: Self)
        requires self.tops(Fr::Value), self.marks(b), op == if obj { Op::OpenObject } else { Op::OpenList },
            match self.state {
                DeserializerState::StreamingValue => !(self.rest().len() > 0 && self.rest()[0] == (if obj { '{' } else { '[' })),
                DeserializerState::LookbackValue { index, .. } => if obj { !(self.its()[index as int].value->0 is Object) } else { !(self.its()[index as int].value->0 is Array) },
                DeserializerState::NullValue { .. } => true,
                _ => false,
            }
        ensures err(self.state_w(), op, b.state_w())
    {
        hide(TextDeserializer::inv); hide(unwind); hide(total); hide(rem_obj); hide(rem_arr); hide(value_here); hide(err);
        self.lemma_top_value();
        lemma_opens(self.rest(), self.c());
        self.lemma_refused(op, b);
    }
    /// What is on top is told by how it starts.
    /*@in textde*/ proof fn lemma_peek(self)
        requires self.tops(Fr::Value)
        ensures !self.bad() ==> ({ let d = value_type(self.state_w().sem.last()); match self.state {
            DeserializerState::StreamingValue => self.rest().len() > 0 && d == (match self.rest()[0] { '"' => ValueType::String, '{' => ValueType::Object, '[' => ValueType::Array, 't' => ValueType::Bool, 'f' => ValueType::Bool, 'n' => ValueType::Null, _ => ValueType::Number }) && (d == ValueType::Number <==> self.rest()[0] == '-' || '0' <= self.rest()[0] <= '9'),
            DeserializerState::LookbackValue { index, .. } => d == (match self.its()[index as int].value->0 { LookbackValue::String => ValueType::String, LookbackValue::Number { .. } => ValueType::Number, LookbackValue::Object { .. } => ValueType::Object, LookbackValue::Array { .. } => ValueType::Array, LookbackValue::Bool(_) => ValueType::Bool, LookbackValue::Null => ValueType::Null }),
            DeserializerState::NullValue { .. } => d == ValueType::Null,
            _ => false } })
    {
        hide(unwind); hide(total); hide(rem_obj); hide(rem_arr); hide(num_lit); hide(str_lit); hide(entries); hide(items); hide(first_entry); hide(first_item); hide(items_ok); hide(folds_ok); hide(keys_ok); hide(keyed_sem);
        let s = self.rest();
        self.lemma_top_value(); self.lemma_on_value();
        lemma_literals(s); lemma_num_head(s); lemma_opens(s, self.c());
        if null_lit(s) is Some { assert(s.take(4)[0] == s[0]); }
        if bool_lit(s) is Some { assert(s.len() > 0 && (s[0] == 't' || s[0] == 'f')); }
    }
    /*@in textde*/ proof fn lemma_coll_type(self)
        requires self.tops(Fr::Object) || self.tops(LIST)
        ensures self.stk().len() > 0, self.stk().last().collection_type == if self.state_w().stack.last() is Object { CollectionType::Object } else { CollectionType::Array }
    {
        self.lemma_top_coll();
    }
    /// The next character was read.
    /*@in textde*/ proof fn lemma_next_char(self, b: Self, r: Option<Option<char>>)
        requires self.tops(Fr::Str), self.marks(b),
        match r {
            Some(x) => self.moved(b) && match self.state {
                DeserializerState::StreamingString { is_key } => self.rest().len() > 0 && match x {
                    Some(ch) => b.state == self.state && char_in(self.rest(), b.rest(), ch),
                    None => self.rest()[0] == '"' && if is_key { b.state is StreamingValue && after_colon(self.rest().drop_first(), self.c()) == Some(b.rest()) }
                        else { b.state == coll(false, depth_of(self.stk().len() as int)) && b.rest() == self.rest().drop_first() },
                },
                DeserializerState::LookbackString { head_index, end_index, value_index, streaming_depth } => b.rest() == self.rest() && match x {
                    Some(ch) => self.head().len() > 0 && ch == self.head()[0] && match b.state {
                        DeserializerState::LookbackString { head_index: h, end_index: e, value_index: v, streaming_depth: d } => e == end_index && v == value_index && d == streaming_depth && b.str_pre()
                            && b.head() == self.head().drop_first(),
                        _ => false,
                    },
                    None => self.head().len() == 0 && b.state == (match value_index { Some(index) => DeserializerState::LookbackValue { index, streaming_depth }, None => coll(false, streaming_depth) }),
                },
                _ => false,
            },
            None => match self.state {
                DeserializerState::StreamingString { is_key } => self.rest().len() == 0 || self.rest()[0] == '\\' && escape(self.rest().drop_first()) is None
                    || is_key && self.rest()[0] == '"' && after_colon(self.rest().drop_first(), self.c()) is None,
                _ => false,
            }
        }
        ensures match r { Some(x) => done(self.state_w(), Op::NextChar, Ret::MaybeChar(x), b.state_w()), None => err(self.state_w(), Op::NextChar, b.state_w()) }
    {
        hide(done); hide(err); hide(TextDeserializer::inv); hide(TextDeserializer::state_w); hide(char_in); hide(after_colon); hide(escape); hide(TextDeserializer::tops);
        self.lemma_top_str();
        match r {
            Some(Some(ch)) => { if self.state is StreamingString { self.lemma_char_text(b, ch); } else { self.lemma_char_kept(b, ch); } }
            Some(None) => { if self.state is StreamingString { self.lemma_str_done(b); } else { self.lemma_kept_done(b); } }
            None => { self.lemma_str_failed(b); }
        }
    }
}
/// A key whose item is asked for: taking the value of an item changes nothing.
/*@in textde*/ proof fn lemma_table_taken<P>(keys: Keys, its: Items<P>, data: Seq<u8>, x: int)
    requires table_ok(keys, taken(its, x), data), 0 <= x < its.len()
    ensures table_ok(keys, its, data)
{
    assert forall|d: int, i: int| #![trigger keys.dom().contains((d, i))] keys.dom().contains((d, i)) implies 0 <= i < its.len() && kend(its[i]) <= data.len() && keys[(d, i)] == hash_of(d, data.subrange(its[i].data_index as int, kend(its[i]))) by {
        assert(taken(its, x)[i].data_index == its[i].data_index && kend(taken(its, x)[i]) == kend(its[i]));
    }
}
impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
    type Error = DeserializeError<Reader::Position>;
    spec fn w(&self) -> W { self.state_w() }
    /*@in textop*/ fn pop_null(&mut self) -> (r: Result<(), Self::Error>)
    {
        hide(done); hide(err); hide(frames); hide(TextDeserializer::inv); hide(TextDeserializer::popped); hide(TextDeserializer::abs); hide(TextDeserializer::fuel);
        let ghost a = *self;
        proof { a.lemma_top_value(); }
        let r = self.raw_pop_null();
        proof { a.lemma_pop_null(*self, r is Ok); }
        r
    }
    /*@in textop*/ fn open_str(&mut self) -> (r: Result<(), Self::Error>)
    {
        hide(done); hide(err); hide(frames); hide(TextDeserializer::inv); hide(TextDeserializer::popped); hide(TextDeserializer::abs); hide(TextDeserializer::fuel);
        let ghost a = *self;
        proof { a.lemma_top_value(); }
        let r = self.raw_open_str();
        proof { a.lemma_open_str(*self, r is Ok); }
        r
    }
}
impl<Reader: TextReader> JsonOutliner for TextDeserializer<Reader> {
    /*@in textop*/ fn open_object(&mut self) -> (r: Result<(), Self::Error>)
    {
        hide(done); hide(err); hide(frames); hide(TextDeserializer::inv); hide(TextDeserializer::abs); hide(TextDeserializer::fuel); hide(table_ok); hide(TextDeserializer::opening); hide(TextDeserializer::tops); hide(shape);
        let ghost a = *self;
        proof { assert(a.tops(Fr::Value)) by { reveal(TextDeserializer::tops); } a.lemma_top_value(); a.lemma_opening_pre(); }
        let r = self.raw_open_object();
        let ghost b0 = *self;
        if r.is_ok() {
            self.outline.folds = Ghost(self.outline.folds@.push(new_fold(a, true)));
            self.outline.born = Ghost(new_born(a));
        }
        proof { if r is Ok { a.lemma_opened(Op::OpenObject, Ret::Unit, true, b0, *self); } else { a.lemma_open_refused(Op::OpenObject, true, *self); } }
        r
    }
}
impl<Reader: TextReader> Deserializer for TextDeserializer<Reader> {
    /*@in textop*/ fn get_bool(&mut self) -> (r: Result<bool, Self::Error>)
    {
        hide(done); hide(err); hide(frames); hide(TextDeserializer::inv); hide(TextDeserializer::popped); hide(TextDeserializer::abs); hide(TextDeserializer::fuel);
        let ghost a = *self;
        proof { a.lemma_top_value(); }
        let r = self.raw_get_bool();
        proof { a.lemma_get_bool(*self, match r { Ok(x) => Some(x), Err(_) => None }); }
        r
    }
    /*@in textop*/ fn next_char(&mut self) -> (r: Result<Option<char>, Self::Error>)
    {
        hide(done); hide(err); hide(frames); hide(TextDeserializer::inv); hide(TextDeserializer::abs); hide(TextDeserializer::fuel); hide(TextDeserializer::tops); hide(after_colon); hide(escape);
        let ghost a = *self;
        proof { assert(a.tops(Fr::Str)) by { reveal(TextDeserializer::tops); } a.lemma_top_str(); }
        let r = self.raw_next_char();
        proof { a.lemma_next_char(*self, match r { Ok(x) => Some(x), Err(_) => None }); }
        r
    }
    /*@in textop*/ fn open_list(&mut self) -> (r: Result<Option<usize>, Self::Error>)
    {
        hide(done); hide(err); hide(frames); hide(TextDeserializer::inv); hide(TextDeserializer::abs); hide(TextDeserializer::fuel); hide(table_ok); hide(TextDeserializer::opening); hide(TextDeserializer::tops); hide(shape);
        let ghost a = *self;
        proof { assert(a.tops(Fr::Value)) by { reveal(TextDeserializer::tops); } a.lemma_top_value(); }
        let r = self.raw_open_list();
        let ghost b0 = *self;
        if r.is_ok() {
            self.outline.folds = Ghost(self.outline.folds@.push(new_fold(a, false)));
            self.outline.born = Ghost(new_born(a));
        }
        proof { if r is Ok { a.lemma_opened(Op::OpenList, Ret::Len(None), false, b0, *self); } else { a.lemma_open_refused(Op::OpenList, false, *self); } }
        r
    }
    /*@in textop*/ fn next_item(&mut self) -> (r: Result<bool, Self::Error>)
    {
        hide(done); hide(err); hide(frames); hide(TextDeserializer::inv); hide(TextDeserializer::abs); hide(TextDeserializer::fuel); hide(TextDeserializer::tops); hide(items_ok); hide(folds_ok); hide(keys_ok); hide(unwind); hide(item_start); hide(entry_start); hide(rem_arr); hide(rem_obj); hide(none_left); hide(first_left); hide(table_ok); hide(closed); hide(closed_born); hide(next_unread); hide(forward); hide(gone); hide(item_ok);
        let ghost a = *self; let ghost mut r0: int = 0;
        proof { assert(a.tops(LIST)) by { reveal(TextDeserializer::tops); } a.lemma_top_coll(); assert(!a.fs().last().obj); a.lemma_on_coll(); r0 = lemma_unread(a.ns(), a.its(), a.data(), a.fs(), a.stk(), a.nb()); }
        let r = self.raw_next_item();
        let ghost b0 = *self; let ghost i0 = a.here();
        match r {
            Ok(true) => { proof { if !a.streams() { self.outline.nodes@ = gone(self.outline.nodes@, i0->0); self.outline.folds@ = read_to(self.outline.folds@, r0); } } }
            Ok(false) => {
            self.outline.folds = Ghost(closed(self.outline.folds@));
            self.outline.born = Ghost(closed_born(a.outline.folds@, self.outline.born@));
            }
            Err(_) => {}
        }
        proof { lemma_item_start(a.rest(), a.more().0, a.c());
            match r {
                Ok(true) => { if a.streams() { a.lemma_item_here(*self); } else { a.lemma_item_out(Op::NextItem, b0, *self, i0->0, r0); } }
                Ok(false) => { if a.streams() { a.lemma_end_here(Op::NextItem, b0, *self); } else { a.lemma_end_past(Op::NextItem, b0, *self); } }
                Err(_) => { a.lemma_start_failed(Op::NextItem, *self); }
            } }
        r
    }
//@use json/src/deserialize/text.rs
//@fn Deserializer for TextDeserializer :: get_u64 | ret=r in=textde
//@end
//@fn Deserializer for TextDeserializer :: get_f32 | ret=r in=textde
//@end
//@fn Deserializer for TextDeserializer :: error | ret=r in=textde
//@sigsubst Box<dyn std::error::Error + Send + Sync> => BoxedError
//@dropargs DeserializeError::new => de_error()
//@end
//@fn Deserializer for TextDeserializer :: error_missing_item | ret=r in=textde
//@dropargs DeserializeError::new => de_error()
//@end
//@fn Deserializer for TextDeserializer :: error_extra_item | ret=r in=textde
//@dropargs DeserializeError::new => de_error()
//@entry
    proof { self.lemma_top_coll(); }
//@end
}
impl<Reader: TextReader> JsonDeserializer for TextDeserializer<Reader> {
//@fn JsonDeserializer for TextDeserializer :: peek_value_type | ret=r in=textde
//@entry
    hide(TextDeserializer::inv); hide(TextDeserializer::abs); hide(shape);
    proof { self.lemma_top_value(); self.lemma_peek(); }
//@end
//@fn JsonDeserializer for TextDeserializer :: peek_collection_type | ret=r in=textde
//@entry
    proof { self.lemma_coll_type(); }
//@end
    /*@in textop*/ fn push_null(&mut self, key: Option<&'static str>)
    {
        hide(done); hide(err); hide(frames); hide(TextDeserializer::inv); hide(TextDeserializer::abs); hide(TextDeserializer::fuel); hide(TextDeserializer::tops);
        let ghost a = *self;
        proof { assert(a.tops(Fr::Object) || a.tops(LIST)) by { reveal(TextDeserializer::tops); } a.lemma_top_coll(); a.lemma_on_coll(); }
        let r = self.raw_push_null(key);
        proof { a.lemma_push_null(*self); }
        r
    }
    /*@in textop*/ fn try_push_entry(&mut self, key: &str) -> (r: Result<bool, Self::Error>)
    {
        hide(done); hide(err); hide(frames); hide(TextDeserializer::inv); hide(TextDeserializer::abs); hide(TextDeserializer::fuel); hide(TextDeserializer::tops); hide(TextDeserializer::tried); hide(TextDeserializer::try_pre);
        let ghost a = *self;
        proof { assert(a.tops(Fr::Object)) by { reveal(TextDeserializer::tops); } a.lemma_top_coll(); a.lemma_try_pre(); }
        let r = self.raw_try_push_entry(key);
        proof { a.lemma_try(key@, *self, match r { Ok(x) => Some(x), Err(_) => None }); }
        r
    }
    /*@in textop*/ fn next_entry(&mut self) -> (r: Result<bool, Self::Error>)
    {
        hide(done); hide(err); hide(frames); hide(TextDeserializer::inv); hide(TextDeserializer::abs); hide(TextDeserializer::fuel); hide(TextDeserializer::tops); hide(items_ok); hide(folds_ok); hide(keys_ok); hide(unwind); hide(item_start); hide(entry_start); hide(rem_arr); hide(rem_obj); hide(none_left); hide(first_left); hide(table_ok); hide(closed); hide(closed_born); hide(next_unread); hide(forward); hide(gone); hide(item_ok);
        let ghost a = *self; let ghost mut r0: int = 0;
        proof { assert(a.tops(Fr::Object)) by { reveal(TextDeserializer::tops); } a.lemma_top_coll(); a.lemma_on_coll(); r0 = lemma_unread(a.ns(), a.its(), a.data(), a.fs(), a.stk(), a.nb());
            if a.here() is Some { lemma_in_keys(a.ns(), a.fs(), a.keys(), a.here()->0, r0); } }
        let r = self.raw_next_entry();
        let ghost b0 = *self; let ghost i0 = a.here();
        match r {
            Ok(true) => { proof { if i0 is Some { self.outline.nodes@ = gone(self.outline.nodes@, i0->0); self.outline.folds@ = read_to(self.outline.folds@, r0); } } }
            Ok(false) => {
            self.outline.folds = Ghost(closed(self.outline.folds@));
            self.outline.born = Ghost(closed_born(a.outline.folds@, self.outline.born@));
            }
            Err(_) => {}
        }
        proof { lemma_entry_start(a.rest(), a.more().0, a.c());
            match r {
                Ok(true) => { if i0 is Some { a.lemma_item_out(Op::NextEntry, b0, *self, i0->0, r0); } else { a.lemma_entry_here(*self); } }
                Ok(false) => { if a.streams() { a.lemma_end_here(Op::NextEntry, b0, *self); } else { a.lemma_end_past(Op::NextEntry, b0, *self); } }
                Err(_) => { a.lemma_start_failed(Op::NextEntry, *self); }
            } }
        r
    }
//@fn JsonDeserializer for TextDeserializer :: error_expected_type | ret=r in=textde
//@dropargs DeserializeError::new => de_error()
//@entry
    proof { self.lemma_top_value(); }
//@end
}
/// An item that was not handed out can be found by its key.
/*@in textop*/ proof fn lemma_in_keys(ns: Nodes, fs: Seq<Fold>, keys: Keys, i: int, r: int)
    requires keys_ok(keys, ns, fs), fs.len() > 0, fs.last().obj, first_left(ns, fs.last(), r), fs.last().all[r] == i, fs.last().read >= 0
    ensures keys.dom().contains((fs.len() as int, i))
{
    assert(fs.last().all.contains(i));
    assert(in_table(ns, fs, fs.len() as int, i));
}
#[verifier::external_body]
fn str_string(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
/// What reading a number answers, for each type of numbers.
trait RetOf: NumOf {
    spec fn op() -> Op;
    spec fn ret(x: Self) -> Ret;
    proof fn lemma_ret(n: NumLit, p: Sem)
        ensures Self::op() is GetInt || Self::op() is GetF32 || Self::op() is GetF64, run_val(p, J::Num(n), Self::op()) == match Self::of(n) { Some(x) => Some((Self::ret(x), p)), None => None };
}
//@for T,U in u8,U8 u16,U16 u32,U32 u64,U64 i8,I8 i16,I16 i32,I32 i64,I64
impl RetOf for $T {
    spec fn op() -> Op { Op::GetInt($U) }
    spec fn ret(x: $T) -> Ret { Ret::Int(x as int) }
    proof fn lemma_ret(n: NumLit, p: Sem) { }
}
//@endfor
//@for T,U in f32,F32 f64,F64
impl RetOf for $T {
    spec fn op() -> Op { Op::Get$U }
    spec fn ret(x: $T) -> Ret { Ret::$U(x) }
    proof fn lemma_ret(n: NumLit, p: Sem) { }
}
//@endfor
impl<Reader: TextReader> TextDeserializer<Reader> {
    /*@in textop*/ fn read_number<T: RetOf>(&mut self) -> (r: Result<T, DeserializeError<Reader::Position>>)
        requires may(old(self).w(), T::op())
        ensures match r { Ok(x) => done(old(self).w(), T::op(), T::ret(x), final(self).w()), Err(_) => err(old(self).w(), T::op(), final(self).w()) }
    {
        hide(done); hide(err); hide(frames); hide(TextDeserializer::inv); hide(TextDeserializer::popped); hide(TextDeserializer::abs); hide(TextDeserializer::fuel);
        let ghost a = *self;
        proof { T::lemma_ret(arbitrary(), Seq::empty()); a.lemma_top_value(); }
        let r = self.raw_read_number::<T>();
        let ghost x0: Option<Ret> = match &r { Ok(x) => Some(T::ret(*x)), Err(_) => None };
        proof {
            assert forall|n: NumLit, p: Sem| #[trigger] run_val(p, J::Num(n), T::op()) == match T::of(n) { Some(x) => Some((T::ret(x), p)), None => None } by { T::lemma_ret(n, p); }
            a.lemma_get_num(*self, T::op(), x0);
        }
        r
    }
//@use json/src/deserialize/text.rs
//@for F,T in get_i8,I8 get_i16,I16 get_i32,I32 get_i64,I64 get_u8,U8 get_u16,U16 get_u32,U32
//@fn Deserializer for TextDeserializer :: $F | ret=r in=textde
//@sigsubst Self :: Error => DeserializeError<Reader::Position>
//@spec
    requires may(old(self).w(), Op::GetInt($T))
    ensures match r { Ok(x) => done(old(self).w(), Op::GetInt($T), Ret::Int(x as int), final(self).w()), Err(_) => err(old(self).w(), Op::GetInt($T), final(self).w()) }
//@end
//@endfor
//@fn Deserializer for TextDeserializer :: get_f64 | ret=r in=textde
//@sigsubst Self :: Error => DeserializeError<Reader::Position>
//@spec
    requires may(old(self).w(), Op::GetF64)
    ensures match r { Ok(x) => done(old(self).w(), Op::GetF64, Ret::F64(x), final(self).w()), Err(_) => err(old(self).w(), Op::GetF64, final(self).w()) }
//@end
//@fn Outliner for TextDeserializer :: close_str | ret=r in=textde
//@sigsubst Self :: Error => DeserializeError<Reader::Position>
//@subst "string has more characters than expected" . into ( ) => boxed_error()
//@spec
    requires may(old(self).w(), Op::CloseStr)
    ensures match r { Ok(x) => done(old(self).w(), Op::CloseStr, Ret::Unit, final(self).w()), Err(_) => err(old(self).w(), Op::CloseStr, final(self).w()) }
//@entry
    hide(TextDeserializer::state_w);
//@end
//@fn Outliner for TextDeserializer :: open_struct | ret=r in=textde
//@sigsubst Self :: Error => DeserializeError<Reader::Position>
//@subst super :: open_struct ( => open_struct(
//@spec
    requires may(old(self).w(), Op::OpenStruct(ostr(type_name)))
    ensures match r { Ok(x) => done(old(self).w(), Op::OpenStruct(ostr(type_name)), Ret::Unit, final(self).w()), Err(_) => err(old(self).w(), Op::OpenStruct(ostr(type_name)), final(self).w()) }
//@entry
    hide(TextDeserializer::state_w);
//@end
//@fn Outliner for TextDeserializer :: push_field | ret=r in=textde
//@sigsubst Self :: Error => DeserializeError<Reader::Position>
//@subst super :: push_field ( => push_field(
//@spec
    requires may(old(self).w(), Op::PushField(name@))
    ensures match r { Ok(x) => done(old(self).w(), Op::PushField(name@), Ret::Unit, final(self).w()), Err(_) => err(old(self).w(), Op::PushField(name@), final(self).w()) }
//@entry
    hide(TextDeserializer::state_w);
//@end
//@fn Outliner for TextDeserializer :: close_struct | ret=r in=textde
//@sigsubst Self :: Error => DeserializeError<Reader::Position>
//@subst super :: close_struct ( => close_struct(
//@spec
    requires may(old(self).w(), Op::CloseStruct)
    ensures match r { Ok(x) => done(old(self).w(), Op::CloseStruct, Ret::Unit, final(self).w()), Err(_) => err(old(self).w(), Op::CloseStruct, final(self).w()) }
//@entry
    hide(TextDeserializer::state_w);
//@end
//@fn Outliner for TextDeserializer :: open_tuple | ret=r in=textde
//@sigsubst Self :: Error => DeserializeError<Reader::Position>
//@spec
    requires may(old(self).w(), Op::OpenTuple(ostr(type_name)))
    ensures match r { Ok(x) => done(old(self).w(), Op::OpenTuple(ostr(type_name)), Ret::Unit, final(self).w()), Err(_) => err(old(self).w(), Op::OpenTuple(ostr(type_name)), final(self).w()) }
//@entry
    hide(TextDeserializer::state_w);
//@end
//@fn Outliner for TextDeserializer :: push_element | ret=r in=textde
//@sigsubst Self :: Error => DeserializeError<Reader::Position>
//@spec
    requires may(old(self).w(), Op::PushElement)
    ensures match r { Ok(x) => done(old(self).w(), Op::PushElement, Ret::Unit, final(self).w()), Err(_) => err(old(self).w(), Op::PushElement, final(self).w()) }
//@entry
    hide(TextDeserializer::state_w);
//@end
//@fn Outliner for TextDeserializer :: close_tuple | ret=r in=textde
//@sigsubst Self :: Error => DeserializeError<Reader::Position>
//@spec
    requires may(old(self).w(), Op::CloseTuple)
    ensures match r { Ok(x) => done(old(self).w(), Op::CloseTuple, Ret::Unit, final(self).w()), Err(_) => err(old(self).w(), Op::CloseTuple, final(self).w()) }
//@entry
    hide(TextDeserializer::state_w);
//@end
//@fn Outliner for TextDeserializer :: push_item | ret=r in=textde
//@sigsubst Self :: Error => DeserializeError<Reader::Position>
//@subst super :: push_item ( => push_item(
//@spec
    requires may(old(self).w(), Op::PushItem)
    ensures match r { Ok(x) => done(old(self).w(), Op::PushItem, Ret::Unit, final(self).w()), Err(_) => err(old(self).w(), Op::PushItem, final(self).w()) }
//@entry
    hide(TextDeserializer::state_w);
//@end
//@fn Outliner for TextDeserializer :: close_list | ret=r in=textde
//@sigsubst Self :: Error => DeserializeError<Reader::Position>
//@subst super :: close_list ( => close_list(
//@spec
    requires may(old(self).w(), Op::CloseList)
    ensures match r { Ok(x) => done(old(self).w(), Op::CloseList, Ret::Unit, final(self).w()), Err(_) => err(old(self).w(), Op::CloseList, final(self).w()) }
//@entry
    hide(TextDeserializer::state_w);
//@end
//@fn JsonOutliner for TextDeserializer :: push_entry | ret=r in=textde
//@sigsubst Self :: Error => DeserializeError<Reader::Position>
//@subst key . to_string ( ) => str_string(key)
//@spec
    requires may(old(self).w(), Op::PushEntry(key@))
    ensures match r { Ok(x) => done(old(self).w(), Op::PushEntry(key@), Ret::Unit, final(self).w()), Err(_) => err(old(self).w(), Op::PushEntry(key@), final(self).w()) }
//@entry
    hide(TextDeserializer::state_w);
//@end
//@fn JsonOutliner for TextDeserializer :: close_object | ret=r in=textde
//@sigsubst Self :: Error => DeserializeError<Reader::Position>
//@spec
    requires may(old(self).w(), Op::CloseObject)
    ensures match r { Ok(x) => done(old(self).w(), Op::CloseObject, Ret::Unit, final(self).w()), Err(_) => err(old(self).w(), Op::CloseObject, final(self).w()) }
//@entry
    hide(TextDeserializer::state_w);
//@end
//@fn Deserializer for TextDeserializer :: get_char | ret=r in=textde
//@sigsubst Self :: Error => DeserializeError<Reader::Position>
//@subst "expected a string with exactly one character" . into ( ) => boxed_error()
//@spec
    requires may(old(self).w(), Op::GetChar)
    ensures match r { Ok(x) => done(old(self).w(), Op::GetChar, Ret::Char(x), final(self).w()), Err(_) => err(old(self).w(), Op::GetChar, final(self).w()) }
//@entry
    hide(TextDeserializer::state_w);
//@end
//@fn Deserializer for TextDeserializer :: get_tag | ret=r in=textde
//@sigsubst Self :: Error => DeserializeError<Reader::Position>
//@subst super :: get_tag ( => get_tag(
//@spec
    requires may(old(self).w(), Op::GetTag(max_index as int, names@))
    ensures match r { Ok(x) => done(old(self).w(), Op::GetTag(max_index as int, names@), Ret::Index(x), final(self).w()), Err(_) => err(old(self).w(), Op::GetTag(max_index as int, names@), final(self).w()) }
//@entry
    hide(TextDeserializer::state_w);
//@end
//@fn Deserializer for TextDeserializer :: check_null | ret=r in=textde
//@sigsubst Self :: Error => DeserializeError<Reader::Position>
//@spec
    requires may(old(self).w(), Op::CheckNull)
    ensures match r { Ok(x) => done(old(self).w(), Op::CheckNull, Ret::Bool(x), final(self).w()), Err(_) => err(old(self).w(), Op::CheckNull, final(self).w()) }
//@entry
    hide(TextDeserializer::state_w);
//@end
//@fn JsonDeserializer for TextDeserializer :: error_missing_entry | ret=r in=textde
//@sigsubst Self :: Error => DeserializeError<Reader::Position>
//@dropargs DeserializeError::new => de_error()
//@end
//@fn JsonDeserializer for TextDeserializer :: error_extra_entry | ret=r in=textde
//@sigsubst Self :: Error => DeserializeError<Reader::Position>
//@dropargs DeserializeError::new => de_error()
//@spec
    requires !self.w().failed, top_is(self.w().stack, Fr::Object) // #C12
//@entry
    proof { self.lemma_top_coll(); }
//@end
}
/*@in textde*/ proof fn lemma_settled<R: TextReader>(a: TextDeserializer<R>)
    requires a.reader.ok(), a.ns().len() == 0, a.its().len() == 0, a.fs().len() == 0, a.stk().len() == 0, a.nb() == 0, a.keys() == Map::<(int, int), u64>::empty(), a.data().len() == 0, a.state is StreamingValue, 4 * a.rest().len() < BIG
    ensures a.sound(), a.fuel() == 4 * a.rest().len()
{
    assert forall|d: int, i: int| in_table(a.ns(), a.fs(), d, i) == false by {}
}
impl<Reader: TextReader> TextDeserializer<Reader> {
    /// What a new deserializer of a document stands for.
    spec fn fresh(&self, s: Seq<char>, c: bool) -> bool {
        &&& self.inv() && self.c() == c && self.malformed@ == (value(s, c) is None)
        &&& match value(s, c) {
            Some((j, t)) => (self.bad() <==> !keyed(j)) && self.tail@ == t && self.state_w().sem =~= seq![DF::Val(j)],
            None => true,
        }
        &&& self.w().stack =~= seq![Fr::Value] && self.w().fuel <= 4 * s.len()
    }
    /*@in textde*/ proof fn lemma_new(self, s: Seq<char>, c: bool)
        requires self.sound(), self.fs().len() == 0, self.state is StreamingValue, self.c() == c, after_ws(s, c) == Some(self.rest()),
            self.malformed@ == (value(s, c) is None), self.dup@ == (value(s, c) is Some && !keyed((value(s, c)->0).0)), self.tail@ == (value(s, c)->0).1, self.fuel() == 4 * self.rest().len(),
        ensures self.fresh(s, c)
    {
        hide(value_here); hide(keyed);
        lemma_value_here(s, c); lemma_ws_len(s, c);
        assert(value(s, c) == value_here(self.rest(), c));
        if value(s, c) is Some {
            let (j, t) = value(s, c)->0;
            assert(Seq::<DF>::empty().push(DF::Val(j)) =~= seq![DF::Val(j)]);
        }
        assert(stack_of(self.fs(), self.state) =~= seq![Fr::Value]);
    }
//@use json/src/deserialize/text.rs
//@fn TextDeserializer :: new | ret=r in=textde
//@subst error_pos , => error_pos, malformed: Ghost(bad0), dup: Ghost(dup0), tail: Ghost(tail0),
//@spec
    requires reader.ok(), 4 * reader.rest().len() < BIG
    ensures match r { Ok(d) => d.fresh(reader.rest(), config.allow_comments), Err(_) => value(reader.rest(), config.allow_comments) is None }
//@entry
    let ghost s0 = reader.rest(); let ghost v0 = value(s0, config.allow_comments);
    let ghost bad0 = v0 is None; let ghost dup0 = v0 is Some && !keyed((v0->0).0); let ghost tail0 = (v0->0).1;
    proof { lemma_value_here(s0, config.allow_comments); lemma_ws_len(s0, config.allow_comments); }
//@end
    /// Only a document that is one can be read to the end.
    /*@in textde*/ proof fn lemma_close(self)
        requires !self.w().failed, self.w().stack.len() == 0
        ensures self.inv(), self.state == coll(false, None), self.stk().len() == 0, !self.malformed@, !self.bad() ==> self.tail@ == self.rest()
    {
        assert(folds_ok(self.ns(), self.its(), self.fs(), self.stk(), self.nb()));
        match self.state { DeserializerState::Collection { .. } => {} _ => { assert(false); } }
        assert(self.fs().len() == 0);
        assert(self.abs() == Some((Seq::<DF>::empty(), self.rest())));
    }
//@fn TextDeserializer :: close | ret=r in=textde
//@sigsubst mut self => self
//@subst#* self . => this .
//@spec
    requires !self.w().failed, self.w().stack.len() == 0
    ensures !self.malformed@, !self.bad() ==> (r is Ok <==> after_ws(self.tail@, self.c()) == Some(Seq::<char>::empty()))
//@entry
    let mut this = self;
    proof { self.lemma_close(); lemma_ws_len(self.rest(), self.config.allow_comments); }
//@before this . reader . read_eof
    proof { assert(this.reader.rest().len() == 0 ==> this.reader.rest() =~= Seq::<char>::empty()); }
//@end
}
