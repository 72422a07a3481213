//! C16: the wrappers over a recording stand-in that checks the stack discipline.
use crate::ctx::*;
use serdere::*;
use serdere_json::*;
use std::cell::RefCell;

/// What is on the stack.
#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Value,
    Str,
    KeyThenValue,
    Struct,
    Tuple,
    List,
    Object,
}

#[derive(Debug)]
pub struct MockError;
impl std::fmt::Display for MockError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("mock error")
    }
}
impl std::error::Error for MockError {}

/// The stand-in. An operation that does not fit the top of the stack is recorded in `bad`.
struct Mock {
    stack: Vec<K>,
    log: Vec<&'static str>,
    bad: Option<String>,
    fail: bool,
    /// The operation (counted from one) that fails.
    fail_at: usize,
    null: bool,
    supports_null: bool,
    /// Items left in the collections that are read.
    items: usize,
    list_len: Option<usize>,
}

type Res<T> = Result<T, MockError>;

impl Mock {
    fn new() -> Mock {
        Mock { stack: vec![K::Value], log: vec![], bad: None, fail: false, fail_at: 0, null: false, supports_null: true, items: 2, list_len: None }
    }
    fn op(&mut self, name: &'static str, pop: K, push: &[K]) -> Res<()> {
        self.log.push(name);
        if self.stack.last() != Some(&pop) {
            self.bad.get_or_insert(format!("{} on {:?}", name, self.stack));
        }
        if std::mem::take(&mut self.fail) || self.log.len() == self.fail_at {
            return Err(MockError);
        }
        self.stack.pop();
        self.stack.extend(push);
        Ok(())
    }
    fn key_or_str(&mut self, name: &'static str) -> Res<()> {
        if self.stack.last() == Some(&K::KeyThenValue) {
            self.op(name, K::KeyThenValue, &[K::Value])
        } else {
            self.op(name, K::Str, &[])
        }
    }
}

impl Outliner for Mock {
    type Error = MockError;
    fn supports_null(&self) -> bool { self.supports_null }
    fn pop_null(&mut self) -> Res<()> { self.op("pop_null", K::Value, &[]) }
    fn open_str(&mut self) -> Res<()> { self.op("open_str", K::Value, &[K::Str]) }
    fn close_str(&mut self) -> Res<()> { self.key_or_str("close_str") }
    fn open_struct(&mut self, _: Option<&'static str>) -> Res<()> { self.op("open_struct", K::Value, &[K::Struct]) }
    fn push_field(&mut self, _: &'static str) -> Res<()> {
        // the fields of a struct that is read from an object are read from the object
        let k = if self.stack.last() == Some(&K::Object) { K::Object } else { K::Struct };
        self.op("push_field", k, &[k, K::Value])
    }
    fn close_struct(&mut self) -> Res<()> { self.op("close_struct", K::Struct, &[]) }
    fn open_tuple(&mut self, _: Option<&'static str>) -> Res<()> { self.op("open_tuple", K::Value, &[K::Tuple]) }
    fn push_element(&mut self) -> Res<()> { self.op("push_element", K::Tuple, &[K::Tuple, K::Value]) }
    fn close_tuple(&mut self) -> Res<()> { self.op("close_tuple", K::Tuple, &[]) }
    fn push_item(&mut self) -> Res<()> { self.op("push_item", K::List, &[K::List, K::Value]) }
    fn close_list(&mut self) -> Res<()> { self.op("close_list", K::List, &[]) }
}
macro_rules! put {
    ($($f:ident $t:ty),*) => { $(fn $f(&mut self, _: $t) -> Res<()> { self.op(stringify!($f), K::Value, &[]) })* };
}
impl Serializer for Mock {
    put!(put_bool bool, put_i8 i8, put_i16 i16, put_i32 i32, put_i64 i64, put_u8 u8, put_u16 u16, put_u32 u32, put_u64 u64, put_f32 f32, put_f64 f64, put_char char, put_str &str);
    fn append_char(&mut self, _: char) -> Res<()> { Ok(()) }
    fn put_tag(&mut self, _: usize, _: usize, _: Option<&'static str>) -> Res<()> { self.op("put_tag", K::Value, &[]) }
    fn open_list_sized(&mut self, _: usize) -> Res<()> { self.op("open_list_sized", K::Value, &[K::List]) }
}
macro_rules! get {
    ($($f:ident $t:ty = $v:expr),*) => { $(fn $f(&mut self) -> Res<$t> { self.op(stringify!($f), K::Value, &[]).map(|_| $v) })* };
}
impl Deserializer for Mock {
    get!(get_bool bool = true, get_i8 i8 = 1, get_i16 i16 = 1, get_i32 i32 = 1, get_i64 i64 = 1, get_u8 u8 = 1, get_u16 u16 = 1, get_u32 u32 = 1, get_u64 u64 = 1, get_f32 f32 = 1.0, get_f64 f64 = 1.0, get_char char = 'x');
    fn next_char(&mut self) -> Res<Option<char>> { self.key_or_str("next_char").map(|_| None) }
    fn read_str(&mut self) -> Res<std::borrow::Cow<'_, str>> { self.op("read_str", K::Value, &[]).map(|_| "s".into()) }
    fn get_tag(&mut self, _: usize, _: &'static NameMap<usize>) -> Res<usize> { self.op("get_tag", K::Value, &[]).map(|_| 0) }
    fn check_null(&mut self) -> Res<bool> {
        if self.null { self.op("check_null", K::Value, &[]).map(|_| true) } else { self.op("check_null", K::Value, &[K::Value]).map(|_| false) }
    }
    fn open_list(&mut self) -> Res<Option<usize>> { let n = self.list_len; self.op("open_list", K::Value, &[K::List]).map(|_| n) }
    fn next_item(&mut self) -> Res<bool> {
        if self.items > 0 { self.items -= 1; self.op("next_item", K::List, &[K::List, K::Value]).map(|_| true) } else { self.op("next_item", K::List, &[]).map(|_| false) }
    }
    fn error(&self, _: Box<dyn std::error::Error + Send + Sync>) -> MockError { MockError }
    fn error_missing_item(&self) -> MockError { MockError }
    fn error_extra_item(&self) -> MockError { MockError }
}
impl JsonOutliner for Mock {
    fn open_object(&mut self) -> Res<()> { self.op("open_object", K::Value, &[K::Object]) }
    fn push_entry(&mut self, _: &str) -> Res<()> { self.op("push_entry", K::Object, &[K::Object, K::Value]) }
    fn close_object(&mut self) -> Res<()> { self.op("close_object", K::Object, &[]) }
}
impl JsonSerializer for Mock {
    fn open_list_streaming(&mut self) -> Res<()> { self.op("open_list_streaming", K::Value, &[K::List]) }
    fn add_entry(&mut self) -> Res<()> { self.op("add_entry", K::Object, &[K::Object, K::KeyThenValue]) }
}
thread_local! { static TY: RefCell<ValueType> = const { RefCell::new(ValueType::Null) }; }
impl JsonDeserializer for Mock {
    fn peek_value_type(&self) -> ValueType { TY.with(|t| *t.borrow()) }
    fn peek_collection_type(&self) -> CollectionType { CollectionType::Object }
    fn skip_value(&mut self) -> Res<()> { self.op("skip_value", K::Value, &[]) }
    fn push_null(&mut self, _: Option<&'static str>) {}
    fn try_push_entry(&mut self, k: &str) -> Res<bool> {
        if k != "none" { self.op("try_push_entry", K::Object, &[K::Object, K::Value]).map(|_| true) } else { self.op("try_push_entry", K::Object, &[K::Object]).map(|_| false) }
    }
    fn next_entry(&mut self) -> Res<bool> {
        if self.items > 0 { self.items -= 1; self.op("next_entry", K::Object, &[K::Object, K::KeyThenValue]).map(|_| true) } else { self.op("next_entry", K::Object, &[]).map(|_| false) }
    }
    fn error_expected_type(&self, _: &'static [ValueType]) -> MockError { MockError }
    fn error_missing_entry(&self, _: String) -> MockError { MockError }
    fn error_extra_entry(&self, _: String) -> MockError { MockError }
}

type V<'a> = Value<'a, Mock>;

/// A struct that is read from two fields; the second one is left unread if told so.
struct Part;
impl Deserialize<Mock, bool> for Part {
    const NULLABLE: bool = false;
    fn deserialize(value: V, leave: &mut bool) -> Res<Self> { serdere::deserialize::deserialize_struct(value, leave, None) }
}
impl serdere::deserialize::DeserializeStruct<Mock, bool> for Part {
    fn deserialize_content(st: &mut Struct<Mock>, leave: &mut bool) -> Res<Self> {
        st.field("a")?.get_u8()?;
        let b = st.field("b")?;
        if !*leave { b.get_u8()?; }
        Ok(Part)
    }
}

/// Every operation that consumes a value directly.
fn value_ops() -> Vec<(&'static str, fn(V) -> Res<()>)> {
    static NAMES: FixedNameMap<usize, 1> = FixedNameMap::new([("A", 0)]);
    vec![
        ("put_bool", |v| v.put_bool(true)),
        ("put_i8", |v| v.put_i8(1)),
        ("put_i16", |v| v.put_i16(1)),
        ("put_i32", |v| v.put_i32(1)),
        ("put_i64", |v| v.put_i64(1)),
        ("put_u8", |v| v.put_u8(1)),
        ("put_u16", |v| v.put_u16(1)),
        ("put_u32", |v| v.put_u32(1)),
        ("put_u64", |v| v.put_u64(1)),
        ("put_f32", |v| v.put_f32(1.0)),
        ("put_f64", |v| v.put_f64(1.0)),
        ("put_char", |v| v.put_char('a')),
        ("put_str", |v| v.put_str("a")),
        ("put_tag", |v| v.put_tag(1, 0, Some("A"))),
        ("get_bool", |v| v.get_bool().map(drop)),
        ("get_i8", |v| v.get_i8().map(drop)),
        ("get_i16", |v| v.get_i16().map(drop)),
        ("get_i32", |v| v.get_i32().map(drop)),
        ("get_i64", |v| v.get_i64().map(drop)),
        ("get_u8", |v| v.get_u8().map(drop)),
        ("get_u16", |v| v.get_u16().map(drop)),
        ("get_u32", |v| v.get_u32().map(drop)),
        ("get_u64", |v| v.get_u64().map(drop)),
        ("get_f32", |v| v.get_f32().map(drop)),
        ("get_f64", |v| v.get_f64().map(drop)),
        ("get_char", |v| v.get_char().map(drop)),
        ("get_str", |v| v.get_str().map(drop)),
        ("get_tag", |v| v.get_tag(1, NAMES.unfix()).map(drop)),
        ("into_null", |v| v.into_null()),
        ("skip", |v| v.skip()),
        ("check_null", |mut v| v.check_null().map(drop)),
    ]
}

/// Every operation that opens a container; its child operation; its closing.
#[derive(Clone, Copy, PartialEq, Debug)]
enum C {
    Struct,
    Tuple,
    Sized(usize),
    Streaming,
    List(Option<usize>),
    Object,
    CollObject,
    CollList,
}

/// Steps within a container.
#[derive(Clone, Copy, PartialEq, Debug)]
enum S {
    /// Open a child and consume it.
    Child,
    /// Open a child and drop it unconsumed.
    Drop,
    /// Read children one by one with `next`: consumed.
    Next,
    NextDrop,
    /// An entry that is not there.
    Absent,
    /// A nested container, properly closed.
    Nested,
    /// A nested container left open.
    NestedOpen,
    /// An entry whose key is read.
    Key,
    /// An entry whose key is read twice.
    KeyTwice,
    /// An entry dropped before its value.
    EntryDrop,
}

enum H<'a> {
    S(Struct<'a, Mock>),
    T(Tuple<'a, Mock>),
    L(List<'a, Mock>),
    O(Object<'a, Mock>),
    C(Collection<'a, Mock>),
}

fn open<'a>(v: V<'a>, c: C) -> Res<H<'a>> {
    Ok(match c {
        C::Struct => H::S(v.into_struct(None)?),
        C::Tuple => H::T(v.into_tuple(None)?),
        C::Sized(n) => H::L(v.into_list_sized(n)?),
        C::Streaming => H::L(v.into_list_streaming()?),
        C::List(_) => H::L(v.into_list()?),
        C::Object => H::O(v.into_object()?),
        C::CollObject | C::CollList => {
            TY.with(|t| *t.borrow_mut() = if c == C::CollObject { ValueType::Object } else { ValueType::Array });
            H::C(v.into_collection()?)
        }
    })
}

fn fits(c: C, s: S) -> bool {
    match s {
        S::Child | S::Drop | S::Nested | S::NestedOpen => !matches!(c, C::CollObject | C::CollList),
        S::Next | S::NextDrop => !matches!(c, C::Struct | C::Tuple | C::Sized(_) | C::Streaming),
        S::Absent | S::Key | S::KeyTwice | S::EntryDrop => c == C::Object,
    }
}

fn step(h: &mut H, s: S) -> Res<bool> {
    if matches!(s, S::Next | S::NextDrop | S::Key | S::KeyTwice | S::EntryDrop) {
        let v = match h {
            H::L(l) => l.next()?,
            H::C(x) => x.next()?,
            H::O(o) => match o.next_entry()? {
                Some(mut e) => {
                    if s == S::EntryDrop { return Ok(true); }
                    if s == S::Key || s == S::KeyTwice { e.key()?; }
                    if s == S::KeyTwice { e.key()?; }
                    Some(e.value()?)
                }
                None => None,
            },
            _ => unreachable!(),
        };
        return Ok(match v {
            Some(v) => { if s != S::NextDrop { v.put_u8(1)?; } true }
            None => false,
        });
    }
    if s == S::Absent {
        let H::O(o) = h else { unreachable!() };
        assert!(o.try_entry("none")?.is_none());
        return Ok(true);
    }
    let v = match h {
        H::S(x) => x.field("f")?,
        H::T(x) => x.element()?,
        H::L(x) => x.push()?,
        H::O(x) => x.entry("k")?,
        H::C(_) => unreachable!(),
    };
    match s {
        S::Child => v.get_u8().map(drop)?,
        S::Nested => { let mut t = v.into_tuple(None)?; t.element()?.put_bool(true)?; t.close()? }
        S::NestedOpen => { let mut t = v.into_tuple(None)?; t.element()?.put_bool(true)?; }
        _ => (),
    }
    Ok(true)
}

fn container_case(ctx: &mut Ctx, c: C, steps: Vec<S>, close: bool) {
    let steps2 = steps.clone();
    ctx.each(&|| format!("{:?} steps {:?} close {}", c, steps2, close), || {
        let mut m = Mock::new();
        if let C::List(n) = c { m.list_len = n; m.items = n.unwrap_or(2); }
        let total = m.items;
        // The model: is the step fine?
        let mut known = match c { C::Sized(n) => Some(n), C::List(Some(n)) => Some(n), _ => None };
        let mut ready = true;
        let mut closed = false;
        let mut misuse = false;
        let mut items = total;
        for s in &steps {
            let is_next = matches!(s, S::Next | S::NextDrop | S::Key | S::KeyTwice | S::EntryDrop);
            if !ready || closed { misuse = true; break; }
            if is_next {
                if items == 0 { closed = true; if matches!(c, C::CollObject | C::CollList) { } continue; }
                items -= 1;
            }
            if !is_next && *s != S::Absent && known == Some(0) { misuse = true; break; }
            if *s == S::KeyTwice { misuse = true; break; }
            if *s != S::Absent { known = known.map(|n| n.wrapping_sub(1)); }
            if matches!(s, S::Drop | S::NextDrop | S::NestedOpen | S::EntryDrop) { ready = false; }
        }
        if !misuse && close && !matches!(c, C::CollObject | C::CollList) {
            if !ready || closed || known.is_some_and(|n| n != 0) { misuse = true; }
            else { closed = true; }
        }
        let mut done = false;
        let res = catch(|| -> Res<()> {
            let mut h = open(Value::new(&mut m, &mut done), c)?;
            for s in &steps { step(&mut h, *s)?; }
            if close {
                match h { H::S(x) => x.close()?, H::T(x) => x.close()?, H::L(x) => x.close()?, H::O(x) => x.close()?, H::C(_) => () }
            }
            Ok(())
        });
        if let Some(bad) = &m.bad { return Err(format!("reached the underlying stack: {} (log {:?})", bad, m.log)); }
        match (&res, misuse) {
            (Err(_), true) => Ok(()),
            (Ok(Ok(())), false) => {
                if done != closed { return Err(format!("done flag {} after {:?}", done, m.log)); }
                if closed && !m.stack.is_empty() { return Err(format!("stack {:?} after {:?}", m.stack, m.log)); }
                Ok(())
            }
            (Err(p), false) => Err(format!("correct use panicked: {} (log {:?})", p, m.log)),
            (r, true) => Err(format!("misuse not caught: {:?} (log {:?})", r.is_ok(), m.log)),
            (r, false) => Err(format!("correct use failed: {:?}", r)),
        }
    });
}

pub fn c16(c: &mut Ctx) {
    // Values: fresh, already consumed, failing
    for (name, f) in value_ops() {
        for null in [false, true] {
            for supports in [true, false] {
                c.each(&|| format!("{} fresh, null {}", name, null), || {
                    let mut m = Mock::new();
                    m.null = null;
                    m.supports_null = supports;
                    let mut done = false;
                    catch(|| f(Value::new(&mut m, &mut done))).map_err(|e| format!("correct use panicked: {}", e))?.map_err(|e| format!("{:?}", e))?;
                    let consumes = name != "check_null" || (null && supports);
                    if let Some(bad) = &m.bad { return Err(bad.clone()); }
                    if done != consumes || m.stack.is_empty() != consumes { return Err(format!("done {} stack {:?}", done, m.stack)); }
                    if m.log.len() > 1 { return Err(format!("more than one operation: {:?}", m.log)); }
                    Ok(())
                });
                c.each(&|| format!("{} on a consumed value", name), || {
                    let mut m = Mock::new();
                    m.null = null;
                    m.supports_null = supports;
                    m.stack.clear();
                    let mut done = true;
                    let r = catch(|| f(Value::new(&mut m, &mut done)));
                    if !m.log.is_empty() { return Err(format!("reached the underlying: {:?}", m.log)); }
                    if r.is_ok() { return Err("misuse not caught".into()); }
                    Ok(())
                });
            }
        }
        c.each(&|| format!("{} within with/validate_with", name), || {
            let mut m = Mock::new();
            m.null = true;
            catch(|| Value::with(&mut m, |v| f(v))).map_err(|e| format!("panicked: {}", e))?.map_err(|_| "error")?;
            let mut m = Mock::new();
            m.null = true;
            let mut done = false;
            catch(|| Value::new(&mut m, &mut done).validate_with(|v| { f(v)?; Ok(Ok::<(), MockError>(())) })).map_err(|e| format!("panicked: {}", e))?.map_err(|_| "error")?;
            if !done || !m.stack.is_empty() { return Err("validate_with: done".into()); }
            let mut m = Mock::new();
            m.null = true;
            let mut done = false;
            let r = catch(|| Value::new(&mut m, &mut done).validate_with(|v| { f(v)?; Ok(Err::<(), MockError>(MockError)) })).map_err(|e| format!("panicked: {}", e))?;
            if r.is_ok() { return Err("validate_with: error lost".into()); }
            let mut m = Mock::new();
            m.stack.clear();
            let mut done = true;
            let r = catch(|| Value::new(&mut m, &mut done).validate_with(|v| { f(v)?; Ok(Ok::<(), MockError>(())) }));
            if r.is_ok() || !m.log.is_empty() { return Err("validate_with on a consumed value".into()); }
            Ok(())
        });
    }
    let kinds = [C::Struct, C::Tuple, C::Sized(0), C::Sized(1), C::Sized(2), C::Streaming, C::List(None), C::List(Some(0)), C::List(Some(1)), C::List(Some(2)), C::Object, C::CollObject, C::CollList];
    for k in kinds {
        c.each(&|| format!("opening {:?} on a consumed value", k), || {
            let mut m = Mock::new();
            m.stack.clear();
            let mut done = true;
            let r = catch(|| open(Value::new(&mut m, &mut done), k).map(drop));
            if !m.log.is_empty() || r.is_ok() { return Err(format!("misuse not caught: {:?}", m.log)); }
            Ok(())
        });
        // All sequences of steps up to a length
        let all = [S::Child, S::Drop, S::Next, S::NextDrop, S::Absent, S::Nested, S::NestedOpen, S::Key, S::KeyTwice, S::EntryDrop];
        let mine: Vec<S> = all.iter().copied().filter(|s| fits(k, *s)).collect();
        let mut seqs: Vec<Vec<S>> = vec![vec![]];
        let mut i = 0;
        while i < seqs.len() {
            let s = seqs[i].clone();
            for close in [true, false] { container_case(c, k, s.clone(), close); }
            if s.len() < if c.thorough { 5 } else { 4 } {
                for x in &mine { let mut t = s.clone(); t.push(*x); seqs.push(t); }
            }
            i += 1;
        }
    }
    // rem_len
    for n in 0..6usize {
        c.each(&|| format!("rem_len of a list of {}", n), || {
            let mut m = Mock::new();
            let mut done = false;
            let mut l = Value::new(&mut m, &mut done).into_list_sized(n).map_err(|_| "open")?;
            for i in 0..n {
                if l.rem_len() != Some(n - i) { return Err(format!("{:?} with {} left", l.rem_len(), n - i)); }
                l.push().map_err(|_| "push")?.put_u8(1).map_err(|_| "put")?;
            }
            if l.rem_len() != Some(0) { return Err("at the end".into()); }
            l.close().map_err(|_| "close")?;
            let mut m = Mock::new();
            m.list_len = Some(n);
            m.items = n;
            let mut done = false;
            let mut l = Value::new(&mut m, &mut done).into_list().map_err(|_| "open")?;
            let mut i = 0;
            loop {
                if l.rem_len() != Some(n - i) { return Err(format!("{:?} with {} left (reading)", l.rem_len(), n - i)); }
                match l.next().map_err(|_| "next")? { Some(v) => v.put_u8(1).map_err(|_| "put")?, None => break }
                i += 1;
            }
            Ok(())
        });
    }
    // `with` whose closure does not finish
    for finish in [true, false] {
        c.each(&|| format!("with, finished {}", finish), || {
            let mut m = Mock::new();
            let a = catch(|| Value::with(&mut m, |v| if finish { v.put_u8(1) } else { Ok(()) }));
            if a.is_ok() != finish { return Err("Value::with".into()); }
            let mut m = Mock::new();
            m.stack = vec![K::Struct];
            let a = catch(|| Struct::with(&mut m, |mut v| { v.field("x")?.put_u8(1)?; if finish { v.close() } else { Ok(()) } }));
            if a.is_ok() != finish { return Err("Struct::with".into()); }
            let mut m = Mock::new();
            m.stack = vec![K::Tuple];
            let a = catch(|| Tuple::with(&mut m, |mut v| { v.element()?.put_u8(1)?; if finish { v.close() } else { Ok(()) } }));
            if a.is_ok() != finish { return Err("Tuple::with".into()); }
            let mut m = Mock::new();
            let mut done = false;
            let a = catch(|| Value::new(&mut m, &mut done).validate_with(|v| { if finish { v.put_u8(1)?; } Ok(Ok::<(), MockError>(())) }));
            if a.is_ok() != finish { return Err("validate_with".into()); }
            Ok(())
        });
    }
    // A struct inlined into a struct or an object
    for leave in [false, true] {
        for obj in [false, true] {
            c.each(&|| format!("inline into an object {}, last value left unread {}", obj, leave), || {
                let mut m = Mock::new();
                let mut done = false;
                let r = catch(|| -> Res<()> {
                    let v = Value::new(&mut m, &mut done);
                    if obj {
                        let mut o = v.into_object()?;
                        o.inline_using::<Part, bool>(&mut leave.clone())?;
                        o.entry("c")?.get_u8()?;
                        o.close()
                    } else {
                        let mut o = v.into_struct(None)?;
                        o.inline_get_using::<Part, bool>(&mut leave.clone())?;
                        o.field("c")?.get_u8()?;
                        o.close()
                    }
                });
                if let Some(bad) = &m.bad { return Err(format!("reached the underlying stack: {}", bad)); }
                match (r, leave) {
                    (Err(_), true) | (Ok(Ok(())), false) => Ok(()),
                    (r, _) => Err(format!("{:?}", r)),
                }
            });
        }
    }
    // An operation that fails is not recorded as done
    for (name, f) in value_ops() {
        c.each(&|| format!("{} fails", name), || {
            let mut m = Mock::new();
            m.fail = true;
            let mut done = false;
            let r = catch(|| f(Value::new(&mut m, &mut done)));
            if !matches!(r, Ok(Err(_))) || done { return Err(format!("{:?}, done {}", r, done)); }
            Ok(())
        });
    }
    for k in kinds {
        c.each(&|| format!("a child of {:?} fails, the container is used again", k), || {
            let mut m = Mock::new();
            if let C::List(n) = k { m.list_len = n; if n == Some(0) { return Ok(()); } }
            if k == C::Sized(0) { return Ok(()); }
            m.fail_at = 2;
            let mut done = false;
            let r = catch(|| -> Res<bool> {
                let mut h = open(Value::new(&mut m, &mut done), k)?;
                let s = if fits(k, S::Child) { S::Drop } else { S::NextDrop };
                let e = catch(|| match &mut h {
                    H::S(x) => x.field("f").map(drop), H::T(x) => x.element().map(drop), H::L(x) => x.push().map(drop), H::O(x) => x.entry("k").map(drop), H::C(x) => x.next().map(drop),
                });
                if !matches!(e, Ok(Err(_))) { return Ok(false); }
                Ok(catch(|| step(&mut h, s)).is_err())
            });
            if let Some(bad) = &m.bad { return Err(format!("reached the underlying stack: {}", bad)); }
            if m.log.len() > 2 { return Err(format!("used after a failure: {:?}", m.log)); }
            match r { Ok(Ok(true)) if !done => Ok(()), r => Err(format!("{:?} done {}", r, done)) }
        });
    }
    // check_null, then the value
    for null in [true, false] {
        for (name, f) in value_ops() {
            c.each(&|| format!("check_null ({}) then {}", null, name), || {
                let mut m = Mock::new();
                m.null = null;
                let mut done = false;
                let r = catch(|| { let mut v = Value::new(&mut m, &mut done); let n = v.check_null()?; if n != null { return Ok(false); } f(v)?; Ok::<bool, MockError>(true) });
                if let Some(bad) = &m.bad { return Err(format!("reached the underlying stack: {}", bad)); }
                match (r, null) {
                    (Err(_), true) => Ok(()),
                    (Ok(Ok(true)), false) => Ok(()),
                    (r, _) => Err(format!("{:?}", r)),
                }
            });
        }
    }
}
