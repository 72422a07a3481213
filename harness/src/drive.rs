//! Driving the (de)serializer API: typed entry points, a generic tree walker, streams.
use crate::ctx::Rng;
use crate::json::*;
use crate::types::*;
use serdere::*;
use serdere_json::*;
use std::io;

/// A byte source that returns few bytes per read.
pub struct Chunks {
    data: Vec<u8>,
    pos: usize,
    rng: Rng,
    max: usize,
}
impl Chunks {
    pub fn new(data: &[u8], mut rng: Rng) -> Chunks {
        let max = *rng.pick(&[1, 2, 3, 5, 4096]);
        Chunks { data: data.to_vec(), pos: 0, rng, max }
    }
}
impl io::Read for Chunks {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = buf.len().min(self.data.len() - self.pos);
        if n == 0 {
            return Ok(0);
        }
        let n = 1 + self.rng.below(n.min(self.max));
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// A byte sink that accepts few bytes per write.
pub struct Trickle {
    pub data: Vec<u8>,
    rng: Rng,
}
impl Trickle {
    pub fn new(rng: Rng) -> Trickle {
        Trickle { data: vec![], rng }
    }
}
impl io::Write for Trickle {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.rng.chance(1, 16) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = 1 + self.rng.below(buf.len().min(3));
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub trait Full:
    Ty
    + for<'a> Serialize<TextSerializer<&'a mut String>>
    + Serialize<TextSerializer<Utf8Writer<Trickle>>>
    + for<'s> Deserialize<TextDeserializer<&'s str>>
    + Deserialize<TextDeserializer<Utf8Reader<Chunks>>>
{
}
impl<T> Full for T where
    T: Ty
        + for<'a> Serialize<TextSerializer<&'a mut String>>
        + Serialize<TextSerializer<Utf8Writer<Trickle>>>
        + for<'s> Deserialize<TextDeserializer<&'s str>>
        + Deserialize<TextDeserializer<Utf8Reader<Chunks>>>
{
}

pub fn ser<T: Full>(x: &T) -> String {
    to_str(x)
}

pub fn ser_indent<T: Full>(x: &T, indent: Option<&'static str>) -> String {
    let mut out = String::new();
    let mut s = TextSerializer::new(TextSerializerConfig { indent }, &mut out);
    Value::with(&mut s, |v| v.put(x)).unwrap();
    s.close();
    out
}

pub fn ser_bytes<T: Full>(x: &T, indent: Option<&'static str>, rng: Rng) -> Vec<u8> {
    let mut s = TextSerializer::new(TextSerializerConfig { indent }, Utf8Writer::new(Trickle::new(rng)));
    Value::with(&mut s, |v| v.put(x)).unwrap();
    s.close().into_inner().data
}

pub fn de<T: Full>(text: &str) -> Result<T, String> {
    from_str(text).map_err(|e| format!("{:?}", e.message()))
}

pub fn de_config<T: Full>(text: &str, permissive: bool) -> Result<T, String> {
    let config = if permissive { TextDeserializerConfig::permissive() } else { TextDeserializerConfig::strict() };
    (|| {
        let mut d = TextDeserializer::new(config, text)?;
        let res = Value::with(&mut d, |v| v.get())?;
        d.close()?;
        Ok(res)
    })()
    .map_err(|e: DeserializeError<_>| format!("{:?}", e.message()))
}

pub fn de_stream<T: Full>(bytes: &[u8], rng: Rng) -> Result<T, String> {
    let reader = Utf8Reader::new(Chunks::new(bytes, rng)).map_err(|e| e.to_string())?;
    from_reader(reader).map_err(|e| format!("{:?}", e.message()))
}

/// Compares an outcome to the expected one.
pub fn expect<T: Ty>(got: Result<T, String>, want: &R<T>, how: &str) -> Result<(), String> {
    match (got, want) {
        (_, Err(Rej::Unspec)) => Ok(()),
        (Ok(x), Ok(y)) if x.eqv(y) => Ok(()),
        (Ok(x), Ok(y)) => Err(format!("{}: got {:?}, expected {:?}", how, x, y)),
        (Err(_), Err(_)) => Ok(()),
        (Ok(x), Err(_)) => Err(format!("{}: got {:?}, expected an error", how, x)),
        (Err(e), Ok(y)) => Err(format!("{}: got error {}, expected {:?}", how, e, y)),
    }
}

pub fn read_doc<T: Ty>(j: &Option<J>) -> R<T> {
    match j {
        Some(j) => T::read(j),
        None => Err(Rej::Err),
    }
}

// ---- Tree walker --------------------------------------------------------------------------------

#[derive(Debug)]
pub enum Bad {
    /// The library reported an error.
    Lib(String),
    /// The library returned something other than what the document denotes.
    Wrong(String),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// Everything in document order.
    Seq,
    /// Entries by key, in random order, with some left over.
    Keys,
    /// As `Keys`, and some values skipped.
    Mixed,
    /// Skip the whole value.
    Skip,
}

fn lib<P: std::fmt::Debug>(e: DeserializeError<P>) -> Bad {
    Bad::Lib(format!("{:?} at {:?}", e.message(), e.position()))
}

fn wrong<T>(s: String) -> Result<T, Bad> {
    Err(Bad::Wrong(s))
}

pub fn kind(j: &J) -> ValueType {
    match j {
        J::Null => ValueType::Null,
        J::Bool(_) => ValueType::Bool,
        J::Num(_) => ValueType::Number,
        J::Str(_) => ValueType::String,
        J::Arr(_) => ValueType::Array,
        J::Obj(_) => ValueType::Object,
    }
}

fn read_string<R: TextReader>(v: Value<TextDeserializer<R>>, want: Option<&str>, r: &mut Rng) -> Result<String, Bad> {
    let single = want.map_or(false, |w| w.chars().count() == 1);
    let got = match r.below(4) {
        0 => {
            let (d, done) = v.into_raw();
            d.open_str().map_err(lib)?;
            let mut s = String::new();
            while let Some(ch) = d.next_char().map_err(lib)? {
                s.push(ch);
            }
            *done = true;
            s
        }
        1 if single => v.get_char().map_err(lib)?.to_string(),
        2 => {
            // A prefix by character, then the rest
            let (d, done) = v.into_raw();
            d.open_str().map_err(lib)?;
            let mut s = String::new();
            match d.next_char().map_err(lib)? {
                Some(ch) => {
                    s.push(ch);
                    s.push_str(&d.flush_str().map_err(lib)?);
                }
                None => (),
            }
            *done = true;
            s
        }
        _ => v.get_str().map_err(lib)?.into_owned(),
    };
    if std::str::from_utf8(got.as_bytes()).is_err() {
        return wrong("string is not valid UTF-8".into());
    }
    if let Some(w) = want {
        if w != got {
            return wrong(format!("string {:?}, expected {:?}", got, w));
        }
    }
    Ok(got)
}

fn read_num<R: TextReader>(v: Value<TextDeserializer<R>>, want: Option<&str>, r: &mut Rng) -> Result<J, Bad> {
    let Some(t) = want else {
        return Ok(num(v.get_f64().map_err(lib)?));
    };
    macro_rules! int {
        ($ty:ty, $get:ident) => {{
            let w = <$ty as Ty>::read(&J::Num(t.to_string()));
            if let Ok(w) = w {
                let x = v.$get().map_err(lib)?;
                if x != w {
                    return wrong(format!("number {:?}, expected {}", x, t));
                }
                return Ok(num(t));
            }
        }};
    }
    if r.chance(1, 2) {
        match r.below(8) {
            0 => int!(i8, get_i8),
            1 => int!(i16, get_i16),
            2 => int!(i32, get_i32),
            3 => int!(i64, get_i64),
            4 => int!(u8, get_u8),
            5 => int!(u16, get_u16),
            6 => int!(u32, get_u32),
            _ => int!(u64, get_u64),
        }
    } else if r.chance(1, 3) {
        let x = v.get_f32().map_err(lib)?;
        if x.to_bits() != t.parse::<f32>().unwrap().to_bits() {
            return wrong(format!("f32 {:?}, expected {}", x, t));
        }
        return Ok(num(t));
    }
    let x = v.get_f64().map_err(lib)?;
    if x.to_bits() != t.parse::<f64>().unwrap().to_bits() {
        return wrong(format!("f64 {:?}, expected {}", x, t));
    }
    Ok(num(t))
}

/// Reads a value through the API, comparing with what is expected (if anything is).
pub fn walk<R: TextReader>(v: Value<TextDeserializer<R>>, want: Option<&J>, r: &mut Rng, mode: Mode) -> Result<(), Bad> {
    let mut v = v;
    if mode == Mode::Skip || (mode == Mode::Mixed && r.chance(1, 8)) {
        return v.skip().map_err(lib);
    }
    let ty = v.ty();
    if let Some(w) = want {
        if ty != kind(w) {
            return wrong(format!("type {:?}, expected {:?}", ty, kind(w)));
        }
    }
    if r.chance(1, 8) {
        if v.check_null().map_err(lib)? {
            return match want {
                None | Some(J::Null) => Ok(()),
                Some(w) => wrong(format!("check_null returned true for {:?}", w)),
            };
        } else if want == Some(&J::Null) {
            return wrong("check_null returned false for null".into());
        }
    }
    match ty {
        ValueType::Null => v.into_null().map_err(lib),
        ValueType::Bool => {
            let b = v.get_bool().map_err(lib)?;
            match want {
                Some(J::Bool(w)) if *w != b => wrong(format!("bool {}, expected {}", b, w)),
                _ => Ok(()),
            }
        }
        ValueType::Number => {
            let w = if let Some(J::Num(t)) = want { Some(t.as_str()) } else { None };
            read_num(v, w, r).map(|_| ())
        }
        ValueType::String => {
            let w = if let Some(J::Str(t)) = want { Some(t.as_str()) } else { None };
            read_string(v, w, r).map(|_| ())
        }
        ValueType::Array => {
            let items = if let Some(J::Arr(xs)) = want { Some(xs) } else { None };
            let mut list = v.into_list().map_err(lib)?;
            if let (Some(xs), true) = (items, r.chance(1, 4)) {
                for x in xs {
                    walk(list.push().map_err(lib)?, Some(x), r, mode)?;
                }
                return list.close().map_err(lib);
            }
            let mut i = 0;
            loop {
                let Some(item) = list.next().map_err(lib)? else { break };
                let w = match items {
                    Some(xs) => match xs.get(i) {
                        Some(x) => Some(x),
                        None => return wrong("too many items".into()),
                    },
                    None => None,
                };
                walk(item, w, r, mode)?;
                i += 1;
            }
            match items {
                Some(xs) if i != xs.len() => wrong(format!("{} items, expected {}", i, xs.len())),
                _ => Ok(()),
            }
        }
        ValueType::Object => {
            let entries = if let Some(J::Obj(xs)) = want { Some(xs) } else { None };
            let mut obj = v.into_object().map_err(lib)?;
            let mut left: Vec<usize> = (0..entries.map_or(0, |e| e.len())).collect();
            if mode != Mode::Seq {
                // By key first
                let mut keys: Vec<String> = match entries {
                    Some(es) => es.iter().map(|e| e.0.clone()).collect(),
                    None => vec![],
                };
                for _ in 0..r.below(2) {
                    keys.push(if r.chance(1, 2) { r.pick(&KEYS).to_string() } else { gen_string(r) });
                }
                r.shuffle(&mut keys);
                if r.chance(1, 2) {
                    let n = r.below(keys.len() + 1);
                    keys.truncate(n);
                }
                for k in keys {
                    let at = left.iter().position(|i| entries.unwrap()[*i].0 == k);
                    let e = if at.is_some() && r.chance(1, 4) {
                        Some(obj.entry(&k).map_err(lib)?)
                    } else {
                        obj.try_entry(&k).map_err(lib)?
                    };
                    match (e, at) {
                        (Some(e), Some(at)) => {
                            let i = left.remove(at);
                            walk(e, Some(&entries.unwrap()[i].1), r, mode)?;
                        }
                        (Some(e), None) if entries.is_none() => walk(e, None, r, mode)?,
                        (Some(_), None) => return wrong(format!("entry {:?} found, but the document has none (left)", k)),
                        (None, Some(_)) => return wrong(format!("entry {:?} not found", k)),
                        (None, None) => (),
                    }
                    if r.chance(1, 8) && entries.is_some() && !left.is_empty() {
                        // Interleave with the next unread entry
                        next_entry(&mut obj, entries, &mut left, r, mode)?;
                    }
                }
                if entries.is_some() && left.is_empty() && r.chance(1, 2) {
                    return obj.close().map_err(lib);
                }
            }
            while next_entry(&mut obj, entries, &mut left, r, mode)? {}
            if entries.is_some() && !left.is_empty() {
                return wrong(format!("{} entries missing at the end", left.len()));
            }
            Ok(())
        }
    }
}

fn next_entry<R: TextReader>(obj: &mut Object<TextDeserializer<R>>, entries: Option<&Vec<(String, J)>>, left: &mut Vec<usize>, r: &mut Rng, mode: Mode) -> Result<bool, Bad> {
    let Some(mut e) = obj.next_entry().map_err(lib)? else { return Ok(false) };
    // Entries come in document order when they are read one after another
    if mode == Mode::Seq && entries.is_some() && r.chance(1, 6) {
        let Some(i) = left.first().copied() else { return wrong("too many entries".into()) };
        left.remove(0);
        walk(e.value().map_err(lib)?, Some(&entries.unwrap()[i].1), r, mode)?;
        return Ok(true);
    }
    let key = e.key().map_err(lib)?.into_owned();
    if std::str::from_utf8(key.as_bytes()).is_err() {
        return wrong("key is not valid UTF-8".into());
    }
    let v = e.value().map_err(lib)?;
    match entries {
        None => walk(v, None, r, mode)?,
        Some(es) => {
            let at = if mode == Mode::Seq {
                left.first().filter(|i| es[**i].0 == key).map(|_| 0)
            } else {
                left.iter().position(|i| es[*i].0 == key)
            };
            let Some(at) = at else { return wrong(format!("unexpected entry {:?}", key)) };
            let i = left.remove(at);
            walk(v, Some(&es[i].1), r, mode)?;
        }
    }
    Ok(true)
}

pub fn walk_reader<R: TextReader>(reader: R, permissive: bool, want: Option<&J>, r: &mut Rng, mode: Mode) -> Result<(), Bad> {
    let config = if permissive { TextDeserializerConfig::permissive() } else { TextDeserializerConfig::strict() };
    let mut d = TextDeserializer::new(config, reader).map_err(lib)?;
    let mut done = false;
    walk(Value::new(&mut d, &mut done), want, r, mode)?;
    if !done {
        return wrong("done flag not set".into());
    }
    d.close().map_err(lib)
}

/// Reads a whole document and compares the outcome with the reference.
pub fn check_walk(text: &str, permissive: bool, want: &Option<J>, r: &mut Rng, mode: Mode) -> Result<(), String> {
    let want = want.as_ref();
    match (walk_reader(text, permissive, want, r, mode), want) {
        (Ok(()), Some(_)) => Ok(()),
        (Ok(()), None) => Err(format!("{:?}: accepted, but it is not well-formed", mode)),
        (Err(Bad::Lib(_)), None) => Ok(()),
        (Err(e), _) => Err(format!("{:?}: {:?}", mode, e)),
    }
}

pub fn check_walk_stream(bytes: &[u8], permissive: bool, want: &Option<J>, r: &mut Rng, mode: Mode) -> Result<(), String> {
    let want = want.as_ref();
    let reader = match Utf8Reader::new(Chunks::new(bytes, r.fork())) {
        Ok(x) => x,
        Err(e) => return if want.is_none() { Ok(()) } else { Err(e.to_string()) },
    };
    match (walk_reader(reader, permissive, want, r, mode), want) {
        (Ok(()), Some(_)) => Ok(()),
        (Ok(()), None) => Err(format!("{:?}: stream accepted, but it is not well-formed", mode)),
        (Err(Bad::Lib(_)), None) => Ok(()),
        (Err(e), _) => Err(format!("{:?} stream: {:?}", mode, e)),
    }
}

/// Reads an object, asking for one entry first, and compares the outcome with the reference.
pub fn check_late(text: &str, first: &str, want: &Option<J>, r: &mut Rng, mode: Mode) -> Result<(), String> {
    let entries = if let Some(J::Obj(es)) = want { Some(es) } else { None };
    let run = |r: &mut Rng| -> Result<(), Bad> {
        let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), text).map_err(lib)?;
        let mut done = false;
        let mut obj = Value::new(&mut d, &mut done).into_object().map_err(lib)?;
        let mut left: Vec<usize> = (0..entries.map_or(0, |e| e.len())).collect();
        let at = entries.and_then(|es| es.iter().position(|e| e.0 == first));
        match (obj.try_entry(first).map_err(lib)?, at) {
            (Some(e), Some(i)) => {
                left.remove(i);
                walk(e, Some(&entries.unwrap()[i].1), r, mode)?;
            }
            (Some(e), None) if entries.is_none() => walk(e, None, r, mode)?,
            (None, None) => (),
            (e, _) => return wrong(format!("entry {:?}: found {}", first, e.is_some())),
        }
        while next_entry(&mut obj, entries, &mut left, r, mode)? {}
        if entries.is_some() && !left.is_empty() {
            return wrong(format!("{} entries missing at the end", left.len()));
        }
        d.close().map_err(lib)
    };
    match (run(r), entries) {
        (Ok(()), Some(_)) | (Err(Bad::Lib(_)), None) => Ok(()),
        (Ok(()), None) => Err(format!("{:?} first: accepted, but it is not a well-formed object", first)),
        (Err(e), _) => Err(format!("{:?} first: {:?}", first, e)),
    }
}
