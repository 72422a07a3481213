//! A family of supported types, each with an independent description of its wire layout
//! (`wire`: value to JSON tree) and of how it is read (`read`: JSON tree to value or rejection).
use crate::ctx::Rng;
use crate::json::*;
use serdere::{Deserialize, Serialize};
use std::fmt::Debug;
use std::num::*;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Rej {
    Err,
    /// The properties do not say whether this is accepted.
    Unspec,
}
pub type R<T> = Result<T, Rej>;

/// Combines rejections: a definite error wins.
pub fn worst(a: Option<Rej>, b: Option<Rej>) -> Option<Rej> {
    match (a, b) {
        (Some(Rej::Err), _) | (_, Some(Rej::Err)) => Some(Rej::Err),
        (None, None) => None,
        _ => Some(Rej::Unspec),
    }
}

pub trait Eqv {
    /// Equality that tells -0.0 from 0.0.
    fn eqv(&self, other: &Self) -> bool;
}

/// Without serde bounds.
pub trait Ty: Sized + Debug + Eqv {
    const NULLABLE: bool = false;
    fn gen(r: &mut Rng, size: usize) -> Self;
    fn wire(&self) -> J;
    fn read(j: &J) -> R<Self>;
    fn missing() -> R<Self> {
        Err(Rej::Err)
    }
    /// All wire field names in use by this type and those within it.
    fn names(_out: &mut Vec<&'static str>) {}
}

/// Where the fields of a struct come from.
pub enum Src<'a> {
    Obj(&'a [(String, J)]),
    Arr(&'a [J], usize),
}

impl<'a> Src<'a> {
    pub fn open(j: &'a J) -> Option<Src<'a>> {
        match j {
            J::Obj(xs) => Some(Src::Obj(xs)),
            J::Arr(xs) => Some(Src::Arr(xs, 0)),
            _ => None,
        }
    }
    pub fn take(&mut self, name: &str) -> Result<Option<&'a J>, Rej> {
        match self {
            Src::Obj(xs) => Ok(xs.iter().find(|x| x.0 == name).map(|x| &x.1)),
            Src::Arr(xs, i) => {
                let x = xs.get(*i).ok_or(Rej::Err)?;
                *i += 1;
                Ok(Some(x))
            }
        }
    }
    pub fn finish(&self) -> Option<Rej> {
        match self {
            Src::Obj(_) => None,
            Src::Arr(xs, i) => if *i == xs.len() { None } else { Some(Rej::Err) },
        }
    }
    pub fn field<T: Ty>(&mut self, name: &str) -> R<T> {
        match self.take(name)? {
            Some(j) => T::read(j),
            None => T::missing(),
        }
    }
    pub fn field_default<T: Ty + Default>(&mut self, name: &str) -> R<T> {
        match self.take(name)? {
            Some(J::Null) | None => Ok(T::default()),
            Some(j) => T::read(j),
        }
    }
}

pub trait TyStruct: Ty {
    fn fields(&self, out: &mut Vec<(String, J)>);
    fn read_fields(src: &mut Src) -> R<Self>;
}

pub fn read_struct<T: TyStruct>(j: &J) -> R<T> {
    let Some(mut src) = Src::open(j) else { return Err(Rej::Err) };
    let res = T::read_fields(&mut src);
    match worst(src.finish().filter(|_| res.as_ref().err() != Some(&Rej::Err)), res.as_ref().err().copied()) {
        Some(rej) => Err(rej),
        None => res,
    }
}

/// Whether the digits of the number, taken together, are at most `max`.
pub fn digits_fit(text: &str, max: u128) -> bool {
    let (_, int, frac, _) = split_num(text);
    let mut x: u128 = 0;
    for b in int.bytes().chain(frac.bytes()) {
        match x.checked_mul(10).and_then(|x| x.checked_add((b - b'0') as u128)) {
            Some(y) if y <= max => x = y,
            _ => return false,
        }
    }
    true
}

pub fn read_int(text: &str, min: i128, max: i128, umax: u128) -> Result<i128, Rej> {
    let plain = !text.contains(['.', 'e', 'E']);
    match int_value(text) {
        Int::Exact(x) if x >= min && x <= max => {
            if plain || digits_fit(text, umax) {
                Ok(x)
            } else {
                Err(Rej::Unspec)
            }
        }
        _ => Err(Rej::Err),
    }
}

macro_rules! eqv {
    ($($t:ty),*) => { $(impl Eqv for $t { fn eqv(&self, o: &Self) -> bool { self == o } })* };
}
eqv!(bool, i8, i16, i32, i64, u8, u16, u32, u64, char, String, ());
eqv!(NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64);
impl Eqv for f32 { fn eqv(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() } }
impl Eqv for f64 { fn eqv(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() } }
impl<T: Eqv> Eqv for Option<T> {
    fn eqv(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.eqv(b),
            _ => false,
        }
    }
}
impl<T: Eqv> Eqv for Vec<T> { fn eqv(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.eqv(b)) } }
impl<T: Eqv, const N: usize> Eqv for [T; N] { fn eqv(&self, o: &Self) -> bool { self.iter().zip(o).all(|(a, b)| a.eqv(b)) } }
impl<A: Eqv, B: Eqv> Eqv for (A, B) { fn eqv(&self, o: &Self) -> bool { self.0.eqv(&o.0) && self.1.eqv(&o.1) } }
impl<A: Eqv, B: Eqv, C: Eqv> Eqv for (A, B, C) { fn eqv(&self, o: &Self) -> bool { self.0.eqv(&o.0) && self.1.eqv(&o.1) && self.2.eqv(&o.2) } }

impl Ty for bool {
    fn gen(r: &mut Rng, _: usize) -> Self { r.chance(1, 2) }
    fn wire(&self) -> J { J::Bool(*self) }
    fn read(j: &J) -> R<Self> { if let J::Bool(b) = j { Ok(*b) } else { Err(Rej::Err) } }
}

pub trait IntTy: Ty + Copy {
    const MIN: i128;
    const MAX: i128;
    const UMAX: u128;
    fn to_i128(self) -> i128;
}

macro_rules! ints {
    ($($t:ty, $u:ty, $nz:ty;)*) => { $(
        impl IntTy for $t {
            const MIN: i128 = <$t>::MIN as i128;
            const MAX: i128 = <$t>::MAX as i128;
            const UMAX: u128 = <$u>::MAX as u128;
            fn to_i128(self) -> i128 { self as i128 }
        }
        impl Ty for $t {
            fn gen(r: &mut Rng, _: usize) -> Self {
                match r.below(6) {
                    0 => <$t>::MIN,
                    1 => <$t>::MAX,
                    2 => r.below(12) as $t,
                    3 => (10 as $t).wrapping_pow(r.below(20) as u32),
                    _ => (r.next() >> r.below(64)) as $t,
                }
            }
            fn wire(&self) -> J { num(self) }
            fn read(j: &J) -> R<Self> {
                let J::Num(t) = j else { return Err(Rej::Err) };
                read_int(t, Self::MIN as i128, Self::MAX as i128, <$u>::MAX as u128).map(|x| x as $t)
            }
        }
        impl Ty for $nz {
            fn gen(r: &mut Rng, s: usize) -> Self {
                loop {
                    if let Some(x) = <$nz>::new(<$t as Ty>::gen(r, s)) { return x; }
                }
            }
            fn wire(&self) -> J { num(self.get()) }
            fn read(j: &J) -> R<Self> {
                let J::Num(t) = j else { return Err(Rej::Err) };
                if dec(t).digits.is_empty() { return Err(Rej::Err); }
                <$t as Ty>::read(j).and_then(|x| <$nz>::new(x).ok_or(Rej::Err))
            }
        }
    )* };
}
ints! {
    i8, u8, NonZeroI8; i16, u16, NonZeroI16; i32, u32, NonZeroI32; i64, u64, NonZeroI64;
    u8, u8, NonZeroU8; u16, u16, NonZeroU16; u32, u32, NonZeroU32; u64, u64, NonZeroU64;
}

macro_rules! floats {
    ($($t:ty, $bits:ty;)*) => { $(
        impl Ty for $t {
            fn gen(r: &mut Rng, _: usize) -> Self {
                loop {
                    let x = match r.below(8) {
                        0 => *r.pick(&[0.0, -0.0, 1.0, <$t>::MAX, <$t>::MIN, <$t>::MIN_POSITIVE, <$t>::EPSILON, 0.1, 1e21, 1e16, 1e-7]),
                        1 => <$t>::from_bits(1 + r.below(3) as $bits),
                        2 => r.range(-1000000, 1000000) as $t,
                        3 => r.range(-100000, 100000) as $t / 100.0,
                        _ => <$t>::from_bits(r.next() as $bits),
                    };
                    if x.is_finite() { return x; }
                }
            }
            fn wire(&self) -> J {
                // Rust's own shortest formatting: it denotes exactly this value when read back
                J::Num(format!("{:e}", self))
            }
            fn read(j: &J) -> R<Self> {
                let J::Num(t) = j else { return Err(Rej::Err) };
                Ok(t.parse().unwrap())
            }
        }
    )* };
}
floats! { f32, u32; f64, u64; }

impl Ty for char {
    fn gen(r: &mut Rng, _: usize) -> Self { gen_char(r) }
    fn wire(&self) -> J { J::Str(self.to_string()) }
    fn read(j: &J) -> R<Self> {
        let J::Str(s) = j else { return Err(Rej::Err) };
        let mut cs = s.chars();
        match (cs.next(), cs.next()) {
            (Some(c), None) => Ok(c),
            _ => Err(Rej::Err),
        }
    }
}

impl Ty for String {
    fn gen(r: &mut Rng, _: usize) -> Self { gen_string(r) }
    fn wire(&self) -> J { J::Str(self.clone()) }
    fn read(j: &J) -> R<Self> { if let J::Str(s) = j { Ok(s.clone()) } else { Err(Rej::Err) } }
}

impl Ty for () {
    fn gen(_: &mut Rng, _: usize) -> Self {}
    fn wire(&self) -> J { J::Obj(vec![]) }
    fn read(j: &J) -> R<Self> { read_struct(j) }
}
impl TyStruct for () {
    fn fields(&self, _: &mut Vec<(String, J)>) {}
    fn read_fields(_: &mut Src) -> R<Self> { Ok(()) }
}

impl<T: Ty> Ty for Option<T> {
    const NULLABLE: bool = true;
    fn gen(r: &mut Rng, s: usize) -> Self { if r.chance(1, 3) { None } else { Some(T::gen(r, s)) } }
    fn wire(&self) -> J {
        if T::NULLABLE {
            match self {
                None => J::Obj(vec![("has_value".into(), J::Bool(false))]),
                Some(x) => J::Obj(vec![("has_value".into(), J::Bool(true)), ("value".into(), x.wire())]),
            }
        } else {
            self.as_ref().map_or(J::Null, |x| x.wire())
        }
    }
    fn read(j: &J) -> R<Self> {
        if T::NULLABLE {
            let mut src = Src::open(j).ok_or(Rej::Err)?;
            let has: bool = src.field("has_value")?;
            let res = if has { Some(src.field("value")?) } else { None };
            src.finish().map_or(Ok(res), Err)
        } else if *j == J::Null {
            Ok(None)
        } else {
            T::read(j).map(Some)
        }
    }
    fn missing() -> R<Self> { if T::NULLABLE { Err(Rej::Err) } else { Ok(None) } }
    fn names(out: &mut Vec<&'static str>) {
        out.extend(["has_value", "value"]);
        T::names(out)
    }
}

fn read_all<T: Ty>(xs: &[J]) -> R<Vec<T>> {
    let mut res = vec![];
    let mut rej = None;
    for x in xs {
        match T::read(x) {
            Ok(x) => res.push(x),
            Err(e) => rej = worst(rej, Some(e)),
        }
    }
    rej.map_or(Ok(res), Err)
}

impl<T: Ty> Ty for Vec<T> {
    fn gen(r: &mut Rng, s: usize) -> Self {
        let n = if s == 0 { 0 } else if r.chance(1, 12) { r.below(20) } else { r.below(4) };
        (0..n).map(|_| T::gen(r, s - 1)).collect()
    }
    fn wire(&self) -> J { J::Arr(self.iter().map(|x| x.wire()).collect()) }
    fn read(j: &J) -> R<Self> { if let J::Arr(xs) = j { read_all(xs) } else { Err(Rej::Err) } }
    fn names(out: &mut Vec<&'static str>) { T::names(out) }
}

impl<T: Ty, const N: usize> Ty for [T; N] {
    fn gen(r: &mut Rng, s: usize) -> Self { std::array::from_fn(|_| T::gen(r, s)) }
    fn wire(&self) -> J { J::Arr(self.iter().map(|x| x.wire()).collect()) }
    fn read(j: &J) -> R<Self> {
        let J::Arr(xs) = j else { return Err(Rej::Err) };
        if xs.len() != N { return Err(Rej::Err); }
        Ok(read_all(xs)?.try_into().ok().unwrap())
    }
    fn names(out: &mut Vec<&'static str>) { T::names(out) }
}

impl<A: Ty, B: Ty> Ty for (A, B) {
    fn gen(r: &mut Rng, s: usize) -> Self { (A::gen(r, s), B::gen(r, s)) }
    fn wire(&self) -> J { J::Arr(vec![self.0.wire(), self.1.wire()]) }
    fn read(j: &J) -> R<Self> {
        let J::Arr(xs) = j else { return Err(Rej::Err) };
        if xs.len() != 2 { return Err(Rej::Err); }
        let (a, b) = (A::read(&xs[0]), B::read(&xs[1]));
        if let Some(rej) = worst(a.as_ref().err().copied(), b.as_ref().err().copied()) { return Err(rej); }
        Ok((a?, b?))
    }
    fn names(out: &mut Vec<&'static str>) { A::names(out); B::names(out) }
}

impl<A: Ty, B: Ty, C: Ty> Ty for (A, B, C) {
    fn gen(r: &mut Rng, s: usize) -> Self { (A::gen(r, s), B::gen(r, s), C::gen(r, s)) }
    fn wire(&self) -> J { J::Arr(vec![self.0.wire(), self.1.wire(), self.2.wire()]) }
    fn read(j: &J) -> R<Self> {
        let J::Arr(xs) = j else { return Err(Rej::Err) };
        if xs.len() != 3 { return Err(Rej::Err); }
        let (a, b, c) = (A::read(&xs[0]), B::read(&xs[1]), C::read(&xs[2]));
        let rej = worst(a.as_ref().err().copied(), b.as_ref().err().copied());
        if let Some(rej) = worst(rej, c.as_ref().err().copied()) { return Err(rej); }
        Ok((a?, b?, c?))
    }
    fn names(out: &mut Vec<&'static str>) { A::names(out); B::names(out); C::names(out) }
}

// ---- Derived types ----------------------------------------------------------------------------

macro_rules! rd {
    ($src:ident, (flat), $t:ty) => { <$t as TyStruct>::read_fields($src) };
    ($src:ident, (default $n:literal), $t:ty) => { $src.field_default::<$t>($n) };
    ($src:ident, ($n:literal), $t:ty) => { $src.field::<$t>($n) };
}
macro_rules! wr {
    ($out:ident, (flat), $v:expr) => { $v.fields($out) };
    ($out:ident, (default $n:literal), $v:expr) => { $out.push(($n.to_string(), $v.wire())) };
    ($out:ident, ($n:literal), $v:expr) => { $out.push(($n.to_string(), $v.wire())) };
}
macro_rules! nm {
    ($out:ident, (flat), $t:ty) => { <$t as Ty>::names($out) };
    ($out:ident, (default $n:literal), $t:ty) => { $out.push($n); <$t as Ty>::names($out) };
    ($out:ident, ($n:literal), $t:ty) => { $out.push($n); <$t as Ty>::names($out) };
}
macro_rules! strukt {
    ($(@[$g:ident])? $name:ty { $($f:ident: $t:ty => $w:tt),* $(,)? }) => {
        impl $(<$g: Ty>)? Eqv for $name {
            #[allow(unused_variables)]
            fn eqv(&self, o: &Self) -> bool { true $(&& self.$f.eqv(&o.$f))* }
        }
        impl $(<$g: Ty>)? Ty for $name {
            #[allow(unused_variables)]
            fn gen(r: &mut Rng, s: usize) -> Self {
                let s = s.saturating_sub(1);
                Self { $($f: <$t as Ty>::gen(r, s)),* }
            }
            fn wire(&self) -> J {
                let mut out = vec![];
                self.fields(&mut out);
                J::Obj(out)
            }
            fn read(j: &J) -> R<Self> { read_struct(j) }
            #[allow(unused_variables)]
            fn names(out: &mut Vec<&'static str>) { $(nm!(out, $w, $t);)* }
        }
        impl $(<$g: Ty>)? TyStruct for $name {
            #[allow(unused_variables)]
            fn fields(&self, out: &mut Vec<(String, J)>) { $(wr!(out, $w, self.$f);)* }
            #[allow(unused_variables)]
            fn read_fields(src: &mut Src) -> R<Self> {
                let rej: Option<Rej> = None;
                $(let $f: R<$t> = rd!(src, $w, $t); let rej = worst(rej, $f.as_ref().err().copied());)*
                if let Some(rej) = rej { return Err(rej); }
                Ok(Self { $($f: $f?),* })
            }
        }
    };
}

#[derive(Debug, Serialize, Deserialize)]
pub struct Empty {}
strukt!(Empty {});

#[derive(Debug, Serialize, Deserialize)]
pub struct UnitS;
impl Eqv for UnitS { fn eqv(&self, _: &Self) -> bool { true } }
impl Ty for UnitS {
    fn gen(_: &mut Rng, _: usize) -> Self { UnitS }
    fn wire(&self) -> J { J::Obj(vec![]) }
    fn read(j: &J) -> R<Self> { read_struct(j) }
}
impl TyStruct for UnitS {
    fn fields(&self, _: &mut Vec<(String, J)>) {}
    fn read_fields(_: &mut Src) -> R<Self> { Ok(UnitS) }
}

#[derive(Debug, Serialize, Deserialize)]
pub struct P { pub x: i32, pub y: f64 }
strukt!(P { x: i32 => ("x"), y: f64 => ("y") });

#[derive(Debug, Serialize, Deserialize)]
pub struct Prims { a: bool, b: i8, c: i16, d: i64, e: u8, f: u16, g: u32, h: u64, i: f32, j: char, k: String, l: () }
strukt!(Prims { a: bool => ("a"), b: i8 => ("b"), c: i16 => ("c"), d: i64 => ("d"), e: u8 => ("e"), f: u16 => ("f"), g: u32 => ("g"), h: u64 => ("h"), i: f32 => ("i"), j: char => ("j"), k: String => ("k"), l: () => ("l") });

#[derive(Debug, Serialize, Deserialize)]
pub struct NzS { a: NonZeroI8, b: NonZeroI16, c: NonZeroI32, d: NonZeroI64, e: NonZeroU8, f: Option<NonZeroU16>, g: Vec<NonZeroU32>, h: NonZeroU64 }
strukt!(NzS { a: NonZeroI8 => ("a"), b: NonZeroI16 => ("b"), c: NonZeroI32 => ("c"), d: NonZeroI64 => ("d"), e: NonZeroU8 => ("e"), f: Option<NonZeroU16> => ("f"), g: Vec<NonZeroU32> => ("g"), h: NonZeroU64 => ("h") });

#[derive(Debug, Serialize, Deserialize)]
pub struct Opts {
    a: Option<u8>,
    b: Option<Option<bool>>,
    #[serde(default)]
    c: u32,
    #[serde(default)]
    d: Vec<String>,
    e: String,
    #[serde(default)]
    f: bool,
    g: Option<Option<Option<u8>>>,
}
strukt!(Opts { a: Option<u8> => ("a"), b: Option<Option<bool>> => ("b"), c: u32 => (default "c"), d: Vec<String> => (default "d"), e: String => ("e"), f: bool => (default "f"), g: Option<Option<Option<u8>>> => ("g") });

/// Read through a proxy type: a `u16` (or `Option<u8>`), never null itself.
#[derive(Debug, Default)]
pub struct Prox(u64);
impl From<u16> for Prox { fn from(x: u16) -> Self { Prox(x as u64 * 3) } }
impl Eqv for Prox { fn eqv(&self, o: &Self) -> bool { self.0 == o.0 } }
impl Ty for Prox {
    fn gen(r: &mut Rng, s: usize) -> Self { <u16 as Ty>::gen(r, s).into() }
    fn wire(&self) -> J { ((self.0 / 3) as u16).wire() }
    fn read(j: &J) -> R<Self> { <u16 as Ty>::read(j).map(|x| x.into()) }
}
#[derive(Serialize)]
struct ProxiedOut { a: u16, b: u16, c: Option<u8>, #[serde(rename = "")] d: u16 }
impl<S: serdere::Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for Proxied {
    const NULLABLE: bool = false;
    fn serialize(&self, value: serdere::Value<S>, ctx: &mut Ctx) -> Result<(), S::Error> {
        let f = |p: &Prox| (p.0 / 3) as u16;
        ProxiedOut { a: f(&self.a), b: f(&self.b), c: self.c, d: f(&self.d) }.serialize(value, ctx)
    }
}
#[derive(Debug, Deserialize)]
pub struct Proxied { #[serde(proxy = u16)] a: Prox, #[serde(default, proxy = u16)] b: Prox, c: Option<u8>, #[serde(rename = "", default, proxy = u16)] d: Prox }
strukt!(Proxied { a: Prox => ("a"), b: Prox => (default "b"), c: Option<u8> => ("c"), d: Prox => (default "") });

#[derive(Debug, Serialize, Deserialize)]
pub struct OptsOnly { a: Option<u8>, b: Option<P>, #[serde(default)] c: f64, d: Option<Vec<Option<bool>>>, e: Option<()> }
strukt!(OptsOnly { a: Option<u8> => ("a"), b: Option<P> => ("b"), c: f64 => (default "c"), d: Option<Vec<Option<bool>>> => ("d"), e: Option<()> => ("e") });

#[derive(Debug, Serialize, Deserialize)]
pub struct Ren {
    #[serde(rename = "type")]
    kind: String,
    #[serde(rename = "weird \" name\n")]
    odd: bool,
    #[serde(rename = "")]
    empty: u8,
    #[serde(rename = "é😀")]
    uni: Option<char>,
    #[serde(rename = "kind")]
    swapped: Vec<u8>,
    _under: i16,
    #[allow(non_snake_case)]
    CamelCase: (),
}
strukt!(Ren { kind: String => ("type"), odd: bool => ("weird \" name\n"), empty: u8 => (""), uni: Option<char> => ("é😀"), swapped: Vec<u8> => ("kind"), _under: i16 => ("_under"), CamelCase: () => ("CamelCase") });

#[derive(Debug, Serialize, Deserialize)]
pub struct Flat { pre: u8, #[serde(flatten)] p: P, post: Option<String>, #[serde(flatten)] q: Inner }
strukt!(Flat { pre: u8 => ("pre"), p: P => (flat), post: Option<String> => ("post"), q: Inner => (flat) });

#[derive(Debug, Serialize, Deserialize)]
pub struct Inner { #[serde(rename = "in")] i: Tag, #[serde(flatten)] u: UnitS, z: (u8, bool) }
strukt!(Inner { i: Tag => ("in"), u: UnitS => (flat), z: (u8, bool) => ("z") });

#[derive(Debug, Serialize, Deserialize)]
pub struct FlatEnum { id: u32, #[serde(flatten)] shape: Shape, last: Option<u8> }
strukt!(FlatEnum { id: u32 => ("id"), shape: Shape => (flat), last: Option<u8> => ("last") });

#[derive(Debug, Serialize, Deserialize)]
pub struct Gen<T> { v: T, w: Vec<T>, o: Option<u8> }
impl<T: Ty> Gen<T> { pub fn v(self) -> T { self.v } }
impl Gen<Vec<String>> { pub fn strings(&self) -> Vec<&String> { self.v.iter().chain(self.w.iter().flatten()).collect() } }
strukt!(@[T] Gen<T> { v: T => ("v"), w: Vec<T> => ("w"), o: Option<u8> => ("o") });

#[derive(Debug, Serialize, Deserialize)]
pub struct Deep { m: Flat, s: Vec<Shape>, t: (u8, Shape), a: [Tag; 3], n: Option<P>, k: Kinds, e: Vec<Empty>, g: Gen<(i8, String, Option<bool>)> }
strukt!(Deep { m: Flat => ("m"), s: Vec<Shape> => ("s"), t: (u8, Shape) => ("t"), a: [Tag; 3] => ("a"), n: Option<P> => ("n"), k: Kinds => ("k"), e: Vec<Empty> => ("e"), g: Gen<(i8, String, Option<bool>)> => ("g") });

#[derive(Debug, Serialize, Deserialize)]
pub struct Strs { aa: String, ab: String, b: char, c: Vec<char>, d: Option<String> }
impl Strs { pub fn strings(&self) -> Vec<&String> { [&self.aa, &self.ab].into_iter().chain(&self.d).collect() } }
strukt!(Strs { aa: String => ("aa"), ab: String => ("ab"), b: char => ("b"), c: Vec<char> => ("c"), d: Option<String> => ("d") });

#[derive(Debug, Serialize, Deserialize)]
pub struct Nums { a: f32, b: f64, c: u8, d: i64, e: u64, f: Vec<f64>, g: i32, h: i8 }
strukt!(Nums { a: f32 => ("a"), b: f64 => ("b"), c: u8 => ("c"), d: i64 => ("d"), e: u64 => ("e"), f: Vec<f64> => ("f"), g: i32 => ("g"), h: i8 => ("h") });

// ---- Enums -------------------------------------------------------------------------------------

/// Reads a tag: an exact name, or the index of a variant.
pub fn read_tag(j: &J, table: &[(&str, u64)]) -> R<usize> {
    match j {
        J::Str(s) => table.iter().position(|t| t.0 == s).ok_or(Rej::Err),
        J::Num(_) => {
            let x = u64::read(j)?;
            table.iter().position(|t| t.1 == x).ok_or(Rej::Err)
        }
        _ => Err(Rej::Err),
    }
}

pub trait TagTy: Ty {
    fn table() -> &'static [(&'static str, u64)];
}

macro_rules! tag {
    ($name:ident { $($v:ident => $w:literal $i:literal),* $(,)? }) => {
        impl Eqv for $name {
            fn eqv(&self, o: &Self) -> bool { format!("{:?}", self) == format!("{:?}", o) }
        }
        impl TagTy for $name {
            fn table() -> &'static [(&'static str, u64)] { &[$(($w, $i)),*] }
        }
        impl Ty for $name {
            fn gen(r: &mut Rng, _: usize) -> Self {
                let all = [$(|| $name::$v),*];
                all[r.below(all.len())]()
            }
            fn wire(&self) -> J {
                match self { $($name::$v => str($w)),* }
            }
            fn read(j: &J) -> R<Self> {
                let all = [$(|| $name::$v),*];
                read_tag(j, Self::table()).map(|i| all[i]())
            }
        }
    };
}

#[derive(Debug, Serialize, Deserialize)]
pub enum Tag { A, B, C }
tag!(Tag { A => "A" 0, B => "B" 1, C => "C" 2 });

#[derive(Debug, Serialize, Deserialize)]
pub enum Tag1 { Only }
tag!(Tag1 { Only => "Only" 0 });

#[derive(Debug, Serialize, Deserialize)]
pub enum Tag2 {
    First = 3,
    Second,
    #[serde(rename = "bee")]
    Third,
    #[serde(reindex = 40)]
    Fourth,
    Fifth,
    #[serde(rename = "B\u{e9}\n\"")]
    Sixth = 100,
    #[serde(rename = "")]
    Seventh = 0,
    #[serde(rename = "bees")]
    Eighth,
}
tag!(Tag2 { First => "First" 3, Second => "Second" 4, Third => "bee" 5, Fourth => "Fourth" 40, Fifth => "Fifth" 7, Sixth => "B\u{e9}\n\"" 100, Seventh => "" 0, Eighth => "bees" 1 });

#[derive(Debug, Serialize, Deserialize)]
pub enum Tag3 { Zeta, Yak, Xylo, Wax, Vim, Ulna, Tea, Sea, Roe, Que, Pea, #[serde(rename = "Zet")] Oh, #[serde(rename = "Zetas")] Nu }
tag!(Tag3 { Zeta => "Zeta" 0, Yak => "Yak" 1, Xylo => "Xylo" 2, Wax => "Wax" 3, Vim => "Vim" 4, Ulna => "Ulna" 5, Tea => "Tea" 6, Sea => "Sea" 7, Roe => "Roe" 8, Que => "Que" 9, Pea => "Pea" 10, Oh => "Zet" 11, Nu => "Zetas" 12 });

macro_rules! enom {
    ($name:ident $tag:literal { $($i:literal $v:ident $w:literal ($($f:ident: $t:ty => $fw:tt),*)),* $(,)? }) => {
        impl Eqv for $name {
            fn eqv(&self, o: &Self) -> bool {
                match (self, o) {
                    $(($name::$v { $($f,)* }, o) => {
                        #[allow(unused_variables)]
                        let me = ($($f,)*);
                        if let $name::$v { $($f,)* } = o {
                            let other = ($($f,)*);
                            enom!(@cmp me other ($($f)*))
                        } else { false }
                    })*
                }
            }
        }
        impl TagTy for $name {
            fn table() -> &'static [(&'static str, u64)] { &[$(($w, $i)),*] }
        }
        impl Ty for $name {
            fn gen(r: &mut Rng, s: usize) -> Self {
                let all: [fn(&mut Rng, usize) -> $name; [$($i),*].len()] = [$(|_r, _s| $name::$v { $($f: <$t as Ty>::gen(_r, _s)),* }),*];
                let i = r.below(all.len());
                all[i](r, s.saturating_sub(1))
            }
            fn wire(&self) -> J {
                let mut out = vec![];
                self.fields(&mut out);
                J::Obj(out)
            }
            fn read(j: &J) -> R<Self> { read_struct(j) }
            fn names(out: &mut Vec<&'static str>) { out.push($tag); $($(nm!(out, $fw, $t);)*)* }
        }
        impl TyStruct for $name {
            fn fields(&self, out: &mut Vec<(String, J)>) {
                match self { $($name::$v { $($f),* } => {
                    out.push(($tag.to_string(), str($w)));
                    $(wr!(out, $fw, $f);)*
                }),* }
            }
            fn read_fields(src: &mut Src) -> R<Self> {
                let Some(j) = src.take($tag)? else { return Err(Rej::Err) };
                let i = read_tag(j, Self::table())?;
                let all: [fn(&mut Src) -> R<$name>; [$($i),*].len()] = [$(|_src| {
                    let rej: Option<Rej> = None;
                    $(let $f: R<$t> = rd!(_src, $fw, $t); let rej = worst(rej, $f.as_ref().err().copied());)*
                    if let Some(rej) = rej { return Err(rej); }
                    Ok($name::$v { $($f: $f?),* })
                }),*];
                all[i](src)
            }
        }
    };
    (@cmp $a:ident $b:ident ()) => { { let _ = (&$a, &$b); true } };
    (@cmp $a:ident $b:ident ($f0:ident)) => { $a.0.eqv($b.0) };
    (@cmp $a:ident $b:ident ($f0:ident $f1:ident)) => { $a.0.eqv($b.0) && $a.1.eqv($b.1) };
    (@cmp $a:ident $b:ident ($f0:ident $f1:ident $f2:ident)) => { $a.0.eqv($b.0) && $a.1.eqv($b.1) && $a.2.eqv($b.2) };
}

#[derive(Debug, Serialize, Deserialize)]
pub enum Shape {
    Nothing,
    Circle { radius: f64 },
    Rect { w: u32, #[serde(rename = "height")] h: u32, #[serde(default)] fill: bool },
    #[serde(transparent)]
    Point { inner: P },
    Poly { pts: Vec<P>, name: Option<String> },
}
enom!(Shape "type" {
    0 Nothing "Nothing" (),
    1 Circle "Circle" (radius: f64 => ("radius")),
    2 Rect "Rect" (w: u32 => ("w"), h: u32 => ("height"), fill: bool => (default "fill")),
    3 Point "Point" (inner: P => (flat)),
    4 Poly "Poly" (pts: Vec<P> => ("pts"), name: Option<String> => ("name")),
});

#[derive(Debug, Serialize, Deserialize)]
#[serde(tag = "kind")]
pub enum Kinds {
    One,
    #[serde(rename = "two", reindex = 9)]
    Two,
    Three { #[serde(flatten)] t: P, v: (u8, u8) } ,
}
enom!(Kinds "kind" {
    0 One "One" (),
    9 Two "two" (),
    2 Three "Three" (t: P => (flat), v: (u8, u8) => ("v")),
});

#[derive(Debug, Serialize, Deserialize)]
#[serde(tag = "t", rename = "Other")]
pub enum OnlyUnits { X, Y }
enom!(OnlyUnits "t" { 0 X "X" (), 1 Y "Y" () });

/// Calls a macro with every type of the family.
#[macro_export]
macro_rules! for_all_types {
    ($m:ident) => {
        $m!(bool); $m!(i8); $m!(i16); $m!(i32); $m!(i64); $m!(u8); $m!(u16); $m!(u32); $m!(u64);
        $m!(f32); $m!(f64); $m!(char); $m!(String); $m!(());
        $m!(std::num::NonZeroI8); $m!(std::num::NonZeroU64); $m!(std::num::NonZeroI32); $m!(std::num::NonZeroU16);
        $m!(std::num::NonZeroU8); $m!(std::num::NonZeroI64); $m!(std::num::NonZeroU32); $m!(std::num::NonZeroI16);
        $m!(Option<bool>); $m!(Option<Option<u8>>); $m!(Option<Option<Option<String>>>); $m!(Option<()>); $m!(Option<Vec<Option<P>>>);
        $m!((u8, String)); $m!((Option<bool>, [i8; 2])); $m!((f64, char, Vec<u8>)); $m!(((u8, u8, u8), (), Option<f32>));
        $m!([u32; 0]); $m!([u32; 1]); $m!([i16; 2]); $m!([String; 3]); $m!([[bool; 2]; 5]);
        $m!(Vec<u8>); $m!(Vec<String>); $m!(Vec<Vec<f64>>); $m!(Vec<()>); $m!(Vec<(bool, P)>); $m!(Vec<Option<Option<i8>>>);
        for_struct_types!($m);
        $m!(Tag); $m!(Tag1); $m!(Tag2); $m!(Tag3); $m!(Vec<Tag2>); $m!(Option<Tag>);
    };
}
/// ... with the struct-like ones.
#[macro_export]
macro_rules! for_struct_types {
    ($m:ident) => {
        $m!(Empty); $m!(UnitS); $m!(P); $m!(Prims); $m!(NzS); $m!(Opts); $m!(OptsOnly); $m!(Proxied); $m!(Ren); $m!(Flat); $m!(FlatEnum);
        $m!(Gen<bool>); $m!(Gen<P>); $m!(Deep); $m!(Strs); $m!(Nums); $m!(Shape); $m!(Kinds); $m!(OnlyUnits);
        $m!(Vec<Shape>); $m!(Vec<Flat>); $m!(Option<Opts>); $m!((P, Shape)); $m!([Kinds; 2]);
    };
}
