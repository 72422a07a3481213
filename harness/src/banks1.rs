//! Banks of cases, one function per property (typed and text-level ones).
use crate::ctx::*;
use crate::drive::*;
use crate::json::*;
use crate::types::*;
use crate::{for_all_types, for_struct_types};
use serdere::*;
use serdere_json::*;

const INDENTS: [&str; 5] = ["", " ", "\t", "    ", " \t "];

fn indent(r: &mut Rng) -> Option<&'static str> {
    if r.chance(1, 2) { None } else { Some(*r.pick(&INDENTS)) }
}

/// A random change of a tree (kinds, presence, arity, positional form, extra entries).
pub fn mutate_tree(j: &J, r: &mut Rng, names: &[&'static str]) -> J {
    if r.chance(1, 3) {
        return match (r.below(10), j) {
            (0, _) => J::Null,
            (1, J::Obj(xs)) => J::Arr(xs.iter().map(|x| x.1.clone()).collect()),
            (2, J::Obj(xs)) if !xs.is_empty() => {
                let mut xs = xs.clone();
                let i = r.below(xs.len());
                xs.remove(i);
                J::Obj(xs)
            }
            (3, J::Obj(xs)) => {
                let mut xs = xs.clone();
                let k = if r.chance(1, 2) && !names.is_empty() { r.pick(names).to_string() } else { gen_string(r) };
                if !xs.iter().any(|x| x.0 == k) {
                    let i = r.below(xs.len() + 1);
                    xs.insert(i, (k, gen(r, 2)));
                }
                J::Obj(xs)
            }
            (4, J::Arr(xs)) if !xs.is_empty() => {
                let mut xs = xs.clone();
                let i = r.below(xs.len());
                if r.chance(1, 2) { xs.remove(i); } else { let x = xs[i].clone(); xs.insert(i, x); }
                J::Arr(xs)
            }
            (5, J::Str(s)) => {
                let t = mutate(s, r);
                J::Str(t)
            }
            (5, J::Num(_)) => J::Num(gen_num(r)),
            (6, _) => J::Num(r.below(8).to_string()),
            (7, J::Bool(b)) => J::Bool(!b),
            (8, J::Obj(xs)) if !xs.is_empty() => {
                let mut xs = xs.clone();
                let i = r.below(xs.len());
                xs[i].1 = J::Null;
                J::Obj(xs)
            }
            _ => gen(r, 2),
        };
    }
    match j {
        J::Arr(xs) if !xs.is_empty() => {
            let mut xs = xs.clone();
            let i = r.below(xs.len());
            xs[i] = mutate_tree(&xs[i], r, names);
            J::Arr(xs)
        }
        J::Obj(xs) if !xs.is_empty() => {
            let mut xs = xs.clone();
            let i = r.below(xs.len());
            xs[i].1 = mutate_tree(&xs[i].1, r, names);
            J::Obj(xs)
        }
        _ => j.clone(),
    }
}

/// Turns structs into their positional form at random (objects to arrays of their values).
pub fn positional(j: &J, r: &mut Rng) -> J {
    match j {
        J::Arr(xs) => J::Arr(xs.iter().map(|x| positional(x, r)).collect()),
        J::Obj(xs) => {
            if r.chance(1, 2) {
                J::Arr(xs.iter().map(|x| positional(&x.1, r)).collect())
            } else {
                J::Obj(xs.iter().map(|x| (x.0.clone(), positional(&x.1, r))).collect())
            }
        }
        j => j.clone(),
    }
}

fn style(r: &mut Rng) -> Style {
    Style { ws: r.chance(1, 2), esc: r.chance(1, 3), comments: false }
}

// ---- C01 ---------------------------------------------------------------------------------------

pub fn c01(c: &mut Ctx) {
    let n = c.n(120);
    macro_rules! t {
        ($t:ty) => {
            for _ in 0..n {
                let mut r = c.rng.fork();
                let x = <$t as Ty>::gen(&mut r, 4);
                let input = format!("{} = {:?}", stringify!($t), x);
                let ind = indent(&mut r);
                c.case(&input, true, || {
                    let want: R<$t> = <$t as Ty>::read(&x.wire()); // the value itself, by its layout
                    let want = match want { Ok(y) if y.eqv(&x) => Ok(y), w => { debug_assert!(false, "reference {:?}", w); w } };
                    let text = ser(&x);
                    expect(de::<$t>(&text), &want, &format!("compact {:?}", text))?;
                    let text = ser_indent(&x, ind);
                    expect(de::<$t>(&text), &want, &format!("indented {:?}", text))?;
                    let bytes = ser_bytes(&x, ind, r.fork());
                    expect(de_stream::<$t>(&bytes, r.fork()), &want, &format!("stream {:?}", String::from_utf8_lossy(&bytes)))
                });
            }
        };
    }
    for_all_types!(t);
    // Every char, and every number of the small types
    for u in 0..0x110000u32 {
        let Some(ch) = char::from_u32(u) else { continue };
        if u > 0x3000 && !c.thorough && u % 61 != 0 { continue }
        c.each(&|| format!("char {:?}", ch), || expect(de::<char>(&ser(&ch)), &Ok(ch), "char"));
    }
    for x in i16::MIN..=i16::MAX {
        c.each(&|| format!("i16 {}", x), || {
            expect(de::<i16>(&ser(&x)), &Ok(x), "i16")?;
            expect(de::<u16>(&ser(&(x as u16))), &Ok(x as u16), "u16")?;
            expect(de::<i8>(&ser(&(x as i8))), &Ok(x as i8), "i8")
        });
    }
    for _ in 0..c.n(40000) {
        let b = c.rng.next();
        c.case(&format!("float bits {:x}", b), true, || {
            let x = f64::from_bits(b);
            if x.is_finite() { expect(de::<f64>(&ser(&x)), &Ok(x), "f64")?; }
            let y = f32::from_bits(b as u32);
            if y.is_finite() { expect(de::<f32>(&ser(&y)), &Ok(y), "f32")?; }
            let i = b as i64 >> (b % 64);
            expect(de::<i64>(&ser(&i)), &Ok(i), "i64")?;
            expect(de::<u64>(&ser(&(i as u64))), &Ok(i as u64), "u64")?;
            expect(de::<i32>(&ser(&(i as i32))), &Ok(i as i32), "i32")?;
            expect(de::<u32>(&ser(&(i as u32))), &Ok(i as u32), "u32")
        });
    }
    for x in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
        if de::<f64>(&ser(&x)).is_err() {
            c.known("non-finite-floats", format!("to_str(&{:?}) = {:?}", x, ser(&x)));
        }
    }
}

// ---- C02 ---------------------------------------------------------------------------------------

/// Writes a tree through a random choice of the serializer's operations.
pub fn write_tree<W: TextWriter>(v: Value<TextSerializer<W>>, j: &J, r: &mut Rng) -> Result<(), W::Error> {
    match j {
        J::Null => v.into_null(),
        J::Bool(b) => v.put_bool(*b),
        J::Num(t) => {
            let d = dec(t);
            if t.contains(['.', 'e', 'E']) || (d.neg && d.digits.is_empty()) {
                // Only texts produced by `round` below: exact floats
                return if r.chance(1, 2) && t.parse::<f32>().unwrap() as f64 == t.parse::<f64>().unwrap() && same_num(&format!("{:e}", t.parse::<f32>().unwrap()), t) { v.put_f32(t.parse().unwrap()) } else { v.put_f64(t.parse().unwrap()) };
            }
            let x: i128 = t.parse().unwrap();
            let mut fits: Vec<usize> = vec![];
            macro_rules! f { ($i:expr, $t:ty) => { if <$t>::try_from(x).is_ok() { fits.push($i) } } }
            f!(0, i8); f!(1, i16); f!(2, i32); f!(3, i64); f!(4, u8); f!(5, u16); f!(6, u32); f!(7, u64);
            match *r.pick(&fits) {
                0 => v.put_i8(x as i8),
                1 => v.put_i16(x as i16),
                2 => v.put_i32(x as i32),
                3 => v.put_i64(x as i64),
                4 => v.put_u8(x as u8),
                5 => v.put_u16(x as u16),
                6 => v.put_u32(x as u32),
                _ if r.chance(1, 3) => v.put_tag(usize::MAX, x as usize, None),
                _ => v.put_u64(x as u64),
            }
        }
        J::Str(s) => {
            let mut cs = s.chars();
            match (cs.next(), cs.next()) {
                (Some(ch), None) if r.chance(1, 2) => return v.put_char(ch),
                _ => (),
            }
            if r.chance(1, 2) {
                return v.put_str(s);
            }
            let (d, done) = v.into_raw();
            d.open_str()?;
            pieces(d, s, r)?;
            d.close_str()?;
            *done = true;
            Ok(())
        }
        J::Arr(xs) => {
            match r.below(3) {
                0 => {
                    let mut l = v.into_list_sized(xs.len())?;
                    for x in xs { write_tree(l.push()?, x, r)?; }
                    l.close()
                }
                1 => {
                    let mut l = v.into_list_streaming()?;
                    for x in xs { write_tree(l.push()?, x, r)?; }
                    l.close()
                }
                _ => {
                    let mut l = v.into_tuple(None)?;
                    for x in xs { write_tree(l.element()?, x, r)?; }
                    l.close()
                }
            }
        }
        J::Obj(xs) => {
            if r.chance(1, 3) {
                let mut st = v.into_struct(Some("name"))?;
                for (k, x) in xs {
                    // Field names are static: leak (bounded)
                    let k: &'static str = match KEYS.iter().find(|s| *s == k) { Some(s) => s, None => Box::leak(k.clone().into_boxed_str()) };
                    write_tree(st.field(k)?, x, r)?;
                }
                st.close()
            } else if r.chance(1, 2) {
                let mut o = v.into_object()?;
                for (k, x) in xs { write_tree(o.entry(k)?, x, r)?; }
                o.close()
            } else {
                let (d, done) = v.into_raw();
                d.open_object()?;
                for (k, x) in xs {
                    d.add_entry()?;
                    pieces(d, k, r)?;
                    d.close_str()?;
                    let mut inner = false;
                    write_tree(Value::new(d, &mut inner), x, r)?;
                    assert!(inner, "done flag not set");
                }
                d.close_object()?;
                *done = true;
                Ok(())
            }
        }
    }
}

fn pieces<W: TextWriter>(d: &mut TextSerializer<W>, s: &str, r: &mut Rng) -> Result<(), W::Error> {
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if r.chance(1, 2) {
            d.append_char(cs[i])?;
            i += 1;
        } else {
            let n = 1 + r.below(cs.len() - i);
            d.append_str(&cs[i..i + n].iter().collect::<String>())?;
            i += n;
        }
    }
    Ok(())
}

/// Restricts numbers to writable ones: 64-bit integers and floats.
pub fn writable(j: &J) -> J {
    match j {
        J::Num(t) => {
            if let Int::Exact(x) = int_value(t) {
                if x >= i64::MIN as i128 && x <= u64::MAX as i128 && !(x == 0 && t.starts_with('-')) {
                    return num(x);
                }
            }
            let f: f64 = t.parse().unwrap();
            let f = if f.is_finite() { f } else { 1.5 };
            J::Num(format!("{:e}", f))
        }
        J::Arr(xs) => J::Arr(xs.iter().map(writable).collect()),
        J::Obj(xs) => J::Obj(xs.iter().map(|x| (x.0.clone(), writable(&x.1))).collect()),
        j => j.clone(),
    }
}

pub fn write_doc(j: &J, ind: Option<&'static str>, r: &mut Rng) -> String {
    let mut out = String::new();
    let mut s = TextSerializer::new(TextSerializerConfig { indent: ind }, &mut out);
    Value::with(&mut s, |v| write_tree(v, j, r)).unwrap();
    s.close();
    out
}

pub fn c02(c: &mut Ctx) {
    for i in 0..c.n(25000) {
        let mut r = c.rng.fork();
        let j = writable(&gen(&mut r, if i % 50 == 0 { 8 } else { 4 }));
        let ind = indent(&mut r);
        c.case(&format!("{} indent {:?}", plain(&j), ind), !matches!(j, J::Null | J::Bool(_)), || {
            let text = write_doc(&j, ind, &mut r);
            match parse(&text) {
                None => Err(format!("not well-formed: {:?}", text)),
                Some(k) if same_values(&j, &k) => Ok(()),
                Some(_) => Err(format!("written text denotes something else: {:?}", text)),
            }
        });
    }
    let n = c.n(60);
    macro_rules! t {
        ($t:ty) => {
            for _ in 0..n {
                let mut r = c.rng.fork();
                let x = <$t as Ty>::gen(&mut r, 4);
                let ind = indent(&mut r);
                c.case(&format!("{} = {:?} indent {:?}", stringify!($t), x, ind), true, || {
                    let text = ser_indent(&x, ind);
                    match parse(&text) {
                        None => Err(format!("not well-formed: {:?}", text)),
                        Some(k) if same_values(&x.wire(), &k) => Ok(()),
                        Some(_) => Err(format!("{:?} does not denote the value {}", text, plain(&x.wire()))),
                    }
                });
            }
        };
    }
    for_all_types!(t);
    for x in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
        if parse(&ser(&x)).is_none() {
            c.known("non-finite-floats", format!("to_str(&{:?}) = {:?}", x, ser(&x)));
        }
    }
}

/// As `same`, but float texts may differ as long as they are read alike.
pub fn same_values(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Num(a), J::Num(b)) => {
            same_num(a, b)
                || a.contains(['.', 'e', 'E'])
                    && (a.parse::<f64>().unwrap().to_bits() == b.parse::<f64>().unwrap().to_bits()
                        // Different shortest texts of the same f32
                        || dec(a).digits.len() <= 9 && dec(b).digits.len() <= 9 && a.parse::<f32>().unwrap().to_bits() == b.parse::<f32>().unwrap().to_bits())
        }
        (J::Arr(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_values(a, b)),
        (J::Obj(a), J::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && same_values(&a.1, &b.1)),
        (a, b) => a == b,
    }
}

// ---- C03 ---------------------------------------------------------------------------------------

pub fn c03(c: &mut Ctx) {
    let n = c.n(700);
    macro_rules! t {
        ($t:ty) => {
            let mut names = vec![];
            <$t as Ty>::names(&mut names);
            for i in 0..n {
                let mut r = c.rng.fork();
                let mut j = <$t as Ty>::gen(&mut r, 4).wire();
                for _ in 0..i % 3 { j = mutate_tree(&j, &mut r, &names); }
                let p = permute(&j, &mut r);
                let st = style(&mut r);
                let (a, b) = (text(&j, &mut r, st), text(&p, &mut r, st));
                c.case(&format!("{}: {:?} / {:?}", stringify!($t), a, b), a != b, || {
                    let want = <$t as Ty>::read(&j);
                    expect(de::<$t>(&a), &want, "first order")?;
                    expect(de::<$t>(&b), &want, "second order")?;
                    expect(de_stream::<$t>(b.as_bytes(), r.fork()), &want, "second order, stream")?;
                    if want.as_ref().err() == Some(&Rej::Unspec) {
                        // Still the same outcome in both orders
                        match (de::<$t>(&a), de::<$t>(&b)) {
                            (Ok(x), Ok(y)) if x.eqv(&y) => (),
                            (Err(_), Err(_)) => (),
                            (x, y) => return Err(format!("{:?} in the first order, {:?} in the second", x, y)),
                        }
                    }
                    Ok(())
                });
            }
        };
    }
    for_struct_types!(t);
    // Generic documents, read by key
    for i in 0..c.n(40000) {
        let mut r = c.rng.fork();
        let j = gen(&mut r, if i % 20 == 0 { 7 } else { 4 });
        let p = permute(&j, &mut r);
        let st = style(&mut r);
        let t = text(&p, &mut r, st);
        let mode = *r.pick(&[Mode::Keys, Mode::Mixed, Mode::Keys]);
        c.case(&t, matches!(j, J::Obj(_) | J::Arr(_)), || check_walk(&t, false, &Some(p), &mut r, mode));
    }
}

// ---- C04 ---------------------------------------------------------------------------------------

fn soup(r: &mut Rng) -> String {
    let toks = ["{", "}", "[", "]", ",", ":", "\"", "\"a\"", "\"x\":", "\"type\":", "null", "true", "false", "nul", "1", "-", "0", "-0", "1e5", "1e999999999", "1e-999999999", "1e99999999999", "0.000", "00", "1.", ".5", "\\", "\\u", "\"\\ud800\"", "\"\\udc00\\ud800\"", "\"\\u12\"", "//", "/*", "*/", "/", " ", "\n", "é", "\u{10ffff}", "255", "256", "99999999999999999999", "4294967295", "18446744073709551616", "\"has_value\":true", "\"value\":", "\"Circle\"", "\"Nothing\"", "[1,2]", "{}", "[]", "2147483648", "1e2147483647", "1e-2147483648", "1.5e2147483647", "0.1e-2147483648", "1e2147483648", "0e2147483648", "0.0e-2147483649"];
    let n = 1 + r.below(12);
    (0..n).map(|_| *r.pick(&toks)).collect()
}

pub fn c04(c: &mut Ctx) {
    let n = c.n(500);
    macro_rules! t {
        ($t:ty) => {
            let mut names = vec![];
            <$t as Ty>::names(&mut names);
            for i in 0..n {
                let mut r = c.rng.fork();
                let t = match i % 4 {
                    0 => soup(&mut r),
                    1 => {
                        let j = mutate_tree(&<$t as Ty>::gen(&mut r, 3).wire(), &mut r, &names);
                        text(&j, &mut r, Style { ws: true, esc: true, comments: true })
                    }
                    _ => {
                        let j = permute(&<$t as Ty>::gen(&mut r, 3).wire(), &mut r);
                        let st = style(&mut r);
                        let t = text(&j, &mut r, st);
                        mutate(&t, &mut r)
                    }
                };
                c.case(&format!("{} from {:?}", stringify!($t), t), true, || {
                    let _ = de::<$t>(&t);
                    let _ = de_config::<$t>(&t, true);
                    let _ = de_stream::<$t>(t.as_bytes(), r.fork());
                    Ok(())
                });
            }
        };
    }
    for_all_types!(t);
    // The generic API on malformed documents
    for i in 0..c.n(40000) {
        let mut r = c.rng.fork();
        let t = if i % 2 == 0 { soup(&mut r) } else {
            let j = gen(&mut r, 4);
            let st = style(&mut r);
            let t = text(&j, &mut r, st);
            mutate(&t, &mut r)
        };
        let mode = *r.pick(&[Mode::Seq, Mode::Keys, Mode::Mixed, Mode::Skip]);
        c.case(&format!("{:?} {:?}", mode, t), true, || {
            let _ = walk_reader(&*t, r.chance(1, 2), None, &mut r, mode);
            Ok(())
        });
    }
    // Deep nesting of what is ignored
    let depth = if c.thorough { 3_000_000 } else { 400_000 };
    for (open, close) in [("[", "]"), ("{\"k\":", "}"), ("[[],", "]"), ("{\"a\":{},\"b\":", "}")] {
        for pre in [true, false] {
            for shape in 0..4 {
                for closed in [true, false] {
                    c.each(&|| format!("P with an ignored value of {} x {:?}, {} the fields, shape {}, closed {}", depth, open, if pre { "before" } else { "after" }, shape, closed), || {
                        let deep = format!("{}0{}", open.repeat(depth), if closed { close.repeat(depth) } else { String::new() });
                        let (name, sep) = ("\"zzz\":", ",");
                        let t = match (shape, pre) {
                            (0, true) => format!("{{{}{}{}\"x\":1,\"y\":2}}", name, deep, sep),
                            (0, false) => format!("{{\"x\":1,\"y\":2,{}{}}}", name, deep),
                            (1, true) => format!("{{\"y\":2,{}{}{}\"x\":1}}", name, deep, sep),
                            (1, false) => format!("[1,2,{}]", deep),
                            (2, true) => deep.clone(),
                            (2, false) => format!("{{\"x\":{},\"y\":1}}", deep),
                            (_, true) => format!("{{\"y\":{},\"x\":1}}", deep),
                            (_, false) => format!("{{\"y\":1,\"q\":[{}],\"x\":1}}", deep),
                        };
                        let ok = closed && ((shape < 2 && !(shape == 1 && !pre)) || (shape == 3 && !pre));
                        let got = de::<P>(&t);
                        let got2 = de_stream::<P>(t.as_bytes(), Rng::new(1));
                        if ok && got.is_err() { return Err(format!("rejected: {:?}", got)); }
                        if !ok && got.is_ok() { return Err("accepted".into()); }
                        if got2.is_ok() != ok { return Err("stream differs".into()); }
                        let want = None;
                        let _ = walk_reader(&*t, false, want, &mut Rng::new(1), Mode::Skip);
                        Ok(())
                    });
                }
            }
        }
    }
    for t in ["", "\u{feff}1", "{", "[", "\"", "\"\\", "\"\\u", "-", "1e", "t", "n", "/", "//", "/*"] {
        for permissive in [false, true] {
            c.each(&|| format!("{:?}", t), || { let _ = de_config::<P>(t, permissive); let _ = de_config::<String>(t, permissive); let _ = de_config::<f64>(t, permissive); let _ = de_config::<Option<u8>>(t, permissive); let _ = de_config::<Vec<bool>>(t, permissive); Ok(()) });
        }
    }
}

// ---- C05 ---------------------------------------------------------------------------------------

pub fn doc_case(c: &mut Ctx, t: &str, mode: Mode, mut r: Rng, enumerated: bool, stream: bool) {
    let want = parse(t);
    let dup = want.as_ref().is_some_and(has_dup_keys);
    let mode = if dup && mode != Mode::Skip { Mode::Seq } else { mode };
    if want.is_none() && has_raw_control(t) {
        // Listed finding: raw control characters are accepted in strings
        let mut p = Parser::new(t, false);
        p.raw_control = true;
        let lenient = p.document();
        if lenient.is_some() {
            if catch(|| walk_reader(t, false, None, &mut r, mode)).is_ok_and(|x| x.is_ok()) {
                c.known("raw-control-characters-in-strings", format!("{:?} is accepted", t));
            }
            return;
        }
    }
    let f = |mut r: Rng| {
        check_walk(t, false, &want, &mut r, mode)?;
        if stream { check_walk_stream(t.as_bytes(), false, &want, &mut r, mode)?; }
        Ok(())
    };
    if enumerated {
        c.each(&|| format!("{:?} {:?}", mode, t), || f(r));
    } else {
        c.case(&format!("{:?} {:?}", mode, t), true, || f(r));
    }
}

/// The text as the value of an entry that is read past.
pub fn late_case(c: &mut Ctx, t: &str, mut r: Rng, enumerated: bool) {
    let whole = format!("{{\"a\":{},\"k\":1}}", t);
    let want = parse(&whole);
    if has_raw_control(&whole) || want.as_ref().is_some_and(has_dup_keys) { return; }
    let mode = *r.pick(&[Mode::Keys, Mode::Seq, Mode::Skip]);
    if enumerated {
        c.each(&|| format!("late {:?} {:?}", mode, whole), || check_late(&whole, "k", &want, &mut r, mode));
    } else {
        c.case(&format!("late {:?} {:?}", mode, whole), true, || check_late(&whole, "k", &want, &mut r, mode));
    }
}
/// Keys and strings of many lengths that are read past.
pub fn long_keys(c: &mut Ctx) {
    for n in [0usize, 1, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70001, 131072] {
        for (unit, head) in [("a", ""), ("\u{e9}", ""), ("\u{e9}", "x"), ("\u{20ac}", ""), ("\u{1f600}", "xy")] {
            for (m, tail) in [(n / unit.len(), ""), (n / unit.len(), "z"), (n, "")] {
                let key = format!("{}{}{}", head, unit.repeat(m), tail);
                let j = J::Obj(vec![(key.clone(), J::Str(format!("v{}", tail))), ("k".into(), J::Num("1".into())), ("s".into(), J::Str(key.clone())), ("l".into(), J::Num("2".into()))]);
                let mut r = c.rng.fork();
                let t = text(&j, &mut r, Style { ws: false, esc: false, comments: false });
                let want = Some(j);
                c.each(&|| format!("a key of {} bytes", key.len()), || { check_late(&t, "k", &want, &mut r, Mode::Seq).map_err(|e| e.chars().take(300).collect::<String>())?; check_late(&t, "l", &want, &mut r, Mode::Keys).map_err(|e| e.chars().take(300).collect()) });
            }
        }
    }
}

pub fn c05(c: &mut Ctx) {
    // Every text up to a length over the characters that matter
    let alphabets: [(&str, usize); 4] = [("[]{},:\"a0 ", 5), ("-0.e+19", 6), ("\"\\u/bD\n", 5), ("[1,] \t\n/*x", 5)];
    for (alphabet, max) in alphabets {
        let cs: Vec<char> = alphabet.chars().collect();
        let max = if c.thorough { max + 1 } else { max };
        let mut stack: Vec<String> = vec![String::new()];
        while let Some(s) = stack.pop() {
            let r = c.rng.fork();
            let n = s.chars().count();
            let mode = [Mode::Seq, Mode::Skip, Mode::Keys][(c.cases % 3) as usize];
            doc_case(c, &s, mode, r, true, false);
            if n < max { let r = c.rng.fork(); late_case(c, &s, r, true); }
            if n < max {
                for ch in &cs { stack.push(format!("{}{}", s, ch)); }
            }
        }
    }
    for w in ["null", "true", "false", "nan", "NaN", "Infinity", "-Infinity", "inf", "undefined", "True", "NULL", "nil", "none"] {
        for i in 0..=w.len() {
            for tail in ["", " ", "x", "l", "e", "1", "null", ",", "\u{0}", "\u{a0}", "\u{b}", "\u{c}", "\u{85}", "\u{2028}", "\u{feff}"] {
                for (a, b) in [("", ""), ("[", "]"), ("{\"k\":", "}"), (" ", " ")] {
                    let r = c.rng.fork();
                    doc_case(c, &format!("{}{}{}{}", a, &w[..i], tail, b), Mode::Seq, r, true, true);
                    let r = c.rng.fork();
                    late_case(c, &format!("{}{}{}{}", a, &w[..i], tail, b), r, true);
                }
            }
        }
    }
    for u in 0..=0x3000u32 {
        let Some(ch) = char::from_u32(u) else { continue };
        for (a, b) in [("", "1"), ("1", ""), ("[", "]"), ("[1", "2]"), ("{", "}"), ("{\"a\"", ":1}"), ("\"", "\""), ("\"\\", "\""), ("{\"", "\":1}"), ("-", "1"), ("1.", "5")] {
            let r = c.rng.fork();
            doc_case(c, &format!("{}{}{}", a, ch, b), Mode::Seq, r, true, u % 16 == 0);
        }
    }
    for i in 0..c.n(60000) {
        let mut r = c.rng.fork();
        let j = gen(&mut r, if i % 20 == 0 { 8 } else { 4 });
        let st = style(&mut r);
        let mut t = text(&j, &mut r, st);
        if i % 2 == 0 { t = mutate(&t, &mut r); }
        let mode = *r.pick(&[Mode::Seq, Mode::Keys, Mode::Mixed, Mode::Skip]);
        doc_case(c, &t, mode, r, false, i % 4 == 0);
        if i % 2 == 1 { continue; }
        let r = c.rng.fork();
        late_case(c, &t, r, false);
    }
}

// ---- C06 ---------------------------------------------------------------------------------------

/// Reads a number text as each integer type, in order and out of order.
fn ints_of(t: &str) -> Result<(), String> {
    let j = J::Num(t.to_string());
    macro_rules! one {
        ($($t:ty)*) => { $(
            let want = <$t as Ty>::read(&j);
            let late = format!("{{\"w\":[],\"v\":{}}}", t);
            let list = format!("[{}]", t);
            for (how, got) in [("direct", de::<$t>(t)), ("out of order", de::<Gen<$t>>(&late).map(|g| g.v())), ("in a list", de::<[$t; 1]>(&list).map(|x| x[0]))] {
                // Whatever is not specified must still be exact if it is accepted
                match (&got, &want) {
                    (Ok(x), Err(Rej::Unspec)) => {
                        if let Int::Exact(w) = int_value(t) { if w == *x as i128 { continue } }
                        return Err(format!("{} {}: got {}", stringify!($t), how, x));
                    }
                    _ => expect(got, &want, &format!("{} {}", stringify!($t), how))?,
                }
            }
        )* };
    }
    one!(u8 i8 u16 i16 u32 i32 u64 i64);
    // 128-bit readers are reachable through read_number
    let read128 = |text: &str| -> Result<i128, String> {
        let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), text).map_err(|_| "err".to_string())?;
        let x = d.read_number::<i128>().map_err(|e| format!("{:?}", e.message()))?;
        d.close().map_err(|e| format!("{:?}", e.message()))?;
        Ok(x)
    };
    if let Int::Exact(w) = int_value(t) {
        if !t.contains(['.', 'e', 'E']) {
            let got = read128(t);
            if got != Ok(w) { return Err(format!("i128: got {:?}", got)); }
        } else if let Ok(x) = read128(t) {
            if x != w { return Err(format!("i128: got {}", x)); }
        }
    }
    Ok(())
}

pub fn number_texts(c: &mut Ctx, mut f: impl FnMut(&mut Ctx, &str, bool)) {
    // All short number texts
    let mut stack: Vec<String> = vec!["".into()];
    let max = if c.thorough { 7 } else { 6 };
    while let Some(s) = stack.pop() {
        if matches!(parse(&s), Some(J::Num(_))) { f(c, &s, true); }
        if s.len() < max {
            for ch in "-.e+0125".chars() { stack.push(format!("{}{}", s, ch)); }
        }
    }
    // All integers around the boundaries, with trailing zeros and scaled forms
    let bounds: [i128; 12] = [0, 127, 255, 32767, 65535, 2147483647, 4294967295, 9223372036854775807, 18446744073709551615, 1000000, 100, 10000000000000000000];
    for b in bounds {
        for d in -3..=3i128 {
            for sign in [1, -1] {
                let x = (b + d) * sign;
                f(c, &x.to_string(), true);
                for k in [1usize, 2, 3, 5, 19] {
                    let z = "0".repeat(k);
                    f(c, &format!("{}.{}", x, z), true);
                    if x != 0 { f(c, &format!("{}{}e-{}", x, z, k), true); }
                    f(c, &format!("{}e{}", x, k), true);
                    f(c, &format!("{}e-{}", x, k), true);
                    f(c, &format!("{}E+0{}", x, k), true);
                    let s = x.abs().to_string();
                    if s.len() > k {
                        let sg = if x < 0 { "-" } else { "" };
                        f(c, &format!("{}{}.{}e{}", sg, &s[..s.len() - k], &s[s.len() - k..], k), true);
                        f(c, &format!("{}{}.{}e{}", sg, &s[..s.len() - k], &s[s.len() - k..], k - 1), true);
                    }
                    f(c, &format!("{}0.{}{}e{}", if x < 0 { "-" } else { "" }, z, x.abs(), k + x.abs().to_string().len()), true);
                }
            }
        }
    }
    for t in ["0e0", "-0", "-0.0", "0.0e-5", "0e2147483647", "0e-2147483648", "0.000e2147483647", "1e2147483647", "1e-2147483648", "0.5e-2147483640", "10e-1", "1e0", "1e-0", "1e+0", "1.0e-0", "-1e-0", "1e99999999999999999999", "-0e-99999999999", "0.0e4294967296", "1e2147483648", "100e-2147483649", "0.1e-2147483648", "0.5e4294967295", "12e-4294967294", "1e00000000000000000000", "1e-00000000000000000001", "25600e-2", "12800e-2", "-12800e-2", "-128e0", "-129e0"] {
        f(c, t, true);
    }
    for _ in 0..c.n(30000) {
        let mut r = c.rng.fork();
        let t = gen_num(&mut r);
        f(c, &t, false);
    }
}

pub fn c06(c: &mut Ctx) {
    number_texts(c, |c, t, en| {
        if en { c.each(&|| t.to_string(), || ints_of(t)) } else { c.case(t, true, || ints_of(t)) }
    });
    for x in -70000..70000i64 {
        if x % 7 != 0 && !c.thorough && x.abs() > 400 { continue }
        let t = x.to_string();
        c.each(&|| t.clone(), || ints_of(&t));
    }
}

// ---- C07 ---------------------------------------------------------------------------------------

fn floats_of(t: &str) -> Result<(), String> {
    let (w32, w64): (f32, f64) = (t.parse().unwrap(), t.parse().unwrap());
    let late = format!("{{\"w\":[],\"v\":{}}}", t);
    for (how, a, b) in [("direct", de::<f32>(t), de::<f64>(t)), ("out of order", de::<Gen<f32>>(&late).map(|g| g.v()), de::<Gen<f64>>(&late).map(|g| g.v()))] {
        expect(a, &Ok(w32), &format!("f32 {}", how))?;
        expect(b, &Ok(w64), &format!("f64 {}", how))?;
    }
    let both = format!("[{}, {}]", t, t);
    expect(de::<(f32, f64)>(&both), &Ok((w32, w64)), "pair")?;
    expect(de_stream::<f64>(t.as_bytes(), Rng::new(3)), &Ok(w64), "stream")
}

pub fn c07(c: &mut Ctx) {
    number_texts(c, |c, t, en| {
        if en { c.each(&|| t.to_string(), || floats_of(t)) } else { c.case(t, true, || floats_of(t)) }
    });
    // Around the end of the small digit buffer, with long digit strings
    for n in 1..80usize {
        for first in ["", "0.", "0.00", "-"] {
            for (tail, e) in [("", ""), (".5", ""), ("", "e5"), (".25", "e-30"), ("", "e-100"), ("", "e300"), ("", "e-2000000"), ("", "e-9999999"), ("", "e-10000000")] {
                if first.starts_with("0.") && tail.starts_with('.') { continue }
                let mut r = c.rng.fork();
                let d: String = format!("{}{}", 1 + r.below(9), gen_digits(&mut r, n - 1));
                let t = format!("{}{}{}{}", first, d, tail, e);
                c.each(&|| t.clone(), || floats_of(&t));
            }
        }
    }
    // Exactly halfway between two neighbours, just below and just above (the exact decimal expansion)
    for i in 0..c.n(6000) {
        let mut r = c.rng.fork();
        let (exact, neg) = (if i % 2 == 0 {
            let b = r.next() as u32 & 0x7fff_ffff;
            let (x, y) = (f32::from_bits(b), f32::from_bits(b + 1));
            if !y.is_finite() || !(1e-20..1e20).contains(&x) { continue }
            format!("{:.130}", (x as f64 + y as f64) / 2.0)
        } else {
            // Numbers of 54 bits: halfway between doubles, exact as integers
            let m = (r.next() >> 11 | 1 << 52) as u128;
            format!("{}.0", (2 * m + 1) << r.below(60))
        }, r.chance(1, 4));
        let (int, frac) = exact.split_once('.').unwrap();
        let frac = frac.trim_end_matches('0');
        let sign = if neg { "-" } else { "" };
        let zeros = "0".repeat(r.below(20));
        let mut forms = vec![format!("{}{}.{}{}1", sign, int, frac, zeros), format!("{}{}.{}0", sign, int, frac)];
        // Just below: the last digit one less, then nines
        let all = format!("{}{}", int, frac);
        let mut digits: Vec<u8> = all.trim_end_matches('0').bytes().collect();
        let dropped = all.len() - digits.len();
        *digits.last_mut().unwrap() -= 1;
        let below = format!("{}{}", String::from_utf8(digits).unwrap(), "9".repeat(dropped + 5));
        let below = format!("{}.{}", &below[..int.len()], &below[int.len()..]);
        forms.push(format!("{}{}", sign, below));
        if int != "0" { forms.push(format!("{}{}{}e-{}", sign, int, frac, frac.len())) }
        for t in forms {
            if t.contains(".e") { continue }
            c.case(&t, true, || floats_of(&t));
        }
    }
    // Halfway cases
    for _ in 0..c.n(20000) {
        let mut r = c.rng.fork();
        let t = if r.chance(1, 2) {
            let x = f64::from_bits(r.next() & !(1 << 63));
            if !x.is_finite() || !(1e-30..1e30).contains(&x) { continue }
            let mut s = format!("{:.60}", x);
            let k = r.below(9) as u8;
            s.push((b'0' + k) as char);
            s
        } else {
            format!("{:e}", f64::from_bits(r.next() & !(1 << 63)))
        };
        if t.contains("inf") || t.contains("NaN") { continue }
        c.case(&t, true, || floats_of(&t));
    }
}
