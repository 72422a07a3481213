//! Banks of cases, one function per property (continued).
use crate::banks1::*;
use crate::ctx::*;
use crate::drive::*;
use crate::json::*;
use crate::types::*;
use crate::{for_all_types, for_struct_types};
use serdere::*;
use serdere_json::*;
use std::num::*;

// ---- C08 ---------------------------------------------------------------------------------------

fn table_case<const N: usize>(c: &mut Ctx, r: &mut Rng, names: &[&'static str], probes: &[String]) {
    let mut order: Vec<usize> = (0..N).collect();
    r.shuffle(&mut order);
    let entries: [(&'static str, usize); N] = std::array::from_fn(|i| (names[order[i]], order[i]));
    let input = format!("{:?} probes {:?}", entries, probes);
    let mut r = r.fork();
    c.case(&input, N > 0, || {
        let map = FixedNameMap::new(entries);
        let map = map.unfix();
        if map.size() != N {
            return Err("size".into());
        }
        let mut listed: Vec<(&str, usize)> = map.entries().map(|(n, v)| (n, *v)).collect();
        let mut want: Vec<(&str, usize)> = entries.to_vec();
        listed.sort();
        want.sort();
        if listed != want {
            return Err("entries".into());
        }
        for p in probes.iter().map(|p| p.as_str()).chain(names[..N].iter().copied()) {
            let want = entries.iter().find(|e| e.0 == p).map(|e| e.1);
            if map.get(p).copied() != want {
                return Err(format!("get({:?}) = {:?}, expected {:?}", p, map.get(p), want));
            }
            for how in 0..4 {
                let mut l = map.lookup();
                let cs: Vec<char> = p.chars().collect();
                let mut i = 0;
                let bytes = p.as_bytes();
                match how {
                    0 => cs.iter().for_each(|ch| l.write_char(*ch)),
                    1 => bytes.iter().for_each(|b| l.write_bytes(&[*b])),
                    2 => {
                        while i < cs.len() {
                            let n = 1 + r.below(cs.len() - i);
                            l.write_str(&cs[i..i + n].iter().collect::<String>());
                            if r.chance(1, 4) { l.write_str(""); }
                            i += n;
                        }
                    }
                    _ => {
                        while i < bytes.len() {
                            let n = 1 + r.below(bytes.len() - i);
                            l.write_bytes(&bytes[i..i + n]);
                            if r.chance(1, 4) { l.write_bytes(&[]); }
                            i += n;
                        }
                    }
                }
                if l.result().copied() != want {
                    return Err(format!("lookup {:?} in pieces (way {}) = {:?}, expected {:?}", p, how, l.result(), want));
                }
            }
        }
        Ok(())
    });
}

pub fn c08(c: &mut Ctx) {
    let mut pool: Vec<&'static str> = vec![];
    for a in ["", "a", "b", "ab", "é", "\u{0}", "zz", "\u{10ffff}", "A"] {
        for b in ["", "a", "b", "c", "aa", "é", "0", "\u{1}"] {
            for d in ["", "a", "bc", "x", "\u{0}"] {
                let s: &'static str = Box::leak(format!("{}{}{}", a, b, d).into_boxed_str());
                if !pool.contains(&s) { pool.push(s); }
            }
        }
    }
    for _ in 0..c.n(25000) {
        let mut r = c.rng.fork();
        let n = match r.below(4) { 0 => r.below(4), 3 => 20 + r.below(20), _ => r.below(13) };
        let small = r.below(pool.len() - 45);
        let mut names: Vec<&'static str> = if r.chance(1, 2) { pool[small..small + 45].to_vec() } else { pool.clone() };
        r.shuffle(&mut names);
        names.truncate(n.max(1).min(40));
        let mut probes: Vec<String> = vec!["".into(), r.pick(&pool).to_string()];
        for nm in names.iter().take(12) {
            let p = mutate(nm, &mut r);
            probes.push(p);
            probes.push(format!("{}{}", nm, gen_char(&mut r)));
            let mut t = nm.to_string();
            t.pop();
            probes.push(t);
        }
        macro_rules! n { ($($k:literal)*) => { match n { $($k => table_case::<$k>(c, &mut r, &names, &probes),)* _ => () } } }
        n!(0 1 2 3 4 5 6 7 8 9 10 11 12 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39);
    }
}

// ---- C09 ---------------------------------------------------------------------------------------

fn set_tag(j: &J, tag: &J) -> J {
    match j {
        J::Obj(xs) => {
            let mut xs = xs.clone();
            xs[0].1 = tag.clone();
            J::Obj(xs)
        }
        _ => tag.clone(),
    }
}

pub fn c09(c: &mut Ctx) {
    macro_rules! t {
        ($($t:ident)*) => { $(
            let mut cands: Vec<J> = vec![J::Null, J::Bool(true), J::Bool(false), J::Arr(vec![]), J::Obj(vec![]), J::Arr(vec![num(0)]), str(""), str("0"), str(" A"), str("null")];
            for i in 0..130u64 { cands.push(num(i)); }
            for b in [255u64, 256, 257, 65535, 65536, 65537, 4294967295, 4294967296, 4294967297, 4294967299, 4294967396, 18446744073709551615] { cands.push(num(b)); }
            for s in ["-1", "-0", "0.0", "1.0", "0.5", "1e0", "3e0", "1e2", "10e-1", "18446744073709551616", "1e30", "0e9"] { cands.push(num(s)); }
            for (n, i) in <$t as TagTy>::table() {
                cands.push(str(n));
                cands.push(num(i));
                for s in [n.to_lowercase(), n.to_uppercase(), format!("{}s", n), format!(" {}", n), format!("{} ", n), format!("{}\u{0}", n), n.chars().skip(1).collect(), n.chars().rev().collect(), i.to_string()] { cands.push(str(&s)); }
                let mut p = n.to_string();
                while p.pop().is_some() { cands.push(str(&p)); }
            }
            let n = c.n(400);
            for k in 0..cands.len() + n {
                let mut r = c.rng.fork();
                let cand = if k < cands.len() { cands[k].clone() } else if r.chance(1, 2) { gen(&mut r, 1) } else {
                    let t = r.pick(<$t as TagTy>::table()).0;
                    str(&mutate(t, &mut r))
                };
                for _ in 0..4 {
                    let x = <$t as Ty>::gen(&mut r, 3);
                    let base = x.wire();
                    let j = if k % 7 == 6 { base.clone() } else { set_tag(&base, &cand) };
                    let p = permute(&j, &mut r);
                    let st = Style { ws: false, esc: r.chance(1, 3), comments: false };
                    let (a, b) = (text(&j, &mut r, st), text(&p, &mut r, st));
                    c.case(&format!("{} {} / {}", stringify!($t), a, b), true, || {
                        let want = <$t as Ty>::read(&j);
                        expect(de::<$t>(&a), &want, "tag first")?;
                        expect(de::<$t>(&b), &want, "permuted")?;
                        let late = format!("{{\"w\":[],\"v\":{}}}", a);
                        expect(de::<Gen<$t>>(&late).map(|g| g.v()), &want, "out of order")?;
                        // A tag is written by name
                        let out = ser(&x);
                        match parse(&out) { Some(k) if same_values(&k, &base) => Ok(()), _ => Err(format!("written as {}", out)) }
                    });
                    if !matches!(base, J::Obj(_)) { break }
                }
            }
        )* };
    }
    t!(Tag Tag1 Tag2 Tag3 Shape Kinds OnlyUnits);
}

// ---- C10 ---------------------------------------------------------------------------------------

/// Adds entries with unknown names to objects.
fn inject(j: &J, r: &mut Rng, names: &[&'static str], mark: &mut bool) -> J {
    match j {
        J::Arr(xs) => J::Arr(xs.iter().map(|x| inject(x, r, names, mark)).collect()),
        J::Obj(xs) => {
            let mut ys: Vec<(String, J)> = xs.iter().map(|(k, x)| (k.clone(), inject(x, r, names, mark))).collect();
            for _ in 0..r.below(3) {
                let mut k = match r.below(4) {
                    0 => gen_string(r),
                    1 if !names.is_empty() => format!("{}{}", r.pick(names), gen_char(r)),
                    2 if !names.is_empty() => { let mut s = r.pick(names).to_string(); s.pop(); s }
                    _ => r.pick(&["zzz", "unknown", "aaa", "0", "type ", "X", "é"]).to_string(),
                };
                while names.contains(&k.as_str()) || ys.iter().any(|y| y.0 == k) { k.push('~'); }
                let i = r.below(ys.len() + 1);
                let v = if *mark && r.chance(1, 2) { *mark = false; str("@@MARK@@") } else { gen(r, 3) };
                ys.insert(i, (k, v));
            }
            J::Obj(ys)
        }
        j => j.clone(),
    }
}

const MALFORMED: [&str; 44] = ["", ",", "nul", "tru", "fals", "nulll", "truex", "True", "nan", "-", "+1", "01", "1.", ".5", "1e", "1e+", "0x1", "--1", "1 2", "[", "]", "[1,]", "[,1]", "[1 2]", "{", "{\"a\"}", "{\"a\":}", "{\"a\":1,}", "{,}", "{1:2}", "{\"a\" 1}", "\"", "\"\\x\"", "\"\\u12\"", "\"\\ud800\"", "\"\\udc00\"", "'a'", "[[[]]", "[{]}", "/**/1", "1//\n", "\u{feff}1", "[1}", "{\"a\":1]"];

pub fn c10(c: &mut Ctx) {
    let n = c.n(700);
    macro_rules! t {
        ($t:ty) => {
            let mut names = vec![];
            <$t as Ty>::names(&mut names);
            for i in 0..n {
                let mut r = c.rng.fork();
                let mut j = <$t as Ty>::gen(&mut r, 4).wire();
                if i % 3 == 2 { j = mutate_tree(&j, &mut r, &names); }
                let mut mark = i % 4 == 3;
                let k = inject(&permute(&j, &mut r), &mut r, &names, &mut mark);
                let st = Style { ws: r.chance(1, 2), esc: r.chance(1, 3), comments: false };
                let t = text(&k, &mut r, st);
                if let Some(at) = t.find("\"@@MARK@@\"") {
                    let bad = *r.pick(&MALFORMED);
                    let t = format!("{}{}{}", &t[..at], bad, &t[at + 10..]);
                    if parse(&t).is_some() { continue }
                    c.case(&format!("{} malformed {:?}", stringify!($t), t), true, || {
                        expect(de::<$t>(&t), &Err(Rej::Err), "malformed unknown entry")?;
                        expect(de_stream::<$t>(t.as_bytes(), r.fork()), &Err(Rej::Err), "malformed unknown entry, stream")
                    });
                } else {
                    c.case(&format!("{} {:?}", stringify!($t), t), k != j, || {
                        let want = <$t as Ty>::read(&j);
                        expect(de::<$t>(&t), &want, "with unknown entries")?;
                        if want.as_ref().err() == Some(&Rej::Unspec) {
                            match (de::<$t>(&t), de::<$t>(&plain(&j))) {
                                (Ok(x), Ok(y)) if x.eqv(&y) => (),
                                (Err(_), Err(_)) => (),
                                (x, y) => return Err(format!("{:?} with, {:?} without unknown entries", x, y)),
                            }
                        }
                        Ok(())
                    });
                }
            }
        };
    }
    for_struct_types!(t);
}

// ---- C11 ---------------------------------------------------------------------------------------

fn has_comment(t: &str) -> bool {
    let mut in_str = false;
    let mut esc = false;
    for ch in t.chars() {
        if in_str {
            if esc { esc = false } else if ch == '\\' { esc = true } else if ch == '"' { in_str = false }
        } else if ch == '"' { in_str = true } else if ch == '/' { return true }
    }
    false
}

pub fn c11(c: &mut Ctx) {
    let n = c.n(300);
    macro_rules! t {
        ($t:ty) => {
            let mut names = vec![];
            <$t as Ty>::names(&mut names);
            for i in 0..n {
                let mut r = c.rng.fork();
                let mut j = <$t as Ty>::gen(&mut r, 4).wire();
                if i % 2 == 1 { j = mutate_tree(&j, &mut r, &names); }
                let p = permute(&j, &mut r);
                let ws = r.chance(1, 2);
                let t = text(&p, &mut r, Style { ws, esc: false, comments: true });
                c.case(&format!("{} {:?}", stringify!($t), t), has_comment(&t), || {
                    let want = <$t as Ty>::read(&j);
                    expect(de_config::<$t>(&t, true), &want, "comments allowed")?;
                    if has_comment(&t) {
                        expect(de_config::<$t>(&t, false), &Err(Rej::Err), "strict")?;
                        expect(de::<$t>(&t), &Err(Rej::Err), "default")?;
                    } else {
                        expect(de_config::<$t>(&t, false), &want, "strict, no comment")?;
                    }
                    Ok(())
                });
            }
        };
    }
    for_struct_types!(t);
    for i in 0..c.n(30000) {
        let mut r = c.rng.fork();
        let j = gen(&mut r, 4);
        let ws = r.chance(1, 2);
        let esc = r.chance(1, 4);
        let t = text(&j, &mut r, Style { ws, esc, comments: true });
        let mode = *r.pick(&[Mode::Seq, Mode::Keys, Mode::Mixed, Mode::Skip]);
        c.case(&format!("{:?} {:?}", mode, t), has_comment(&t), || {
            let want = Some(j.clone());
            check_walk(&t, true, &want, &mut r, mode)?;
            if i % 4 == 0 { check_walk_stream(t.as_bytes(), true, &want, &mut r, mode)?; }
            if has_comment(&t) { check_walk(&t, false, &None, &mut r, mode)?; }
            Ok(())
        });
    }
    // Every comment body up to a length
    let docs = ["@1@", "@[@1@,@2@]@", "@{@\"a\"@:@1@,@\"b\"@:@[@]@}@", "@{@}@", "@\"s\"@", "@null@"];
    let cs = ['*', '/', '\n', 'x', '"', '\\'];
    let mut bodies = vec![String::new()];
    let mut k = 0;
    while k < bodies.len() {
        let b = bodies[k].clone();
        if b.chars().count() < if c.thorough { 5 } else { 4 } { for ch in cs { bodies.push(format!("{}{}", b, ch)); } }
        k += 1;
    }
    for b in &bodies {
        for comment in [format!("/*{}*/", b), format!("//{}\n", b)] {
            // The first closing mark must be the last one
            if comment.starts_with("/*") && comment[2..].find("*/") != Some(comment.len() - 4) { continue }
            if comment.starts_with("//") && b.contains('\n') { continue }
            let doc = docs[(c.cases % docs.len() as u64) as usize];
            let gaps = doc.matches('@').count();
            let g = (c.cases / docs.len() as u64) as usize % gaps;
            let mut i = 0;
            let t: String = doc.chars().map(|ch| if ch == '@' { i += 1; if i - 1 == g { comment.clone() } else { String::new() } } else { ch.to_string() }).collect();
            let plain: String = doc.replace('@', "");
            let want = parse(&plain);
            let mut r = c.rng.fork();
            c.each(&|| format!("{:?}", t), || {
                for mode in [Mode::Seq, Mode::Keys, Mode::Skip] {
                    check_walk(&t, true, &want, &mut r, mode)?;
                    check_walk(&t, false, &None, &mut r, mode)?;
                }
                Ok(())
            });
        }
    }
}

// ---- C12 ---------------------------------------------------------------------------------------

fn first_char(b: &[u8]) -> Result<Option<char>, ()> {
    if b.is_empty() { return Ok(None); }
    let n = match std::str::from_utf8(b) { Ok(s) => s.len(), Err(e) => e.valid_up_to() };
    std::str::from_utf8(&b[..n]).unwrap().chars().next().map(Some).ok_or(())
}

fn utf8_case(c: &mut Ctx, b: &[u8], enumerated: bool) {
    let f = |max: usize| -> Result<(), String> {
        let mut rest = b;
        let got = if max == 0 { read_utf8(&mut rest) } else {
            struct S<'a, 'b>(&'a mut &'b [u8]);
            impl std::io::Read for S<'_, '_> {
                fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
                    let n = buf.len().min(1).min(self.0.len());
                    buf[..n].copy_from_slice(&self.0[..n]);
                    *self.0 = &self.0[n..];
                    Ok(n)
                }
            }
            let mut r2 = b;
            let got = read_utf8(&mut S(&mut r2));
            rest = &b[b.len() - r2.len()..];
            got
        };
        match (got, first_char(b)) {
            (Ok(x), Ok(y)) if x == y => {
                let used = b.len() - rest.len();
                if used != y.map_or(0, |ch| ch.len_utf8()) { return Err(format!("{} bytes used", used)); }
                Ok(())
            }
            (Err(_), Err(())) => Ok(()),
            (got, want) => Err(format!("got {:?}, expected {:?}", got, want)),
        }
    };
    if enumerated { c.each(&|| format!("{:02x?}", b), || { f(0) }) } else { c.case(&format!("{:02x?}", b), true, || { f(0)?; f(1) }) }
}

pub fn c12(c: &mut Ctx) {
    utf8_case(c, &[], true);
    for a in 0..=255u8 {
        utf8_case(c, &[a], true);
        for b in 0..=255u8 {
            utf8_case(c, &[a, b], true);
            if a >= 0xc0 {
                for d in 0..=255u8 {
                    if a < 0xe0 && d % 51 != 0 && !c.thorough { continue }
                    utf8_case(c, &[a, b, d], true);
                }
            }
        }
    }
    let edges: Vec<u8> = if c.thorough { (0..=255).collect() } else { vec![0, 1, 0x20, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x91, 0x9f, 0xa0, 0xaf, 0xb0, 0xbe, 0xbf, 0xc0, 0xc1, 0xdf, 0xe0, 0xf0, 0xff] };
    for a in 0xf0..=255u8 {
        for b in 0..=255u8 {
            for d in [0x7fu8, 0x80, 0xa5, 0xbf, 0xc0, 0xff] {
                for e in &edges {
                    utf8_case(c, &[a, b, d, *e], true);
                }
            }
        }
    }
    for u in 0..0x110000u32 {
        let Some(ch) = char::from_u32(u) else { continue };
        if u > 0x11000 && u % 17 != 0 && !c.thorough { continue }
        let mut buf = [0; 4];
        let n = ch.encode_utf8(&mut buf).len();
        utf8_case(c, &buf[..n], true);
    }
    for i in 0..c.n(40000) {
        let mut r = c.rng.fork();
        let mut b = gen_string(&mut r).into_bytes();
        if i % 2 == 0 && !b.is_empty() {
            for _ in 0..1 + r.below(2) {
                let at = r.below(b.len());
                match r.below(3) {
                    0 => b[at] = r.next() as u8,
                    1 => { b.remove(at); if b.is_empty() { break } }
                    _ => { b.truncate(at); if b.is_empty() { break } }
                }
            }
        }
        utf8_case(c, &b, false);
        // The whole stream
        let valid = std::str::from_utf8(&b).is_ok();
        let upto = match std::str::from_utf8(&b) { Ok(s) => s.len(), Err(e) => e.valid_up_to() };
        let want: Vec<char> = std::str::from_utf8(&b[..upto]).unwrap().chars().collect();
        let mut known = false;
        c.case(&format!("stream {:02x?}", b), b.len() > 1, || {
            let mut reader = match Utf8Reader::new(Chunks::new(&b, r.fork())) {
                Ok(x) => x,
                Err(_) => return if want.is_empty() && !valid { Ok(()) } else { Err("error at the start".into()) },
            };
            if want.is_empty() && !valid { return Err("no error for invalid bytes".into()); }
            for (k, ch) in want.iter().enumerate() {
                if TextReader::peek(&reader) != Some(*ch) { return Err(format!("peek {:?}, expected {:?}", TextReader::peek(&reader), ch)); }
                if k + 1 == want.len() && !valid {
                    // Listed finding: the error becomes a panic here
                    return match catch(|| TextReader::next(&mut reader)) {
                        Err(msg) if msg.contains("called `Result::unwrap()` on an `Err` value") => { known = true; Ok(()) }
                        other => Err(format!("{:?} before invalid bytes", other)),
                    };
                }
                let got = TextReader::next(&mut reader);
                if got != Some(*ch) { return Err(format!("next {:?}, expected {:?}", got, ch)); }
            }
            for _ in 0..2 {
                if TextReader::peek(&reader).is_some() || TextReader::next(&mut reader).is_some() { return Err("characters after the end".into()); }
            }
            Ok(())
        });
        if known { c.known("stream-reader-panics-on-invalid-bytes", format!("{:02x?}", b)); }
    }
}

// ---- C13 ---------------------------------------------------------------------------------------

pub fn c13(c: &mut Ctx) {
    for _ in 0..c.n(40000) {
        let mut r = c.rng.fork();
        let n = r.below(30);
        let s: String = (0..n).map(|_| match r.below(6) { 0 => '\n', 1 => '\t', 2 => '\r', 3 => gen_char(&mut r), _ => *r.pick(&['a', ' ', '\u{b}', '\u{85}', '\u{2028}', '\0', '中']) }).collect();
        c.case(&format!("{:?}", s), n > 0, || {
            let mut rd = Utf8Reader::new(Chunks::new(s.as_bytes(), r.fork())).map_err(|e| e.to_string())?;
            let (mut line, mut column) = (0usize, 0usize);
            let cs: Vec<char> = s.chars().collect();
            let mut i = 0;
            loop {
                let want = LineColumnPosition { line, column };
                if rd.position() != want { return Err(format!("position {:?} after {} characters, expected {:?}", rd.position(), i, want)); }
                if TextReader::peek(&rd) != cs.get(i).copied() { return Err("peek".into()); }
                if rd.position() != want { return Err("peek moved the position".into()); }
                let step = |ch: char, line: &mut usize, column: &mut usize| match ch {
                    '\n' => { *line += 1; *column = 0 }
                    '\t' => *column += 4,
                    '\r' => (),
                    _ => *column += 1,
                };
                match r.below(8) {
                    0 if i < cs.len() => {
                        let k = 1 + r.below(cs.len() - i);
                        let t: String = cs[i..i + k].iter().collect();
                        if !rd.read_exact(&t) { return Err("read_exact".into()); }
                        for ch in &cs[i..i + k] { step(*ch, &mut line, &mut column); }
                        i += k;
                    }
                    1 if i < cs.len() => {
                        let k = r.below(cs.len() - i);
                        let mut left = k;
                        let got = rd.read_until(|_| if left == 0 { Some(7) } else { left -= 1; None });
                        let t: String = cs[i..i + k].iter().collect();
                        match got { Some((a, 7)) if a == t => (), other => return Err(format!("read_until {:?}", other)) }
                        for ch in &cs[i..i + k + 1] { step(*ch, &mut line, &mut column); }
                        i += k + 1;
                    }
                    _ => {
                        let got = TextReader::next(&mut rd);
                        if got != cs.get(i).copied() { return Err("next".into()); }
                        match got {
                            Some(ch) => { step(ch, &mut line, &mut column); i += 1; }
                            None => {
                                for _ in 0..3 { let _ = TextReader::next(&mut rd); }
                                return if rd.position() == want { Ok(()) } else { Err("position moved at the end".into()) };
                            }
                        }
                    }
                }
            }
        });
    }
    for u in 0..0x110000u32 {
        let Some(ch) = char::from_u32(u) else { continue };
        if u > 0x300 && u % 23 != 0 && !c.thorough { continue }
        c.each(&|| format!("one {:?}", ch), || {
            let s = format!("x{}y", ch);
            let mut rd = Utf8Reader::new(s.as_bytes()).unwrap();
            TextReader::next(&mut rd);
            TextReader::next(&mut rd);
            let want = match ch { '\n' => (1, 0), '\t' => (0, 5), '\r' => (0, 1), _ => (0, 2) };
            let got = (rd.position().line, rd.position().column);
            if got == want { Ok(()) } else { Err(format!("{:?}, expected {:?}", got, want)) }
        });
    }
}

// ---- C14 ---------------------------------------------------------------------------------------

/// Tokens of a JSON text, each with the whitespace before it.
fn tokens(t: &str) -> Vec<(String, String)> {
    let cs: Vec<char> = t.chars().collect();
    let mut res = vec![];
    let mut ws = String::new();
    let mut i = 0;
    while i < cs.len() {
        let ch = cs[i];
        if matches!(ch, ' ' | '\n' | '\t' | '\r') {
            ws.push(ch);
            i += 1;
            continue;
        }
        let start = i;
        if ch == '"' {
            i += 1;
            while i < cs.len() && cs[i] != '"' { i += if cs[i] == '\\' { 2 } else { 1 }; }
            i += 1;
        } else if "{}[],:".contains(ch) {
            i += 1;
        } else {
            while i < cs.len() && !"{}[],: \n\t\r\"".contains(cs[i]) { i += 1; }
        }
        res.push((std::mem::take(&mut ws), cs[start..i.min(cs.len())].iter().collect()));
    }
    res.push((ws, String::new()));
    res
}

pub fn layout(compact: &str, indented: &str, unit: &str) -> Result<(), String> {
    let (a, b) = (tokens(compact), tokens(indented));
    if a.iter().map(|x| &x.1).ne(b.iter().map(|x| &x.1)) {
        return Err(format!("tokens differ: {:?} / {:?}", compact, indented));
    }
    let mut stack: Vec<bool> = vec![]; // is object
    for i in 0..b.len() {
        let prev = if i > 0 { b[i - 1].1.as_str() } else { "" };
        let (ws, tok) = (&b[i].0, b[i].1.as_str());
        let closer = tok == "]" || tok == "}";
        let opened = prev == "[" || prev == "{";
        if closer {
            stack.pop();
            let want = if opened { String::new() } else { format!("\n{}", unit.repeat(stack.len())) };
            if *ws != want { return Err(format!("whitespace {:?} before closer {} (token {}), expected {:?}: {:?}", ws, tok, i, want, indented)); }
        } else if opened || prev == "," {
            let want = format!("\n{}", unit.repeat(stack.len()));
            if *ws != want { return Err(format!("whitespace {:?} before item {:?} (token {}), expected {:?}: {:?}", ws, tok, i, want, indented)); }
        }
        if tok == "[" || tok == "{" { stack.push(tok == "{"); }
    }
    if !stack.is_empty() { return Err("unbalanced".into()); }
    Ok(())
}

pub fn c14(c: &mut Ctx) {
    const UNITS: [&str; 7] = ["", " ", "\t", "  ", "    ", " \t", "\t\t\t"];
    for i in 0..c.n(25000) {
        let mut r = c.rng.fork();
        let j = writable(&gen(&mut r, if i % 20 == 0 { 9 } else { 4 }));
        let unit = *r.pick(&UNITS);
        c.case(&format!("{} indent {:?}", plain(&j), unit), matches!(j, J::Arr(_) | J::Obj(_)), || {
            let mut r1 = r.fork();
            let mut r2 = Rng::new(0);
            std::mem::swap(&mut r2, &mut r1);
            let seed = r2.next();
            let a = write_doc(&j, None, &mut Rng::new(seed));
            let b = write_doc(&j, Some(unit), &mut Rng::new(seed));
            layout(&a, &b, unit)
        });
    }
    let n = c.n(40);
    macro_rules! t {
        ($t:ty) => {
            for _ in 0..n {
                let mut r = c.rng.fork();
                let x = <$t as Ty>::gen(&mut r, 5);
                let unit = *r.pick(&UNITS);
                c.case(&format!("{} = {:?} indent {:?}", stringify!($t), x, unit), true, || layout(&ser(&x), &ser_indent(&x, Some(unit)), unit));
            }
        };
    }
    for_all_types!(t);
}

// ---- C15 ---------------------------------------------------------------------------------------

fn str_written(s: &str, r: &mut Rng) -> Result<(), String> {
    let mut outs = vec![ser(&s.to_string())];
    if s.chars().count() == 1 { outs.push(ser(&s.chars().next().unwrap())); }
    outs.push(write_doc(&str(s), None, r));
    for out in outs {
        match parse(&out) {
            Some(J::Str(t)) if t == s => (),
            other => return Err(format!("{:?} written as {:?}, which denotes {:?}", s, out, other)),
        }
        if out.chars().any(|ch| (ch as u32) < 0x20) { return Err(format!("raw control character in {:?}", out)); }
        expect(de::<String>(&out), &Ok(s.to_string()), "read back")?;
    }
    // As a key
    let doc = J::Obj(vec![(s.to_string(), num(1))]);
    let out = write_doc(&doc, None, r);
    if parse(&out) != Some(doc) { return Err(format!("key {:?} written as {:?}", s, out)); }
    Ok(())
}

/// Reads a string literal as a value, as a key and as a tag, in and out of order.
fn str_read(lit: &str, r: &mut Rng) -> Result<(), String> {
    let want: R<String> = match parse(lit) { Some(J::Str(s)) => Ok(s), _ => Err(Rej::Err) };
    expect(de::<String>(lit), &want, "direct")?;
    expect(de_stream::<String>(lit.as_bytes(), r.fork()), &want, "stream")?;
    expect(de::<Gen<String>>(&format!("{{\"w\":[],\"o\":1,\"v\":{}}}", lit)).map(|g| g.v()), &want, "out of order")?;
    expect(de::<(String, u8)>(&format!("[{},1]", lit)), &want.clone().map(|s| (s, 1)), "in a tuple")?;
    let ch: R<char> = want.clone().and_then(|s| { let mut i = s.chars(); match (i.next(), i.next()) { (Some(ch), None) => Ok(ch), _ => Err(Rej::Err) } });
    expect(de::<char>(lit), &ch, "as a char")?;
    expect(de::<Gen<char>>(&format!("{{\"w\":[],\"v\":{}}}", lit)).map(|g| g.v()), &ch, "as a char, out of order")?;
    let tag: R<Tag2> = want.clone().and_then(|s| Tag2::read(&J::Str(s)));
    expect(de::<Tag2>(lit), &tag, "as a tag")?;
    expect(de::<Gen<Tag2>>(&format!("{{\"w\":[],\"v\":{}}}", lit)).map(|g| g.v()), &tag, "as a tag, out of order")?;
    // As a key
    let doc = format!("{{{}:7,\"other\":8}}", lit);
    let tree = parse(&doc);
    for mode in [Mode::Seq, Mode::Keys, Mode::Skip] {
        if tree.as_ref().is_some_and(has_dup_keys) && mode != Mode::Skip { continue }
        check_walk(&doc, false, &tree, r, mode)?;
    }
    if let Ok(s) = &want {
        if s != "other" {
            // Out of order: the key is looked up after it was passed
            let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), doc.as_str()).map_err(|_| "new")?;
            let mut done = false;
            let mut o = Value::new(&mut d, &mut done).into_object().map_err(|_| "object")?;
            let x = o.try_entry("other").map_err(|e| format!("{:?}", e.message()))?.ok_or("no other")?.get_u8();
            if x.ok() != Some(8) { return Err("other".into()); }
            if r.chance(1, 2) {
                match o.try_entry(s).map_err(|e| format!("{:?}", e.message()))? {
                    Some(v) => if v.get_u8().ok() != Some(7) { return Err("value of the key".into()) },
                    None => return Err(format!("key {:?} not found after it was passed", s)),
                }
            } else {
                let mut e = o.next_entry().map_err(|_| "next")?.ok_or("no entry")?;
                if e.key().map_err(|_| "key")? != s.as_str() { return Err(format!("key {:?} read differently", s)); }
                if e.value().map_err(|_| "value")?.get_u8().ok() != Some(7) { return Err("value of the key".into()); }
            }
        }
    }
    Ok(())
}

pub fn c15(c: &mut Ctx) {
    for u in 0..0x110000u32 {
        let Some(ch) = char::from_u32(u) else { continue };
        if u > 0x3000 && !c.thorough && u % 53 != 0 { continue }
        let mut r = c.rng.fork();
        c.each(&|| format!("write {:?}", ch), || str_written(&ch.to_string(), &mut r));
    }
    for u in 0..0x3000u32 {
        let Some(ch) = char::from_u32(u) else { continue };
        let mut r = c.rng.fork();
        c.each(&|| format!("escape \\{:?}", ch), || str_read(&format!("\"\\{}\"", ch), &mut r));
        if u >= 0x20 { c.each(&|| format!("raw {:?}", ch), || str_read(&format!("\"{}\"", ch), &mut r)); }
        else if de::<String>(&format!("\"{}\"", ch)).is_ok() { c.known("raw-control-characters-in-strings", format!("\"{}\"", ch.escape_debug())); }
    }
    for u in 0..0x10000u32 {
        if u % 37 != 0 && !(0xd7f0..0xe010).contains(&u) && u > 0x200 && !c.thorough { continue }
        let mut r = c.rng.fork();
        c.each(&|| format!("\\u{:04x}", u), || {
            str_read(&format!("\"\\u{:04x}\"", u), &mut r)?;
            str_read(&format!("\"a\\u{:04X}b\"", u), &mut r)
        });
    }
    let us = [0u32, 0x22, 0x5c, 0xd7ff, 0xd800, 0xd801, 0xd83d, 0xdbff, 0xdc00, 0xde00, 0xdfff, 0xe000, 0xffff];
    for a in us {
        for b in us {
            let mut r = c.rng.fork();
            for mid in ["", "x", "\\n", "\\", "\\u", "u", "\\U"] {
                c.each(&|| format!("\\u{:04x}{}\\u{:04x}", a, mid, b), || str_read(&format!("\"\\u{:04x}{}\\u{:04x}\"", a, mid, b), &mut r));
            }
            c.each(&|| format!("\\u{:04x}u{:04x}", a, b), || str_read(&format!("\"\\u{:04x}u{:04x}z\"", a, b), &mut r));
        }
    }
    for d in "0123456789abcdefABCDEFgGxX +-_\"\\".chars() {
        for at in 0..5 {
            let mut r = c.rng.fork();
            c.each(&|| format!("digit {:?} at {}", d, at), || {
                let mut s: Vec<char> = "0041 ".chars().collect();
                s[at] = d;
                str_read(&format!("\"\\u{}\"", s.iter().collect::<String>()), &mut r)
            });
        }
    }
    for _ in 0..c.n(15000) {
        let mut r = c.rng.fork();
        let s = gen_string(&mut r);
        c.case(&format!("string {:?}", s), !s.is_empty(), || {
            str_written(&s, &mut r)?;
            let mut lit = String::new();
            render_str(&s, &mut r, Style { ws: false, esc: true, comments: false }, &mut lit);
            str_read(&lit, &mut r)
        });
        let mut r = c.rng.fork();
        let mut lit = String::new();
        render_str(&s, &mut r, Style { ws: false, esc: true, comments: false }, &mut lit);
        let m = mutate(&lit, &mut r);
        if has_raw_control(&m) || !matches!(parse(&m), Some(J::Str(_)) | None) { continue }
        c.case(&format!("literal {:?}", m), true, || {
            let want: R<String> = match parse(&m) { Some(J::Str(s)) => Ok(s), _ => Err(Rej::Err) };
            expect(de::<String>(&m), &want, "direct")?;
            expect(de::<Gen<String>>(&format!("{{\"w\":[],\"v\":{}}}", m)).map(|g| g.v()), &match parse(&format!("{{\"w\":[],\"v\":{}}}", m)) { Some(j) => Gen::<String>::read(&j).map(|g| g.v()), None => Err(Rej::Err) }, "out of order")
        });
    }
}

// ---- C17 ---------------------------------------------------------------------------------------

pub fn c17(c: &mut Ctx) {
    let n = c.n(500);
    macro_rules! t {
        ($($t:ty),* $(,)?) => { $(
            for i in 0..n {
                let mut r = c.rng.fork();
                let x = <$t as Ty>::gen(&mut r, 4);
                let mut j = x.wire();
                let exact = j.clone();
                match (i % 6, &mut j) {
                    (0, _) => (),
                    (1, J::Arr(xs)) => { xs.pop(); }
                    (2, J::Arr(xs)) => { let y = xs.last().cloned().unwrap_or(num(0)); xs.push(y); }
                    (3, J::Arr(xs)) => { let k = r.below(7); let y = xs.first().cloned().unwrap_or(num(1)); *xs = (0..k).map(|_| y.clone()).collect(); }
                    (4, J::Arr(xs)) => r.shuffle(xs),
                    (5, _) => j = match r.below(4) { 0 => J::Null, 1 => J::Obj(vec![]), 2 => J::Obj(vec![("0".into(), num(1)), ("1".into(), num(2))]), _ => mutate_tree(&j, &mut r, &[]) },
                    _ => (),
                }
                let st = Style { ws: r.chance(1, 2), esc: false, comments: false };
                let t = text(&j, &mut r, st);
                c.case(&format!("{} {}", stringify!($t), t), true, || {
                    let want = <$t as Ty>::read(&j);
                    expect(de::<$t>(&t), &want, "direct")?;
                    let late = format!("{{\"w\":[],\"v\":{}}}", t);
                    expect(de::<Gen<$t>>(&late).map(|g| g.v()), &want, "out of order")?;
                    let out = ser(&x);
                    match parse(&out) { Some(k) if same_values(&exact, &k) => Ok(()), _ => Err(format!("{:?} written as {}", x, out)) }
                });
            }
        )* };
    }
    t!((u8, String), (Option<bool>, [i8; 2]), (f64, char, Vec<u8>), ((u8, u8, u8), (), Option<f32>), [u32; 0], [u32; 1], [i16; 2], [String; 3], [[bool; 2]; 5], [u8; 7]);
    t!(Vec<u8>, Vec<String>, Vec<Vec<f64>>, Vec<()>, Vec<(bool, P)>, Vec<Option<Option<i8>>>, Vec<[u8; 2]>, (Vec<u8>, Vec<bool>), ([u8; 0], (u8, u8)), (i8, i16, i32), (Vec<Vec<()>>, u8));
    for n in [0usize, 1, 2, 31, 32, 33, 255, 256, 257, 1000, 70000] {
        c.each(&|| format!("list of {} numbers", n), || {
            let x: Vec<u32> = (0..n as u32).collect();
            expect(de::<Vec<u32>>(&ser(&x)), &Ok(x.clone()), "list")?;
            let late = format!("{{\"w\":[],\"v\":{}}}", ser(&x));
            expect(de::<Gen<Vec<u32>>>(&late).map(|g| g.v()), &Ok(x), "list, out of order")
        });
    }
}

// ---- C18 ---------------------------------------------------------------------------------------

pub fn c18(c: &mut Ctx) {
    fn thin(j: &J, r: &mut Rng, names: &[&'static str]) -> J {
        match j {
            J::Obj(xs) => {
                let mut ys = vec![];
                for (k, x) in xs {
                    match r.below(6) {
                        0 => (),
                        1 => ys.push((k.clone(), J::Null)),
                        2 => ys.push((k.clone(), mutate_tree(x, r, names))),
                        _ => ys.push((k.clone(), thin(x, r, names))),
                    }
                }
                J::Obj(ys)
            }
            J::Arr(xs) => J::Arr(xs.iter().map(|x| if r.chance(1, 8) { J::Null } else { thin(x, r, names) }).collect()),
            j => j.clone(),
        }
    }
    let n = c.n(900);
    macro_rules! t {
        ($t:ty) => {
            let mut names = vec![];
            <$t as Ty>::names(&mut names);
            for i in 0..n {
                let mut r = c.rng.fork();
                let x = <$t as Ty>::gen(&mut r, 4);
                let mut j = if i % 4 == 0 { x.wire() } else { thin(&x.wire(), &mut r, &names) };
                if i % 8 == 5 { j = positional(&j, &mut r); }
                let p = permute(&j, &mut r);
                let t = plain(&p);
                c.case(&format!("{} {}", stringify!($t), t), true, || {
                    let want = <$t as Ty>::read(&j);
                    expect(de::<$t>(&t), &want, "read")?;
                    match parse(&ser(&x)) { Some(k) if same_values(&x.wire(), &k) => Ok(()), _ => Err(format!("{:?} written as {}", x, ser(&x))) }
                });
            }
        };
    }
    t!(Option<bool>); t!(Option<Option<u8>>); t!(Option<Option<Option<String>>>); t!(Option<()>); t!(Option<Vec<Option<P>>>); t!(Option<f64>); t!(Option<Tag>);
    for_struct_types!(t);
}

// ---- C19 ---------------------------------------------------------------------------------------

pub fn c19(c: &mut Ctx) {
    let n = c.n(500);
    macro_rules! t {
        ($t:ty) => {
            for i in 0..n {
                let mut r = c.rng.fork();
                let x = <$t as Ty>::gen(&mut r, 4);
                let j = x.wire();
                let k = if i % 2 == 0 { j.clone() } else { positional(&j, &mut r) };
                let st = Style { ws: r.chance(1, 2), esc: r.chance(1, 4), comments: false };
                let t = text(&k, &mut r, st);
                c.case(&format!("{} = {:?} from {}", stringify!($t), x, t), true, || {
                    let out = ser(&x);
                    match parse(&out) { Some(w) if same_values(&j, &w) => (), _ => return Err(format!("written as {}, declared layout {}", out, plain(&j))) }
                    let want = <$t as Ty>::read(&k);
                    expect(de::<$t>(&t), &want, "read")
                });
            }
        };
    }
    for_struct_types!(t);
    t!(Tag); t!(Tag2);
}

// ---- C20 ---------------------------------------------------------------------------------------

pub fn c20(c: &mut Ctx) {
    let n = c.n(200);
    macro_rules! t {
        ($t:ty) => {
            let mut names = vec![];
            <$t as Ty>::names(&mut names);
            for i in 0..n {
                let mut r = c.rng.fork();
                let x = <$t as Ty>::gen(&mut r, 4);
                let mut j = x.wire();
                if i % 3 == 1 { j = mutate_tree(&j, &mut r, &names); }
                let p = permute(&j, &mut r);
                let st = Style { ws: r.chance(1, 2), esc: r.chance(1, 3), comments: false };
                let mut t = text(&p, &mut r, st);
                if i % 3 == 2 { t = mutate(&t, &mut r); }
                let ind = if r.chance(1, 2) { None } else { Some("  ") };
                c.case(&format!("{} {:?} {:?} {:?}", stringify!($t), t, x, ind), true, || {
                    match (de::<$t>(&t), de_stream::<$t>(t.as_bytes(), r.fork())) {
                        (Ok(a), Ok(b)) if a.eqv(&b) => (),
                        (Err(_), Err(_)) => (),
                        (a, b) => return Err(format!("{:?} from memory, {:?} from a stream", a, b)),
                    }
                    let (a, b) = (ser_indent(&x, ind), ser_bytes(&x, ind, r.fork()));
                    if a.as_bytes() != b.as_slice() { return Err(format!("{:?} to a string, {:?} to a sink", a, String::from_utf8_lossy(&b))); }
                    let direct = to_str(&x);
                    let mut w = String::new();
                    to_writer(&mut w, &x).unwrap();
                    if w != direct || (ind.is_none() && direct != a) { return Err("to_str and to_writer differ".into()); }
                    Ok(())
                });
            }
        };
    }
    for_all_types!(t);
    for _ in 0..c.n(8000) {
        let mut r = c.rng.fork();
        let s = gen_string(&mut r);
        let ch = gen_char(&mut r);
        c.case(&format!("writer {:?} {:?}", s, ch), true, || {
            let mut a = String::new();
            let mut b = Utf8Writer::new(Trickle::new(r.fork()));
            TextWriter::write_str(&mut a, &s).unwrap();
            TextWriter::write_char(&mut a, ch).unwrap();
            TextWriter::write_str(&mut &mut b, &s).unwrap();
            TextWriter::write_char(&mut &mut b, ch).unwrap();
            let b = b.into_inner().data;
            let want = format!("{}{}", s, ch);
            if a == want && b == want.as_bytes() { Ok(()) } else { Err(format!("{:?} {:?}", a, b)) }
        });
    }
}

// ---- C21 ---------------------------------------------------------------------------------------

fn nonzero(t: &str) -> Result<(), String> {
    let late = format!("{{\"w\":[],\"v\":{}}}", t);
    macro_rules! one {
        ($($p:ty, $n:ty;)*) => { $(
            for (how, a, b) in [("direct", de::<$p>(t), de::<$n>(t)), ("out of order", de::<Gen<$p>>(&late).map(|g| g.v()), de::<Gen<$n>>(&late).map(|g| g.v()))] {
                match (&a, &b) {
                    (Ok(0), Err(_)) | (Err(_), Err(_)) => (),
                    (Ok(x), Ok(y)) if *x == y.get() => { if ser(x) != ser(y) { return Err("written differently".into()); } }
                    _ => return Err(format!("{} {}: plain {:?}, non-zero {:?}", stringify!($n), how, a, b)),
                }
            }
        )* };
    }
    one!(i8, NonZeroI8; i16, NonZeroI16; i32, NonZeroI32; i64, NonZeroI64; u8, NonZeroU8; u16, NonZeroU16; u32, NonZeroU32; u64, NonZeroU64;);
    Ok(())
}

pub fn c21(c: &mut Ctx) {
    number_texts(c, |c, t, en| {
        if t.len() > 5 && en && c.cases % 7 != 0 && !c.thorough { c.cases += 1; return }
        if en { c.each(&|| t.to_string(), || nonzero(t)) } else { c.case(t, true, || nonzero(t)) }
    });
    for t in ["null", "true", "\"1\"", "\"0\"", "[]", "[1]", "{}", "0", "-0", "0.0", "0e5", "-0e0", "0.00e-3", "00", "01", "-", ""] {
        c.each(&|| t.to_string(), || nonzero(t));
    }
    for x in -300..70000i64 {
        if x % 13 != 0 && x > 300 && !c.thorough { continue }
        c.each(&|| x.to_string(), || nonzero(&x.to_string()));
    }
}

// ---- C22 ---------------------------------------------------------------------------------------

/// Goes on reading whatever the operations report. Panics are allowed, characters that are none are not.
fn after_error(t: &str, r: &mut Rng) -> Result<(), String> {
    let mut seen: Vec<u32> = Vec::new();
    let _ = catch(|| {
        let Ok(mut d) = TextDeserializer::new(TextDeserializerConfig::strict(), t) else { return };
        if d.open_object().is_err() { return }
        for _ in 0..30 {
            let entry = if r.chance(1, 2) { d.try_push_entry("zzz").unwrap_or(false) } else {
                match d.next_entry() {
                    Ok(true) => {
                        while let Ok(Some(ch)) = d.next_char() { seen.push(std::hint::black_box(ch) as u32); if seen.len() > 1000 { return } }
                        true
                    }
                    _ => false,
                }
            };
            if !entry { continue }
            if let serdere_json::ValueType::String = d.peek_value_type() {
                if d.open_str().is_err() { return }
                while let Ok(Some(ch)) = d.next_char() { seen.push(std::hint::black_box(ch) as u32); if seen.len() > 1000 { return } }
            } else { let _ = d.skip_value(); }
        }
    });
    for x in seen {
        if char::from_u32(x).is_none() || !t.chars().any(|ch| ch as u32 == x) && !t.contains('\\') { return Err(format!("read the character {:x}, which is not in the text", x)) }
    }
    Ok(())
}

pub fn c22(c: &mut Ctx) {
    long_keys(c);
    for i in 0..c.n(60000) {
        let mut r = c.rng.fork();
        let j = gen(&mut r, 4);
        let st = Style { ws: false, esc: r.chance(1, 2), comments: false };
        let mut t = text(&j, &mut r, st);
        if i % 3 == 2 { t = mutate(&t, &mut r); }
        let mode = *r.pick(&[Mode::Keys, Mode::Mixed, Mode::Keys]);
        c.case(&format!("{:?} {:?}", mode, t), t.len() > 6, || {
            let tree = parse(&t);
            match tree {
                Some(j) if !has_dup_keys(&j) => check_walk(&t, false, &Some(j), &mut r, mode),
                _ => match walk_reader(&*t, false, None, &mut r, mode) {
                    Err(Bad::Wrong(e)) => Err(e),
                    _ => Ok(()),
                },
            }
        });
    }
    // going on after an error
    for doc in ["{\"a\":\"x\",\"b\":12e", "{\"a\":\"x\",\"b\":[1,2", "{\"\":\"\",\"b\":{\"c\":9."] {
        for _ in 0..8 {
            let mut r = c.rng.fork();
            c.case(&format!("after an error {:?}", doc), true, || after_error(doc, &mut r));
        }
    }
    for _ in 0..c.n(20000) {
        let mut r = c.rng.fork();
        let j = J::Obj((0..r.below(4) + 1).map(|i| (format!("k{}", i), gen(&mut r, 3))).collect());
        let st = Style { ws: false, esc: false, comments: false };
        let mut t = text(&j, &mut r, st);
        if r.chance(1, 2) { let mut n = r.below(t.len() + 1); while !t.is_char_boundary(n) { n -= 1; } t.truncate(n); } else { t = mutate(&t, &mut r); }
        c.case(&format!("after an error {:?}", t), true, || after_error(&t, &mut r));
    }
    let n = c.n(800);
    macro_rules! t {
        ($t:ty, $f:expr) => {
            for i in 0..n {
                let mut r = c.rng.fork();
                let j = permute(&<$t as Ty>::gen(&mut r, 5).wire(), &mut r);
                let st = Style { ws: false, esc: true, comments: false };
                let mut t = text(&j, &mut r, st);
                if i % 3 == 2 { t = mutate(&t, &mut r); }
                c.case(&format!("{} {:?}", stringify!($t), t), true, || {
                    if let Ok(x) = de::<$t>(&t) {
                        let f: fn(&$t) -> Vec<&String> = $f;
                        for s in f(&x) { if std::str::from_utf8(s.as_bytes()).is_err() { return Err("invalid UTF-8".into()); } }
                    }
                    if i % 3 != 2 { expect(de::<$t>(&t), &<$t as Ty>::read(&j), "value")?; }
                    Ok(())
                });
            }
        };
    }
    t!(Vec<String>, |x| x.iter().collect());
    t!(Gen<Vec<String>>, |x| x.strings());
    t!(Strs, |x| x.strings());
    t!(Ren, |_| vec![]);
    t!(Nums, |_| vec![]);
}
