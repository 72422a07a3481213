//! An independent JSON reference: tree, strict parser (with optional comments), rendering.
use crate::ctx::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    /// The text of the number.
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn num(x: impl ToString) -> J {
    J::Num(x.to_string())
}

pub fn str(x: &str) -> J {
    J::Str(x.to_string())
}

/// The exact decimal value of a number text: sign, digits without leading or trailing zeros,
/// exponent of the last digit. Zero has no digits.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Dec {
    pub neg: bool,
    pub digits: Vec<u8>,
    pub exp: i64,
}

/// Splits a number text into (negative, integral digits, fraction digits, exponent). The exponent
/// saturates far outside of the range of i32.
pub fn split_num(text: &str) -> (bool, &str, &str, i64) {
    let (neg, t) = match text.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, text),
    };
    let (mant, exp) = match t.find(['e', 'E']) {
        Some(i) => (&t[..i], &t[i + 1..]),
        None => (t, "0"),
    };
    let (int, frac) = match mant.find('.') {
        Some(i) => (&mant[..i], &mant[i + 1..]),
        None => (mant, ""),
    };
    let (eneg, etext) = match exp.strip_prefix('-') {
        Some(e) => (true, e),
        None => (false, exp.strip_prefix('+').unwrap_or(exp)),
    };
    let mut e: i64 = 0;
    for b in etext.bytes() {
        e = (e * 10 + (b - b'0') as i64).min(1_000_000_000_000);
    }
    (neg, int, frac, if eneg { -e } else { e })
}

pub fn dec(text: &str) -> Dec {
    let (neg, int, frac, exp) = split_num(text);
    let mut digits: Vec<u8> = int.bytes().chain(frac.bytes()).map(|b| b - b'0').collect();
    let mut exp = exp - frac.len() as i64;
    while digits.last() == Some(&0) {
        digits.pop();
        exp += 1;
    }
    let lead = digits.iter().take_while(|d| **d == 0).count();
    digits.drain(..lead);
    if digits.is_empty() {
        exp = 0;
    }
    Dec { neg, digits, exp }
}

/// The exact value of a number text if it is an integer which fits i128 (all types tested do).
pub enum Int {
    Exact(i128),
    /// Not an integer, or beyond every tested type.
    No,
}

pub fn int_value(text: &str) -> Int {
    let d = dec(text);
    if d.digits.is_empty() {
        return Int::Exact(0);
    }
    if d.exp < 0 || d.digits.len() as i64 + d.exp > 38 {
        return Int::No;
    }
    let mut x: i128 = 0;
    for b in &d.digits {
        x = x * 10 + *b as i128;
    }
    for _ in 0..d.exp {
        x *= 10;
    }
    Int::Exact(if d.neg { -x } else { x })
}

/// Whether two number texts denote the same value (sign of zero included).
pub fn same_num(a: &str, b: &str) -> bool {
    dec(a) == dec(b)
}

pub fn has_raw_control(text: &str) -> bool {
    // Raw control characters (other than whitespace between tokens) -- used only to recognise the
    // listed known finding, by a scan that tracks strings.
    let mut in_str = false;
    let mut esc = false;
    for ch in text.chars() {
        if in_str {
            if (ch as u32) < 0x20 {
                return true;
            }
            if esc {
                esc = false;
            } else if ch == '\\' {
                esc = true;
            } else if ch == '"' {
                in_str = false;
            }
        } else if ch == '"' {
            in_str = true;
        }
    }
    false
}

pub struct Parser {
    s: Vec<char>,
    i: usize,
    pub comments: bool,
    /// Accept raw control characters in strings (the listed known finding).
    pub raw_control: bool,
}

impl Parser {
    pub fn new(text: &str, comments: bool) -> Parser {
        Parser { s: text.chars().collect(), i: 0, comments, raw_control: false }
    }
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn eat(&mut self, c: char) -> Option<()> {
        if self.peek() == Some(c) {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn ws(&mut self) -> Option<()> {
        loop {
            match self.peek() {
                Some(' ' | '\t' | '\n' | '\r') => self.i += 1,
                Some('/') if self.comments => match self.s.get(self.i + 1) {
                    Some('/') => {
                        let end = self.s[self.i..].iter().position(|c| *c == '\n')?;
                        self.i += end + 1;
                    }
                    Some('*') => {
                        self.i += 2;
                        while !(self.peek()? == '*' && *self.s.get(self.i + 1)? == '/') {
                            self.i += 1;
                        }
                        self.i += 2;
                    }
                    _ => return None,
                },
                _ => return Some(()),
            }
        }
    }
    fn word(&mut self, w: &str, j: J) -> Option<J> {
        for c in w.chars() {
            self.eat(c)?;
        }
        Some(j)
    }
    fn digits(&mut self) -> Option<()> {
        let start = self.i;
        while matches!(self.peek(), Some('0'..='9')) {
            self.i += 1;
        }
        if self.i > start {
            Some(())
        } else {
            None
        }
    }
    fn number(&mut self) -> Option<J> {
        let start = self.i;
        let _ = self.eat('-');
        if self.eat('0').is_none() {
            self.digits()?;
        }
        if self.eat('.').is_some() {
            self.digits()?;
        }
        if matches!(self.peek(), Some('e' | 'E')) {
            self.i += 1;
            if matches!(self.peek(), Some('+' | '-')) {
                self.i += 1;
            }
            self.digits()?;
        }
        Some(J::Num(self.s[start..self.i].iter().collect()))
    }
    fn hex4(&mut self) -> Option<u32> {
        let mut x = 0;
        for _ in 0..4 {
            x = x * 16 + self.peek()?.to_digit(16)?;
            self.i += 1;
        }
        Some(x)
    }
    pub fn string(&mut self) -> Option<String> {
        self.eat('"')?;
        let mut res = String::new();
        loop {
            let c = self.peek()?;
            self.i += 1;
            match c {
                '"' => return Some(res),
                '\\' => {
                    let e = self.peek()?;
                    self.i += 1;
                    res.push(match e {
                        '"' => '"',
                        '\\' => '\\',
                        '/' => '/',
                        'b' => '\u{8}',
                        'f' => '\u{c}',
                        'n' => '\n',
                        'r' => '\r',
                        't' => '\t',
                        'u' => {
                            let a = self.hex4()?;
                            if (0xD800..0xDC00).contains(&a) {
                                self.eat('\\')?;
                                self.eat('u')?;
                                let b = self.hex4()?;
                                if !(0xDC00..0xE000).contains(&b) {
                                    return None;
                                }
                                char::from_u32(0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00))?
                            } else {
                                char::from_u32(a)?
                            }
                        }
                        _ => return None,
                    });
                }
                c if (c as u32) < 0x20 && !self.raw_control => return None,
                c => res.push(c),
            }
        }
    }
    fn value(&mut self) -> Option<J> {
        match self.peek()? {
            'n' => self.word("null", J::Null),
            't' => self.word("true", J::Bool(true)),
            'f' => self.word("false", J::Bool(false)),
            '"' => self.string().map(J::Str),
            '-' | '0'..='9' => self.number(),
            '[' => {
                self.i += 1;
                self.ws()?;
                let mut items = vec![];
                if self.eat(']').is_some() {
                    return Some(J::Arr(items));
                }
                loop {
                    self.ws()?;
                    items.push(self.value()?);
                    self.ws()?;
                    if self.eat(']').is_some() {
                        return Some(J::Arr(items));
                    }
                    self.eat(',')?;
                }
            }
            '{' => {
                self.i += 1;
                self.ws()?;
                let mut items = vec![];
                if self.eat('}').is_some() {
                    return Some(J::Obj(items));
                }
                loop {
                    self.ws()?;
                    let key = self.string()?;
                    self.ws()?;
                    self.eat(':')?;
                    self.ws()?;
                    items.push((key, self.value()?));
                    self.ws()?;
                    if self.eat('}').is_some() {
                        return Some(J::Obj(items));
                    }
                    self.eat(',')?;
                }
            }
            _ => None,
        }
    }
    pub fn document(&mut self) -> Option<J> {
        self.ws()?;
        let v = self.value()?;
        self.ws()?;
        if self.i == self.s.len() {
            Some(v)
        } else {
            None
        }
    }
}

pub fn parse(text: &str) -> Option<J> {
    Parser::new(text, false).document()
}

/// Equality of trees, numbers by exact value.
pub fn same(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Num(a), J::Num(b)) => same_num(a, b),
        (J::Arr(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        (J::Obj(a), J::Obj(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && same(&a.1, &b.1))
        }
        (a, b) => a == b,
    }
}

pub fn has_dup_keys(j: &J) -> bool {
    match j {
        J::Arr(xs) => xs.iter().any(has_dup_keys),
        J::Obj(xs) => {
            xs.iter().any(|x| has_dup_keys(&x.1))
                || (0..xs.len()).any(|i| (0..i).any(|k| xs[i].0 == xs[k].0))
        }
        _ => false,
    }
}

/// How a tree is turned into text.
#[derive(Clone, Copy, Default)]
pub struct Style {
    /// Random whitespace between tokens.
    pub ws: bool,
    /// Random escapes inside strings.
    pub esc: bool,
    /// Random comments between tokens.
    pub comments: bool,
}

pub fn gap(r: &mut Rng, st: Style, out: &mut String) {
    if st.ws || st.comments {
        for _ in 0..r.below(3) {
            if st.comments && r.chance(1, 2) {
                let bodies = ["", "*", "/", "\"", "{", "x", "**", "é", "\\", "//", "/*", "1", ",", "* /", "***", "]"];
                if r.chance(1, 2) {
                    out.push_str("//");
                    for _ in 0..r.below(3) {
                        out.push_str(r.pick(&bodies[..]));
                    }
                    out.push('\n');
                } else {
                    out.push_str("/*");
                    let mut body = String::new();
                    for _ in 0..r.below(4) {
                        body.push_str(r.pick(&bodies[..]));
                        if r.chance(1, 4) {
                            body.push('\n');
                        }
                    }
                    // Must not close the comment early
                    while body.contains("*/") {
                        body = body.replace("*/", "*");
                    }
                    out.push_str(&body);
                    out.push_str("*/");
                }
            } else if st.ws {
                out.push(*r.pick(&[' ', ' ', '\n', '\t', '\r']));
            }
        }
    }
}

pub fn render_str(s: &str, r: &mut Rng, st: Style, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        let must = (c as u32) < 0x20 || c == '"' || c == '\\';
        if must || (st.esc && r.chance(1, 4)) {
            let short = match c {
                '"' => Some('"'),
                '\\' => Some('\\'),
                '/' => Some('/'),
                '\u{8}' => Some('b'),
                '\u{c}' => Some('f'),
                '\n' => Some('n'),
                '\r' => Some('r'),
                '\t' => Some('t'),
                _ => None,
            };
            match short {
                Some(x) if !(st.esc && r.chance(1, 3)) => {
                    out.push('\\');
                    out.push(x);
                }
                _ => {
                    let mut buf = [0; 2];
                    for u in c.encode_utf16(&mut buf) {
                        let h = format!("{:04x}", u);
                        out.push_str("\\u");
                        for x in h.chars() {
                            out.push(if st.esc && r.chance(1, 3) { x.to_ascii_uppercase() } else { x });
                        }
                    }
                }
            }
        } else {
            out.push(c);
        }
    }
    out.push('"');
}

pub fn render(j: &J, r: &mut Rng, st: Style, out: &mut String) {
    match j {
        J::Null => out.push_str("null"),
        J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        J::Num(t) => out.push_str(t),
        J::Str(s) => render_str(s, r, st, out),
        J::Arr(xs) => {
            out.push('[');
            gap(r, st, out);
            for (i, x) in xs.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                    gap(r, st, out);
                }
                render(x, r, st, out);
                gap(r, st, out);
            }
            out.push(']');
        }
        J::Obj(xs) => {
            out.push('{');
            gap(r, st, out);
            for (i, (k, x)) in xs.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                    gap(r, st, out);
                }
                render_str(k, r, st, out);
                gap(r, st, out);
                out.push(':');
                gap(r, st, out);
                render(x, r, st, out);
                gap(r, st, out);
            }
            out.push('}');
        }
    }
}

pub fn text(j: &J, r: &mut Rng, st: Style) -> String {
    let mut out = String::new();
    gap(r, st, &mut out);
    render(j, r, st, &mut out);
    gap(r, st, &mut out);
    out
}

pub fn plain(j: &J) -> String {
    text(j, &mut Rng::new(0), Style::default())
}

pub fn gen_char(r: &mut Rng) -> char {
    match r.below(12) {
        0..=4 => (b'a' + r.below(26) as u8) as char,
        5 => *r.pick(&['"', '\\', '/', '\'', '{', '[', ',', ':', '*']),
        6 => char::from_u32(r.below(0x20) as u32).unwrap(),
        7 => *r.pick(&['\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{2028}', '\u{feff}']),
        8 => *r.pick(&['é', 'ß', 'π', '中', '日', '😀', '𝄞']),
        9 => (b'0' + r.below(10) as u8) as char,
        _ => loop {
            if let Some(c) = char::from_u32(r.below(0x110000) as u32) {
                return c;
            }
        },
    }
}

pub fn gen_string(r: &mut Rng) -> String {
    let n = if r.chance(1, 20) { r.below(80) } else { r.below(6) };
    (0..n).map(|_| gen_char(r)).collect()
}

pub fn gen_digits(r: &mut Rng, n: usize) -> String {
    (0..n)
        .map(|_| if r.chance(1, 4) { *r.pick(&['0', '9', '5']) } else { (b'0' + r.below(10) as u8) as char })
        .collect()
}

/// A random JSON number text.
pub fn gen_num(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(1, 3) {
        s.push('-');
    }
    let boundary: [i128; 14] = [127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648, 4294967295, 9223372036854775807, 9223372036854775808, 18446744073709551615];
    match r.below(8) {
        0 => s.push('0'),
        1 | 2 => {
            let x = *r.pick(&boundary) + r.range(-1, 1) as i128;
            s.push_str(&x.to_string());
        }
        _ => {
            s.push((b'1' + r.below(9) as u8) as char);
            let n = if r.chance(1, 12) { r.below(60) } else { r.below(8) };
            let d = gen_digits(r, n);
            s.push_str(&d);
            if r.chance(1, 6) {
                let z = r.below(12);
                s.push_str(&"0".repeat(z));
            }
        }
    }
    if r.chance(1, 3) {
        s.push('.');
        let n = if r.chance(1, 12) { 1 + r.below(60) } else { 1 + r.below(6) };
        if r.chance(1, 4) {
            s.push_str(&"0".repeat(n));
        } else {
            if r.chance(1, 4) {
                let z = r.below(6);
                s.push_str(&"0".repeat(z));
            }
            let d = gen_digits(r, n);
            s.push_str(&d);
        }
    }
    if r.chance(1, 4) {
        s.push(*r.pick(&['e', 'E']));
        let sign = *r.pick(&["", "+", "-", "-"]);
        s.push_str(sign);
        if r.chance(1, 4) {
            let z = r.below(3);
            s.push_str(&"0".repeat(z));
        }
        let e = match r.below(8) {
            0 => r.range(0, 400),
            1 => r.range(0, 70000),
            2 => *r.pick(&[32767i64, 32768, 65535, 65536, 99999, 1000000, 128, 255, 256]),
            _ => r.range(0, 12),
        };
        s.push_str(&e.to_string());
    }
    s
}

pub const KEYS: [&str; 10] = ["a", "b", "c", "key", "", "a\"b", "é", "long key with spaces", "\n", "😀"];

pub fn gen(r: &mut Rng, depth: usize) -> J {
    match r.below(if depth == 0 { 6 } else { 10 }) {
        0 => J::Null,
        1 => J::Bool(r.chance(1, 2)),
        2 | 3 => J::Num(gen_num(r)),
        4 | 5 => J::Str(gen_string(r)),
        6 | 7 => {
            let n = if r.chance(1, 10) { r.below(12) } else { r.below(4) };
            J::Arr((0..n).map(|_| gen(r, depth - 1)).collect())
        }
        _ => {
            let n = if r.chance(1, 10) { r.below(12) } else { r.below(5) };
            let mut xs: Vec<(String, J)> = vec![];
            for i in 0..n {
                let mut k = if r.chance(2, 3) { r.pick(&KEYS).to_string() } else { gen_string(r) };
                if xs.iter().any(|x| x.0 == k) {
                    k = format!("{}{}", k, i);
                    if xs.iter().any(|x| x.0 == k) {
                        continue;
                    }
                }
                xs.push((k, gen(r, depth - 1)));
            }
            J::Obj(xs)
        }
    }
}

/// Shuffles the entries of every object.
pub fn permute(j: &J, r: &mut Rng) -> J {
    match j {
        J::Arr(xs) => J::Arr(xs.iter().map(|x| permute(x, r)).collect()),
        J::Obj(xs) => {
            let mut ys: Vec<_> = xs.iter().map(|(k, x)| (k.clone(), permute(x, r))).collect();
            match r.below(4) {
                0 => ys.reverse(),
                1 if !ys.is_empty() => {
                    let n = r.below(ys.len());
                    ys.rotate_left(n);
                }
                _ => r.shuffle(&mut ys),
            }
            J::Obj(ys)
        }
        j => j.clone(),
    }
}

/// A small random change of a text.
pub fn mutate(s: &str, r: &mut Rng) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(2) {
        let alphabet = ['{', '}', '[', ']', ',', ':', '"', '\\', '0', '1', '9', '-', '+', '.', 'e', 'E', 't', 'n', 'u', ' ', '\n', '/', '*', 'a', 'é', '\u{0}', '\u{1f}', '\u{a0}', '\u{b}', '\u{c}', '\u{feff}'];
        match r.below(6) {
            0 if !cs.is_empty() => {
                let i = r.below(cs.len());
                cs.remove(i);
            }
            1 => {
                let i = r.below(cs.len() + 1);
                cs.insert(i, *r.pick(&alphabet));
            }
            2 if !cs.is_empty() => {
                let i = r.below(cs.len());
                cs[i] = *r.pick(&alphabet);
            }
            3 if cs.len() > 1 => {
                let i = r.below(cs.len() - 1);
                cs.swap(i, i + 1);
            }
            4 => {
                let n = r.below(cs.len() + 1);
                cs.truncate(n);
            }
            _ if !cs.is_empty() => {
                let i = r.below(cs.len());
                let c = cs[i];
                cs.insert(i, c);
            }
            _ => (),
        }
    }
    cs.into_iter().collect()
}
