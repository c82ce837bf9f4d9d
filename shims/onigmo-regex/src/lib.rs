//! Stand-in for `onigmo-regex` (bindings to the Onigmo C library), which is not available offline:
//! a backtracking matcher for the part of the syntax that monoruby's own Ruby code needs.
use std::collections::HashMap;

pub const ONIG_OPTION_NONE: u32 = 0;
pub const ONIG_OPTION_IGNORECASE: u32 = 1;
pub const ONIG_OPTION_EXTEND: u32 = 2;
pub const ONIG_OPTION_MULTILINE: u32 = 4;

#[allow(non_camel_case_types)]
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum OnigmoEncoding {
    ASCII, UTF8, EUC_JP, Windows_31J, ISO_8859_1, ISO_8859_2, ISO_8859_3, ISO_8859_4, ISO_8859_5,
    ISO_8859_6, ISO_8859_7, ISO_8859_8, ISO_8859_9, ISO_8859_10, ISO_8859_11, ISO_8859_13,
    ISO_8859_14, ISO_8859_15, ISO_8859_16, KOI8_R, KOI8_U, Windows_1250, Windows_1251,
    Windows_1252, Windows_1253, Windows_1254, Windows_1257,
}

#[derive(Debug, Clone)]
pub struct Error(String);
impl Error {
    pub fn message(&self) -> &str {
        &self.0
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
type Result<T> = std::result::Result<T, Error>;

#[derive(Debug, Clone, PartialEq)]
enum Set {
    Range(u32, u32),
    Digit, Word, Space, Hex, Alpha, Alnum, Upper, Lower, Punct, Cntrl, Graph, Print, Blank, Ascii,
    Not(Box<Set>),
    Any(Vec<Set>),
    All(Vec<Set>),
}
#[derive(Debug, Clone)]
enum N {
    Empty,
    Char(u32, bool),
    Dot(bool),
    Class(Set, bool),
    Seq(Vec<N>),
    Alt(Vec<N>),
    Group(usize, Box<N>),
    Rep(Box<N>, usize, usize, Greed),
    Look(Box<N>, bool, bool),
    Atomic(Box<N>),
    Back(Vec<usize>, bool),
    Call(usize),
    Cond(usize, Box<N>, Box<N>),
    Bol, Eol, Bos, Eos, EosNl, Wordb, NotWordb, Start, Keep,
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum Greed {
    Greedy,
    Lazy,
    Possessive,
}

#[derive(Debug)]
pub struct Regex {
    src: String,
    option: u32,
    utf8: bool,
    node: N,
    groups: usize,
    names: Vec<(String, Vec<usize>)>,
    warnings: Vec<String>,
    table: HashMap<usize, N>,
}

struct P<'a> {
    s: &'a [u32],
    i: usize,
    ngroups: usize,
    named: bool,
    names: Vec<(String, Vec<usize>)>,
    total_named: bool,
}
#[derive(Clone, Copy)]
struct F {
    i: bool,
    x: bool,
    m: bool,
}
impl<'a> P<'a> {
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).and_then(|c| char::from_u32(*c))
    }
    fn at(&self, s: &str) -> bool {
        s.chars().enumerate().all(|(k, c)| self.s.get(self.i + k) == Some(&(c as u32)))
    }
    fn eat(&mut self, s: &str) -> bool {
        let r = self.at(s);
        if r {
            self.i += s.chars().count();
        }
        r
    }
    fn err<T>(&self, m: &str) -> Result<T> {
        let s: String = self.s.iter().filter_map(|c| char::from_u32(*c)).collect();
        Err(Error(format!("{m}: /{s}/")))
    }
    fn alt(&mut self, mut f: F) -> Result<N> {
        let mut alts = vec![];
        let mut seq = vec![];
        loop {
            match self.peek() {
                None | Some(')') if self.i >= self.s.len() || self.at(")") => break,
                Some('|') => {
                    self.i += 1;
                    alts.push(N::Seq(std::mem::take(&mut seq)));
                }
                Some(c) if f.x && (c.is_whitespace() || c == '#') => {
                    if c == '#' {
                        while self.i < self.s.len() && self.s[self.i] != 10 {
                            self.i += 1;
                        }
                    } else {
                        self.i += 1;
                    }
                }
                _ => {
                    if self.at("(?#") {
                        while self.i < self.s.len() && !self.eat(")") {
                            self.i += 1;
                        }
                        continue;
                    }
                    // (?imx-imx) up to the end of the group
                    if self.at("(?") {
                        let save = self.i;
                        self.i += 2;
                        if let Some(nf) = self.flags(f) {
                            if self.eat(")") {
                                f = nf;
                                let rest = self.alt(f)?;
                                seq.push(rest);
                                break;
                            }
                        }
                        self.i = save;
                    }
                    let a = self.atom(f)?;
                    let a = self.quant(a, f)?;
                    seq.push(a);
                }
            }
        }
        if alts.is_empty() {
            Ok(N::Seq(seq))
        } else {
            alts.push(N::Seq(seq));
            Ok(N::Alt(alts))
        }
    }
    fn flags(&mut self, mut f: F) -> Option<F> {
        let mut on = true;
        let mut n = 0;
        while let Some(c) = self.peek() {
            match c {
                'i' => f.i = on,
                'm' => f.m = on,
                'x' => f.x = on,
                'a' | 'u' | 'd' => {}
                '-' => on = false,
                _ => break,
            }
            n += 1;
            self.i += 1;
        }
        if n > 0 {
            Some(f)
        } else {
            None
        }
    }
    fn num(&mut self) -> Option<usize> {
        let b = self.i;
        let mut v = 0usize;
        while let Some(c) = self.peek().and_then(|c| c.to_digit(10)) {
            v = v.saturating_mul(10).saturating_add(c as usize);
            self.i += 1;
        }
        if self.i > b {
            Some(v)
        } else {
            None
        }
    }
    fn quant(&mut self, mut a: N, f: F) -> Result<N> {
        loop {
            if f.x {
                while self.peek().is_some_and(|c| c.is_whitespace()) {
                    self.i += 1;
                }
            }
            let (lo, hi, brace) = match self.peek() {
                Some('*') => (0, usize::MAX, false),
                Some('+') => (1, usize::MAX, false),
                Some('?') => (0, 1, false),
                Some('{') => {
                    let save = self.i;
                    self.i += 1;
                    let lo = self.num();
                    let r = if self.eat(",") {
                        let hi = self.num();
                        if lo.is_none() && hi.is_none() {
                            None
                        } else {
                            Some((lo.unwrap_or(0), hi.unwrap_or(usize::MAX)))
                        }
                    } else {
                        lo.map(|l| (l, l))
                    };
                    match r {
                        Some((l, h)) if self.at("}") => (l, h, true),
                        _ => {
                            self.i = save;
                            return Ok(a);
                        }
                    }
                }
                _ => return Ok(a),
            };
            self.i += 1;
            let g = if self.eat("?") {
                Greed::Lazy
            } else if !brace && self.eat("+") {
                Greed::Possessive
            } else {
                Greed::Greedy
            };
            if matches!(a, N::Bol | N::Bos | N::Empty) && false {
                return self.err("target of repeat operator is invalid");
            }
            a = N::Rep(Box::new(a), lo, hi, g);
        }
    }
    fn name(&mut self, end: &str) -> Result<String> {
        let mut s = String::new();
        while !self.eat(end) {
            match self.peek() {
                Some(c) => s.push(c),
                None => return self.err("invalid group name <>"),
            }
            self.i += 1;
        }
        Ok(s)
    }
    fn close(&mut self) -> Result<()> {
        if self.eat(")") {
            Ok(())
        } else {
            self.err("end pattern with unmatched parenthesis")
        }
    }
    fn atom(&mut self, f: F) -> Result<N> {
        let c = match self.peek() {
            Some(c) => c,
            None => {
                let v = self.s[self.i];
                self.i += 1;
                return Ok(N::Char(v, false));
            }
        };
        self.i += 1;
        Ok(match c {
            '.' => N::Dot(f.m),
            '^' => N::Bol,
            '$' => N::Eol,
            '[' => {
                let s = self.class()?;
                N::Class(s, f.i)
            }
            '(' => {
                let r = if self.eat("?:") {
                    self.alt(f)?
                } else if self.eat("?=") {
                    N::Look(Box::new(self.alt(f)?), false, false)
                } else if self.eat("?!") {
                    N::Look(Box::new(self.alt(f)?), true, false)
                } else if self.eat("?<=") {
                    N::Look(Box::new(self.alt(f)?), false, true)
                } else if self.eat("?<!") {
                    N::Look(Box::new(self.alt(f)?), true, true)
                } else if self.eat("?>") {
                    N::Atomic(Box::new(self.alt(f)?))
                } else if self.eat("?<") || self.eat("?'") {
                    let end = if self.s[self.i - 1] == '<' as u32 { ">" } else { "'" };
                    let name = self.name(end)?;
                    self.ngroups += 1;
                    let g = self.ngroups;
                    self.named = true;
                    match self.names.iter_mut().find(|(n, _)| *n == name) {
                        Some((_, v)) => v.push(g),
                        None => self.names.push((name, vec![g])),
                    }
                    N::Group(g, Box::new(self.alt(f)?))
                } else if self.eat("?(") {
                    let n = if self.eat("<") { self.name(">")? } else { self.num().map(|n| n.to_string()).unwrap_or_default() };
                    self.close()?;
                    let g = self.group_no(&n)?;
                    match self.alt(f)? {
                        N::Alt(mut v) if v.len() == 2 => {
                            let e = v.pop().unwrap();
                            N::Cond(g, Box::new(v.pop().unwrap()), Box::new(e))
                        }
                        t => N::Cond(g, Box::new(t), Box::new(N::Empty)),
                    }
                } else if self.eat("?") {
                    match self.flags(f) {
                        Some(nf) if self.eat(":") => self.alt(nf)?,
                        _ => return self.err("undefined group option"),
                    }
                } else if self.total_named {
                    self.alt(f)?
                } else {
                    self.ngroups += 1;
                    let g = self.ngroups;
                    N::Group(g, Box::new(self.alt(f)?))
                };
                self.close()?;
                r
            }
            '*' | '+' | '?' => return self.err("target of repeat operator is not specified"),
            '\\' => self.escape(f)?,
            c => N::Char(c as u32, f.i),
        })
    }
    fn group_no(&self, n: &str) -> Result<usize> {
        if let Ok(k) = n.parse::<i64>() {
            return Ok(if k < 0 { (self.ngroups as i64 + 1 + k) as usize } else { k as usize });
        }
        match self.names.iter().find(|(m, _)| m == n) {
            Some((_, v)) => Ok(v[0]),
            None => self.err(&format!("undefined name <{n}> reference")),
        }
    }
    fn set_escape(&mut self, c: char) -> Result<Option<Set>> {
        let not = |s| Set::Not(Box::new(s));
        Ok(Some(match c {
            'd' => Set::Digit,
            'D' => not(Set::Digit),
            'w' => Set::Word,
            'W' => not(Set::Word),
            's' => Set::Space,
            'S' => not(Set::Space),
            'h' => Set::Hex,
            'H' => not(Set::Hex),
            'p' | 'P' if self.eat("{") => {
                let n = self.name("}")?;
                let (neg, n) = match n.strip_prefix('^') {
                    Some(n) => (c == 'p', n.to_string()),
                    None => (c == 'P', n),
                };
                let s = self.posix(&n.to_lowercase())?;
                if neg {
                    not(s)
                } else {
                    s
                }
            }
            _ => return Ok(None),
        }))
    }
    fn posix(&self, n: &str) -> Result<Set> {
        Ok(match n {
            "alpha" | "l" | "letter" => Set::Alpha,
            "digit" | "nd" | "n" => Set::Digit,
            "alnum" => Set::Alnum,
            "upper" | "lu" => Set::Upper,
            "lower" | "ll" => Set::Lower,
            "space" => Set::Space,
            "punct" | "p" => Set::Punct,
            "cntrl" => Set::Cntrl,
            "graph" => Set::Graph,
            "print" => Set::Print,
            "blank" => Set::Blank,
            "xdigit" => Set::Hex,
            "word" => Set::Word,
            "ascii" => Set::Ascii,
            "any" => Set::Range(0, u32::MAX),
            "han" => Set::Range(0x4e00, 0x9fff),
            "hiragana" => Set::Range(0x3041, 0x309f),
            "katakana" => Set::Range(0x30a0, 0x30ff),
            _ => return self.err(&format!("invalid character property name {{{n}}}")),
        })
    }
    fn hex(&mut self, max: usize) -> u32 {
        let mut v = 0;
        let mut n = 0;
        while n < max {
            match self.peek().and_then(|c| c.to_digit(16)) {
                Some(d) => v = v * 16 + d,
                None => break,
            }
            self.i += 1;
            n += 1;
        }
        v
    }
    fn char_escape(&mut self, c: char) -> u32 {
        match c {
            'n' => 10,
            't' => 9,
            'r' => 13,
            'f' => 12,
            'v' => 11,
            'a' => 7,
            'e' => 27,
            'x' => {
                if self.eat("{") {
                    let v = self.hex(8);
                    self.eat("}");
                    v
                } else {
                    self.hex(2)
                }
            }
            'u' => {
                if self.eat("{") {
                    let v = self.hex(8);
                    self.eat("}");
                    v
                } else {
                    self.hex(4)
                }
            }
            'c' => {
                let v = self.s.get(self.i).copied().unwrap_or(0) & 0x1f;
                self.i += 1;
                v
            }
            '0'..='7' => {
                let mut v = c as u32 - 48;
                for _ in 0..2 {
                    match self.peek().and_then(|c| c.to_digit(8)) {
                        Some(d) => {
                            v = v * 8 + d;
                            self.i += 1;
                        }
                        None => break,
                    }
                }
                v
            }
            c => c as u32,
        }
    }
    fn escape(&mut self, f: F) -> Result<N> {
        let c = match self.peek() {
            Some(c) => c,
            None => return self.err("end pattern at escape"),
        };
        self.i += 1;
        if let Some(s) = self.set_escape(c)? {
            return Ok(N::Class(s, false));
        }
        Ok(match c {
            'A' => N::Bos,
            'z' => N::Eos,
            'Z' => N::EosNl,
            'b' => N::Wordb,
            'B' => N::NotWordb,
            'G' => N::Start,
            'K' => N::Keep,
            'R' => N::Alt(vec![
                N::Seq(vec![N::Char(13, false), N::Char(10, false)]),
                N::Class(Set::Any(vec![Set::Range(10, 13), Set::Range(0x85, 0x85), Set::Range(0x2028, 0x2029)]), false),
            ]),
            'X' => N::Dot(true),
            'k' if self.at("<") || self.at("'") => {
                let end = if self.eat("<") { ">" } else { self.i += 1; "'" };
                let n = self.name(end)?;
                if let Ok(k) = n.parse::<i64>() {
                    let k = if k < 0 { self.ngroups as i64 + 1 + k } else { k };
                    N::Back(vec![k as usize], f.i)
                } else {
                    match self.names.iter().find(|(m, _)| *m == n) {
                        Some((_, v)) => N::Back(v.clone(), f.i),
                        None => return self.err(&format!("undefined name <{n}> reference")),
                    }
                }
            }
            'g' if self.eat("<") => {
                let n = self.name(">")?;
                match n.parse::<usize>() {
                    Ok(k) => N::Call(k),
                    Err(_) => N::Call(self.group_no(&n)?),
                }
            }
            '1'..='9' => {
                self.i -= 1;
                let n = self.num().unwrap();
                N::Back(vec![n], f.i)
            }
            c => N::Char(self.char_escape(c), f.i),
        })
    }
    fn class(&mut self) -> Result<Set> {
        let neg = self.eat("^");
        let mut all = vec![];
        let mut any = vec![];
        let mut first = true;
        loop {
            let Some(&raw) = self.s.get(self.i) else { return self.err("premature end of char-class") };
            let c = char::from_u32(raw).unwrap_or('\u{fffd}');
            if c == ']' && !first {
                self.i += 1;
                break;
            }
            first = false;
            if self.eat("&&") {
                all.push(Set::Any(std::mem::take(&mut any)));
                continue;
            }
            if self.at("[:") {
                let save = self.i;
                self.i += 2;
                let neg = self.eat("^");
                let mut n = String::new();
                while let Some(c) = self.peek().filter(|c| c.is_ascii_alphabetic()) {
                    n.push(c);
                    self.i += 1;
                }
                if self.eat(":]") {
                    let s = self.posix(&n)?;
                    any.push(if neg { Set::Not(Box::new(s)) } else { s });
                    continue;
                }
                self.i = save;
            }
            if c == '[' {
                self.i += 1;
                any.push(self.class()?);
                continue;
            }
            self.i += 1;
            let lo = if c == '\\' {
                let Some(e) = self.peek() else { return self.err("end pattern at escape") };
                self.i += 1;
                if let Some(s) = self.set_escape(e)? {
                    any.push(s);
                    continue;
                }
                if e == 'b' {
                    8
                } else {
                    self.char_escape(e)
                }
            } else {
                raw
            };
            if self.at("-") && self.s.get(self.i + 1).is_some_and(|c| *c != ']' as u32) {
                let save = self.i;
                self.i += 1;
                let r = self.s[self.i];
                self.i += 1;
                let hi = if r == '\\' as u32 {
                    let e = self.peek().unwrap_or('\\');
                    self.i += 1;
                    if "dwshpDWSHP".contains(e) {
                        self.i = save;
                        any.push(Set::Range(lo, lo));
                        continue;
                    }
                    self.char_escape(e)
                } else if r == '[' as u32 {
                    self.i = save + 1;
                    any.push(Set::Range(lo, lo));
                    any.push(Set::Range('-' as u32, '-' as u32));
                    continue;
                } else {
                    r
                };
                if hi < lo {
                    return self.err("empty range in char class");
                }
                any.push(Set::Range(lo, hi));
            } else {
                any.push(Set::Range(lo, lo));
            }
        }
        all.push(Set::Any(any));
        let s = if all.len() == 1 { all.pop().unwrap() } else { Set::All(all) };
        Ok(if neg { Set::Not(Box::new(s)) } else { s })
    }
}

fn has(s: &Set, c: u32) -> bool {
    let ch = char::from_u32(c).unwrap_or('\u{fffd}');
    match s {
        Set::Range(a, b) => *a <= c && c <= *b,
        Set::Digit => ch.is_ascii_digit(),
        Set::Word => ch.is_alphanumeric() || ch == '_',
        Set::Space => matches!(c, 9..=13 | 32),
        Set::Hex => ch.is_ascii_hexdigit(),
        Set::Alpha => ch.is_alphabetic(),
        Set::Alnum => ch.is_alphanumeric(),
        Set::Upper => ch.is_uppercase(),
        Set::Lower => ch.is_lowercase(),
        Set::Punct => ch.is_ascii_punctuation(),
        Set::Cntrl => ch.is_control(),
        Set::Graph => c > 32 && c != 127,
        Set::Print => c >= 32 && c != 127,
        Set::Blank => c == 32 || c == 9,
        Set::Ascii => c < 128,
        Set::Not(s) => !has(s, c),
        Set::Any(v) => v.iter().any(|s| has(s, c)),
        Set::All(v) => v.iter().all(|s| has(s, c)),
    }
}
fn fold(c: u32) -> u32 {
    match char::from_u32(c) {
        Some(ch) => {
            let mut l = ch.to_lowercase();
            match (l.next(), l.next()) {
                (Some(x), None) => x as u32,
                _ => c,
            }
        }
        None => c,
    }
}

type Caps = Vec<Option<(usize, usize)>>;
struct M<'a> {
    s: &'a [u8],
    re: &'a Regex,
    start: usize,
    caps: Caps,
    keep: Option<usize>,
    steps: u64,
}
impl<'a> M<'a> {
    fn next(&self, i: usize) -> Option<(u32, usize)> {
        let b = *self.s.get(i)?;
        if b < 0x80 || !self.re.utf8 {
            return Some((b as u32, i + 1));
        }
        let n = if b >= 0xf0 { 4 } else if b >= 0xe0 { 3 } else { 2 };
        match self.s.get(i..i + n).and_then(|x| std::str::from_utf8(x).ok()) {
            Some(t) => Some((t.chars().next().unwrap() as u32, i + n)),
            None => Some((b as u32 | 0x8000_0000, i + 1)),
        }
    }
    fn prev(&self, i: usize) -> Option<usize> {
        if i == 0 {
            return None;
        }
        let mut j = i - 1;
        if self.re.utf8 {
            while j > 0 && self.s[j] & 0xc0 == 0x80 && i - j < 4 {
                j -= 1;
            }
        }
        Some(j)
    }
    fn word(&self, i: usize) -> bool {
        self.next(i).is_some_and(|(c, _)| has(&Set::Word, c))
    }
    fn m(&mut self, n: &N, i: usize, k: &mut dyn FnMut(&mut Self, usize) -> bool) -> bool {
        self.steps += 1;
        if self.steps > 20_000_000 {
            return false;
        }
        match n {
            N::Empty => k(self, i),
            N::Char(c, ic) => match self.next(i) {
                Some((d, j)) if d == *c || (*ic && fold(d) == fold(*c)) => k(self, j),
                _ => false,
            },
            N::Dot(ml) => match self.next(i) {
                Some((d, j)) if d != 10 || *ml => k(self, j),
                _ => false,
            },
            N::Class(s, ic) => match self.next(i) {
                Some((d, j)) => {
                    let up = || char::from_u32(d).map_or(d, |c| c.to_uppercase().next().unwrap() as u32);
                    if has(s, d) || (*ic && (has(s, fold(d)) || has(s, up()))) {
                        k(self, j)
                    } else {
                        false
                    }
                }
                _ => false,
            },
            N::Seq(v) => self.seq(v, i, k),
            N::Alt(v) => v.iter().any(|a| self.m(a, i, k)),
            N::Group(g, b) => {
                let old = self.caps[*g];
                let r = self.m(b, i, &mut |me, j| {
                    let save = me.caps[*g];
                    me.caps[*g] = Some((i, j));
                    if k(me, j) {
                        return true;
                    }
                    me.caps[*g] = save;
                    false
                });
                if !r {
                    self.caps[*g] = old;
                }
                r
            }
            N::Rep(b, lo, hi, Greed::Possessive) => {
                let r = N::Rep(b.clone(), *lo, *hi, Greed::Greedy);
                let mut end = None;
                self.m(&r, i, &mut |_, j| {
                    end = Some(j);
                    true
                });
                match end {
                    Some(j) => k(self, j),
                    None => false,
                }
            }
            N::Rep(b, lo, hi, g) => self.rep(b, *lo, *hi, *g == Greed::Lazy, i, 0, k),
            N::Look(b, neg, false) => {
                let save = self.caps.clone();
                let r = self.m(b, i, &mut |_, _| true);
                if r == *neg {
                    self.caps = save;
                    return false;
                }
                if *neg {
                    self.caps = save;
                }
                k(self, i)
            }
            N::Look(b, neg, true) => {
                let mut r = false;
                let mut j = Some(i);
                while let Some(p) = j {
                    if self.m(b, p, &mut |_, e| e == i) {
                        r = true;
                        break;
                    }
                    j = self.prev(p);
                }
                r != *neg && k(self, i)
            }
            N::Atomic(b) => {
                let mut end = None;
                self.m(b, i, &mut |_, j| {
                    end = Some(j);
                    true
                });
                match end {
                    Some(j) => k(self, j),
                    None => false,
                }
            }
            N::Back(gs, ic) => {
                let Some((a, b)) = gs.iter().rev().find_map(|g| self.caps.get(*g).copied().flatten()) else { return false };
                let len = b - a;
                let Some(t) = self.s.get(i..i + len) else { return false };
                if t == &self.s[a..b] || (*ic && t.eq_ignore_ascii_case(&self.s[a..b])) {
                    k(self, i + len)
                } else {
                    false
                }
            }
            N::Call(g) => {
                let re = self.re;
                match re.table.get(g) {
                    Some(n) => self.m(n, i, k),
                    None => false,
                }
            }
            N::Cond(g, t, e) => {
                if self.caps.get(*g).copied().flatten().is_some() {
                    self.m(t, i, k)
                } else {
                    self.m(e, i, k)
                }
            }
            N::Bol => (i == 0 || self.s[i - 1] == 10) && (i == 0 || i < self.s.len()) && k(self, i),
            N::Eol => (i == self.s.len() || self.s[i] == 10) && k(self, i),
            N::Bos => i == 0 && k(self, i),
            N::Eos => i == self.s.len() && k(self, i),
            N::EosNl => (i == self.s.len() || (i + 1 == self.s.len() && self.s[i] == 10)) && k(self, i),
            N::Wordb | N::NotWordb => {
                let before = self.prev(i).is_some_and(|p| self.word(p));
                let b = before != self.word(i);
                b == matches!(n, N::Wordb) && k(self, i)
            }
            N::Start => i == self.start && k(self, i),
            N::Keep => {
                let old = self.keep.replace(i);
                if k(self, i) {
                    return true;
                }
                self.keep = old;
                false
            }
        }
    }
    fn seq(&mut self, v: &[N], i: usize, k: &mut dyn FnMut(&mut Self, usize) -> bool) -> bool {
        match v {
            [] => k(self, i),
            [a] => self.m(a, i, k),
            [a, r @ ..] => self.m(a, i, &mut |me, j| me.seq(r, j, k)),
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn rep(&mut self, b: &N, lo: usize, hi: usize, lazy: bool, i: usize, n: usize, k: &mut dyn FnMut(&mut Self, usize) -> bool) -> bool {
        // single characters without recursion
        if matches!(b, N::Char(..) | N::Dot(_) | N::Class(..)) && !lazy {
            let mut ends = vec![i];
            let mut p = i;
            while ends.len() <= hi {
                let mut e = None;
                if !self.m(b, p, &mut |_, j| {
                    e = Some(j);
                    true
                }) {
                    break;
                }
                p = e.unwrap();
                ends.push(p);
            }
            while ends.len() > lo {
                if k(self, ends.pop().unwrap()) {
                    return true;
                }
            }
            return false;
        }
        if n >= lo && lazy && k(self, i) {
            return true;
        }
        if n < hi
            && self.m(b, i, &mut |me, j| {
                if j == i && n >= lo {
                    return false;
                }
                me.rep(b, lo, hi, lazy, j, n + 1, k)
            })
        {
            return true;
        }
        n >= lo && !lazy && k(self, i)
    }
}

fn collect(n: &N, t: &mut HashMap<usize, N>) {
    match n {
        N::Group(g, b) => {
            t.insert(*g, n.clone());
            collect(b, t);
        }
        N::Seq(v) | N::Alt(v) => v.iter().for_each(|x| collect(x, t)),
        N::Rep(b, ..) | N::Look(b, ..) | N::Atomic(b) => collect(b, t),
        N::Cond(_, a, b) => {
            collect(a, t);
            collect(b, t);
        }
        _ => {}
    }
}

impl Regex {
    pub fn new(s: &str) -> Result<Self> {
        Self::new_with_option_and_encoding(s, 0, OnigmoEncoding::UTF8)
    }
    pub fn new_with_option(s: &str, option: u32) -> Result<Self> {
        Self::new_with_option_and_encoding(s, option, OnigmoEncoding::UTF8)
    }
    pub fn new_with_option_and_encoding(s: &str, option: u32, enc: OnigmoEncoding) -> Result<Self> {
        Self::build(s.chars().map(|c| c as u32).collect(), s.to_string(), option, enc)
    }
    pub fn new_bytes_with_encoding(s: &[u8], option: u32, enc: OnigmoEncoding) -> Result<Self> {
        Self::build(s.iter().map(|c| *c as u32).collect(), String::from_utf8_lossy(s).into_owned(), option, enc)
    }
    fn build(chars: Vec<u32>, src: String, option: u32, enc: OnigmoEncoding) -> Result<Self> {
        let f = F { i: option & ONIG_OPTION_IGNORECASE != 0, x: option & ONIG_OPTION_EXTEND != 0, m: option & ONIG_OPTION_MULTILINE != 0 };
        // plain groups do not capture when there are named ones
        let run = |total_named| {
            let mut p = P { s: &chars, i: 0, ngroups: 0, named: false, names: vec![], total_named };
            let n = p.alt(f)?;
            if p.i < chars.len() {
                return p.err("unmatched close parenthesis");
            }
            Ok((n, p.ngroups, p.names, p.named))
        };
        let (mut node, mut groups, mut names, named) = match run(false) {
            Ok(r) => r,
            Err(e) => return Err(e),
        };
        if named {
            (node, groups, names, _) = run(true)?;
        }
        let mut table = HashMap::new();
        collect(&node, &mut table);
        table.insert(0, node.clone());
        Ok(Regex { src, option, utf8: enc == OnigmoEncoding::UTF8, node, groups, names, warnings: vec![], table })
    }
    pub fn warnings(&self) -> &[String] {
        &self.warnings
    }
    pub fn as_str(&self) -> &str {
        &self.src
    }
    pub fn option(&self) -> u32 {
        self.option
    }
    pub fn captures_len(&self) -> usize {
        self.groups
    }
    pub fn capture_names_len(&self) -> usize {
        self.names.len()
    }
    pub fn capture_names(&self) -> Result<Vec<String>> {
        // one entry per group, in group order
        let mut v: Vec<(usize, String)> = self.names.iter().flat_map(|n| n.1.iter().map(|g| (*g as usize, n.0.clone()))).collect();
        v.sort();
        Ok(v.into_iter().map(|x| x.1).collect())
    }
    pub fn get_group_nembers(&self, name: &str) -> Vec<i32> {
        self.names.iter().find(|n| n.0 == name).map(|n| n.1.iter().map(|g| *g as i32).collect()).unwrap_or_default()
    }
    fn run(&self, s: &[u8], pos: usize) -> Option<Caps> {
        let mut i = pos;
        let mut m = M { s, re: self, start: pos, caps: vec![None; self.groups + 1], keep: None, steps: 0 };
        loop {
            if i > s.len() {
                return None;
            }
            let mut end = None;
            if m.m(&self.node, i, &mut |_, j| {
                end = Some(j);
                true
            }) {
                m.caps[0] = Some((m.keep.unwrap_or(i), end.unwrap()));
                return Some(m.caps);
            }
            m.caps.fill(None);
            m.keep = None;
            i = match m.next(i) {
                Some((_, j)) => j,
                None => i + 1,
            };
        }
    }
    pub fn captures_from_pos<'a>(&self, s: &'a str, pos: usize) -> Result<Option<Captures<'a>>> {
        Ok(self.run(s.as_bytes(), pos).map(|caps| Captures { s, caps, names: self.names.clone() }))
    }
    pub fn captures<'a>(&self, s: &'a str) -> Result<Option<Captures<'a>>> {
        self.captures_from_pos(s, 0)
    }
    pub fn captures_bytes_from_pos<'a>(&self, s: &'a [u8], pos: usize) -> Result<Option<CapturesBytes<'a>>> {
        Ok(self.run(s, pos).map(|caps| CapturesBytes { s, caps }))
    }
    pub fn find<'a>(&self, s: &'a str) -> Result<Option<Match<'a>>> {
        Ok(self.captures(s)?.and_then(|c| c.get(0)))
    }
    pub fn captures_iter<'r, 'a>(&'r self, s: &'a str) -> FindCaptures<'r, 'a> {
        FindCaptures { re: self, s, pos: 0, last: None }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Match<'a> {
    s: &'a str,
    start: usize,
    end: usize,
}
impl<'a> Match<'a> {
    pub fn start(&self) -> usize {
        self.start
    }
    pub fn end(&self) -> usize {
        self.end
    }
    pub fn range(&self) -> std::ops::Range<usize> {
        self.start..self.end
    }
    pub fn as_str(&self) -> &'a str {
        &self.s[self.start..self.end]
    }
}
#[derive(Debug)]
pub struct Captures<'a> {
    s: &'a str,
    caps: Caps,
    names: Vec<(String, Vec<usize>)>,
}
impl<'a> Captures<'a> {
    pub fn len(&self) -> usize {
        self.caps.len()
    }
    pub fn is_empty(&self) -> bool {
        false
    }
    pub fn pos(&self, i: usize) -> Option<(usize, usize)> {
        self.caps.get(i).copied().flatten()
    }
    pub fn get(&self, i: usize) -> Option<Match<'a>> {
        self.pos(i).map(|(start, end)| Match { s: self.s, start, end })
    }
    pub fn at(&self, i: usize) -> Option<&'a str> {
        self.get(i).map(|m| m.as_str())
    }
    pub fn name(&self, n: &str) -> Option<Match<'a>> {
        let (_, v) = self.names.iter().find(|x| x.0 == n)?;
        v.iter().rev().find_map(|g| self.get(*g))
    }
    pub fn iter(&self) -> impl Iterator<Item = Option<Match<'a>>> + '_ {
        (0..self.len()).map(|i| self.get(i))
    }
}
#[derive(Debug)]
pub struct CapturesBytes<'a> {
    s: &'a [u8],
    caps: Caps,
}
impl<'a> CapturesBytes<'a> {
    pub fn len(&self) -> usize {
        self.caps.len()
    }
    pub fn is_empty(&self) -> bool {
        false
    }
    pub fn pos(&self, i: usize) -> Option<(usize, usize)> {
        self.caps.get(i).copied().flatten()
    }
    pub fn get(&self, i: usize) -> Option<&'a [u8]> {
        self.pos(i).map(|(a, b)| &self.s[a..b])
    }
}
pub struct FindCaptures<'r, 'a> {
    re: &'r Regex,
    s: &'a str,
    pos: usize,
    last: Option<usize>,
}
impl<'r, 'a> Iterator for FindCaptures<'r, 'a> {
    type Item = Result<Captures<'a>>;
    fn next(&mut self) -> Option<Self::Item> {
        loop {
            if self.pos > self.s.len() {
                return None;
            }
            let caps = self.re.run(self.s.as_bytes(), self.pos)?;
            let (b, e) = caps[0].unwrap();
            if b == e {
                // an empty match must not touch the one before it
                let step = self.s[e..].chars().next().map_or(1, |c| c.len_utf8());
                self.pos = e + step;
                if self.last == Some(e) {
                    continue;
                }
            } else {
                self.pos = e;
            }
            self.last = Some(e);
            return Some(Ok(Captures { s: self.s, caps, names: self.re.names.clone() }));
        }
    }
}
