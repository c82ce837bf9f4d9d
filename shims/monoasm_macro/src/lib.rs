//! Stand-in for the `monoasm_macro` crate, which is not available offline.
//!
//! `monoasm! { jit, mnemonic op, op; label: ... }` becomes a block of calls
//! `monoasm::emit(jit, "mnemonic", &[op, op])`.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro]
pub fn monoasm(input: TokenStream) -> TokenStream {
    let toks: Vec<TokenTree> = flatten(input);
    let comma = toks.iter().position(|t| is(t, ',')).expect("monoasm!: expected `,` after the assembler");
    let jit = text(&toks[..comma]);
    let mut out = String::from("{");
    let mut i = comma + 1;
    while i < toks.len() {
        if is(&toks[i], ';') {
            i += 1;
            continue;
        }
        // label binding: `name:` not followed by another colon
        if i + 1 < toks.len() && matches!(toks[i], TokenTree::Ident(_)) && is(&toks[i + 1], ':') {
            out += &format!("::monoasm::bind({jit}, &{});", toks[i]);
            i += 2;
            continue;
        }
        let end = (i..toks.len()).find(|j| is(&toks[*j], ';')).unwrap_or(toks.len());
        out += &statement(&jit, &toks[i..end]);
        i = end + 1;
    }
    out += "}";
    out.parse().unwrap_or_else(|e| panic!("monoasm!: {e}: {out}"))
}

/// Dissolve the invisible groups macro variables are wrapped in.
fn flatten(s: TokenStream) -> Vec<TokenTree> {
    let mut v = vec![];
    for t in s {
        match t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::None => v.extend(flatten(g.stream())),
            t => v.push(t),
        }
    }
    v
}
fn is(t: &TokenTree, c: char) -> bool {
    matches!(t, TokenTree::Punct(p) if p.as_char() == c)
}
fn text(t: &[TokenTree]) -> String {
    t.iter().cloned().collect::<TokenStream>().to_string()
}
fn reg(s: &str) -> Option<u8> {
    Some(match s {
        "rax" | "al" => 0,
        "rcx" | "cl" => 1,
        "rdx" | "dl" => 2,
        "rbx" => 3,
        "rsp" => 4,
        "rbp" => 5,
        "rsi" => 6,
        "rdi" => 7,
        _ => {
            let n: u8 = s.strip_prefix('r')?.parse().ok()?;
            if !(8..16).contains(&n) {
                return None;
            }
            n
        }
    })
}

fn statement(jit: &str, t: &[TokenTree]) -> String {
    let mn = match &t[0] {
        TokenTree::Ident(i) => i.to_string(),
        x => panic!("monoasm!: mnemonic expected, found {x}"),
    };
    let mut ops = vec![];
    let mut rest = &t[1..];
    while !rest.is_empty() {
        let (o, used) = operand(&mn, rest);
        ops.push(o);
        rest = &rest[used..];
        if let Some(x) = rest.first() {
            assert!(is(x, ','), "monoasm!: `,` expected in {}", text(t));
            rest = &rest[1..];
        }
    }
    let names: Vec<String> = (0..ops.len()).map(|i| format!("__o{i}")).collect();
    let lets: String = ops.iter().zip(&names).map(|(o, n)| format!("let {n} = {o};")).collect();
    format!("{{ {lets} ::monoasm::emit({jit}, {mn:?}, &[{}]); }}", names.join(","))
}

/// A register: an `u8` expression and the number of tokens.
fn register(t: &[TokenTree]) -> Option<(String, usize)> {
    let TokenTree::Ident(i) = &t[0] else { return None };
    let s = i.to_string();
    if let Some(n) = reg(&s) {
        return Some((format!("{n}u8"), 1));
    }
    if s == "R" {
        if let Some(TokenTree::Group(g)) = t.get(1) {
            return Some((format!("::monoasm::regno({})", g.stream()), 2));
        }
    }
    None
}

fn operand(mn: &str, t: &[TokenTree]) -> (String, usize) {
    if let Some((r, n)) = register(t) {
        return (format!("::monoasm::Opnd::Reg({r})"), n);
    }
    match &t[0] {
        TokenTree::Ident(i) => {
            let s = i.to_string();
            if let Some(x) = s.strip_prefix("xmm") {
                if let Ok(n) = x.parse::<u8>() {
                    return (format!("::monoasm::Opnd::Xmm({n}u8)"), 1);
                }
                if let Some(TokenTree::Group(g)) = t.get(1) {
                    return (format!("::monoasm::Opnd::Xmm(::monoasm::regno({}))", g.stream()), 2);
                }
            }
            (format!("::monoasm::Opnd::Label(::monoasm::AsLabel::id(&{s}))"), 1)
        }
        TokenTree::Literal(l) => (format!("::monoasm::Opnd::Imm(({l}) as u64 as i64)"), 1),
        TokenTree::Punct(p) if p.as_char() == '-' => (format!("::monoasm::Opnd::Imm((-{}) as i64)", t[1]), 2),
        TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => {
            let e = g.stream().to_string();
            if mn == "movq" && !e.starts_with('-') {
                (format!("::monoasm::Opnd::Imm(({e}) as u64 as i64)"), 1)
            } else {
                (format!("::monoasm::Opnd::Imm(({e}) as i64)"), 1)
            }
        }
        TokenTree::Group(g) if g.delimiter() == Delimiter::Bracket => (memory(&flatten(g.stream())), 1),
        x => panic!("monoasm!: operand expected, found {x}"),
    }
}

fn memory(t: &[TokenTree]) -> String {
    if let TokenTree::Ident(i) = &t[0] {
        if i.to_string() == "rip" {
            return format!("::monoasm::Opnd::Rip(::monoasm::AsLabel::id(&{}))", text(&t[2..]));
        }
    }
    let (base, n) = register(t).unwrap_or_else(|| panic!("monoasm!: base register expected in [{}]", text(t)));
    let mut i = n;
    let (mut index, mut scale, mut disp) = ("None".to_string(), "0u8".to_string(), "0i32".to_string());
    while i < t.len() {
        let neg = is(&t[i], '-');
        i += 1;
        if let Some((r, n)) = register(&t[i..]) {
            assert!(!neg);
            index = format!("Some({r})");
            i += n;
            if i < t.len() && is(&t[i], '*') {
                let s: u8 = t[i + 1].to_string().parse().unwrap();
                scale = format!("{}u8", s.trailing_zeros());
                i += 2;
            }
            continue;
        }
        let e = match &t[i] {
            TokenTree::Group(g) => g.stream().to_string(),
            x => x.to_string(),
        };
        disp += &if neg { format!(" - ({e} as i32)") } else { format!(" + (({e}) as i32)") };
        i += 1;
    }
    format!("::monoasm::Opnd::Mem({base}, {index}, {scale}, {disp})")
}

/// Only referenced by code of another architecture.
#[proc_macro]
pub fn monoasm_arm64(_: TokenStream) -> TokenStream {
    "compile_error!(\"aarch64 is not supported by the stand-in\")".parse().unwrap()
}
