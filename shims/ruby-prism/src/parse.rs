//! Scannerless recursive-descent parser for Ruby, producing the tree shapes of Prism.
use super::*;
use std::collections::HashMap;

pub(crate) struct Diag {
    pub message: String,
    pub at: usize,
    pub verbose: bool,
}
type R<T> = Result<T, Diag>;
type Loc = (usize, usize);

pub(crate) fn parse<'a>(src: &'a [u8], o: Option<&Options>) -> ParseResult<'a> {
    let mut p = Parser {
        s: src,
        i: 0,
        scopes: vec![],
        skips: HashMap::new(),
        heredocs: HashMap::new(),
        no_do: false,
        no_in: false,
        no_pipe: false,
        multi: false,
        in_def: 0,
        end: src.len(),
        depth: 0,
    };
    let mut data = None;
    if let Some(k) = find_end_marker(src) {
        data = Some((k, src.len()));
        p.end = k;
    }
    match o {
        Some(o) if !o.scopes.is_empty() => {
            for (i, s) in o.scopes.iter().enumerate() {
                p.scopes.push(Sc { vars: s.locals.clone(), open: i > 0, ..Sc::default() });
            }
        }
        _ => p.scopes.push(Sc::default()),
    }
    let r = p.program();
    let (root, errors) = match r {
        Ok(n) => (n, vec![]),
        Err(e) => (ND::default(), vec![e]),
    };
    ParseResult { src, root, errors, warnings: vec![], data }
}

fn find_end_marker(src: &[u8]) -> Option<usize> {
    let mut at = 0;
    for line in src.split_inclusive(|c| *c == b'\n') {
        let t = line.strip_suffix(b"\n").unwrap_or(line);
        let t = t.strip_suffix(b"\r").unwrap_or(t);
        if t == b"__END__" {
            return Some(at);
        }
        at += line.len();
    }
    None
}

#[derive(Default)]
struct Sc {
    vars: Vec<String>,
    /// Sees the variables of the scope around it.
    open: bool,
    /// A block or lambda without written parameters.
    implicit: bool,
    numbered: u8,
    it: bool,
}

struct Parser<'a> {
    s: &'a [u8],
    i: usize,
    end: usize,
    scopes: Vec<Sc>,
    /// Newlines followed by here-document bodies, and where the text goes on.
    skips: HashMap<usize, usize>,
    heredocs: HashMap<usize, (usize, usize)>,
    no_do: bool,
    no_in: bool,
    no_pipe: bool,
    /// `a = 1, 2` is allowed for the operand about to be read.
    multi: bool,
    in_def: usize,
    depth: usize,
}

macro_rules! nd {
    ($t:ident $loc:expr, { $($f:ident $(: $v:expr)?),* $(,)? }) => {
        ND::from(d::$t { loc: $loc, $($f $(: $v)?,)* ..Default::default() })
    };
}

const KEYWORDS: &[&str] = &[
    "__ENCODING__", "__LINE__", "__FILE__", "BEGIN", "END", "alias", "and", "begin", "break", "case", "class", "def",
    "defined?", "do", "else", "elsif", "end", "ensure", "false", "for", "if", "in", "module", "next", "nil", "not", "or",
    "redo", "rescue", "retry", "return", "self", "super", "then", "true", "undef", "unless", "until", "when", "while",
    "yield",
];

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c >= 0x80
}
fn is_id_start(c: u8) -> bool {
    is_id(c) && !c.is_ascii_digit()
}

enum Term {
    Delim(Option<u8>, u8),
    Heredoc(usize),
}
#[derive(Clone, Copy, PartialEq)]
enum Esc {
    /// Double-quoted: escapes and interpolation.
    Full,
    /// Single-quoted.
    Raw,
    Regexp,
    /// Here-document with a quoted terminator.
    None,
}

impl<'a> Parser<'a> {
    // ---- characters and tokens -------------------------------------------------------------
    fn at(&self, k: usize) -> u8 {
        let p = self.i + k;
        if p < self.end {
            self.s[p]
        } else {
            0
        }
    }
    fn peek(&self) -> u8 {
        self.at(0)
    }
    fn eof(&self) -> bool {
        self.i >= self.end
    }
    fn looking(&self, t: &str) -> bool {
        self.s[self.i.min(self.end)..self.end].starts_with(t.as_bytes())
    }
    fn eat(&mut self, t: &str) -> bool {
        let r = self.looking(t);
        if r {
            self.i += t.len();
        }
        r
    }
    fn err<T>(&self, m: impl Into<String>) -> R<T> {
        Err(Diag { message: m.into(), at: self.i.min(self.s.len()), verbose: false })
    }
    fn unexpected<T>(&self, what: &str) -> R<T> {
        if self.eof() {
            return self.err(format!("unexpected end-of-input; {what}"));
        }
        let c = self.peek() as char;
        self.err(format!("unexpected '{c}'; {what}"))
    }
    fn expect(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            self.unexpected(&format!("expected `{t}`"))
        }
    }
    fn text(&self, l: Loc) -> String {
        String::from_utf8_lossy(&self.s[l.0..l.1]).into_owned()
    }
    /// Blanks, line continuations and a comment, but no line break.
    fn ws(&mut self) {
        loop {
            match self.peek() {
                b' ' | b'\t' | b'\r' | 0x0b | 0x0c => self.i += 1,
                b'\\' if self.at(1) == b'\n' => {
                    self.i += 1;
                    self.newline();
                }
                b'\\' if self.at(1) == b'\r' && self.at(2) == b'\n' => {
                    self.i += 2;
                    self.newline();
                }
                b'#' => {
                    while !self.eof() && self.peek() != b'\n' {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    fn newline(&mut self) {
        self.i = match self.skips.get(&self.i) {
            Some(p) => *p,
            None => self.i + 1,
        };
        while self.looking("=begin") && (self.at(6) == 0 || self.at(6).is_ascii_whitespace()) {
            loop {
                while !self.eof() && self.peek() != b'\n' {
                    self.i += 1;
                }
                if self.eof() {
                    return;
                }
                self.i += 1;
                if self.looking("=end") {
                    while !self.eof() && self.peek() != b'\n' {
                        self.i += 1;
                    }
                    if !self.eof() {
                        self.i += 1;
                    }
                    break;
                }
            }
        }
    }
    fn nl(&mut self) {
        loop {
            self.ws();
            if self.peek() == b'\n' && !self.eof() {
                self.newline();
            } else {
                return;
            }
        }
    }
    fn terms(&mut self) {
        loop {
            self.nl();
            if self.peek() == b';' {
                self.i += 1;
            } else {
                return;
            }
        }
    }
    fn ident_end(&self, mut p: usize) -> usize {
        while p < self.end && is_id(self.s[p]) {
            p += 1;
        }
        p
    }
    /// The keyword `k` at this place.
    fn is_kw(&self, k: &str) -> bool {
        self.looking(k)
            && !is_id(self.at(k.len()))
            && !(matches!(self.at(k.len()), b'?' | b'!') && self.at(k.len() + 1) != b'=')
            && !(self.at(k.len()) == b':' && self.at(k.len() + 1) != b':')
    }
    /// A keyword that closes a clause; these are recognised even before `:`.
    fn kw(&mut self, k: &str) -> bool {
        let r = self.is_kw(k);
        if r {
            self.i += k.len();
        }
        r
    }
    fn any_kw(&self, ks: &[&str]) -> bool {
        ks.iter().any(|k| self.is_kw(k))
    }

    // ---- scopes ----------------------------------------------------------------------------
    fn lookup(&self, n: &str) -> Option<u32> {
        let mut d = 0;
        for sc in self.scopes.iter().rev() {
            if sc.vars.iter().any(|v| v == n) {
                return Some(d);
            }
            if !sc.open {
                return None;
            }
            d += 1;
        }
        None
    }
    fn declare(&mut self, n: &str) -> u32 {
        if let Some(d) = self.lookup(n) {
            return d;
        }
        self.scopes.last_mut().unwrap().vars.push(n.to_string());
        0
    }
    fn declare_here(&mut self, n: &str) {
        let v = &mut self.scopes.last_mut().unwrap().vars;
        if !v.iter().any(|x| x == n) {
            v.push(n.to_string());
        }
    }
    /// Run `f` with the flags of a fresh, bracketed context.
    fn fresh<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        let save = (self.no_do, self.no_in, self.no_pipe, self.multi);
        (self.no_do, self.no_in, self.no_pipe, self.multi) = (false, false, false, false);
        self.depth += 1;
        if self.depth > 3000 {
            return self.err("nesting too deep");
        }
        let r = f(self);
        self.depth -= 1;
        (self.no_do, self.no_in, self.no_pipe, self.multi) = save;
        r
    }

    // ---- statements ------------------------------------------------------------------------
    fn program(&mut self) -> R<ND> {
        if self.looking("=begin") {
            // a comment block on the first line
            self.i = 0;
            let save = self.skips.insert(usize::MAX, 0);
            let _ = save;
            self.skips.clear();
            self.first_line_comment();
        }
        let b = self.stmts_until(&[])?;
        if !self.eof() {
            return self.unexpected("ignoring it");
        }
        let sc = self.scopes.pop().unwrap();
        let statements = Box::new(b);
        Ok(nd!(ProgramNode (0, self.i), { locals: sc.vars, statements }))
    }
    fn first_line_comment(&mut self) {
        loop {
            while !self.eof() && self.peek() != b'\n' {
                self.i += 1;
            }
            if self.eof() {
                return;
            }
            self.i += 1;
            if self.looking("=end") {
                while !self.eof() && self.peek() != b'\n' {
                    self.i += 1;
                }
                return;
            }
        }
    }
    fn stmts_until(&mut self, stop: &[&str]) -> R<d::StatementsNode> {
        let b = self.i;
        let mut body = vec![];
        self.fresh(|p| {
            loop {
                p.terms();
                if p.eof() || p.peek() == b'}' || p.peek() == b')' || p.any_kw(stop) {
                    return Ok(());
                }
                let n = p.stmt()?;
                body.push(n);
                p.ws();
                if p.eof() || matches!(p.peek(), b'\n' | b';' | b'}' | b')') || p.any_kw(stop) {
                    continue;
                }
                return p.unexpected("expected a newline or semicolon after the statement");
            }
        })?;
        let loc = match (body.first(), body.last()) {
            (Some(f), Some(l)) => (f.loc().0, l.loc().1),
            _ => (b, b),
        };
        Ok(d::StatementsNode { loc, body })
    }
    fn opt(s: d::StatementsNode) -> Option<Box<d::StatementsNode>> {
        if s.body.is_empty() {
            None
        } else {
            Some(Box::new(s))
        }
    }
    fn single(n: ND) -> d::StatementsNode {
        d::StatementsNode { loc: n.loc(), body: vec![n] }
    }
    fn stmt(&mut self) -> R<ND> {
        let b = self.i;
        let mut n = self.expr_stmt()?;
        loop {
            self.ws();
            if self.kw("if") {
                self.ws();
                let predicate = self.predicate()?;
                n = nd!(IfNode (b, self.i), { predicate, statements: Some(Box::new(Self::single(n))) });
            } else if self.kw("unless") {
                self.ws();
                let predicate = self.predicate()?;
                n = nd!(UnlessNode (b, self.i), { predicate, statements: Some(Box::new(Self::single(n))) });
            } else if self.is_kw("while") || self.is_kw("until") {
                let w = self.is_kw("while");
                self.i += 5;
                self.ws();
                let predicate = self.predicate()?;
                let is_begin_modifier = matches!(&n, ND::BeginNode(x) if x.begin_keyword_loc.is_some());
                let statements = Some(Box::new(Self::single(n)));
                n = if w {
                    nd!(WhileNode (b, self.i), { predicate, statements, is_begin_modifier })
                } else {
                    nd!(UntilNode (b, self.i), { predicate, statements, is_begin_modifier })
                };
            } else if self.kw("rescue") {
                self.ws();
                let rescue_expression = self.expr_stmt()?;
                n = nd!(RescueModifierNode (b, self.i), { expression: n, rescue_expression });
            } else {
                return Ok(n);
            }
        }
    }
    fn predicate(&mut self) -> R<ND> {
        self.multi = false;
        self.nl();
        let n = self.expr()?;
        Ok(Self::cond(n))
    }
    /// Literals with a special meaning in a condition.
    fn cond(n: ND) -> ND {
        match n {
            ND::RegularExpressionNode(x) => {
                nd!(MatchLastLineNode x.loc, { unescaped: x.unescaped, closing_loc: x.closing_loc, content_loc: x.content_loc })
            }
            ND::InterpolatedRegularExpressionNode(x) => {
                nd!(InterpolatedMatchLastLineNode x.loc, { parts: x.parts, closing_loc: x.closing_loc })
            }
            ND::RangeNode(x) => {
                nd!(FlipFlopNode x.loc, { left: x.left.map(Self::cond), right: x.right.map(Self::cond), is_exclude_end: x.is_exclude_end })
            }
            ND::AndNode(mut x) => {
                x.left = Self::cond(x.left);
                x.right = Self::cond(x.right);
                ND::AndNode(x)
            }
            ND::OrNode(mut x) => {
                x.left = Self::cond(x.left);
                x.right = Self::cond(x.right);
                ND::OrNode(x)
            }
            ND::CallNode(mut x) if x.name == "!" && x.arguments.is_none() => {
                x.receiver = x.receiver.map(Self::cond);
                ND::CallNode(x)
            }
            ND::ParenthesesNode(mut x) => {
                if let Some(ND::StatementsNode(s)) = &mut x.body {
                    if s.body.len() == 1 {
                        let y = s.body.pop().unwrap();
                        s.body.push(Self::cond(y));
                    }
                }
                ND::ParenthesesNode(x)
            }
            n => n,
        }
    }
    fn expr_stmt(&mut self) -> R<ND> {
        // multiple assignment that starts with `*` or `(`
        self.ws();
        if self.peek() == b'*' && self.at(1) != b'*' || self.peek() == b'(' {
            let save = self.i;
            let vars = self.scopes.last().unwrap().vars.len();
            if let Ok(Some(n)) = self.try_mlhs() {
                return Ok(n);
            }
            self.i = save;
            self.scopes.last_mut().unwrap().vars.truncate(vars);
        }
        self.multi = true;
        let r = self.expr();
        self.multi = false;
        r
    }
    fn try_mlhs(&mut self) -> R<Option<ND>> {
        let b = self.i;
        let first = self.mlhs_item()?;
        self.ws();
        if self.peek() == b',' || self.is_assign() {
            if self.peek() != b',' && !matches!(first, ND::SplatNode(_) | ND::MultiTargetNode(_)) {
                return Ok(None);
            }
            let t = self.mlhs_rest(b, first)?;
            self.ws();
            if !self.is_assign() {
                return Ok(None);
            }
            return Ok(Some(self.multi_write(b, t)?));
        }
        Ok(None)
    }
    fn is_assign(&self) -> bool {
        self.peek() == b'=' && !matches!(self.at(1), b'=' | b'~' | b'>')
    }
    /// One item of the left side of a multiple assignment.
    fn mlhs_item(&mut self) -> R<ND> {
        let b = self.i;
        if self.eat("*") {
            self.ws();
            let expression = if matches!(self.peek(), b',' | b'=' | b')' | b'|') || self.is_kw("in") { None } else { Some(self.mlhs_item()?) };
            return Ok(nd!(SplatNode (b, self.i), { expression }));
        }
        if self.peek() == b'(' {
            let save = self.i;
            self.i += 1;
            let r = (|| {
                self.nl();
                let f = self.mlhs_item()?;
                let t = self.mlhs_rest(b, f)?;
                self.nl();
                self.expect(")")?;
                Ok(t)
            })();
            match r {
                Ok(mut t) => {
                    self.ws_peek_postfix()?;
                    t.set_loc((b, self.i));
                    return Ok(t);
                }
                Err(e) => {
                    self.i = save;
                    let _: Diag = e;
                }
            }
        }
        let n = self.primary_postfix()?;
        self.to_target(n)
    }
    /// A parenthesised list that goes on as an expression is no target list.
    fn ws_peek_postfix(&mut self) -> R<()> {
        let save = self.i;
        self.ws();
        let ok = matches!(self.peek(), b',' | b')' | b'=' | b'|') || self.is_kw("in");
        self.i = save;
        if ok {
            Ok(())
        } else {
            self.unexpected("no target")
        }
    }
    fn mlhs_rest(&mut self, b: usize, first: ND) -> R<ND> {
        let mut lefts = vec![];
        let mut rest = None;
        let mut rights = vec![];
        let mut push = |n: ND| {
            if rest.is_some() {
                rights.push(n);
            } else if matches!(n, ND::SplatNode(_)) {
                rest = Some(n);
            } else {
                lefts.push(n);
            }
        };
        push(first);
        let mut trailing = false;
        loop {
            let save = self.i;
            self.ws();
            if self.peek() != b',' {
                self.i = save;
                break;
            }
            self.i += 1;
            let comma = self.i;
            self.nl();
            if self.is_assign() || self.peek() == b')' || self.peek() == b'|' || self.is_kw("in") {
                trailing = true;
                self.i = comma;
                break;
            }
            push(self.mlhs_item()?);
        }
        if trailing && rest.is_none() {
            rest = Some(nd!(ImplicitRestNode (self.i - 1, self.i), {}));
        }
        Ok(nd!(MultiTargetNode (b, self.i), { lefts, rest, rights }))
    }
    fn multi_write(&mut self, b: usize, t: ND) -> R<ND> {
        self.ws();
        self.expect("=")?;
        self.nl();
        let value = self.rhs_list()?;
        let value = self.rescue_mod(value)?;
        let ND::MultiTargetNode(t) = t else { return self.err("unexpected target") };
        Ok(nd!(MultiWriteNode (b, self.i), { lefts: t.lefts, rest: t.rest, rights: t.rights, value }))
    }
    fn rescue_mod(&mut self, value: ND) -> R<ND> {
        self.ws();
        if self.kw("rescue") {
            self.ws();
            let b = value.loc().0;
            let rescue_expression = self.arg()?;
            return Ok(nd!(RescueModifierNode (b, self.i), { expression: value, rescue_expression }));
        }
        Ok(value)
    }
    /// `v`, or `v, w, *x` as an array.
    fn rhs_list(&mut self) -> R<ND> {
        let b = self.i;
        let mut v = vec![];
        loop {
            let s = self.i;
            if self.peek() == b'*' && self.at(1) != b'*' {
                self.i += 1;
                self.ws();
                let e = self.arg()?;
                v.push(nd!(SplatNode (s, self.i), { expression: Some(e) }));
            } else {
                // a nested multiple assignment: a = b, c = 1, 2
                let n = self.arg()?;
                v.push(n);
            }
            let save = self.i;
            self.ws();
            if self.peek() != b',' {
                self.i = save;
                break;
            }
            self.i += 1;
            self.nl();
        }
        if v.len() == 1 && !matches!(v[0], ND::SplatNode(_)) {
            return Ok(v.pop().unwrap());
        }
        Ok(nd!(ArrayNode (b, self.i), { elements: v }))
    }
    fn to_target(&mut self, n: ND) -> R<ND> {
        let loc = n.loc();
        Ok(match n {
            ND::CallNode(c) if c.is_variable_call => {
                let depth = self.declare(&c.name);
                nd!(LocalVariableTargetNode loc, { name: c.name, depth })
            }
            ND::LocalVariableReadNode(c) => nd!(LocalVariableTargetNode loc, { name: c.name, depth: c.depth }),
            ND::ItLocalVariableReadNode(_) => {
                self.scopes.last_mut().unwrap().it = false;
                let depth = self.declare("it");
                nd!(LocalVariableTargetNode loc, { name: "it".into(), depth })
            }
            ND::InstanceVariableReadNode(c) => nd!(InstanceVariableTargetNode loc, { name: c.name }),
            ND::ClassVariableReadNode(c) => nd!(ClassVariableTargetNode loc, { name: c.name }),
            ND::GlobalVariableReadNode(c) => nd!(GlobalVariableTargetNode loc, { name: c.name }),
            ND::ConstantReadNode(c) => nd!(ConstantTargetNode loc, { name: c.name }),
            ND::ConstantPathNode(c) => nd!(ConstantPathTargetNode loc, { parent: c.parent, name: c.name, name_loc: c.name_loc }),
            ND::CallNode(c) if c.name == "[]" && c.receiver.is_some() => {
                nd!(IndexTargetNode loc, { receiver: c.receiver.unwrap(), arguments: c.arguments, block: c.block })
            }
            ND::CallNode(c) if c.receiver.is_some() && c.arguments.is_none() && c.block.is_none() => {
                nd!(CallTargetNode loc, { receiver: c.receiver.unwrap(), name: format!("{}=", c.name), is_safe_navigation: c.is_safe_navigation })
            }
            n @ (ND::MultiTargetNode(_) | ND::SplatNode(_) | ND::LocalVariableTargetNode(_)) => n,
            _ => return self.err("unexpected write target"),
        })
    }

    // ---- expressions -----------------------------------------------------------------------
    /// With `and`, `or`, `not` and one-line patterns.
    fn expr(&mut self) -> R<ND> {
        let b = self.i;
        let mut l = self.not_expr()?;
        loop {
            self.ws();
            if self.kw("and") {
                self.nl();
                let right = self.not_expr()?;
                l = nd!(AndNode (b, self.i), { left: l, right });
            } else if self.kw("or") {
                self.nl();
                let right = self.not_expr()?;
                l = nd!(OrNode (b, self.i), { left: l, right });
            } else {
                return Ok(l);
            }
        }
    }
    fn not_expr(&mut self) -> R<ND> {
        self.ws();
        let b = self.i;
        if self.is_kw("not") && self.at(3) != b'(' {
            self.i += 3;
            self.multi = false;
            self.nl();
            let r = self.not_expr()?;
            return Ok(nd!(CallNode (b, self.i), { receiver: Some(Self::cond(r)), name: "!".into() }));
        }
        let multi = self.multi;
        let n = self.arg()?;
        let save = self.i;
        self.ws();
        // `a, b = ...`
        if multi && self.peek() == b',' && Self::assignable(&n) {
            let vars = self.scopes.last().unwrap().vars.len();
            let t = self.to_target(n.clone())?;
            if let Ok(t) = self.mlhs_rest(b, t) {
                self.ws();
                if self.is_assign() {
                    return self.multi_write(b, t);
                }
            }
            self.scopes.last_mut().unwrap().vars.truncate(vars);
            self.i = save;
            return Ok(n);
        }
        if self.looking("=>") {
            self.i += 2;
            self.ws();
            let pattern = self.top_pattern()?;
            return Ok(nd!(MatchRequiredNode (b, self.i), { value: n, pattern }));
        }
        if !self.no_in && self.is_kw("in") {
            self.i += 2;
            self.ws();
            let pattern = self.top_pattern()?;
            return Ok(nd!(MatchPredicateNode (b, self.i), { value: n, pattern }));
        }
        self.i = save;
        Ok(n)
    }
    fn assignable(n: &ND) -> bool {
        match n {
            ND::CallNode(c) => {
                c.is_variable_call
                    || (c.receiver.is_some() && c.block.is_none() && !c.is_attribute_write && (c.name == "[]" || (c.arguments.is_none() && c.name.bytes().all(is_id))))
            }
            ND::LocalVariableReadNode(_)
            | ND::ItLocalVariableReadNode(_)
            | ND::InstanceVariableReadNode(_)
            | ND::ClassVariableReadNode(_)
            | ND::GlobalVariableReadNode(_)
            | ND::ConstantReadNode(_)
            | ND::ConstantPathNode(_) => true,
            _ => false,
        }
    }
    /// Everything above `not`: ternary, ranges, operators, assignments, command calls.
    fn arg(&mut self) -> R<ND> {
        self.ws();
        let b = self.i;
        let c = self.range()?;
        let save = self.i;
        self.ws();
        if self.peek() == b'?' && !self.eof() {
            self.i += 1;
            self.multi = false;
            self.nl();
            let save_in = (self.no_in, self.no_do);
            self.no_in = false;
            let t = self.arg()?;
            self.nl();
            // `a ? b : c`, also `a ? x :y`
            self.expect(":")?;
            self.nl();
            let e = self.arg()?;
            self.no_in = save_in.0;
            let eloc = e.loc();
            let els = nd!(ElseNode eloc, { statements: Some(Box::new(Self::single(e))) });
            return Ok(nd!(IfNode (b, self.i), { predicate: Self::cond(c), statements: Some(Box::new(Self::single(t))), subsequent: Some(els) }));
        }
        self.i = save;
        Ok(c)
    }
    fn range(&mut self) -> R<ND> {
        self.ws();
        let b = self.i;
        if self.looking("..") {
            let x = self.looking("...");
            self.i += if x { 3 } else { 2 };
            self.multi = false;
            self.ws();
            let r = self.binary(1)?;
            return Ok(nd!(RangeNode (b, self.i), { right: Some(r), is_exclude_end: x }));
        }
        let l = self.binary(1)?;
        let save = self.i;
        self.ws();
        if self.looking("..") {
            let x = self.looking("...");
            self.i += if x { 3 } else { 2 };
            let after = self.i;
            self.ws();
            let c = self.peek();
            let none = self.eof()
                || matches!(c, b'\n' | b')' | b']' | b'}' | b';' | b',')
                || self.looking("=>")
                || self.any_kw(&["then", "do", "if", "unless", "and", "or", "end", "while", "until", "in"])
                || (c == b'|' && self.no_pipe);
            if none {
                self.i = after;
                return Ok(nd!(RangeNode (b, self.i), { left: Some(l), is_exclude_end: x }));
            }
            let r = self.binary(1)?;
            return Ok(nd!(RangeNode (b, self.i), { left: Some(l), right: Some(r), is_exclude_end: x }));
        }
        self.i = save;
        Ok(l)
    }
    /// The binary operator at this place: name, precedence, associativity (left, right, none).
    fn binop(&self) -> Option<(&'static str, u8, u8)> {
        let (a, b, c) = (self.peek(), self.at(1), self.at(2));
        let r = match a {
            b'|' if b == b'|' => {
                if c == b'=' || self.no_pipe {
                    return None;
                }
                ("||", 1, 0)
            }
            b'&' if b == b'&' => {
                if c == b'=' {
                    return None;
                }
                ("&&", 2, 0)
            }
            b'<' if b == b'=' && c == b'>' => ("<=>", 4, 2),
            b'=' if b == b'=' && c == b'=' => ("===", 4, 2),
            b'=' if b == b'=' => ("==", 4, 2),
            b'=' if b == b'~' => ("=~", 4, 2),
            b'!' if b == b'=' => ("!=", 4, 2),
            b'!' if b == b'~' => ("!~", 4, 2),
            b'<' if b == b'<' => {
                if c == b'=' {
                    return None;
                }
                ("<<", 7, 0)
            }
            b'>' if b == b'>' => {
                if c == b'=' {
                    return None;
                }
                (">>", 7, 0)
            }
            b'<' if b == b'=' => ("<=", 5, 0),
            b'>' if b == b'=' => (">=", 5, 0),
            b'<' => ("<", 5, 0),
            b'>' => (">", 5, 0),
            b'|' | b'^' | b'&' if b == b'=' => return None,
            b'|' => {
                if self.no_pipe {
                    return None;
                }
                ("|", 6, 0)
            }
            b'^' => ("^", 6, 0),
            b'&' if b == b'.' => return None,
            b'&' => ("&", 6, 0),
            b'*' if b == b'*' => {
                if c == b'=' {
                    return None;
                }
                ("**", 11, 1)
            }
            b'+' | b'-' | b'*' | b'/' | b'%' if b == b'=' => return None,
            b'+' => ("+", 8, 0),
            b'-' => ("-", 8, 0),
            b'*' => ("*", 9, 0),
            b'/' => ("/", 9, 0),
            b'%' => ("%", 9, 0),
            _ => return None,
        };
        // `&` sits between `|` and the shifts
        Some(match r.0 {
            "&" => ("&", 6, 0),
            _ => r,
        })
    }
    fn prec(op: &str, p: u8) -> u8 {
        // finer steps than the table above
        match op {
            "|" | "^" => 12,
            "&" => 13,
            _ => match p {
                1 => 2,
                2 => 4,
                4 => 8,
                5 => 10,
                7 => 14,
                8 => 16,
                9 => 18,
                _ => 24,
            },
        }
    }
    fn binary(&mut self, min: u8) -> R<ND> {
        let b = self.i;
        let mut l = self.unary(min)?;
        loop {
            let save = self.i;
            self.ws();
            // a line that starts with `&&` or `||`
            if self.peek() == b'\n' {
                let here = self.i;
                self.nl();
                let lead = (self.looking("&&") && self.at(2) != b'=') || (self.looking("||") && self.at(2) != b'=' && !self.no_pipe);
                if !lead {
                    self.i = here;
                }
            }
            let Some((op, p, assoc)) = self.binop() else {
                self.i = save;
                return Ok(l);
            };
            let prec = Self::prec(op, p);
            if prec < min {
                self.i = save;
                return Ok(l);
            }
            let oploc = (self.i, self.i + op.len());
            self.i += op.len();
            self.multi = false;
            self.nl();
            let next = if assoc == 1 { prec } else { prec + 1 };
            let r = self.binary(next)?;
            let loc = (b, self.i);
            l = match op {
                "&&" => nd!(AndNode loc, { left: l, right: r }),
                "||" => nd!(OrNode loc, { left: l, right: r }),
                "!=" | "!~" => Self::opcall(loc, l, op, oploc, Some(r)),
                "=~" => {
                    let names = match &l {
                        ND::RegularExpressionNode(x) => Self::capture_names(&x.unescaped),
                        _ => vec![],
                    };
                    let call = Self::opcall(loc, l, op, oploc, Some(r));
                    if names.is_empty() {
                        call
                    } else {
                        let targets = names
                            .into_iter()
                            .map(|name| {
                                let depth = self.declare(&name);
                                nd!(LocalVariableTargetNode loc, { name, depth })
                            })
                            .collect();
                        let ND::CallNode(call) = call else { unreachable!() };
                        nd!(MatchWriteNode loc, { call, targets })
                    }
                }
                _ => Self::opcall(loc, l, op, oploc, Some(r)),
            };
            if assoc == 2 {
                // not associative
                let save = self.i;
                self.ws();
                if let Some((op2, p2, 2)) = self.binop() {
                    let _ = p2;
                    return self.err(format!("unexpected '{op2}'; {op2} is a non-associative operator"));
                }
                self.i = save;
            }
        }
    }
    fn capture_names(re: &[u8]) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        let mut i = 0;
        while i + 3 < re.len() {
            if re[i] == b'\\' {
                i += 2;
                continue;
            }
            if re[i..].starts_with(b"(?<") && is_id_start(re[i + 3]) {
                let e = re[i + 3..].iter().position(|c| *c == b'>').unwrap_or(0);
                let n = String::from_utf8_lossy(&re[i + 3..i + 3 + e]).into_owned();
                if n.bytes().all(is_id) && !n.is_empty() && !n.as_bytes()[0].is_ascii_uppercase() && !v.contains(&n) {
                    v.push(n);
                }
            }
            i += 1;
        }
        v
    }
    fn opcall(loc: Loc, recv: ND, op: &str, oploc: Loc, arg: Option<ND>) -> ND {
        let arguments = arg.map(|a| Box::new(d::ArgumentsNode { loc: a.loc(), arguments: vec![a] }));
        nd!(CallNode loc, { receiver: Some(recv), name: op.into(), message_loc: Some(oploc), arguments })
    }
    fn unary(&mut self, min: u8) -> R<ND> {
        self.ws();
        let b = self.i;
        let c = self.peek();
        match c {
            b'!' if !matches!(self.at(1), b'=' | b'~') => {
                self.i += 1;
                self.multi = false;
                self.ws();
                let e = self.unary(22)?;
                let n = Self::opcall((b, self.i), Self::cond(e), "!", (b, b + 1), None);
                Ok(n)
            }
            b'~' => {
                self.i += 1;
                self.multi = false;
                self.ws();
                let e = self.unary(26)?;
                Ok(Self::opcall((b, self.i), e, "~", (b, b + 1), None))
            }
            b'+' if !self.at(1).is_ascii_digit() => {
                self.i += 1;
                self.multi = false;
                self.ws();
                let e = self.unary(26)?;
                Ok(Self::opcall((b, self.i), e, "+@", (b, b + 1), None))
            }
            b'+' => {
                self.i += 1;
                self.unary(min)
            }
            b'-' if self.at(1) == b'>' => self.operand(),
            b'-' if self.at(1).is_ascii_digit() => {
                self.i += 1;
                self.multi = false;
                let n = self.number()?;
                let save = self.i;
                self.ws();
                if self.looking("**") && self.at(2) != b'=' {
                    // -2 ** 2 is -(2 ** 2)
                    self.i += 2;
                    self.nl();
                    let r = self.binary(22)?;
                    let pow = Self::opcall((b + 1, self.i), n, "**", (b, b), Some(r));
                    return Ok(Self::opcall((b, self.i), pow, "-@", (b, b + 1), None));
                }
                self.i = save;
                let n = Self::negate(n, b);
                self.postfix(n)
            }
            b'-' => {
                self.i += 1;
                self.multi = false;
                self.ws();
                let e = self.binary(22)?;
                Ok(Self::opcall((b, self.i), e, "-@", (b, b + 1), None))
            }
            b'&' | b'*' => self.unexpected("expected an expression"),
            _ if self.is_kw("defined?") || (self.looking("defined?") && !is_id(self.at(8))) => {
                self.i += 8;
                self.multi = false;
                self.ws();
                let value = if self.peek() == b'(' {
                    self.i += 1;
                    let v = self.fresh(|p| {
                        p.nl();
                        let v = p.stmt()?;
                        p.nl();
                        Ok(v)
                    })?;
                    self.expect(")")?;
                    v
                } else {
                    self.unary(16)?
                };
                let n = nd!(DefinedNode (b, self.i), { value });
                self.postfix(n)
            }
            _ => self.operand(),
        }
    }
    fn negate(n: ND, b: usize) -> ND {
        let mut n = match n {
            ND::IntegerNode(mut x) => {
                x.value.negative = !x.value.digits.iter().all(|d| *d == 0);
                ND::IntegerNode(x)
            }
            ND::FloatNode(mut x) => {
                x.value = -x.value;
                ND::FloatNode(x)
            }
            ND::RationalNode(mut x) => {
                x.numerator.negative = !x.numerator.negative;
                ND::RationalNode(x)
            }
            ND::ImaginaryNode(mut x) => {
                let inner = std::mem::take(&mut x.numeric);
                x.numeric = Self::negate(inner, b);
                ND::ImaginaryNode(x)
            }
            n => n,
        };
        let e = n.loc().1;
        n.set_loc((b, e));
        n
    }
    /// A primary with its calls, and an assignment if one follows.
    fn operand(&mut self) -> R<ND> {
        self.ws();
        let multi = std::mem::take(&mut self.multi);
        let b = self.i;
        let n = self.primary_postfix()?;
        if !Self::assignable(&n) {
            return Ok(n);
        }
        let save = self.i;
        self.ws();
        if self.is_assign() {
            self.i += 1;
            self.nl();
            return self.assign(b, n, multi);
        }
        // operator assignment
        for op in ["**", "||", "&&", "<<", ">>", "+", "-", "*", "/", "%", "|", "&", "^"] {
            if self.looking(op) && self.at(op.len()) == b'=' && !matches!(self.at(op.len() + 1), b'=' | b'~' | b'>') {
                self.i += op.len() + 1;
                self.nl();
                return self.op_assign(b, n, op, multi);
            }
        }
        self.i = save;
        Ok(n)
    }
    fn rhs(&mut self, multi: bool) -> R<ND> {
        let v = if multi && !self.no_comma() { self.rhs_list()? } else { self.arg_or_not()? };
        self.rescue_mod(v)
    }
    fn no_comma(&self) -> bool {
        false
    }
    fn arg_or_not(&mut self) -> R<ND> {
        self.arg()
    }
    fn assign(&mut self, b: usize, n: ND, multi: bool) -> R<ND> {
        let name_loc = n.loc();
        let t = self.to_target(n)?;
        Ok(match t {
            ND::LocalVariableTargetNode(t) => {
                let value = self.rhs(multi)?;
                nd!(LocalVariableWriteNode (b, self.i), { name: t.name, name_loc, value, depth: t.depth })
            }
            ND::InstanceVariableTargetNode(t) => {
                let value = self.rhs(multi)?;
                nd!(InstanceVariableWriteNode (b, self.i), { name: t.name, name_loc, value })
            }
            ND::ClassVariableTargetNode(t) => {
                let value = self.rhs(multi)?;
                nd!(ClassVariableWriteNode (b, self.i), { name: t.name, name_loc, value })
            }
            ND::GlobalVariableTargetNode(t) => {
                let value = self.rhs(multi)?;
                nd!(GlobalVariableWriteNode (b, self.i), { name: t.name, name_loc, value })
            }
            ND::ConstantTargetNode(t) => {
                if self.in_def > 0 {
                    return self.err("dynamic constant assignment");
                }
                let value = self.rhs(multi)?;
                nd!(ConstantWriteNode (b, self.i), { name: t.name, name_loc, value })
            }
            ND::ConstantPathTargetNode(t) => {
                let value = self.rhs(multi)?;
                let target = Box::new(d::ConstantPathNode { loc: name_loc, parent: t.parent, name: t.name, name_loc: t.name_loc });
                nd!(ConstantPathWriteNode (b, self.i), { target, value })
            }
            ND::IndexTargetNode(t) => {
                let value = self.rhs(multi)?;
                let mut a = t.arguments.unwrap_or_default();
                a.arguments.push(value);
                nd!(CallNode (b, self.i), { receiver: Some(t.receiver), name: "[]=".into(), arguments: Some(a), block: t.block, is_attribute_write: true })
            }
            ND::CallTargetNode(t) => {
                let value = self.rhs(multi)?;
                let a = Box::new(d::ArgumentsNode { loc: value.loc(), arguments: vec![value] });
                nd!(CallNode (b, self.i), { receiver: Some(t.receiver), name: t.name, arguments: Some(a), is_attribute_write: true, is_safe_navigation: t.is_safe_navigation })
            }
            _ => return self.err("unexpected write target"),
        })
    }
    fn op_assign(&mut self, b: usize, n: ND, op: &str, multi: bool) -> R<ND> {
        let name_loc = n.loc();
        let t = self.to_target(n)?;
        let value = self.rhs(multi)?;
        let loc = (b, self.i);
        macro_rules! named {
            ($or:ident $and:ident $opw:ident $($f:ident : $v:expr),*) => {
                match op {
                    "||" => nd!($or loc, { $($f: $v,)* value }),
                    "&&" => nd!($and loc, { $($f: $v,)* value }),
                    _ => nd!($opw loc, { $($f: $v,)* value, binary_operator: op.to_string() }),
                }
            };
        }
        Ok(match t {
            ND::LocalVariableTargetNode(t) => {
                named!(LocalVariableOrWriteNode LocalVariableAndWriteNode LocalVariableOperatorWriteNode name: t.name, name_loc: name_loc, depth: t.depth)
            }
            ND::InstanceVariableTargetNode(t) => {
                named!(InstanceVariableOrWriteNode InstanceVariableAndWriteNode InstanceVariableOperatorWriteNode name: t.name, name_loc: name_loc)
            }
            ND::ClassVariableTargetNode(t) => {
                named!(ClassVariableOrWriteNode ClassVariableAndWriteNode ClassVariableOperatorWriteNode name: t.name, name_loc: name_loc)
            }
            ND::GlobalVariableTargetNode(t) => {
                named!(GlobalVariableOrWriteNode GlobalVariableAndWriteNode GlobalVariableOperatorWriteNode name: t.name, name_loc: name_loc)
            }
            ND::ConstantTargetNode(t) => {
                named!(ConstantOrWriteNode ConstantAndWriteNode ConstantOperatorWriteNode name: t.name, name_loc: name_loc)
            }
            ND::ConstantPathTargetNode(t) => {
                let target = Box::new(d::ConstantPathNode { loc: name_loc, parent: t.parent, name: t.name, name_loc: t.name_loc });
                named!(ConstantPathOrWriteNode ConstantPathAndWriteNode ConstantPathOperatorWriteNode target: target)
            }
            ND::IndexTargetNode(t) => {
                named!(IndexOrWriteNode IndexAndWriteNode IndexOperatorWriteNode receiver: Some(t.receiver), arguments: t.arguments, block: t.block)
            }
            ND::CallTargetNode(t) => {
                let read = t.name[..t.name.len() - 1].to_string();
                named!(CallOrWriteNode CallAndWriteNode CallOperatorWriteNode receiver: Some(t.receiver), read_name: read, write_name: t.name, is_safe_navigation: t.is_safe_navigation)
            }
            _ => return self.err("unexpected write target"),
        })
    }

    // ---- calls -----------------------------------------------------------------------------
    fn primary_postfix(&mut self) -> R<ND> {
        self.ws();
        let n = self.primary()?;
        self.postfix(n)
    }
    fn can_brace_block(n: &ND) -> bool {
        match n {
            ND::CallNode(c) => c.block.is_none() && !c.is_attribute_write && !(c.name == "[]" && c.receiver.is_some() && c.opening_loc.is_some() && c.message_loc.is_none()),
            ND::SuperNode(c) => c.block.is_none(),
            ND::ForwardingSuperNode(c) => c.block.is_none(),
            _ => false,
        }
    }
    fn postfix(&mut self, mut n: ND) -> R<ND> {
        let b = n.loc().0;
        loop {
            let save = self.i;
            self.ws();
            let spaced = self.i > save;
            // method chains may go on after line breaks
            if self.peek() == b'\n' && !self.eof() {
                self.nl();
                let dot = (self.peek() == b'.' && self.at(1) != b'.') || self.looking("&.");
                if !dot {
                    self.i = save;
                    return Ok(n);
                }
            }
            match self.peek() {
                b'.' if self.at(1) != b'.' => {
                    self.i += 1;
                    n = self.dot_call(b, n, false)?;
                }
                b'&' if self.at(1) == b'.' => {
                    self.i += 2;
                    n = self.dot_call(b, n, true)?;
                }
                b':' if self.at(1) == b':' && !(spaced && (self.at(2) == b' ' || Self::commandish(&n))) => {
                    self.i += 2;
                    self.nl();
                    let s = self.i;
                    if self.peek().is_ascii_uppercase() {
                        let e = self.ident_end(s);
                        // A::B is a constant, A::B(...) a call
                        let (mut q, mut call) = (e, false);
                        while q < self.end && self.s[q] == b' ' {
                            q += 1;
                        }
                        if q > e && q < self.end {
                            let save = std::mem::replace(&mut self.i, q);
                            let c = self.peek();
                            call = c == b'{' || (self.is_kw("do") && !self.no_do) || (is_id_start(c) && self.starts_arg()) || c == b'"' || c == b'\'';
                            self.i = save;
                        }
                        let call = call || e < self.end && (self.s[e] == b'(' || ((self.s[e] == b'?' || self.s[e] == b'!') && self.s.get(e + 1) != Some(&b'=')));
                        if !call {
                            self.i = e;
                            let name = self.text((s, e));
                            n = nd!(ConstantPathNode (b, self.i), { parent: Some(n), name: Some(name), name_loc: (s, e) });
                            continue;
                        }
                    }
                    n = self.dot_call(b, n, false)?;
                }
                b'[' if !(spaced && Self::commandish(&n)) && !Self::no_index(&n) => {
                    let o = self.i;
                    self.i += 1;
                    let (arguments, block) = self.call_args("]")?;
                    n = nd!(CallNode (b, self.i), { receiver: Some(n), name: "[]".into(), opening_loc: Some((o, o + 1)), arguments, block });
                }
                b'{' if Self::can_brace_block(&n) => {
                    let blk = self.brace_block()?;
                    n = self.attach(n, blk)?;
                }
                b'd' if self.is_kw("do") && !self.no_do && Self::can_brace_block(&n) => {
                    let blk = self.do_block()?;
                    n = self.attach(n, blk)?;
                }
                _ => {
                    self.i = save;
                    return Ok(n);
                }
            }
        }
    }
    fn no_index(n: &ND) -> bool {
        matches!(n, ND::DefNode(_))
    }
    fn commandish(n: &ND) -> bool {
        matches!(n, ND::CallNode(c) if c.arguments.is_none() && c.opening_loc.is_none() && c.block.is_none() && c.name.bytes().all(|c| is_id(c) || c == b'?' || c == b'!'))
    }
    fn attach(&mut self, n: ND, blk: ND) -> R<ND> {
        let e = self.i;
        Ok(match n {
            ND::CallNode(mut c) => {
                c.block = Some(blk);
                c.is_variable_call = false;
                c.loc.1 = e;
                ND::CallNode(c)
            }
            ND::SuperNode(mut c) => {
                c.block = Some(blk);
                c.loc.1 = e;
                ND::SuperNode(c)
            }
            ND::ForwardingSuperNode(mut c) => {
                let ND::BlockNode(b) = blk else { return self.err("block argument for super") };
                c.block = Some(b);
                c.loc.1 = e;
                ND::ForwardingSuperNode(c)
            }
            _ => return self.err("unexpected block"),
        })
    }
    /// A method name after `.`, after `def`, in `alias` and `undef`, in symbols.
    fn method_name(&mut self, setter: bool) -> Option<Loc> {
        let b = self.i;
        let c = self.peek();
        if is_id_start(c) {
            self.i = self.ident_end(self.i);
            if matches!(self.peek(), b'?' | b'!') && (self.at(1) != b'=' || matches!(self.at(2), b'=' | b'~' | b'>')) {
                self.i += 1;
            } else if setter && self.peek() == b'=' && !matches!(self.at(1), b'~' | b'>') && (self.at(1) != b'=' || self.at(2) == b'>') {
                self.i += 1;
            }
            return Some((b, self.i));
        }
        const OPS: &[&str] = &[
            "[]=", "[]", "<=>", "===", "==", "=~", "!=", "!~", "**", "+@", "-@", "~@", "!@", "<<", ">>", "<=", ">=", "+", "-", "*", "/", "%", "<", ">",
            "!", "~", "&", "|", "^", "`",
        ];
        for op in OPS {
            if self.eat(op) {
                return Some((b, self.i));
            }
        }
        None
    }
    fn norm_op(n: String) -> String {
        match n.as_str() {
            "~@" => "~".into(),
            "!@" => "!".into(),
            _ => n,
        }
    }
    fn dot_call(&mut self, b: usize, recv: ND, safe: bool) -> R<ND> {
        self.nl();
        let s = self.i;
        if self.peek() == b'(' {
            // recv.()
            self.i += 1;
            let (arguments, block) = self.call_args(")")?;
            return Ok(nd!(CallNode (b, self.i), { receiver: Some(recv), name: "call".into(), opening_loc: Some((s, s + 1)), arguments, block, is_safe_navigation: safe }));
        }
        let Some(l) = self.method_name(false) else { return self.unexpected("expected a method name") };
        let name = Self::norm_op(self.text(l));
        self.call_tail(b, Some(recv), name, l, safe)
    }
    /// Arguments after a method name.
    fn call_tail(&mut self, b: usize, receiver: Option<ND>, name: String, l: Loc, safe: bool) -> R<ND> {
        let mut c = d::CallNode { loc: (b, self.i), receiver, name, message_loc: Some(l), is_safe_navigation: safe, ..Default::default() };
        if self.peek() == b'(' {
            let o = self.i;
            self.i += 1;
            (c.arguments, c.block) = self.call_args(")")?;
            c.opening_loc = Some((o, o + 1));
            c.closing_loc = Some((self.i - 1, self.i));
        } else if self.command_follows() {
            self.ws();
            (c.arguments, c.block) = self.command_args()?;
            c.loc.1 = self.i;
            let mut n = ND::from(c);
            return self.command_block(&mut n).map(|_| n);
        }
        c.loc.1 = self.i;
        Ok(c.into())
    }
    fn command_block(&mut self, n: &mut ND) -> R<()> {
        let save = self.i;
        self.ws();
        if self.is_kw("do") && !self.no_do && Self::can_brace_block(n) {
            let blk = self.do_block()?;
            let m = std::mem::take(n);
            *n = self.attach(m, blk)?;
        } else {
            self.i = save;
        }
        Ok(())
    }
    /// Whether arguments without parentheses follow.
    fn command_follows(&mut self) -> bool {
        let save = self.i;
        self.ws();
        let at = self.i;
        let spaced = at > save;
        let r = !self.eof() && (spaced && self.starts_arg() || !spaced && matches!(self.peek(), b'"' | b'\'' | b'$'));
        self.i = save;
        r
    }
    fn starts_arg(&mut self) -> bool {
        let (c, n) = (self.peek(), self.at(1));
        let blank = |c: u8| c.is_ascii_whitespace() || c == 0;
        match c {
            _ if is_id(c) => {
                if self.any_kw(&["if", "unless", "while", "until", "rescue", "and", "or", "then", "do", "end", "in", "else", "elsif", "when", "ensure"]) {
                    return false;
                }
                true
            }
            b'"' | b'\'' | b'`' | b'@' | b'$' | b'~' | b'(' | b'[' => true,
            b'!' => n != b'=' && n != b'~',
            b'-' if n == b'>' => true,
            b'-' | b'+' => !blank(n) && n != b'=',
            b'*' if n == b'*' => !blank(self.at(2)) && self.at(2) != b'=',
            b'*' => !blank(n) && n != b'=',
            b'&' => !blank(n) && !matches!(n, b'&' | b'=' | b'.'),
            b':' if n == b':' => self.at(2).is_ascii_uppercase(),
            b':' => n == b'"' || n == b'\'' || is_id_start(n) || b"@$[<=>!+-*/%&|^~`".contains(&n),
            b'/' => !blank(n) && n != b'=',
            b'%' => !blank(n) && n != b'=',
            b'<' if n == b'<' => {
                let m = self.at(2);
                matches!(m, b'~' | b'-') && (matches!(self.at(3), b'"' | b'\'' | b'`') || is_id_start(self.at(3))) || m.is_ascii_uppercase() || m == b'"' || m == b'\''
            }
            b'?' => !blank(n) && !is_id(self.at(2)),
            b'.' => n == b'.' && self.at(2) != b'.' && self.at(2).is_ascii_digit(),
            _ => false,
        }
    }
    fn command_args(&mut self) -> R<(Option<Box<d::ArgumentsNode>>, Option<ND>)> {
        let save = (self.no_do, self.multi);
        self.no_do = true;
        self.multi = false;
        let mut a = Args::default();
        let b = self.i;
        loop {
            self.one_arg(&mut a, false)?;
            let p = self.i;
            self.ws();
            if self.peek() == b',' {
                self.i += 1;
                self.nl();
                continue;
            }
            self.i = p;
            break;
        }
        (self.no_do, self.multi) = save;
        Ok(a.finish((b, self.i)))
    }
    fn call_args(&mut self, close: &str) -> R<(Option<Box<d::ArgumentsNode>>, Option<ND>)> {
        let b = self.i;
        let r = self.fresh(|p| {
            let mut a = Args::default();
            loop {
                p.nl();
                if p.looking(close) {
                    break;
                }
                p.one_arg(&mut a, true)?;
                p.nl();
                if p.eat(",") {
                    continue;
                }
                break;
            }
            p.nl();
            Ok(a)
        })?;
        let e = self.i;
        self.expect(close)?;
        Ok(r.finish((b, e)))
    }
    fn value_end(&self) -> bool {
        self.eof() || matches!(self.peek(), b')' | b']' | b',' | b'\n' | b';' | b'}')
    }
    /// `name:` or `"name":` at this place.
    fn label(&mut self) -> R<Option<ND>> {
        let b = self.i;
        if is_id_start(self.peek()) {
            let mut e = self.ident_end(self.i);
            if e < self.end && matches!(self.s[e], b'?' | b'!') {
                e += 1;
            }
            if e < self.end && self.s[e] == b':' && (e + 1 >= self.end || self.s[e + 1] != b':') {
                self.i = e + 1;
                return Ok(Some(nd!(SymbolNode (b, e + 1), { unescaped: self.s[b..e].to_vec() })));
            }
            return Ok(None);
        }
        if matches!(self.peek(), b'"' | b'\'') {
            let q = self.peek();
            self.i += 1;
            let esc = if q == b'"' { Esc::Full } else { Esc::Raw };
            let parts = self.string_parts(Term::Delim(None, q), esc, 0);
            if let Ok(parts) = parts {
                if self.peek() == b':' && self.at(1) != b':' {
                    self.i += 1;
                    let (bytes, parts) = Self::join(parts);
                    return Ok(Some(match bytes {
                        Some((unescaped, _)) => nd!(SymbolNode (b, self.i), { unescaped }),
                        None => nd!(InterpolatedSymbolNode (b, self.i), { parts }),
                    }));
                }
            }
            self.i = b;
        }
        Ok(None)
    }
    /// The value a label stands for when none is written.
    fn implied(&mut self, k: &ND) -> R<ND> {
        let ND::SymbolNode(s) = k else { return self.err("expected a value after the key") };
        let name = String::from_utf8_lossy(&s.unescaped).into_owned();
        let loc = (k.loc().0, k.loc().1 - 1);
        let value = if name.as_bytes()[0].is_ascii_uppercase() {
            nd!(ConstantReadNode loc, { name })
        } else if let Some(depth) = self.lookup(&name) {
            nd!(LocalVariableReadNode loc, { name, depth })
        } else {
            nd!(CallNode loc, { name, message_loc: Some(loc), is_variable_call: true })
        };
        Ok(nd!(ImplicitNode loc, { value }))
    }
    fn one_arg(&mut self, a: &mut Args, brackets: bool) -> R<()> {
        let b = self.i;
        if self.looking("...") && { let mut q = self.i + 3; while q < self.end && (self.s[q] == b' ' || self.s[q] == b'\n') { q += 1; } q < self.end && self.s[q] == b')' } {
            self.i += 3;
            a.v.push(nd!(ForwardingArgumentsNode (b, self.i), {}));
            return Ok(());
        }
        if self.peek() == b'*' && self.at(1) == b'*' {
            self.i += 2;
            self.ws();
            let value = if self.value_end() { None } else { Some(self.arg()?) };
            a.kw.push(nd!(AssocSplatNode (b, self.i), { value }));
            return Ok(());
        }
        if self.peek() == b'*' {
            self.i += 1;
            self.ws();
            let expression = if self.value_end() { None } else { Some(self.arg()?) };
            a.push(nd!(SplatNode (b, self.i), { expression }));
            return Ok(());
        }
        if self.peek() == b'&' && self.at(1) != b'&' {
            self.i += 1;
            self.ws();
            let expression = if self.value_end() { None } else { Some(self.arg()?) };
            a.block = Some(nd!(BlockArgumentNode (b, self.i), { expression }));
            return Ok(());
        }
        if let Some(key) = self.label()? {
            let save = self.i;
            if brackets { self.nl() } else { self.ws() }
            let value = if self.value_end() || self.any_kw(&["if", "unless", "do", "end", "then"]) && !self.is_kw("if") {
                self.i = save;
                self.implied(&key)?
            } else {
                self.nl();
                self.arg_nocomma()?
            };
            a.kw.push(nd!(AssocNode (b, self.i), { key, value }));
            return Ok(());
        }
        let n = self.arg_nocomma()?;
        let save = self.i;
        self.ws();
        if self.looking("=>") {
            self.i += 2;
            self.nl();
            let value = self.arg_nocomma()?;
            a.kw.push(nd!(AssocNode (b, self.i), { key: n, value }));
            return Ok(());
        }
        self.i = save;
        a.push(n);
        Ok(())
    }
    fn arg_nocomma(&mut self) -> R<ND> {
        self.multi = false;
        let b = self.i;
        if self.is_kw("not") && self.at(3) != b'(' {
            return self.not_expr();
        }
        let n = self.arg()?;
        // `f(x rescue y)` and `f(x if y)` are not valid, but `f((x))` is: nothing to do here
        let _ = b;
        Ok(n)
    }

    // ---- blocks and parameters -------------------------------------------------------------
    fn scoped<T>(&mut self, open: bool, f: impl FnOnce(&mut Self) -> R<T>) -> R<(T, Sc)> {
        self.scopes.push(Sc { open, ..Default::default() });
        let n = self.scopes.len();
        let in_def = self.in_def;
        let r = self.fresh(f);
        self.in_def = in_def;
        self.scopes.truncate(n);
        let sc = self.scopes.pop().unwrap();
        Ok((r?, sc))
    }
    fn block_params(&mut self) -> R<Option<ND>> {
        self.nl();
        if self.peek() != b'|' {
            self.scopes.last_mut().unwrap().implicit = true;
            return Ok(None);
        }
        let b = self.i;
        self.i += 1;
        self.nl();
        let mut locals = vec![];
        let mut parameters = None;
        if self.peek() != b'|' {
            let save = self.no_pipe;
            self.no_pipe = true;
            if self.peek() != b';' {
                parameters = Some(Box::new(self.params("|", true)?));
            }
            self.no_pipe = save;
            locals = self.block_locals()?;
        }
        self.nl();
        self.expect("|")?;
        Ok(Some(nd!(BlockParametersNode (b, self.i), { parameters, locals })))
    }
    fn block_locals(&mut self) -> R<Vec<ND>> {
        let mut locals = vec![];
        self.nl();
        if self.eat(";") {
            loop {
                self.nl();
                let s = self.i;
                self.i = self.ident_end(s);
                let name = self.text((s, self.i));
                self.declare_here(&name);
                locals.push(nd!(BlockLocalVariableNode (s, self.i), { name }));
                self.nl();
                if !self.eat(",") {
                    break;
                }
            }
        }
        Ok(locals)
    }
    fn implicit_params(&mut self, p: Option<ND>, sc: &Sc, loc: Loc) -> Option<ND> {
        if p.is_some() {
            return p;
        }
        if sc.numbered > 0 {
            return Some(nd!(NumberedParametersNode loc, { maximum: sc.numbered }));
        }
        if sc.it {
            return Some(nd!(ItParametersNode loc, {}));
        }
        None
    }
    fn brace_block(&mut self) -> R<ND> {
        let b = self.i;
        self.expect("{")?;
        let ((p, body), sc) = self.scoped(true, |p| {
            let q = p.block_params()?;
            let s = p.stmts_until(&[])?;
            Ok((q, s))
        })?;
        self.terms();
        self.expect("}")?;
        let loc = (b, self.i);
        let parameters = self.implicit_params(p, &sc, loc);
        Ok(nd!(BlockNode loc, { locals: sc.vars, parameters, body: Self::opt(body).map(ND::StatementsNode) }))
    }
    fn do_block(&mut self) -> R<ND> {
        let b = self.i;
        self.expect("do")?;
        let ((p, body), sc) = self.scoped(true, |p| {
            let q = p.block_params()?;
            let s = p.body_with_rescue(b)?;
            Ok((q, s))
        })?;
        self.expect("end")?;
        let loc = (b, self.i);
        let parameters = self.implicit_params(p, &sc, loc);
        Ok(nd!(BlockNode loc, { locals: sc.vars, parameters, body }))
    }
    /// Statements up to `end`, with the clauses of a `begin`.
    fn body_with_rescue(&mut self, b: usize) -> R<Option<ND>> {
        let s = self.stmts_until(&["rescue", "else", "ensure", "end"])?;
        if self.is_kw("end") {
            return Ok(Self::opt(s).map(ND::StatementsNode));
        }
        let mut n = d::BeginNode { loc: (b, self.i), statements: Self::opt(s), ..Default::default() };
        self.begin_clauses(&mut n)?;
        if !self.is_kw("end") {
            return self.unexpected("expected an `end`");
        }
        n.loc.1 = self.i;
        Ok(Some(n.into()))
    }
    fn begin_clauses(&mut self, n: &mut d::BeginNode) -> R<()> {
        let mut rescues = vec![];
        while self.is_kw("rescue") {
            let b = self.i;
            self.i += 6;
            let mut exceptions = vec![];
            let mut reference = None;
            self.ws();
            while !matches!(self.peek(), b'\n' | b';') && !self.eof() && !self.is_kw("then") && !self.looking("=>") {
                let s = self.i;
                if self.eat("*") {
                    let e = self.arg()?;
                    exceptions.push(nd!(SplatNode (s, self.i), { expression: Some(e) }));
                } else {
                    exceptions.push(self.arg()?);
                }
                self.ws();
                if self.eat(",") {
                    self.nl();
                } else {
                    break;
                }
            }
            self.ws();
            if self.eat("=>") {
                self.ws();
                let t = self.primary_postfix()?;
                reference = Some(self.to_target(t)?);
            }
            self.ws();
            self.kw("then");
            let s = self.stmts_until(&["rescue", "else", "ensure", "end"])?;
            rescues.push(d::RescueNode { loc: (b, self.i), exceptions, reference, statements: Self::opt(s), subsequent: None });
        }
        let mut chain = None;
        for mut r in rescues.into_iter().rev() {
            r.subsequent = chain.take();
            chain = Some(Box::new(r));
        }
        n.rescue_clause = chain;
        if self.is_kw("else") {
            let b = self.i;
            self.i += 4;
            let s = self.stmts_until(&["ensure", "end"])?;
            n.else_clause = Some(Box::new(d::ElseNode { loc: (b, self.i), statements: Self::opt(s) }));
        }
        if self.is_kw("ensure") {
            let b = self.i;
            self.i += 6;
            let s = self.stmts_until(&["end"])?;
            n.ensure_clause = Some(Box::new(d::EnsureNode { loc: (b, self.i), statements: Self::opt(s) }));
        }
        Ok(())
    }
    fn param_ident(&mut self) -> Option<(String, Loc)> {
        let b = self.i;
        if !is_id_start(self.peek()) {
            return None;
        }
        self.i = self.ident_end(b);
        let n = self.text((b, self.i));
        self.declare_here(&n);
        Some((n, (b, self.i)))
    }
    fn destructure(&mut self) -> R<ND> {
        let b = self.i;
        self.expect("(")?;
        let (mut lefts, mut rest, mut rights) = (vec![], None, vec![]);
        loop {
            self.nl();
            if self.peek() == b')' {
                break;
            }
            let s = self.i;
            let n = if self.eat("*") {
                let e = self.param_ident().map(|(name, loc)| nd!(RequiredParameterNode loc, { name }));
                rest = Some(nd!(SplatNode (s, self.i), { expression: e }));
                None
            } else if self.peek() == b'(' {
                Some(self.destructure()?)
            } else {
                match self.param_ident() {
                    Some((name, loc)) => Some(nd!(RequiredParameterNode loc, { name })),
                    None => return self.unexpected("expected a parameter"),
                }
            };
            if let Some(n) = n {
                if rest.is_some() {
                    rights.push(n)
                } else {
                    lefts.push(n)
                }
            }
            self.nl();
            if !self.eat(",") {
                break;
            }
        }
        self.nl();
        self.expect(")")?;
        Ok(nd!(MultiTargetNode (b, self.i), { lefts, rest, rights }))
    }
    fn params(&mut self, close: &str, block: bool) -> R<d::ParametersNode> {
        let b = self.i;
        let mut p = d::ParametersNode { loc: (b, b), ..Default::default() };
        let mut trailing = false;
        loop {
            if close.is_empty() {
                self.ws();
                if self.eof() || matches!(self.peek(), b'\n' | b';' | b'{' | b'=') || self.is_kw("do") {
                    break;
                }
            } else {
                self.nl();
                if self.looking(close) || self.peek() == b';' {
                    break;
                }
            }
            trailing = false;
            let s = self.i;
            if self.eat("...") {
                p.keyword_rest = Some(nd!(ForwardingParameterNode (s, self.i), {}));
            } else if self.eat("**") {
                if self.kw("nil") {
                    p.keyword_rest = Some(nd!(NoKeywordsParameterNode (s, self.i), {}));
                } else {
                    let name = self.param_ident().map(|x| x.0);
                    p.keyword_rest = Some(nd!(KeywordRestParameterNode (s, self.i), { name }));
                }
            } else if self.eat("*") {
                let name = self.param_ident().map(|x| x.0);
                p.rest = Some(nd!(RestParameterNode (s, self.i), { name }));
            } else if self.eat("&") {
                let name = self.param_ident().map(|x| x.0);
                p.block = Some(Box::new(d::BlockParameterNode { loc: (s, self.i), name }));
            } else if self.peek() == b'(' {
                let n = self.destructure()?;
                if p.rest.is_some() || !p.optionals.is_empty() {
                    p.posts.push(n);
                } else {
                    p.requireds.push(n);
                }
            } else if let Some((name, loc)) = self.param_ident() {
                if self.peek() == b':' && self.at(1) != b':' {
                    self.i += 1;
                    let save = self.i;
                    self.ws();
                    let none = self.value_end() || self.looking(if close.is_empty() { "\n" } else { close }) || (close.is_empty() && (self.peek() == b'{' && false));
                    if none {
                        self.i = save;
                        p.keywords.push(nd!(RequiredKeywordParameterNode (s, self.i), { name, name_loc: loc }));
                    } else {
                        let value = self.arg()?;
                        p.keywords.push(nd!(OptionalKeywordParameterNode (s, self.i), { name, name_loc: loc, value }));
                    }
                } else {
                    self.ws();
                    if self.is_assign() {
                        self.i += 1;
                        self.nl();
                        let value = self.arg()?;
                        p.optionals.push(nd!(OptionalParameterNode (s, self.i), { name, name_loc: loc, value }));
                    } else if p.rest.is_some() || !p.optionals.is_empty() {
                        p.posts.push(nd!(RequiredParameterNode loc, { name }));
                    } else {
                        p.requireds.push(nd!(RequiredParameterNode loc, { name }));
                    }
                }
            } else {
                return self.unexpected("expected a parameter");
            }
            p.loc.1 = self.i;
            if close.is_empty() {
                self.ws()
            } else {
                self.nl()
            }
            if !self.eat(",") {
                break;
            }
            trailing = true;
            self.nl();
        }
        if trailing && block && p.rest.is_none() {
            p.rest = Some(nd!(ImplicitRestNode (self.i - 1, self.i), {}));
        }
        Ok(p)
    }
    fn lambda(&mut self) -> R<ND> {
        let b = self.i;
        self.expect("->")?;
        let ((p, body), sc) = self.scoped(true, |p| {
            p.ws();
            let q = p.i;
            let params = if p.peek() == b'(' {
                p.i += 1;
                let pr = p.params(")", true)?;
                let locals = p.block_locals()?;
                p.nl();
                p.expect(")")?;
                let parameters = if pr.loc.0 == pr.loc.1 { None } else { Some(Box::new(pr)) };
                Some(nd!(BlockParametersNode (q, p.i), { parameters, locals }))
            } else if p.peek() != b'{' && !p.is_kw("do") {
                p.no_do = true;
                let pr = p.params("", true)?;
                p.no_do = false;
                Some(nd!(BlockParametersNode (q, p.i), { parameters: Some(Box::new(pr)) }))
            } else {
                p.scopes.last_mut().unwrap().implicit = true;
                None
            };
            p.ws();
            let body = if p.eat("{") {
                let s = p.stmts_until(&[])?;
                p.terms();
                p.expect("}")?;
                Self::opt(s).map(ND::StatementsNode)
            } else if p.kw("do") {
                let s = p.body_with_rescue(b)?;
                p.expect("end")?;
                s
            } else {
                return p.unexpected("expected a lambda body");
            };
            Ok((params, body))
        })?;
        let loc = (b, self.i);
        let parameters = self.implicit_params(p, &sc, loc);
        Ok(nd!(LambdaNode loc, { locals: sc.vars, parameters, body }))
    }

    // ---- primaries -------------------------------------------------------------------------
    fn primary(&mut self) -> R<ND> {
        let b = self.i;
        let c = self.peek();
        match c {
            _ if self.eof() => self.unexpected("expected an expression"),
            b'0'..=b'9' => self.number(),
            b'"' | b'\'' | b'`' => self.quoted(),
            b':' if self.at(1) == b':' => {
                self.i += 2;
                let s = self.i;
                self.i = self.ident_end(s);
                let name = self.text((s, self.i));
                Ok(nd!(ConstantPathNode (b, self.i), { name: Some(name), name_loc: (s, self.i) }))
            }
            b':' => self.symbol(),
            b'[' => {
                self.i += 1;
                let (a, blk) = self.call_args("]")?;
                if blk.is_some() {
                    return self.err("unexpected block argument in an array");
                }
                let elements = a.map(|a| a.arguments).unwrap_or_default();
                Ok(nd!(ArrayNode (b, self.i), { elements, opening_loc: Some((b, b + 1)), closing_loc: Some((self.i - 1, self.i)) }))
            }
            b'{' => self.hash(),
            b'(' => {
                self.i += 1;
                let s = self.stmts_until(&[])?;
                self.terms();
                self.expect(")")?;
                Ok(nd!(ParenthesesNode (b, self.i), { body: Self::opt(s).map(ND::StatementsNode) }))
            }
            b'@' => {
                let class = self.at(1) == b'@';
                let s = self.i + if class { 2 } else { 1 };
                if !is_id_start(self.s.get(s).copied().unwrap_or(0)) {
                    return self.err("'@' without identifiers is not allowed as a variable name");
                }
                self.i = self.ident_end(s);
                let name = self.text((b, self.i));
                Ok(if class {
                    nd!(ClassVariableReadNode (b, self.i), { name })
                } else {
                    nd!(InstanceVariableReadNode (b, self.i), { name })
                })
            }
            b'$' => self.gvar(),
            b'/' => {
                self.i += 1;
                self.regexp(b, None, b'/')
            }
            b'%' => self.percent(),
            b'<' if self.at(1) == b'<' => self.heredoc(),
            b'?' => self.char_literal(),
            b'-' if self.at(1) == b'>' => self.lambda(),
            b'-' | b'!' | b'+' | b'~' => self.unary(26),
            b'.' if self.at(1) == b'.' => self.range(),
            _ if is_id_start(c) => self.word(),
            _ => self.unexpected("expected an expression"),
        }
    }
    fn gvar(&mut self) -> R<ND> {
        let b = self.i;
        self.i += 1;
        let c = self.peek();
        if is_id_start(c) {
            self.i = self.ident_end(self.i);
        } else if c.is_ascii_digit() && c != b'0' {
            self.i = self.ident_end(self.i);
            let number = self.text((b + 1, self.i)).parse().unwrap_or(0);
            return Ok(nd!(NumberedReferenceReadNode (b, self.i), { number }));
        } else if c == b'-' {
            self.i += 2;
        } else if matches!(c, b'&' | b'`' | b'\'' | b'+') {
            self.i += 1;
            let name = self.text((b, self.i));
            return Ok(nd!(BackReferenceReadNode (b, self.i), { name }));
        } else {
            self.i += 1;
        }
        let name = self.text((b, self.i));
        Ok(nd!(GlobalVariableReadNode (b, self.i), { name }))
    }
    fn int_from(text: &[u8], radix: u32) -> Int {
        let mut d: Vec<u32> = vec![];
        for c in text {
            let Some(v) = (*c as char).to_digit(radix) else { continue };
            let mut carry = v as u64;
            for x in d.iter_mut() {
                let t = *x as u64 * radix as u64 + carry;
                *x = t as u32;
                carry = t >> 32;
            }
            if carry > 0 {
                d.push(carry as u32);
            }
        }
        if d.is_empty() {
            d.push(0);
        }
        Int { negative: false, digits: d }
    }
    fn number(&mut self) -> R<ND> {
        let b = self.i;
        let radix = if self.peek() == b'0' {
            match self.at(1) {
                b'x' | b'X' => Some((16, 2)),
                b'b' | b'B' => Some((2, 2)),
                b'o' | b'O' => Some((8, 2)),
                b'd' | b'D' => Some((10, 2)),
                b'0'..=b'7' | b'_' => Some((8, 1)),
                _ => None,
            }
        } else {
            None
        };
        if let Some((r, skip)) = radix {
            self.i += skip;
            let s = self.i;
            while (self.peek() as char).is_digit(r) || (self.peek() == b'_' && (self.at(1) as char).is_digit(r)) {
                self.i += 1;
            }
            let value = Self::int_from(&self.s[s..self.i], r);
            return self.num_suffix(b, nd!(IntegerNode (b, self.i), { value }));
        }
        let digits = |p: &mut Self| {
            while p.peek().is_ascii_digit() || (p.peek() == b'_' && p.at(1).is_ascii_digit()) {
                p.i += 1;
            }
        };
        digits(self);
        let int_end = self.i;
        let mut float = false;
        if self.peek() == b'.' && self.at(1).is_ascii_digit() {
            float = true;
            self.i += 1;
            digits(self);
        }
        let frac_end = self.i;
        if matches!(self.peek(), b'e' | b'E') && (self.at(1).is_ascii_digit() || (matches!(self.at(1), b'+' | b'-') && self.at(2).is_ascii_digit())) {
            float = true;
            self.i += 2;
            digits(self);
        }
        if float {
            if self.peek() == b'r' && !is_id(self.at(1)) || self.peek() == b'r' && self.at(1) == b'i' && !is_id(self.at(2)) {
                let numer: Vec<u8> = self.s[b..frac_end].iter().copied().filter(|c| c.is_ascii_digit()).collect();
                let places = frac_end.saturating_sub(int_end + 1);
                let (mut n, mut dn) = (0u128, 1u128);
                for c in &numer {
                    n = n * 10 + (*c - b'0') as u128;
                }
                for _ in 0..places {
                    dn *= 10;
                }
                let (mut x, mut y) = (n, dn);
                while y > 0 {
                    (x, y) = (y, x % y);
                }
                let x = x.max(1);
                self.i += 1;
                let f = |v: u128| Self::int_from(v.to_string().as_bytes(), 10);
                let r = nd!(RationalNode (b, self.i), { numerator: f(n / x), denominator: f(dn / x) });
                return self.imag(b, r);
            }
            let t: String = self.text((b, self.i)).replace('_', "");
            let value = t.parse().unwrap_or(0.0);
            return self.imag(b, nd!(FloatNode (b, self.i), { value }));
        }
        let value = Self::int_from(&self.s[b..self.i], 10);
        self.num_suffix(b, nd!(IntegerNode (b, self.i), { value }))
    }
    fn num_suffix(&mut self, b: usize, n: ND) -> R<ND> {
        if self.peek() == b'r' && (!is_id(self.at(1)) || (self.at(1) == b'i' && !is_id(self.at(2)))) {
            self.i += 1;
            let ND::IntegerNode(x) = n else { unreachable!() };
            let r = nd!(RationalNode (b, self.i), { numerator: x.value, denominator: Int { negative: false, digits: vec![1] } });
            return self.imag(b, r);
        }
        self.imag(b, n)
    }
    fn imag(&mut self, b: usize, numeric: ND) -> R<ND> {
        if self.peek() == b'i' && !is_id(self.at(1)) {
            self.i += 1;
            return Ok(nd!(ImaginaryNode (b, self.i), { numeric }));
        }
        Ok(numeric)
    }
    fn char_literal(&mut self) -> R<ND> {
        let b = self.i;
        self.i += 1;
        let mut out = vec![];
        let mut utf8 = false;
        if self.peek() == b'\\' {
            self.escape(&mut out, &mut utf8)?;
        } else {
            let n = match self.peek() {
                0..=0x7f => 1,
                0xf0.. => 4,
                0xe0.. => 3,
                _ => 2,
            };
            if self.eof() || self.peek().is_ascii_whitespace() {
                return self.unexpected("expected an expression");
            }
            out.extend_from_slice(&self.s[self.i..self.i + n]);
            self.i += n;
        }
        Ok(nd!(StringNode (b, self.i), { content_loc: (b + 1, self.i), unescaped: out, opening_loc: Some((b, b + 1)), is_forced_utf8_encoding: utf8 }))
    }
    fn symbol(&mut self) -> R<ND> {
        let b = self.i;
        self.i += 1;
        let c = self.peek();
        if c == b'"' || c == b'\'' {
            self.i += 1;
            let parts = self.string_parts(Term::Delim(None, c), if c == b'"' { Esc::Full } else { Esc::Raw }, 0)?;
            let (bytes, parts) = Self::join(parts);
            return Ok(match bytes {
                Some((unescaped, _)) => nd!(SymbolNode (b, self.i), { unescaped }),
                None => nd!(InterpolatedSymbolNode (b, self.i), { parts }),
            });
        }
        let s = self.i;
        if c == b'@' {
            self.i += if self.at(1) == b'@' { 2 } else { 1 };
            self.i = self.ident_end(self.i);
        } else if c == b'$' {
            self.gvar()?;
        } else {
            let Some(l) = self.method_name(true) else { return self.unexpected("expected a symbol") };
            let name = Self::norm_op(self.text(l));
            return Ok(nd!(SymbolNode (b, self.i), { unescaped: name.into_bytes() }));
        }
        Ok(nd!(SymbolNode (b, self.i), { unescaped: self.s[s..self.i].to_vec() }))
    }
    fn hash(&mut self) -> R<ND> {
        let b = self.i;
        self.i += 1;
        let elements = self.fresh(|p| {
            let mut v = vec![];
            loop {
                p.nl();
                if p.peek() == b'}' {
                    break;
                }
                let s = p.i;
                if p.eat("**") {
                    p.ws();
                    let value = if p.value_end() { None } else { Some(p.arg()?) };
                    v.push(nd!(AssocSplatNode (s, p.i), { value }));
                } else if let Some(key) = p.label()? {
                    let save = p.i;
                    p.nl();
                    let value = if p.value_end() {
                        p.i = save;
                        p.implied(&key)?
                    } else {
                        p.arg_nocomma()?
                    };
                    v.push(nd!(AssocNode (s, p.i), { key, value }));
                } else {
                    let key = p.arg_nocomma()?;
                    p.nl();
                    p.expect("=>")?;
                    p.nl();
                    let value = p.arg_nocomma()?;
                    v.push(nd!(AssocNode (s, p.i), { key, value }));
                }
                p.nl();
                if !p.eat(",") {
                    break;
                }
            }
            p.nl();
            Ok(v)
        })?;
        self.expect("}")?;
        Ok(nd!(HashNode (b, self.i), { elements }))
    }

    // ---- strings ---------------------------------------------------------------------------
    fn closer(c: u8) -> (Option<u8>, u8) {
        match c {
            b'(' => (Some(b'('), b')'),
            b'[' => (Some(b'['), b']'),
            b'{' => (Some(b'{'), b'}'),
            b'<' => (Some(b'<'), b'>'),
            c => (None, c),
        }
    }
    fn push_char(out: &mut Vec<u8>, v: u32) {
        match char::from_u32(v) {
            Some(c) => {
                let mut buf = [0; 4];
                out.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
            }
            None => {
                // surrogates are written as they are
                out.extend_from_slice(&[0xe0 | (v >> 12) as u8, 0x80 | ((v >> 6) & 0x3f) as u8, 0x80 | (v & 0x3f) as u8]);
            }
        }
    }
    fn hex_digits(&mut self, max: usize) -> Option<u32> {
        let mut v = 0;
        let mut n = 0;
        while n < max {
            let Some(x) = (self.peek() as char).to_digit(16) else { break };
            v = v * 16 + x;
            self.i += 1;
            n += 1;
        }
        if n > 0 {
            Some(v)
        } else {
            None
        }
    }
    /// At a backslash in a double-quoted text.
    fn escape(&mut self, out: &mut Vec<u8>, utf8: &mut bool) -> R<()> {
        self.i += 1;
        let c = self.peek();
        self.i += 1;
        match c {
            b'n' => out.push(b'\n'),
            b't' => out.push(b'\t'),
            b's' => out.push(b' '),
            b'r' => out.push(b'\r'),
            b'0'..=b'7' => {
                let mut v = (c - b'0') as u32;
                for _ in 0..2 {
                    if matches!(self.peek(), b'0'..=b'7') {
                        v = v * 8 + (self.peek() - b'0') as u32;
                        self.i += 1;
                    }
                }
                out.push(v as u8);
            }
            b'e' => out.push(27),
            b'a' => out.push(7),
            b'b' => out.push(8),
            b'v' => out.push(11),
            b'f' => out.push(12),
            b'x' => match self.hex_digits(2) {
                Some(v) => out.push(v as u8),
                None => return self.err("invalid hex escape sequence"),
            },
            b'u' => {
                *utf8 = true;
                if self.eat("{") {
                    loop {
                        while matches!(self.peek(), b' ' | b'\t' | b'\n') {
                            self.i += 1;
                        }
                        if self.eat("}") {
                            break;
                        }
                        match self.hex_digits(6) {
                            Some(v) => Self::push_char(out, v),
                            None => return self.err("invalid Unicode escape sequence"),
                        }
                    }
                } else {
                    let s = self.i;
                    match self.hex_digits(4) {
                        Some(v) if self.i == s + 4 => Self::push_char(out, v),
                        _ => return self.err("invalid Unicode escape sequence"),
                    }
                }
            }
            b'c' | b'C' | b'M' => {
                self.i -= 1;
                let v = self.control()?;
                out.push(v);
            }
            b'\n' => {
                self.i -= 1;
                self.newline_in_string();
            }
            b'\r' if self.peek() == b'\n' => {
                self.newline_in_string();
            }
            c if c >= 0x80 => {
                out.push(c);
            }
            c => out.push(c),
        }
        Ok(())
    }
    /// `\cX`, `\C-X`, `\M-X`, nested; the position is on the letter.
    fn control(&mut self) -> R<u8> {
        let c = self.peek();
        self.i += 1;
        match c {
            b'c' => {}
            b'C' | b'M' => self.expect("-")?,
            _ => return self.err("invalid control escape"),
        }
        let v = if self.peek() == b'\\' {
            if matches!(self.at(1), b'c' | b'C' | b'M') {
                self.i += 1;
                self.control()?
            } else {
                let mut o = vec![];
                self.escape(&mut o, &mut false)?;
                o.first().copied().unwrap_or(0)
            }
        } else {
            let v = self.peek();
            self.i += 1;
            v
        };
        Ok(match c {
            b'M' => v | 0x80,
            _ if v == b'?' => 0x7f,
            _ => v & 0x9f,
        })
    }
    fn newline_in_string(&mut self) {
        self.i = match self.skips.get(&self.i) {
            Some(p) => *p,
            None => self.i + 1,
        };
    }
    /// The content of a string up to its terminator, which is consumed.
    fn string_parts(&mut self, term: Term, esc: Esc, dedent: usize) -> R<Vec<ND>> {
        let mut parts: Vec<ND> = vec![];
        let mut cur = vec![];
        let mut utf8 = false;
        let mut start = self.i;
        let mut nest = 0;
        let heredoc = matches!(term, Term::Heredoc(_));
        let squiggly = heredoc && dedent > 0;
        let mut bol = squiggly;
        loop {
            if let Term::Heredoc(e) = term {
                if self.i >= e {
                    break;
                }
            } else if self.eof() {
                return self.err("unterminated string meets end of file");
            }
            if bol {
                bol = false;
                let mut w = 0;
                while w < dedent {
                    match self.peek() {
                        b' ' => w += 1,
                        b'\t' => {
                            let nw = (w / 8 + 1) * 8;
                            if nw > dedent {
                                break;
                            }
                            w = nw;
                        }
                        _ => break,
                    }
                    self.i += 1;
                }
                continue;
            }
            let c = self.peek();
            if let Term::Delim(open, close) = term {
                if Some(c) == open {
                    nest += 1;
                } else if c == close {
                    if nest == 0 {
                        break;
                    }
                    nest -= 1;
                }
            }
            match c {
                b'\\' if esc == Esc::Full => {
                    let line = self.at(1) == b'\n';
                    self.escape(&mut cur, &mut utf8)?;
                    if line && squiggly {
                        bol = true;
                    }
                }
                b'\\' if esc == Esc::Raw => {
                    let n = self.at(1);
                    let special = match term {
                        Term::Delim(open, close) => n == b'\\' || n == close || Some(n) == open,
                        _ => false,
                    };
                    if special {
                        cur.push(n);
                        self.i += 2;
                    } else {
                        cur.push(c);
                        self.i += 1;
                    }
                }
                b'\\' if esc == Esc::Regexp => {
                    let n = self.at(1);
                    if n == b'\n' {
                        self.i += 2;
                        continue;
                    }
                    let plain = matches!(term, Term::Delim(None, close) if n == close && !b"[](){}.*+?^$|\\-".contains(&n));
                    if plain {
                        cur.push(n);
                    } else {
                        cur.push(c);
                        cur.push(n);
                    }
                    self.i += 2;
                }
                b'#' if matches!(esc, Esc::Full | Esc::Regexp) && self.at(1) == b'{' => {
                    self.flush(&mut parts, &mut cur, &mut utf8, start);
                    let b = self.i;
                    self.i += 2;
                    let save_end = self.end;
                    let s = self.stmts_until(&[])?;
                    self.end = save_end;
                    self.terms();
                    self.expect("}")?;
                    parts.push(nd!(EmbeddedStatementsNode (b, self.i), { statements: Self::opt(s) }));
                    start = self.i;
                }
                b'#' if matches!(esc, Esc::Full | Esc::Regexp)
                    && ((self.at(1) == b'@' && (is_id_start(self.at(2)) || (self.at(2) == b'@' && is_id_start(self.at(3)))))
                        || (self.at(1) == b'$' && (is_id_start(self.at(2)) || matches!(self.at(2), b'1'..=b'9' | b'~' | b'!' | b'&' | b'@' | b'/' | b',' | b';')))) =>
                {
                    if self.at(1) == b'$' && matches!(term, Term::Delim(_, close) if close == self.at(2)) {
                        cur.push(c);
                        self.i += 1;
                        continue;
                    }
                    self.flush(&mut parts, &mut cur, &mut utf8, start);
                    let b = self.i;
                    self.i += 1;
                    let variable = self.primary()?;
                    parts.push(nd!(EmbeddedVariableNode (b, self.i), { variable }));
                    start = self.i;
                }
                b'\n' => {
                    cur.push(c);
                    if heredoc {
                        self.i += 1;
                    } else {
                        self.newline_in_string();
                    }
                    bol = squiggly;
                }
                b'\r' if self.at(1) == b'\n' => self.i += 1,
                _ => {
                    cur.push(c);
                    self.i += 1;
                }
            }
        }
        let only = parts.is_empty();
        if !cur.is_empty() || only {
            let e = self.i;
            parts.push(nd!(StringNode (start, e), { content_loc: (start, e), unescaped: std::mem::take(&mut cur), is_forced_utf8_encoding: utf8 }));
        }
        if !heredoc {
            self.i += 1;
        }
        Ok(parts)
    }
    fn flush(&self, parts: &mut Vec<ND>, cur: &mut Vec<u8>, utf8: &mut bool, start: usize) {
        if !cur.is_empty() {
            parts.push(nd!(StringNode (start, self.i), { content_loc: (start, self.i), unescaped: std::mem::take(cur), is_forced_utf8_encoding: *utf8 }));
            *utf8 = false;
        }
    }
    /// One plain text, or the list of parts.
    #[allow(clippy::type_complexity)]
    fn join(mut parts: Vec<ND>) -> (Option<(Vec<u8>, bool)>, Vec<ND>) {
        if parts.len() == 1 && matches!(parts[0], ND::StringNode(_)) {
            let Some(ND::StringNode(s)) = parts.pop() else { unreachable!() };
            return (Some((s.unescaped, s.is_forced_utf8_encoding)), parts);
        }
        (None, parts)
    }
    fn string_node(b: usize, open: usize, e: usize, parts: Vec<ND>) -> ND {
        let (bytes, parts) = Self::join(parts);
        match bytes {
            Some((unescaped, u)) => {
                nd!(StringNode (b, e), { content_loc: (open, e), unescaped, is_forced_utf8_encoding: u, opening_loc: Some((b, open)) })
            }
            None => nd!(InterpolatedStringNode (b, e), { parts, opening_loc: Some((b, open)), closing_loc: Some((e, e)) }),
        }
    }
    fn quoted(&mut self) -> R<ND> {
        let b = self.i;
        let q = self.peek();
        self.i += 1;
        let parts = self.string_parts(Term::Delim(None, q), if q == b'\'' { Esc::Raw } else { Esc::Full }, 0)?;
        if q == b'`' {
            return Ok(self.xstring(b, parts));
        }
        let n = Self::string_node(b, b + 1, self.i, parts);
        self.adjacent(n)
    }
    /// Literals that follow without an operator are one string.
    fn adjacent(&mut self, n: ND) -> R<ND> {
        let mut all = vec![n];
        loop {
            let save = self.i;
            self.ws();
            let c = self.peek();
            if (c == b'"' || c == b'\'') && !self.eof() {
                let b = self.i;
                self.i += 1;
                let parts = self.string_parts(Term::Delim(None, c), if c == b'\'' { Esc::Raw } else { Esc::Full }, 0)?;
                if self.peek() == b':' && self.at(1) != b':' && self.i > save + 1 {
                    // a label after all
                    self.i = save;
                    break;
                }
                all.push(Self::string_node(b, b + 1, self.i, parts));
            } else {
                self.i = save;
                break;
            }
        }
        if all.len() == 1 {
            return Ok(all.pop().unwrap());
        }
        let b = all[0].loc().0;
        let mut parts = vec![];
        for n in all {
            match n {
                ND::InterpolatedStringNode(x) => parts.extend(x.parts),
                n => parts.push(n),
            }
        }
        if parts.iter().all(|p| matches!(p, ND::StringNode(_))) {
            let mut out = vec![];
            let mut u = false;
            for p in &parts {
                let ND::StringNode(s) = p else { unreachable!() };
                out.extend_from_slice(&s.unescaped);
                u |= s.is_forced_utf8_encoding;
            }
            return Ok(nd!(StringNode (b, self.i), { content_loc: (b + 1, self.i), unescaped: out, is_forced_utf8_encoding: u, opening_loc: Some((b, b + 1)) }));
        }
        Ok(nd!(InterpolatedStringNode (b, self.i), { parts, opening_loc: Some((b, b + 1)), closing_loc: Some((self.i, self.i)) }))
    }
    fn xstring(&self, b: usize, parts: Vec<ND>) -> ND {
        let (bytes, parts) = Self::join(parts);
        match bytes {
            Some((unescaped, _)) => nd!(XStringNode (b, self.i), { unescaped, content_loc: (b + 1, self.i) }),
            None => nd!(InterpolatedXStringNode (b, self.i), { parts }),
        }
    }
    fn regexp(&mut self, b: usize, open: Option<u8>, close: u8) -> R<ND> {
        let s = self.i;
        let parts = self.string_parts(Term::Delim(open, close), Esc::Regexp, 0)?;
        let e = self.i - 1;
        while self.peek().is_ascii_alphabetic() {
            self.i += 1;
        }
        let closing_loc = (e, self.i);
        let (bytes, parts) = Self::join(parts);
        Ok(match bytes {
            Some((unescaped, _)) => nd!(RegularExpressionNode (b, self.i), { unescaped, closing_loc, content_loc: (s, e) }),
            None => nd!(InterpolatedRegularExpressionNode (b, self.i), { parts, closing_loc }),
        })
    }
    fn percent(&mut self) -> R<ND> {
        let b = self.i;
        self.i += 1;
        let mut kind = b'Q';
        if self.peek().is_ascii_alphabetic() {
            kind = self.peek();
            self.i += 1;
        }
        let c = self.peek();
        if is_id(c) || c.is_ascii_whitespace() || self.eof() {
            return self.err("unknown type of %string");
        }
        let (open, close) = Self::closer(c);
        self.i += 1;
        let s = self.i;
        match kind {
            b'Q' => {
                let parts = self.string_parts(Term::Delim(open, close), Esc::Full, 0)?;
                Ok(Self::string_node(b, s, self.i, parts))
            }
            b'q' => {
                let parts = self.string_parts(Term::Delim(open, close), Esc::Raw, 0)?;
                Ok(Self::string_node(b, s, self.i, parts))
            }
            b's' => {
                let parts = self.string_parts(Term::Delim(open, close), Esc::Raw, 0)?;
                let (bytes, _) = Self::join(parts);
                Ok(nd!(SymbolNode (b, self.i), { unescaped: bytes.unwrap_or_default().0 }))
            }
            b'x' => {
                let parts = self.string_parts(Term::Delim(open, close), Esc::Full, 0)?;
                Ok(self.xstring(b, parts))
            }
            b'r' => self.regexp(b, open, close),
            b'w' | b'W' | b'i' | b'I' => {
                let elements = self.words(open, close, kind.is_ascii_uppercase(), kind.eq_ignore_ascii_case(&b'i'))?;
                Ok(nd!(ArrayNode (b, self.i), { elements, opening_loc: Some((b, s)), closing_loc: Some((self.i - 1, self.i)) }))
            }
            _ => self.err("unknown type of %string"),
        }
    }
    fn words(&mut self, open: Option<u8>, close: u8, interp: bool, sym: bool) -> R<Vec<ND>> {
        let mut out = vec![];
        let mut nest = 0;
        loop {
            while self.peek().is_ascii_whitespace() && !self.eof() {
                if self.peek() == b'\n' {
                    self.newline_in_string();
                } else {
                    self.i += 1;
                }
            }
            if self.eof() {
                return self.err("unterminated list meets end of file");
            }
            if self.peek() == close && nest == 0 {
                self.i += 1;
                return Ok(out);
            }
            let b = self.i;
            let mut parts = vec![];
            let mut cur = vec![];
            let mut utf8 = false;
            loop {
                let c = self.peek();
                if self.eof() || c.is_ascii_whitespace() || (c == close && nest == 0) {
                    break;
                }
                if Some(c) == open {
                    nest += 1;
                } else if c == close {
                    nest -= 1;
                }
                if c == b'\\' {
                    let n = self.at(1);
                    if n.is_ascii_whitespace() || n == close || Some(n) == open || n == b'\\' {
                        cur.push(n);
                        self.i += 2;
                    } else if interp {
                        self.escape(&mut cur, &mut utf8)?;
                    } else {
                        cur.push(c);
                        self.i += 1;
                    }
                } else if interp && c == b'#' && self.at(1) == b'{' {
                    self.flush(&mut parts, &mut cur, &mut utf8, b);
                    let s = self.i;
                    self.i += 2;
                    let st = self.stmts_until(&[])?;
                    self.terms();
                    self.expect("}")?;
                    parts.push(nd!(EmbeddedStatementsNode (s, self.i), { statements: Self::opt(st) }));
                } else {
                    cur.push(c);
                    self.i += 1;
                }
            }
            if !cur.is_empty() || parts.is_empty() {
                parts.push(nd!(StringNode (b, self.i), { content_loc: (b, self.i), unescaped: cur, is_forced_utf8_encoding: utf8 }));
            }
            let loc = (b, self.i);
            let (bytes, parts) = Self::join(parts);
            out.push(match (bytes, sym) {
                (Some((unescaped, _)), true) => nd!(SymbolNode loc, { unescaped }),
                (Some((unescaped, u)), false) => nd!(StringNode loc, { content_loc: loc, unescaped, is_forced_utf8_encoding: u }),
                (None, true) => nd!(InterpolatedSymbolNode loc, { parts }),
                (None, false) => nd!(InterpolatedStringNode loc, { parts }),
            });
        }
    }
    fn heredoc(&mut self) -> R<ND> {
        let b = self.i;
        self.i += 2;
        let mode = if matches!(self.peek(), b'~' | b'-') {
            self.i += 1;
            self.s[self.i - 1]
        } else {
            0
        };
        let q = self.peek();
        let id = if matches!(q, b'"' | b'\'' | b'`') {
            self.i += 1;
            let s = self.i;
            while !self.eof() && self.peek() != q {
                self.i += 1;
            }
            self.i += 1;
            self.s[s..self.i - 1].to_vec()
        } else {
            let s = self.i;
            self.i = self.ident_end(s);
            if self.i == s {
                return self.unexpected("expected an expression");
            }
            self.s[s..self.i].to_vec()
        };
        let after = self.i;
        let (body, stop) = match self.heredocs.get(&b) {
            Some(x) => *x,
            None => {
                // the line break this here-document hangs on
                let mut nlp = after;
                while nlp < self.end && self.s[nlp] != b'\n' {
                    nlp += 1;
                }
                let body = self.skips.get(&nlp).copied().unwrap_or((nlp + 1).min(self.end));
                let mut p = body;
                let (stop, next) = loop {
                    if p >= self.end {
                        return self.err("unterminated heredoc; can't find string terminator");
                    }
                    let mut e = p;
                    while e < self.end && self.s[e] != b'\n' {
                        e += 1;
                    }
                    let line = &self.s[p..e];
                    let line = line.strip_suffix(b"\r").unwrap_or(line);
                    let t = if mode != 0 { line.trim_ascii_start() } else { line };
                    if t == id.as_slice() {
                        break (p, (e + 1).min(self.end));
                    }
                    p = e + 1;
                };
                self.skips.insert(nlp, next);
                self.heredocs.insert(b, (body, stop));
                (body, stop)
            }
        };
        let mut dedent = 0;
        if mode == b'~' {
            let mut min = usize::MAX;
            for line in self.s[body..stop].split(|c| *c == b'\n') {
                let mut w = 0;
                let mut text = false;
                for c in line {
                    match c {
                        b' ' => w += 1,
                        b'\t' => w = (w / 8 + 1) * 8,
                        b'\r' => {}
                        _ => {
                            text = true;
                            break;
                        }
                    }
                }
                if text {
                    min = min.min(w);
                }
            }
            dedent = if min == usize::MAX { 0 } else { min };
        }
        self.i = body;
        let esc = if q == b'\'' { Esc::None } else { Esc::Full };
        let parts = self.string_parts(Term::Heredoc(stop), esc, dedent)?;
        self.i = after;
        if q == b'`' {
            return Ok(self.xstring(b, parts));
        }
        let mut n = Self::string_node(b, after, after, parts);
        n.set_loc((b, after));
        Ok(n)
    }

    // ---- words -----------------------------------------------------------------------------
    fn word(&mut self) -> R<ND> {
        let b = self.i;
        let e = self.ident_end(b);
        let w = &self.s[b..e];
        let is_kw = KEYWORDS.iter().any(|k| k.as_bytes() == w) && !(matches!(self.s.get(e), Some(b'?' | b'!')) && self.s.get(e + 1) != Some(&b'='));
        if is_kw {
            let k = std::str::from_utf8(w).unwrap().to_string();
            return self.keyword(&k);
        }
        let l = self.method_name(false).unwrap();
        let name = self.text(l);
        let last = *name.as_bytes().last().unwrap();
        let plain = last != b'?' && last != b'!';
        if name.as_bytes()[0].is_ascii_uppercase() && plain {
            if self.peek() == b'(' {
                return self.call_tail(b, None, name, l, false);
            }
            // Integer "3"
            let save = self.i;
            self.ws();
            let c = self.peek();
            let cmd = self.i > save && (matches!(c, b'"' | b'\'' | b'@' | b'$') || (is_id(c) && self.starts_arg()) || (c == b':' && self.at(1) != b':' && self.starts_arg() && self.at(1) != b'"'));
            self.i = save;
            if cmd && !self.s[self.i..].is_empty() {
                return self.call_tail(b, None, name, l, false);
            }
            return Ok(nd!(ConstantReadNode l, { name }));
        }
        if plain && self.peek() != b'(' {
            if let Some(depth) = self.lookup(&name) {
                // `v = v x` calls the method: nothing else can follow a variable like this
                let save = self.i;
                self.ws();
                let c = self.peek();
                let cmd = self.i > save && (c == b'"' || c == b'\'' || is_id(c)) && self.starts_arg();
                self.i = save;
                if !cmd {
                    return Ok(nd!(LocalVariableReadNode l, { name, depth }));
                }
            }
            // numbered parameters and `it`
            let nb = name.as_bytes();
            if nb.len() == 2 && nb[0] == b'_' && matches!(nb[1], b'1'..=b'9') {
                let n = nb[1] - b'0';
                // the innermost block without parameters of its own
                let mut depth = 0;
                for sc in self.scopes.iter_mut().rev() {
                    if sc.implicit {
                        sc.numbered = sc.numbered.max(n);
                        for k in 1..=n {
                            let v = format!("_{k}");
                            if !sc.vars.contains(&v) {
                                sc.vars.insert((k - 1) as usize, v);
                            }
                        }
                        return Ok(nd!(LocalVariableReadNode l, { name, depth }));
                    }
                    if !sc.open {
                        break;
                    }
                    depth += 1;
                }
            }
            if name == "it" && self.scopes.last().unwrap().implicit && self.scopes.last().unwrap().numbered == 0 && !self.command_follows() {
                let save = self.i;
                self.ws();
                let block = self.peek() == b'{' || (self.is_kw("do") && !self.no_do);
                let write = self.is_assign();
                self.i = save;
                if !block && !write {
                    self.scopes.last_mut().unwrap().it = true;
                    return Ok(nd!(ItLocalVariableReadNode l, {}));
                }
            }
        }
        let n = self.call_tail(b, None, name, l, false)?;
        if let ND::CallNode(mut c) = n {
            if c.arguments.is_none() && c.opening_loc.is_none() && c.block.is_none() && plain {
                c.is_variable_call = true;
            }
            return Ok(ND::CallNode(c));
        }
        Ok(n)
    }
    fn then(&mut self) -> R<()> {
        self.ws();
        self.terms();
        self.kw("then");
        Ok(())
    }
    fn end(&mut self) -> R<()> {
        self.terms();
        if self.kw("end") {
            Ok(())
        } else {
            self.unexpected("expected an `end` to close the construct")
        }
    }
    fn jump_args(&mut self) -> R<Option<Box<d::ArgumentsNode>>> {
        let save = self.i;
        self.ws();
        if self.eof() || matches!(self.peek(), b'\n' | b';' | b'}' | b')' | b']' | b',' | b'.' | b'?' | b':' | b'=' | b'|') && !(self.peek() == b':' && (self.at(1) == b'"' || is_id(self.at(1)) || self.at(1) == b':'))
            || (self.looking("&&"))
            || self.any_kw(&["if", "unless", "while", "until", "rescue", "and", "or", "end", "then", "do"]) && !self.starts_value_kw()
        {
            self.i = save;
            return Ok(None);
        }
        let mut a = Args::default();
        let b = self.i;
        let sd = self.multi;
        self.multi = false;
        loop {
            self.one_arg(&mut a, false)?;
            let p = self.i;
            self.ws();
            if self.peek() == b',' {
                self.i += 1;
                self.nl();
                continue;
            }
            self.i = p;
            break;
        }
        self.multi = sd;
        Ok(a.finish((b, self.i)).0)
    }
    fn starts_value_kw(&self) -> bool {
        false
    }
    fn keyword(&mut self, k: &str) -> R<ND> {
        let b = self.i;
        self.i += k.len();
        match k {
            "nil" => Ok(nd!(NilNode (b, self.i), {})),
            "true" => Ok(nd!(TrueNode (b, self.i), {})),
            "false" => Ok(nd!(FalseNode (b, self.i), {})),
            "self" => Ok(nd!(SelfNode (b, self.i), {})),
            "__FILE__" => Ok(nd!(SourceFileNode (b, self.i), {})),
            "__LINE__" => Ok(nd!(SourceLineNode (b, self.i), {})),
            "__ENCODING__" => Ok(nd!(SourceEncodingNode (b, self.i), {})),
            "redo" => Ok(nd!(RedoNode (b, self.i), {})),
            "retry" => Ok(nd!(RetryNode (b, self.i), {})),
            "return" => {
                let arguments = self.jump_args()?;
                Ok(nd!(ReturnNode (b, self.i), { arguments }))
            }
            "break" => {
                let arguments = self.jump_args()?;
                Ok(nd!(BreakNode (b, self.i), { arguments }))
            }
            "next" => {
                let arguments = self.jump_args()?;
                Ok(nd!(NextNode (b, self.i), { arguments }))
            }
            "not" => {
                // not(x)
                self.expect("(")?;
                let r = self.fresh(|p| {
                    p.nl();
                    if p.peek() == b')' {
                        return Ok(nd!(NilNode (b, b), {}));
                    }
                    let v = p.expr()?;
                    p.nl();
                    Ok(v)
                })?;
                self.expect(")")?;
                Ok(nd!(CallNode (b, self.i), { receiver: Some(r), name: "!".into() }))
            }
            "if" | "unless" => self.if_unless(b, k == "if"),
            "while" | "until" => {
                let (predicate, s) = self.fresh(|p| {
                    p.no_do = true;
                    let c = p.predicate()?;
                    p.no_do = false;
                    p.ws();
                    p.terms();
                    p.kw("do");
                    let s = p.stmts_until(&["end"])?;
                    Ok((c, s))
                })?;
                self.end()?;
                let statements = Self::opt(s);
                Ok(if k == "while" {
                    nd!(WhileNode (b, self.i), { predicate, statements })
                } else {
                    nd!(UntilNode (b, self.i), { predicate, statements })
                })
            }
            "for" => {
                let (index, collection, s) = self.fresh(|p| {
                    p.ws();
                    let q = p.i;
                    let first = p.mlhs_item()?;
                    p.ws();
                    let index = if p.peek() == b',' || matches!(first, ND::SplatNode(_)) { p.mlhs_rest(q, first)? } else { first };
                    p.ws();
                    if !p.kw("in") {
                        return p.unexpected("expected an `in`");
                    }
                    p.ws();
                    p.no_do = true;
                    let c = p.rhs_list()?;
                    p.no_do = false;
                    p.ws();
                    p.terms();
                    p.kw("do");
                    let s = p.stmts_until(&["end"])?;
                    Ok((index, c, s))
                })?;
                self.end()?;
                Ok(nd!(ForNode (b, self.i), { index, collection, statements: Self::opt(s) }))
            }
            "case" => self.case(b),
            "begin" => {
                let mut n = d::BeginNode { loc: (b, self.i), begin_keyword_loc: Some((b, b + 5)), ..Default::default() };
                self.fresh(|p| {
                    let s = p.stmts_until(&["rescue", "else", "ensure", "end"])?;
                    n.statements = Self::opt(s);
                    p.begin_clauses(&mut n)
                })?;
                self.end()?;
                n.loc.1 = self.i;
                Ok(n.into())
            }
            "def" => self.def(b),
            "class" => self.class(b),
            "module" => {
                self.ws();
                let constant_path = self.cpath()?;
                let name = Self::cname(&constant_path);
                let (body, sc) = self.scoped(false, |p| {
                    p.in_def = 0;
                    p.body_with_rescue(b)
                })?;
                self.end()?;
                Ok(nd!(ModuleNode (b, self.i), { locals: sc.vars, constant_path, body, name }))
            }
            "yield" => {
                let mut arguments = None;
                if self.peek() == b'(' {
                    self.i += 1;
                    arguments = self.call_args(")")?.0;
                } else if self.command_follows() {
                    self.ws();
                    arguments = self.command_args()?.0;
                }
                Ok(nd!(YieldNode (b, self.i), { arguments }))
            }
            "super" => {
                if self.peek() == b'(' {
                    self.i += 1;
                    let (arguments, block) = self.call_args(")")?;
                    return Ok(nd!(SuperNode (b, self.i), { arguments, block }));
                }
                if self.command_follows() {
                    self.ws();
                    let (arguments, block) = self.command_args()?;
                    let mut n = nd!(SuperNode (b, self.i), { arguments, block });
                    self.command_block(&mut n)?;
                    return Ok(n);
                }
                Ok(nd!(ForwardingSuperNode (b, self.i), {}))
            }
            "alias" => {
                self.ws();
                if self.peek() == b'$' {
                    let new_name = self.gvar()?;
                    self.ws();
                    let old_name = self.gvar()?;
                    return Ok(nd!(AliasGlobalVariableNode (b, self.i), { new_name, old_name }));
                }
                let new_name = self.fitem()?;
                self.ws();
                let old_name = self.fitem()?;
                Ok(nd!(AliasMethodNode (b, self.i), { new_name, old_name }))
            }
            "undef" => {
                let mut names = vec![];
                loop {
                    self.nl();
                    names.push(self.fitem()?);
                    self.ws();
                    if !self.eat(",") {
                        break;
                    }
                }
                Ok(nd!(UndefNode (b, self.i), { names }))
            }
            "BEGIN" | "END" => {
                self.ws();
                self.expect("{")?;
                let s = self.stmts_until(&[])?;
                self.terms();
                self.expect("}")?;
                let statements = Self::opt(s);
                Ok(if k == "BEGIN" {
                    nd!(PreExecutionNode (b, self.i), { statements })
                } else {
                    nd!(PostExecutionNode (b, self.i), { statements })
                })
            }
            _ => {
                self.i = b;
                self.err(format!("unexpected '{k}', ignoring it"))
            }
        }
    }
    fn fitem(&mut self) -> R<ND> {
        let b = self.i;
        if self.peek() == b':' {
            return self.symbol();
        }
        match self.method_name(true) {
            Some(l) => {
                let n = Self::norm_op(self.text(l));
                Ok(nd!(SymbolNode (b, self.i), { unescaped: n.into_bytes() }))
            }
            None => self.unexpected("expected a method name"),
        }
    }
    fn if_unless(&mut self, b: usize, is_if: bool) -> R<ND> {
        let (predicate, statements, els) = self.fresh(|p| {
            p.nl();
            let c = p.predicate()?;
            p.then()?;
            let s = p.stmts_until(&["elsif", "else", "end"])?;
            let e = p.else_part()?;
            Ok((c, Self::opt(s), e))
        })?;
        self.end()?;
        let loc = (b, self.i);
        if is_if {
            return Ok(nd!(IfNode loc, { predicate, statements, subsequent: els }));
        }
        let else_clause = match els {
            Some(ND::ElseNode(e)) => Some(e),
            None => None,
            _ => return self.err("unexpected elsif"),
        };
        Ok(nd!(UnlessNode loc, { predicate, statements, else_clause }))
    }
    fn else_part(&mut self) -> R<Option<ND>> {
        let b = self.i;
        if self.kw("elsif") {
            self.ws();
            let predicate = self.predicate()?;
            self.then()?;
            let s = self.stmts_until(&["elsif", "else", "end"])?;
            let subsequent = self.else_part()?;
            return Ok(Some(nd!(IfNode (b, self.i), { predicate, statements: Self::opt(s), subsequent })));
        }
        if self.kw("else") {
            let s = self.stmts_until(&["end"])?;
            return Ok(Some(nd!(ElseNode (b, self.i), { statements: Self::opt(s) })));
        }
        Ok(None)
    }
    fn case(&mut self, b: usize) -> R<ND> {
        let n = self.fresh(|p| {
            p.ws();
            let mut predicate = None;
            if !matches!(p.peek(), b'\n' | b';') {
                p.no_in = true;
                predicate = Some(p.expr()?);
                p.no_in = false;
            }
            p.terms();
            let mut conditions = vec![];
            let matching = p.is_kw("in");
            if matching {
                while p.is_kw("in") {
                    let s = p.i;
                    p.i += 2;
                    p.ws();
                    let mut pattern = p.top_pattern()?;
                    p.ws();
                    let g = p.i;
                    if p.kw("if") {
                        p.ws();
                        let predicate = p.predicate()?;
                        pattern = nd!(IfNode (g, p.i), { predicate, statements: Some(Box::new(Self::single(pattern))) });
                    } else if p.kw("unless") {
                        p.ws();
                        let predicate = p.predicate()?;
                        pattern = nd!(UnlessNode (g, p.i), { predicate, statements: Some(Box::new(Self::single(pattern))) });
                    }
                    p.then()?;
                    let st = p.stmts_until(&["in", "else", "end"])?;
                    conditions.push(nd!(InNode (s, p.i), { pattern, statements: Self::opt(st) }));
                }
            } else {
                while p.is_kw("when") {
                    let s = p.i;
                    p.i += 4;
                    let mut conds = vec![];
                    loop {
                        p.nl();
                        let q = p.i;
                        if p.eat("*") {
                            let e = p.arg()?;
                            conds.push(nd!(SplatNode (q, p.i), { expression: Some(e) }));
                        } else {
                            conds.push(p.arg()?);
                        }
                        p.ws();
                        if !p.eat(",") {
                            break;
                        }
                    }
                    p.then()?;
                    let st = p.stmts_until(&["when", "else", "end"])?;
                    conditions.push(nd!(WhenNode (s, p.i), { conditions: conds, statements: Self::opt(st) }));
                }
            }
            let e = p.i;
            let mut else_clause = None;
            if p.kw("else") {
                let st = p.stmts_until(&["end"])?;
                else_clause = Some(Box::new(d::ElseNode { loc: (e, p.i), statements: Self::opt(st) }));
            }
            Ok(if matching {
                nd!(CaseMatchNode (b, p.i), { predicate, conditions, else_clause })
            } else {
                nd!(CaseNode (b, p.i), { predicate, conditions, else_clause })
            })
        })?;
        self.end()?;
        let mut n = n;
        n.set_loc((b, self.i));
        Ok(n)
    }
    fn cpath(&mut self) -> R<ND> {
        let b = self.i;
        let mut n: Option<ND> = None;
        if self.eat("::") {
            let s = self.i;
            self.i = self.ident_end(s);
            n = Some(nd!(ConstantPathNode (b, self.i), { name: Some(self.text((s, self.i))), name_loc: (s, self.i) }));
        }
        let mut n = match n {
            Some(n) => n,
            None => {
                let s = self.i;
                if is_id_start(self.peek()) {
                    self.i = self.ident_end(s);
                    let name = self.text((s, self.i));
                    if name.as_bytes()[0].is_ascii_uppercase() {
                        nd!(ConstantReadNode (s, self.i), { name })
                    } else {
                        self.i = s;
                        let l = self.method_name(false).unwrap();
                        match self.lookup(&name) {
                            Some(depth) => nd!(LocalVariableReadNode l, { name, depth }),
                            None if name == "self" => nd!(SelfNode l, {}),
                            None => nd!(CallNode l, { name, message_loc: Some(l), is_variable_call: true }),
                        }
                    }
                } else {
                    self.primary()?
                }
            }
        };
        while self.eat("::") {
            let s = self.i;
            self.i = self.ident_end(s);
            let name = Some(self.text((s, self.i)));
            n = nd!(ConstantPathNode (b, self.i), { parent: Some(n), name, name_loc: (s, self.i) });
        }
        Ok(n)
    }
    fn cname(n: &ND) -> String {
        match n {
            ND::ConstantReadNode(c) => c.name.clone(),
            ND::ConstantPathNode(c) => c.name.clone().unwrap_or_default(),
            _ => String::new(),
        }
    }
    fn class(&mut self, b: usize) -> R<ND> {
        self.ws();
        if self.eat("<<") {
            self.ws();
            let expression = self.expr()?;
            let (body, sc) = self.scoped(false, |p| {
                p.in_def = 0;
                p.body_with_rescue(b)
            })?;
            self.end()?;
            return Ok(nd!(SingletonClassNode (b, self.i), { locals: sc.vars, expression, body }));
        }
        let constant_path = self.cpath()?;
        let name = Self::cname(&constant_path);
        self.ws();
        let superclass = if self.eat("<") {
            self.ws();
            Some(self.fresh(|p| p.expr())?)
        } else {
            None
        };
        let (body, sc) = self.scoped(false, |p| {
            p.in_def = 0;
            p.body_with_rescue(b)
        })?;
        self.end()?;
        Ok(nd!(ClassNode (b, self.i), { locals: sc.vars, constant_path, superclass, body, name }))
    }
    fn def(&mut self, b: usize) -> R<ND> {
        self.ws();
        let mut receiver = None;
        let l;
        if self.peek() == b'(' {
            self.i += 1;
            let e = self.fresh(|p| p.expr())?;
            self.nl();
            self.expect(")")?;
            self.expect(".")?;
            receiver = Some(e);
            l = self.method_name(true);
        } else {
            let s = self.i;
            // a receiver before `.`
            let first = if matches!(self.peek(), b'@' | b'$') { None } else { self.method_name(false) };
            let mut dot = self.peek() == b'.' || self.looking("::") && self.at(2) != b' ';
            if first.is_none() && matches!(self.peek(), b'@' | b'$') {
                let n = self.primary()?;
                dot = true;
                receiver = Some(n);
            }
            if dot {
                if receiver.is_none() {
                    self.i = s;
                    let e = self.ident_end(s);
                    let name = self.text((s, e));
                    self.i = e;
                    receiver = Some(if name == "self" {
                        nd!(SelfNode (s, e), {})
                    } else if name == "nil" {
                        nd!(NilNode (s, e), {})
                    } else if name == "true" {
                        nd!(TrueNode (s, e), {})
                    } else if name == "false" {
                        nd!(FalseNode (s, e), {})
                    } else if name.as_bytes()[0].is_ascii_uppercase() {
                        nd!(ConstantReadNode (s, e), { name })
                    } else if let Some(depth) = self.lookup(&name) {
                        nd!(LocalVariableReadNode (s, e), { name, depth })
                    } else {
                        nd!(CallNode (s, e), { name, message_loc: Some((s, e)), is_variable_call: true })
                    });
                }
                if !self.eat(".") {
                    self.expect("::")?;
                }
                self.ws();
                l = self.method_name_def();
            } else {
                self.i = s;
                l = self.method_name_def();
            }
        }
        let Some(l) = l else { return self.unexpected("expected a method name") };
        let name = Self::norm_op(self.text(l));
        let ((parameters, body, equal), sc) = self.scoped(false, |p| {
            p.in_def = 1;
            let mut parameters = None;
            let paren = p.peek() == b'(' || { let save = p.i; p.ws(); let r = p.peek() == b'('; if !r { p.i = save; } r };
            if paren {
                p.i += 1;
                let q = p.params(")", false)?;
                p.nl();
                p.expect(")")?;
                if q.loc.0 != q.loc.1 {
                    parameters = Some(Box::new(q));
                }
            } else {
                p.ws();
                if !matches!(p.peek(), b'\n' | b';' | b'=') {
                    let q = p.params("", false)?;
                    if q.loc.0 != q.loc.1 {
                        parameters = Some(Box::new(q));
                    }
                }
            }
            let save = p.i;
            p.ws();
            if p.is_assign() {
                let eq = p.i;
                p.i += 1;
                p.nl();
                let n = p.arg()?;
                let n = p.rescue_mod(n)?;
                return Ok((parameters, Some(ND::from(Self::single(n))), Some((eq, eq + 1))));
            }
            p.i = save;
            let body = p.body_with_rescue(b)?;
            Ok((parameters, body, None))
        })?;
        let mut end_keyword_loc = None;
        if equal.is_none() {
            self.end()?;
            end_keyword_loc = Some((self.i - 3, self.i));
        }
        Ok(nd!(DefNode (b, self.i), { name, name_loc: l, receiver, parameters, body, locals: sc.vars, equal_loc: equal, end_keyword_loc }))
    }
    /// The name in a definition; `x=` only when a parameter list follows.
    fn method_name_def(&mut self) -> Option<Loc> {
        let l = self.method_name(false)?;
        let last = self.s[l.1 - 1];
        if is_id(last) && self.peek() == b'=' && !matches!(self.at(1), b'=' | b'~' | b'>') {
            // def x=(v), def x= v ; but def x = 1 has a blank before
            if self.at(1) == b'(' || self.at(1) == b' ' || is_id_start(self.at(1)) {
                self.i += 1;
                return Some((l.0, self.i));
            }
        }
        Some(l)
    }

    // ---- patterns --------------------------------------------------------------------------
    /// With an array or hash pattern without brackets.
    fn top_pattern(&mut self) -> R<ND> {
        let b = self.i;
        let save = (self.no_in, self.multi);
        self.no_in = false;
        self.multi = false;
        let r = (|| {
            if self.pattern_label() || self.looking("**") {
                return self.hash_pattern_body(b, None, "");
            }
            let first = self.pattern_item()?;
            let p = self.i;
            self.ws();
            if self.peek() == b',' || matches!(first, ND::SplatNode(_)) {
                return self.array_pattern_body(b, None, "", Some(first));
            }
            self.i = p;
            Ok(first)
        })();
        (self.no_in, self.multi) = save;
        r
    }
    fn pattern_label(&mut self) -> bool {
        let save = self.i;
        let r = matches!(self.label(), Ok(Some(_)));
        self.i = save;
        r
    }
    fn pattern_item(&mut self) -> R<ND> {
        let b = self.i;
        if self.peek() == b'*' {
            self.i += 1;
            let expression = match self.plain_ident() {
                Some((name, loc)) => {
                    let depth = self.declare(&name);
                    Some(nd!(LocalVariableTargetNode loc, { name, depth }))
                }
                None => None,
            };
            return Ok(nd!(SplatNode (b, self.i), { expression }));
        }
        self.pattern()
    }
    fn plain_ident(&mut self) -> Option<(String, Loc)> {
        let b = self.i;
        if !is_id_start(self.peek()) || self.peek().is_ascii_uppercase() {
            return None;
        }
        let e = self.ident_end(b);
        let name = self.text((b, e));
        if KEYWORDS.contains(&name.as_str()) {
            return None;
        }
        self.i = e;
        Some((name, (b, e)))
    }
    fn pattern(&mut self) -> R<ND> {
        let b = self.i;
        let mut l = self.pattern_primary()?;
        loop {
            let save = self.i;
            self.ws();
            if self.peek() == b'|' && self.at(1) != b'|' {
                self.i += 1;
                self.nl();
                let right = self.pattern_primary()?;
                l = nd!(AlternationPatternNode (b, self.i), { left: l, right });
            } else if self.looking("=>") {
                self.i += 2;
                self.ws();
                let Some((name, loc)) = self.plain_ident() else { return self.unexpected("expected a name") };
                let depth = self.declare(&name);
                let target = Box::new(d::LocalVariableTargetNode { loc, name, depth });
                l = nd!(CapturePatternNode (b, self.i), { value: l, target });
            } else {
                self.i = save;
                return Ok(l);
            }
        }
    }
    fn pattern_primary(&mut self) -> R<ND> {
        self.ws();
        let b = self.i;
        match self.peek() {
            b'[' => {
                self.i += 1;
                let n = self.array_pattern_body(b, None, "]", None)?;
                Ok(n)
            }
            b'{' => {
                self.i += 1;
                self.nl();
                self.hash_pattern_body(b, None, "}")
            }
            b'(' => {
                self.i += 1;
                self.nl();
                let n = self.pattern()?;
                self.nl();
                self.expect(")")?;
                Ok(n)
            }
            b'^' => {
                self.i += 1;
                if self.peek() == b'(' {
                    self.i += 1;
                    let e = self.fresh(|p| {
                        p.nl();
                        let e = p.expr()?;
                        p.nl();
                        Ok(e)
                    })?;
                    self.expect(")")?;
                    return Ok(nd!(PinnedExpressionNode (b, self.i), { expression: e }));
                }
                let variable = self.primary()?;
                Ok(nd!(PinnedVariableNode (b, self.i), { variable }))
            }
            _ => {
                if let Some((name, loc)) = self.plain_ident() {
                    if !matches!(self.peek(), b'(' | b'.') {
                        let depth = self.declare(&name);
                        return Ok(nd!(LocalVariableTargetNode loc, { name, depth }));
                    }
                    self.i = b;
                }
                if self.peek().is_ascii_uppercase() || self.looking("::") {
                    let n = self.cpath()?;
                    if self.peek() == b'(' || self.peek() == b'[' {
                        let close = if self.peek() == b'(' { ")" } else { "]" };
                        self.i += 1;
                        self.nl();
                        if self.pattern_label() || self.looking("**") {
                            return self.hash_pattern_body(b, Some(n), close);
                        }
                        return self.array_pattern_body(b, Some(n), close, None);
                    }
                    return self.pattern_range(b, n);
                }
                let save = self.no_pipe;
                self.no_pipe = true;
                let r = if self.looking("..") { self.range() } else { self.range_operand() };
                self.no_pipe = save;
                let n = r?;
                if matches!(n, ND::RangeNode(_)) {
                    return Ok(n);
                }
                self.pattern_range(b, n)
            }
        }
    }
    fn range_operand(&mut self) -> R<ND> {
        self.binary(14)
    }
    fn pattern_range(&mut self, b: usize, l: ND) -> R<ND> {
        let save = self.i;
        self.ws();
        if self.looking("..") {
            let x = self.looking("...");
            self.i += if x { 3 } else { 2 };
            self.ws();
            let c = self.peek();
            let none = self.eof() || matches!(c, b'\n' | b')' | b']' | b'}' | b';' | b',' | b'|') || self.looking("=>") || self.any_kw(&["then", "if", "unless"]);
            let np = self.no_pipe;
            self.no_pipe = true;
            let right = if none { None } else { Some(self.binary(14)?) };
            self.no_pipe = np;
            return Ok(nd!(RangeNode (b, self.i), { left: Some(l), right, is_exclude_end: x }));
        }
        self.i = save;
        Ok(l)
    }
    fn array_pattern_body(&mut self, b: usize, constant: Option<ND>, close: &str, first: Option<ND>) -> R<ND> {
        let mut items = vec![];
        let mut trailing = false;
        if let Some(f) = first {
            items.push(f);
            self.ws();
            if self.eat(",") {
                trailing = true;
                self.ws();
            }
        }
        loop {
            if !items.is_empty() && !trailing {
                break;
            }
            if close.is_empty() {
                self.ws();
                if self.eof() || matches!(self.peek(), b'\n' | b';' | b')' | b'}') || self.any_kw(&["then", "if", "unless", "and", "or"]) {
                    break;
                }
            } else {
                self.nl();
                if self.looking(close) {
                    break;
                }
            }
            trailing = false;
            items.push(self.pattern_item()?);
            if close.is_empty() {
                self.ws()
            } else {
                self.nl()
            }
            if self.eat(",") {
                trailing = true;
            }
        }
        if !close.is_empty() {
            self.nl();
            self.expect(close)?;
        }
        let loc = (b, self.i);
        let splats = items.iter().filter(|n| matches!(n, ND::SplatNode(_))).count();
        if splats == 2 && items.len() > 2 {
            let mut it = items.into_iter();
            let Some(ND::SplatNode(left)) = it.next() else { return self.err("unexpected find pattern") };
            let mut requireds: Vec<ND> = it.collect();
            let right = requireds.pop().unwrap();
            return Ok(nd!(FindPatternNode loc, { constant, left, requireds, right }));
        }
        let (mut requireds, mut rest, mut posts) = (vec![], None, vec![]);
        for n in items {
            if rest.is_some() {
                posts.push(n);
            } else if matches!(n, ND::SplatNode(_)) {
                rest = Some(n);
            } else {
                requireds.push(n);
            }
        }
        if trailing && rest.is_none() {
            rest = Some(nd!(ImplicitRestNode loc, {}));
        }
        Ok(nd!(ArrayPatternNode loc, { constant, requireds, rest, posts }))
    }
    fn hash_pattern_body(&mut self, b: usize, constant: Option<ND>, close: &str) -> R<ND> {
        let mut elements = vec![];
        let mut rest = None;
        loop {
            if close.is_empty() {
                self.ws()
            } else {
                self.nl();
                if self.looking(close) {
                    break;
                }
            }
            let s = self.i;
            if self.eat("**") {
                if self.kw("nil") {
                    rest = Some(nd!(NoKeywordsParameterNode (s, self.i), {}));
                } else {
                    let value = match self.plain_ident() {
                        Some((name, loc)) => {
                            let depth = self.declare(&name);
                            Some(nd!(LocalVariableTargetNode loc, { name, depth }))
                        }
                        None => None,
                    };
                    rest = Some(nd!(AssocSplatNode (s, self.i), { value }));
                }
            } else {
                let Some(key) = self.label()? else { return self.unexpected("expected a key in the hash pattern") };
                let save = self.i;
                self.ws();
                let none = self.eof()
                    || matches!(self.peek(), b'\n' | b';' | b',' | b')' | b']' | b'}')
                    || self.any_kw(&["then", "if", "unless", "and", "or"]);
                let value = if none {
                    self.i = save;
                    let ND::SymbolNode(k) = &key else { return self.err("expected a value in the hash pattern") };
                    let name = String::from_utf8_lossy(&k.unescaped).into_owned();
                    let depth = self.declare(&name);
                    let loc = key.loc();
                    let v = nd!(LocalVariableTargetNode loc, { name, depth });
                    nd!(ImplicitNode loc, { value: v })
                } else {
                    self.pattern()?
                };
                elements.push(nd!(AssocNode (s, self.i), { key, value }));
            }
            let save = self.i;
            if close.is_empty() {
                self.ws()
            } else {
                self.nl()
            }
            if !self.eat(",") {
                if close.is_empty() {
                    self.i = save;
                }
                break;
            }
            if close.is_empty() {
                self.nl();
            }
        }
        if !close.is_empty() {
            self.nl();
            self.expect(close)?;
        }
        Ok(nd!(HashPatternNode (b, self.i), { constant, elements, rest }))
    }
}

#[derive(Default)]
struct Args {
    v: Vec<ND>,
    kw: Vec<ND>,
    block: Option<ND>,
}
impl Args {
    fn push(&mut self, n: ND) {
        self.flush();
        self.v.push(n);
    }
    fn flush(&mut self) {
        if !self.kw.is_empty() {
            let elements = std::mem::take(&mut self.kw);
            let loc = (elements[0].loc().0, elements.last().unwrap().loc().1);
            self.v.push(nd!(KeywordHashNode loc, { elements }));
        }
    }
    fn finish(mut self, loc: Loc) -> (Option<Box<d::ArgumentsNode>>, Option<ND>) {
        self.flush();
        if self.v.is_empty() {
            return (None, self.block);
        }
        (Some(Box::new(d::ArgumentsNode { loc, arguments: self.v })), self.block)
    }
}
