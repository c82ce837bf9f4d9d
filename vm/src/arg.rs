//! P23: how arguments reach parameters. Every parameter list is called with every argument list in
//! every way Ruby has of calling something; a few lines of Rust say what each parameter must hold.
use crate::*;
use engine::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Sig {
    req: usize,
    opt: usize,
    rest: bool,
    post: usize,
    k: bool,
    o: bool,
    kr: bool,
    block: bool,
}

impl Sig {
    fn params(&self) -> String {
        let mut v: Vec<String> = (0..self.req).map(|i| format!("a{i}")).collect();
        v.extend((0..self.opt).map(|i| if i == 0 { "q0 = 50".into() } else { format!("q{i} = [q{}]", i - 1) }));
        v.extend(self.rest.then(|| "*r".into()));
        v.extend((0..self.post).map(|i| format!("z{i}")));
        v.extend(self.k.then(|| "k:".into()));
        v.extend(self.o.then(|| format!("o: {}", self.odef())));
        v.extend(self.kr.then(|| "**kr".into()));
        v.extend(self.block.then(|| "&b".into()));
        v.join(", ")
    }
    /// The default of `o` looks at another parameter.
    fn odef(&self) -> &'static str {
        match self {
            Sig { k: true, .. } => "[k]",
            Sig { req: 1.., .. } => "[a0]",
            Sig { opt: 1.., .. } => "[q0]",
            _ => "70",
        }
    }
    /// Shows all parameters, then changes what the callee owns.
    fn body(&self) -> String {
        let mut v: Vec<String> = (0..self.req).map(|i| format!("a{i}")).collect();
        v.extend((0..self.opt).map(|i| format!("q{i}")));
        v.extend(self.rest.then(|| "r".into()));
        v.extend((0..self.post).map(|i| format!("z{i}")));
        v.extend(self.k.then(|| "k".into()));
        v.extend(self.o.then(|| "o".into()));
        v.extend(self.kr.then(|| "kr".into()));
        v.extend(self.block.then(|| "(b ? b.call : 0)".into()));
        format!("v = [{}].inspect; {}{}v", v.join(", "), if self.rest { "r << 9; " } else { "" }, if self.kr { "kr[:m] = 1; " } else { "" })
    }
    fn min(&self) -> usize {
        self.req + self.post
    }
    fn max(&self) -> usize {
        self.min() + self.opt
    }
    /// A lone array is spread over the parameters of a block. `None`: not claimed.
    fn spreads(&self) -> Option<bool> {
        if self.min() == 0 && self.opt == 1 {
            return None;
        }
        Some((self.min() > 0 || self.opt > 1) && (self.max() > 1 || self.rest))
    }
}

#[derive(Clone, Debug)]
struct Call {
    /// Arguments as written. `x` and `y` are arrays, `h` and `i` hashes.
    text: String,
    x: String,
    y: String,
    h: String,
    /// What they come to.
    pos: Vec<String>,
    /// The elements of the only argument if it is an array.
    lone: Option<Vec<String>>,
    kw: Vec<(&'static str, String)>,
    block: Option<&'static str>,
}

fn hash(kw: &[(&str, String)]) -> String {
    let v: Vec<String> = kw.iter().map(|(k, v)| if k.starts_with('"') { format!("{k} => {v}") } else { format!("{k}: {v}") }).collect();
    format!("{{{}}}", v.join(", "))
}

/// What the parameters hold, or the message of an ArgumentError. `lenient`: a block or proc.
fn bind(s: &Sig, c: &Call, lenient: bool) -> Result<String, String> {
    let mut pos = c.pos.clone();
    let mut kw: Vec<(&str, String)> = vec![];
    for (k, v) in &c.kw {
        match kw.iter_mut().find(|e| e.0 == *k) {
            Some(e) => e.1 = v.clone(),
            None => kw.push((k, v.clone())),
        }
    }
    if !s.k && !s.o && !s.kr && !kw.is_empty() {
        pos.push(hash(&kw));
        kw.clear();
    }
    if lenient {
        if let Some(l) = &c.lone
            && s.spreads() == Some(true)
        {
            pos = l.clone();
        }
        while pos.len() < s.min() {
            pos.push("nil".into());
        }
        if !s.rest {
            pos.truncate(s.max());
        }
    }
    if pos.len() < s.min() || (!s.rest && pos.len() > s.max()) {
        let expected = match (s.min(), s.max()) {
            (m, _) if s.rest => format!("{m}+"),
            (m, n) if m == n => format!("{m}"),
            (m, n) => format!("{m}..{n}"),
        };
        return Err(format!("wrong number of arguments (given {}, expected {expected}{})", pos.len(), if s.k { "; required keyword: k" } else { "" }));
    }
    let mut out = vec![];
    let opts = (pos.len() - s.min()).min(s.opt);
    let rest = pos.len() - s.min() - opts;
    let mut it = pos.into_iter();
    for _ in 0..s.req {
        out.push(it.next().unwrap());
    }
    let a0 = out.first().cloned();
    let mut q0 = None;
    let mut prev = String::new();
    for i in 0..s.opt {
        let v = if i < opts {
            it.next().unwrap()
        } else if i == 0 {
            "50".into()
        } else {
            format!("[{prev}]")
        };
        q0.get_or_insert(v.clone());
        prev = v.clone();
        out.push(v);
    }
    if s.rest {
        let v: Vec<String> = (0..rest).map(|_| it.next().unwrap()).collect();
        out.push(format!("[{}]", v.join(", ")));
    }
    out.extend(it);
    let mut take = |name: &str| kw.iter().position(|e| e.0 == name).map(|p| kw.remove(p).1);
    let mut k = None;
    if s.k {
        k = Some(take("k").ok_or("missing keyword: :k")?);
        out.extend(k.clone());
    }
    if s.o {
        let d = match s.odef() {
            "[k]" => format!("[{}]", k.unwrap()),
            "[a0]" => format!("[{}]", a0.unwrap()),
            "[q0]" => format!("[{}]", q0.unwrap()),
            d => d.to_string(),
        };
        out.push(take("o").unwrap_or(d));
    }
    if s.kr {
        out.push(hash(&kw));
    } else if !kw.is_empty() {
        let names: Vec<String> = kw.iter().map(|(k, _)| if k.starts_with('"') { k.to_string() } else { format!(":{k}") }).collect();
        return Err(format!("unknown keyword{}: {}", if names.len() > 1 { "s" } else { "" }, names.join(", ")));
    }
    if s.block {
        out.push(c.block.map_or("0", |b| if b == "&nil" { "0" } else { "77" }).into());
    }
    Ok(format!("[{}]", out.join(", ")))
}

fn join(v: &[String]) -> String {
    v.join(", ")
}

/// All argument lists: `n` values written in every way, with every form of keywords.
fn calls(max: usize, full: bool) -> Vec<Call> {
    let mut out = vec![];
    let kws: &[(&str, &str, &[(&'static str, &str)])] = &[
        ("", "{}", &[]),
        ("k: 61", "{}", &[("k", "61")]),
        ("o: 62", "{}", &[("o", "62")]),
        ("k: 61, o: 62", "{}", &[("k", "61"), ("o", "62")]),
        ("o: 62, k: 61", "{}", &[("o", "62"), ("k", "61")]),
        ("u: 63", "{}", &[("u", "63")]),
        ("u: 63, k: 61", "{}", &[("u", "63"), ("k", "61")]),
        ("\"s\" => 64", "{}", &[("\"s\"", "64")]),
        ("k: 61, \"s\" => 64", "{}", &[("k", "61"), ("\"s\"", "64")]),
        ("**h", "{}", &[]),
        ("**h", "{k: 61}", &[("k", "61")]),
        ("**h", "{o: 62, u: 63, k: 61}", &[("o", "62"), ("u", "63"), ("k", "61")]),
        ("**h", "{\"s\" => 64}", &[("\"s\"", "64")]),
        ("k: 60, **h", "{k: 61}", &[("k", "60"), ("k", "61")]),
        ("**h, k: 61", "{k: 60, u: 63}", &[("k", "60"), ("u", "63"), ("k", "61")]),
        ("**h, o: 62", "{k: 61}", &[("k", "61"), ("o", "62")]),
        ("**h, **h", "{k: 61}", &[("k", "61"), ("k", "61")]),
        ("**nil", "{}", &[]),
    ];
    for n in 0..=max {
        for brace in [false, true] {
            let mut pos: Vec<String> = (1..=n).map(|i| i.to_string()).collect();
            if brace {
                pos.push("{k: 8}".into());
            }
            let m = pos.len();
            // as written, x, y
            let mut forms: Vec<(String, String, String)> = vec![(join(&pos), "[]".into(), "[]".into()), ("*x".into(), format!("[{}]", join(&pos)), "[]".into())];
            if m >= 1 {
                forms.push((format!("{}, *x", pos[0]), format!("[{}]", join(&pos[1..])), "[]".into()));
                forms.push((format!("*x, {}", pos[m - 1]), format!("[{}]", join(&pos[..m - 1])), "[]".into()));
            }
            if m >= 2 && full {
                forms.push(("*x, *y".into(), format!("[{}]", join(&pos[..1])), format!("[{}]", join(&pos[1..]))));
                forms.push((format!("*x, {}, *y", pos[1]), format!("[{}]", join(&pos[..1])), format!("[{}]", join(&pos[2..]))));
                forms.push((format!("{}, *x, {}", pos[0], pos[m - 1]), format!("[{}]", join(&pos[1..m - 1])), "[]".into()));
            }
            for (fi, (t, x, y)) in forms.iter().enumerate() {
                for (ki, (kt, h, kw)) in kws.iter().enumerate() {
                    if !full && (fi > 1 || brace) && ![0, 1, 5, 9, 10].contains(&ki) {
                        continue;
                    }
                    let parts: Vec<&str> = [t.as_str(), kt].into_iter().filter(|s| !s.is_empty()).collect();
                    out.push(Call {
                        text: parts.join(", "),
                        x: x.clone(),
                        y: y.clone(),
                        h: h.to_string(),
                        pos: pos.clone(),
                        lone: None,
                        kw: kw.iter().map(|(k, v)| (*k, v.to_string())).collect(),
                        block: None,
                    });
                }
            }
        }
    }
    out
}

/// Lone arrays and the like, for blocks.
fn lone_calls() -> Vec<Call> {
    let mut out = vec![];
    let call = |text: &str, x: String, pos: Vec<String>, lone| Call { text: text.into(), x, y: "[]".into(), h: "{}".into(), pos, lone, kw: vec![], block: None };
    for n in 0..=4 {
        for hash in [false, true] {
            let mut v: Vec<String> = (1..=n).map(|i| i.to_string()).collect();
            if hash {
                v.push("{k: 8}".into());
            }
            let a = format!("[{}]", join(&v));
            out.push(call(&a, "[]".into(), vec![a.clone()], Some(v.clone())));
            out.push(call("x", a.clone(), vec![a.clone()], Some(v.clone())));
            out.push(call("*x", format!("[{a}]"), vec![a.clone()], Some(v.clone())));
            out.push(call("x, 6", a.clone(), vec![a.clone(), "6".into()], None));
            out.push(call("6, x", a.clone(), vec!["6".into(), a.clone()], None));
            out.push(call("ToAry.new(x)", a.clone(), vec!["#T".into()], Some(v.clone())));
        }
    }
    out.push(call("nil", "[]".into(), vec!["nil".into()], None));
    out.push(call("[[1, 2]]", "[]".into(), vec!["[[1, 2]]".into()], Some(vec!["[1, 2]".into()])));
    out
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Way {
    Method,
    Send,
    DefineMethod,
    Lambda,
    LambdaDot,
    MethodObject,
    UnboundBind,
    Super,
    ZSuper,
    Delegate,
    Forward,
    Anonymous,
    New,
    Missing,
    Singleton,
    Private,
    YieldLambda,
    SafeNav,
    // the rest are lenient
    Proc,
    ProcYield,
    Yield,
    YieldTwice,
    InstanceExec,
    BlockCall,
    Splatted,
}
use Way::*;

const STRICT: [Way; 18] =
    [Method, Send, DefineMethod, Lambda, LambdaDot, MethodObject, UnboundBind, Super, ZSuper, Delegate, Forward, Anonymous, New, Missing, Singleton, Private, YieldLambda, SafeNav];
const LENIENT: [Way; 7] = [Proc, ProcYield, Yield, YieldTwice, InstanceExec, BlockCall, Splatted];

impl Way {
    fn lenient(self) -> bool {
        LENIENT.contains(&self)
    }
    fn takes_block(self) -> bool {
        !matches!(self, YieldLambda | ProcYield | Yield | YieldTwice | InstanceExec | Splatted)
    }
    /// What is defined once per program.
    fn setup(self, s: &Sig) -> String {
        let (p, b) = (s.params(), s.body());
        let def = format!("class T\ndef f({p})\n{b}\nend\nend\n");
        match self {
            Method | Send | MethodObject | UnboundBind | SafeNav => format!("{def}O = T.new\n"),
            DefineMethod => format!("class T\ndefine_method(:f) {{ |{p}| {b} }}\nend\nO = T.new\n"),
            Lambda | LambdaDot | YieldLambda => format!("L = ->({p}) {{ {b} }}\n"),
            Super => def,
            ZSuper => format!("{def}class U < T\ndef f({p})\nsuper\nend\nend\nO = U.new\n"),
            Delegate => format!("{def}class T\ndef g(*a, **w, &b)\nf(*a, **w, &b)\nend\nend\nO = T.new\n"),
            Forward => format!("{def}class T\ndef g(...)\nf(...)\nend\nend\nO = T.new\n"),
            Anonymous => format!("{def}class T\ndef g(*, **, &)\nf(*, **, &)\nend\nend\nO = T.new\n"),
            New => format!("class T\ndef initialize({p})\n@v = begin\n{b}\nend\nend\nattr_reader :v\nend\n"),
            Missing => format!("{def}class T\ndef method_missing(n, *a, **w, &b)\nf(*a, **w, &b)\nend\nend\nO = T.new\n"),
            Singleton => format!("O = Object.new\ndef O.f({p})\n{b}\nend\n"),
            Private => format!("def pf({p})\n{b}\nend\n"),
            Proc | ProcYield => format!("L = proc {{ |{p}| {b} }}\n"),
            BlockCall => "".into(),
            Yield | YieldTwice | InstanceExec | Splatted => "".into(),
        }
    }
    /// The method `c{i}` that makes the call.
    fn site(self, i: usize, s: &Sig, c: &Call) -> String {
        let (p, b, t) = (s.params(), s.body(), &c.text);
        let blk = c.block.unwrap_or("");
        // a literal block follows the parentheses
        let (inn, aft) = if blk.starts_with('&') { (format!("{}{blk}", if t.is_empty() { "" } else { ", " }), "") } else { (String::new(), blk) };
        let lead = if t.is_empty() && inn.is_empty() { "" } else { ", " };
        let mut pre = String::new();
        let e = match self {
            Method | Singleton => format!("O.f({t}{inn}){aft}"),
            SafeNav => format!("O&.f({t}{inn}){aft}"),
            Send => format!("O.send(:f{lead}{t}{inn}){aft}"),
            DefineMethod | ZSuper => format!("O.f({t}{inn}){aft}"),
            Lambda => format!("L.call({t}{inn}){aft}"),
            LambdaDot | Proc => format!("L.({t}{inn}){aft}"),
            MethodObject => format!("O.method(:f).call({t}{inn}){aft}"),
            UnboundBind => format!("T.instance_method(:f).bind(O).call({t}{inn}){aft}"),
            Super => {
                pre = format!("class U{i} < T\ndef f(x, y, h)\nsuper({t}{inn}){aft}\nend\nend\nO{i} = U{i}.new\n");
                format!("O{i}.f(x, y, h)")
            }
            Delegate | Forward | Anonymous => format!("O.g({t}{inn}){aft}"),
            New => format!("T.new({t}{inn}){aft}.v"),
            Missing => format!("O.zz({t}{inn}){aft}"),
            Private => format!("pf({t}{inn}){aft}"),
            YieldLambda | ProcYield => {
                pre = format!("def y{i}(x, y, h)\nyield({t})\nend\n");
                format!("y{i}(x, y, h, &L)")
            }
            Yield => {
                pre = format!("def y{i}(x, y, h)\nyield({t})\nend\n");
                format!("y{i}(x, y, h) {{ |{p}| {b} }}")
            }
            YieldTwice => {
                pre = format!("def w{i}(x, y, h)\nyield({t})\nend\ndef y{i}(x, y, h, &b)\nw{i}(x, y, h, &b)\nend\n");
                format!("y{i}(x, y, h) {{ |{p}| {b} }}")
            }
            Splatted => {
                pre = format!("def y{i}\nyield\nend\n");
                format!("y{i} {{ proc {{ |{p}| {b} }}.yield({t}) }}")
            }
            InstanceExec => format!("9.instance_exec({t}) {{ |{p}| {b} }}"),
            BlockCall => {
                pre = format!("def y{i}(x, y, h, &b)\nb.call({t}{inn}){aft}\nend\n");
                format!("y{i}(x, y, h) {{ |{p}| {b} }}")
            }
        };
        format!("{pre}def c{i}\nx = {}\ny = {}\nh = {}\ns = begin\n{e}\nrescue Exception => e\n\"#{{e.class}} #{{e.message}}\"\nend\n\"#{{s}} #{{x.size}} #{{y.size}} #{{h.size}}\"\nend\nR << __heat {{ c{i} }}\n", c.x, c.y, c.h)
    }
}

const PRELUDE: &str = r##"
class ToAry
  def initialize(a) = @a = a
  def to_ary = @a
  def inspect = "#T"
end
PR = proc { 77 }
R = []
# The same call over and over, past the point where it is compiled.
def __heat
  s = yield
  k = 0
  while k < 26
    t = yield
    return "#{s} but #{t} on call #{k}" if t != s
    k += 1
  end
  s
end
"##;

fn count(a: &str) -> usize {
    // number of elements at the top level of an array or hash literal
    let inner = &a[1..a.len() - 1];
    if inner.is_empty() {
        return 0;
    }
    let mut depth = 0;
    let mut n = 1;
    for c in inner.chars() {
        match c {
            '[' | '{' => depth += 1,
            ']' | '}' => depth -= 1,
            ',' if depth == 0 => n += 1,
            _ => {}
        }
    }
    n
}

fn program(s: &Sig, w: Way, cs: &[Call]) -> (String, Vec<(String, String)>) {
    let mut t = w.setup(s);
    let mut want = vec![];
    for c in cs {
        if w.lenient() && ((c.lone.is_some() && s.spreads().is_none()) || (c.block.is_some() && !w.takes_block())) {
            continue;
        }
        let r = bind(s, c, w.lenient()).unwrap_or_else(|e| format!("ArgumentError {e}"));
        t.push_str(&w.site(want.len(), s, c));
        let what = format!("{w:?} |{}| ({}) x={} y={} h={}{}", s.params(), c.text, c.x, c.y, c.h, c.block.unwrap_or(""));
        want.push((what, format!("{r} {} {} {}", count(&c.x), count(&c.y), count(&c.h))));
    }
    t.push_str("R.join('|').delete('\"')");
    (t, want)
}

fn sigs(reqs: usize, opts: usize, posts: usize, blocks: &[bool]) -> Vec<Sig> {
    let mut v = vec![];
    for req in 0..=reqs {
        for opt in 0..=opts {
            for rest in [false, true] {
                for post in 0..=posts {
                    if post > 0 && opt == 0 && !rest {
                        continue;
                    }
                    for m in 0..8 {
                        for block in blocks {
                            v.push(Sig { req, opt, rest, post, k: m & 1 > 0, o: m & 2 > 0, kr: m & 4 > 0, block: *block });
                        }
                    }
                }
            }
        }
    }
    v
}

fn space(name: &str, desc: &str, sigs: Vec<Sig>, ways: Vec<Way>, cs: Vec<Call>, size: usize) -> Space<'static> {
    let chunks = cs.len().div_ceil(size);
    let n = sigs.len() * ways.len() * chunks;
    let d = format!("{desc}: {} parameter lists x {} argument lists x {} ways of calling, interpreted and compiled", sigs.len(), cs.len(), ways.len());
    Space::new(name.to_string(), d, n as u64, move |i, c| {
        let i = i as usize;
        let (ch, i) = (i % chunks, i / chunks);
        let (w, s) = (ways[i % ways.len()], sigs[i / ways.len()]);
        let part = &cs[ch * size..((ch + 1) * size).min(cs.len())];
        let (t, want) = program(&s, w, part);
        if want.is_empty() {
            return Ok(());
        }
        run_items(t, want, c)
    })
}

pub fn plan(tier: Tier) -> Plan {
    let th = tier == Tier::Thorough;
    let all: Vec<Way> = STRICT.into_iter().chain(LENIENT).collect();
    let with_blocks: Vec<Call> = calls(if th { 2 } else { 1 }, false)
        .into_iter()
        .filter(|c| c.h == "{}" || c.h == "{k: 61}")
        .flat_map(|c| ["{ 77 }", "&PR", "&nil"].into_iter().map(move |b| Call { block: Some(b), ..c.clone() }))
        .collect();
    let mut spaces = vec![
        space("args", "positional, spread and keyword arguments", sigs(if th { 2 } else { 1 }, if th { 2 } else { 1 }, 1, &[false]), all.clone(), calls(if th { 5 } else { 2 }, th), 150),
        space("wide", "longer lists in the main ways", if th { sigs(2, 2, 2, &[false]) } else { sigs(2, 1, 1, &[false]) }, vec![Method, Lambda, Yield, New], calls(5, false), 150),
        space("lone", "single arrays, and objects that convert to one, given to blocks", sigs(2, 2, 2, &[false]), LENIENT.to_vec(), lone_calls(), 100),
        space("blocks", "blocks passed along", sigs(1, 1, 0, &[true]), all.into_iter().filter(|w| w.takes_block()).collect(), with_blocks, 100),
    ];
    spaces.truncate(9);
    Plan {
        prelude: PRELUDE.to_string(),
        rule: "every parameter holds what Ruby's rules give it, wrong argument lists raise ArgumentError, and the caller's arrays and hashes stay as they were".into(),
        spaces,
    }
}
