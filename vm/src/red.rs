//! P29: built-in operators and methods that compiled code contains in line, redefined while the places that use them are warm.
use crate::*;
use engine::*;

/// A use of the method: its text over `a` and `b`, what it answers before and after, and whether the new method runs.
struct Site(String, String, String, bool);
struct Row {
    class: &'static str,
    name: &'static str,
    params: usize,
    a: &'static str,
    b: &'static str,
    sites: Vec<Site>,
    /// a class that inherits, for receivers of a class of their own
    sub: Option<&'static str>,
}

fn site(t: &str, old: &str, new: &str) -> Site {
    Site(t.into(), old.into(), new.into(), true)
}
/// A use the new method has no part in.
fn apart(t: &str, old: &str) -> Site {
    Site(t.into(), old.into(), old.into(), false)
}

fn binary(class: &'static str, a: &'static str, b: &'static str, rows: &[(&'static str, &str)]) -> Vec<Row> {
    rows.iter()
        .map(|(op, old)| {
            let mut v = vec![];
            for t in [
                format!("a {op} b"),
                format!("a {op} {b}"),
                format!("({a}) {op} b"),
                format!("({a}) {op} {b}"),
                format!("a.{op}(b)"),
                format!("a.send(:{op}, b)"),
                format!("a&.{op}(b)"),
                format!("[a].map {{ |x| x {op} b }}[0]"),
                format!("[[a, b]].map {{ |x, y| x {op} y }}[0]"),
                format!("[a, b].inject(:{op})"),
                format!("a.public_send(:{op}, b)"),
                format!("a.method(:{op}).call(b)"),
            ] {
                // the new method runs once: not where the built-in method itself uses the operator
                if t.contains("map {") && *op == "<" {
                    continue;
                }
                if t.contains("inject") && ["<", "<=", ">", ">=", "==", "!=", "===", "<=>"].contains(op) {
                    continue;
                }
                v.push(site(&t, old, ":new"));
            }
            match *op {
                "<" | "<=" | ">" | ">=" | "==" | "!=" | "===" => {
                    let (y, n) = if *old == "true" { ("1", "2") } else { ("2", "1") };
                    for t in ["if a OP b then 1 else 2 end", "(a OP b) ? 1 : 2", "(unless a OP b; 2; else 1; end)", "(x = 2; x = 1 if a OP b; x)", "(x = 2; while a OP b; x = 1; break; end; x)", "(x = 1; until a OP b; x = 2; break; end; x)", "(a OP b && 1) || 2", "((a OP b) || (next_ = 2) && nil) ? 1 : 2"] {
                        let t = t.replace("OP", op);
                        v.push(site(&t, y, if *old == "true" { y } else { n }));
                    }
                    v.push(site(&format!("!(a {op} b)"), if *old == "true" { "false" } else { "true" }, "false"));
                    if *op == "==" {
                        v.push(site("a != b", "true", "false"));
                        v.push(site("(a != b) ? 1 : 2", "1", "2"));
                        if class != "Obj" && class != "NilClass" {
                            v.push(apart("case a when b then 1 else 2 end", "2"));
                        }
                    }
                    if *op == "===" {
                        v.push(site("case b when a then 1 else 2 end", y, n));
                        v.push(site(&format!("case b when {a} then 1 else 2 end"), y, n));
                        v.push(apart("a == b", old));
                    }
                    if *op == "!=" {
                        v.push(apart("a == b", "false"));
                    }
                }
                "<=>" => {}
                _ => {
                    v.push(site(&format!("(x = a; x {op}= b; x)"), old, ":new"));
                    v.push(site(&format!("(x = [a]; x[0] {op}= b; x[0])"), old, ":new"));
                    v.push(site(&format!("(@x = a; @x {op}= b; @x)"), old, ":new"));
                }
            }
            let sub = match class {
                "String" => Some("String.new('p')"),
                "Array" => Some("Array.new([1])"),
                "Obj" => Some("Obj.new"),
                _ => None,
            };
            Row { class, name: op, params: 1, a, b, sites: v, sub }
        })
        .collect()
}
fn row(class: &'static str, name: &'static str, params: usize, a: &'static str, b: &'static str, sub: Option<&'static str>, sites: Vec<Site>) -> Row {
    Row { class, name, params, a, b, sites, sub }
}
fn rows() -> Vec<Row> {
    let mut v = binary(
        "Integer",
        "7",
        "3",
        &[
            ("+", "10"),
            ("-", "4"),
            ("*", "21"),
            ("/", "2"),
            ("%", "1"),
            ("**", "343"),
            ("&", "3"),
            ("|", "7"),
            ("^", "4"),
            ("<<", "56"),
            (">>", "0"),
            ("<", "false"),
            ("<=", "false"),
            ("==", "false"),
            ("===", "false"),
            ("<=>", "1"),
            (">", "true"),
            (">=", "true"),
            ("!=", "true"),
        ],
    );
    v.extend(binary("Integer", "7", "2.5", &[("+", "9.5"), ("-", "4.5"), ("*", "17.5"), ("/", "2.8"), ("<", "false"), ("==", "false"), (">=", "true")]));
    v.extend(binary("Float", "7.5", "2.5", &[("+", "10.0"), ("-", "5.0"), ("*", "18.75"), ("/", "3.0"), ("%", "0.0"), ("<", "false"), ("<=", "false"), ("==", "false"), ("===", "false"), ("<=>", "1"), (">", "true"), (">=", "true"), ("!=", "true")]));
    v.extend(binary("Float", "7.5", "3", &[("+", "10.5"), ("-", "4.5"), ("*", "22.5"), ("/", "2.5"), ("<", "false"), ("==", "false"), (">", "true")]));
    v.extend(binary("String", "'p'", "'q'", &[("+", "pq"), ("==", "false"), ("!=", "true"), ("===", "false"), ("<=>", "-1"), ("<", "true")]));
    v.extend(binary("Array", "[1]", "[2]", &[("+", "[1, 2]"), ("-", "[1]"), ("==", "false"), ("<=>", "-1"), ("&", "[]")]));
    v.extend(binary("Symbol", ":p", ":q", &[("==", "false"), ("!=", "true"), ("===", "false")]));
    v.extend(binary("NilClass", "nil", "1", &[("==", "false"), ("===", "false")]));
    v.extend(binary("Obj", "OBJ", "1", &[("==", "false"), ("===", "false")]));
    // `&.` on nil calls nothing, whatever is defined
    for r in &mut v {
        if r.class == "NilClass" {
            r.sites.retain(|s| !s.0.contains("&."));
        }
    }
    for (class, a, neg, inv) in [("Integer", "7", "-7", "-8"), ("Float", "7.5", "-7.5", "")] {
        v.push(row(class, "-@", 0, a, "0", None, vec![site("-a", neg, ":new"), site("a.-@", neg, ":new"), site("-(a)", neg, ":new"), site("[-a]", &format!("[{neg}]"), "[:new]"), site("a.send(:-@)", neg, ":new"), site("[a].map(&:-@)[0]", neg, ":new")]));
        v.push(row(class, "+@", 0, a, "0", None, vec![site("+a", a, ":new"), site("a.+@", a, ":new")]));
        if !inv.is_empty() {
            v.push(row(class, "~", 0, a, "0", None, vec![site("~a", inv, ":new"), site("a.~", inv, ":new"), site("~(a)", inv, ":new")]));
        }
    }
    for (class, a, old, flip) in [("Integer", "7", "false", true), ("NilClass", "nil", "true", false), ("String", "'p'", "false", true), ("Obj", "OBJ", "false", true), ("FalseClass", "false", "true", false), ("Array", "[]", "false", true)] {
        let (x, y) = if flip { ("2", "1") } else { ("1", "1") };
        let sub = match class {
            "String" => Some("String.new('p')"),
            "Array" => Some("Array.new"),
            "Obj" => Some("Obj.new"),
            _ => None,
        };
        v.push(row(class, "!", 0, a, "0", sub, vec![site("!a", old, ":new"), site("(not a)", old, ":new"), site("a.!", old, ":new"), site("if !a then 1 else 2 end", x, y), site("(x = 2; x = 1 if !a; x)", x, y), site("!a && 5", if flip { "false" } else { "5" }, "5"), apart("if a then 1 else 2 end", if flip { "1" } else { "2" }), apart("(unless a; 1; else 2; end)", if flip { "2" } else { "1" }), site("!!a", if flip { "true" } else { "false" }, "false")]));
    }
    let p = |o: &str| vec![site(&format!("a.{o}"), "", ":new"), site(&format!("a.send(:{o})"), "", ":new"), site(&format!("[a].map(&:{o})[0]"), "", ":new"), site(&format!("a&.{o}"), "", ":new"), site(&format!("a.public_send(:{o})"), "", ":new"), site(&format!("1.times.map {{ a.{o} }}[0]"), "", ":new")];
    for (class, name, a, old, sub) in [
        ("Integer", "succ", "7", "8", None),
        ("Integer", "to_f", "7", "7.0", None),
        ("Integer", "even?", "7", "false", None),
        ("Integer", "to_i", "7", "7", None),
        ("Integer", "abs", "7", "7", None),
        ("Integer", "zero?", "7", "false", None),
        ("Integer", "nil?", "7", "false", None),
        ("Integer", "frozen?", "7", "true", None),
        ("Integer", "class", "7", "Integer", None),
        ("Integer", "hash", "7", "7.hash", None),
        ("Integer", "dup", "7", "7", None),
        ("Integer", "itself", "7", "7", None),
        ("Float", "to_i", "7.5", "7", None),
        ("Float", "to_f", "7.5", "7.5", None),
        ("Float", "floor", "7.5", "7", None),
        ("Float", "nan?", "7.5", "false", None),
        ("Float", "nil?", "7.5", "false", None),
        ("Array", "size", "[1, 2]", "2", Some("Array.new([1, 2])")),
        ("Array", "length", "[1, 2]", "2", None),
        ("Array", "dup", "[1, 2]", "[1, 2]", None),
        ("Array", "clone", "[1, 2]", "[1, 2]", None),
        ("Array", "first", "[1, 2]", "1", None),
        ("Array", "empty?", "[1, 2]", "false", None),
        ("Array", "rotate!", "[1, 2]", "[2, 1]", None),
        ("Array", "frozen?", "[1, 2]", "false", None),
        ("Array", "nil?", "[1, 2]", "false", None),
        ("Hash", "size", "{1 => 2}", "1", None),
        ("Hash", "empty?", "{1 => 2}", "false", None),
        ("Hash", "default", "{1 => 2}", "nil", None),
        ("Hash", "compare_by_identity?", "{1 => 2}", "false", None),
        ("String", "size", "'pq'", "2", None),
        ("String", "bytesize", "'pq'", "2", None),
        ("String", "to_s", "'pq'", "pq", None),
        ("String", "to_sym", "'pq'", ":pq", None),
        ("String", "frozen?", "'pq'", "false", None),
        ("Range", "begin", "(1..3)", "1", None),
        ("Range", "end", "(1..3)", "3", None),
        ("Range", "exclude_end?", "(1..3)", "false", None),
        ("Symbol", "to_s", ":pq", "pq", None),
        ("Symbol", "to_proc", ":pq", "true", None),
        ("NilClass", "nil?", "nil", "true", None),
        ("NilClass", "to_a", "nil", "[]", None),
        ("NilClass", "frozen?", "nil", "true", None),
        ("Obj", "nil?", "OBJ", "false", None),
        ("Obj", "frozen?", "OBJ", "false", None),
        ("Obj", "class", "OBJ", "Obj", None),
        ("Obj", "hi", "OBJ", ":hi", None),
        ("Obj", "reader", "OBJ", "5", None),
        ("Obj", "constant", "OBJ", "9", None),
        ("Obj", "nothing", "OBJ", "nil", None),
        ("Obj", "me", "OBJ", "OBJ", None),
    ] {
        if name == "to_proc" || name == "hash" {
            continue;
        }
        let mut sites = p(name);
        for s in &mut sites {
            s.1 = old.into();
        }
        if a == "nil" {
            sites.retain(|s| !s.0.contains("&."));
        }
        if name == "size" && class == "Array" {
            sites.retain(|s| !s.0.contains("map"));
            sites.push(apart("a.length", "2"));
        }
        if name == "nil?" || name == "even?" || name == "empty?" || name == "frozen?" {
            let (x, y) = if old == "true" { ("1", "1") } else { ("2", "1") };
            sites.push(site(&format!("if a.{name} then 1 else 2 end"), x, y));
            sites.push(site(&format!("(x = 2; while a.{name}; x = 1; break; end; x)"), x, y));
        }
        v.push(row(class, name, 0, a, "0", sub, sites));
    }
    let q = |o: &str, old: &str| vec![site(&format!("a.{o}(b)"), old, ":new"), site(&format!("a.send(:{o}, b)"), old, ":new"), site(&format!("a&.{o}(b)"), old, ":new"), site(&format!("if a.{o}(b) then 1 else 2 end"), if old == "false" || old == "nil" { "2" } else { "1" }, "1")];
    for (class, name, a, b, old) in [
        ("Integer", "is_a?", "7", "Float", "false"),
        ("Integer", "instance_of?", "7", "Float", "false"),
        ("Integer", "respond_to?", "7", ":pq", "false"),
        ("Integer", "eql?", "7", "3", "false"),
        ("Integer", "equal?", "7", "3", "false"),
        ("Integer", "div", "7", "3", "2"),
        ("Integer", "fdiv", "7", "2", "3.5"),
        ("Integer", "[]", "7", "1", "1"),
        ("Array", "is_a?", "[1]", "Float", "false"),
        ("Array", "include?", "[1]", "2", "false"),
        ("Array", "push", "[1]", "2", "[1, 2]"),
        ("Array", "at", "[1, 5]", "1", "5"),
        ("Obj", "is_a?", "OBJ", "Float", "false"),
        ("Obj", "respond_to?", "OBJ", ":pq", "false"),
        ("Obj", "instance_of?", "OBJ", "Float", "false"),
        ("Obj", "equal?", "OBJ", "1", "false"),
        ("Hash", "key?", "{1 => 2}", "5", "false"),
        ("String", "getbyte", "'pq'", "1", "113"),
        ("String", "start_with?", "'pq'", "'q'", "false"),
    ] {
        v.push(row(class, name, 1, a, b, None, q(name, old)));
    }
    v.push(row("Array", "[]", 1, "[10, 20]", "1", Some("Array.new([10, 20])"), vec![site("a[b]", "20", ":new"), site("a[1]", "20", ":new"), site("a.[](b)", "20", ":new"), site("a&.[](b)", "20", ":new"), site("(x = a; [x[b]])", "[20]", "[:new]"), site("if a[b] then 1 else 2 end", "1", "1"), apart("(x, y = a; y)", "20"), apart("a.last", "20")]));
    v.push(row("Array", "[]=", 2, "[10, 20]", "1", Some("Array.new([10, 20])"), vec![site("(a[b] = 5; a)", "[10, 5]", "[10, 20]"), site("(a[1] = 5; a)", "[10, 5]", "[10, 20]"), site("(x = (a[b] = 5))", "5", "5"), site("a.[]=(b, 5)", "5", ":new"), site("(a[b] += 1; a)", "[10, 21]", "[10, 20]"), site("(a[0], a[1] = 3, 4; a)", "[3, 4]", "[10, 4]"), site("(a[b] &&= 4; a)", "[10, 4]", "[10, 20]")]));
    v.push(row("Array", "<<", 1, "[10]", "1", Some("Array.new([10])"), vec![site("a << b", "[10, 1]", ":new"), site("(a << 1; a)", "[10, 1]", "[10]"), site("a.<<(b)", "[10, 1]", ":new"), apart("a.push(b)", "[10, 1]")]));
    v.push(row("Hash", "[]", 1, "{1 => 20}", "1", Some("Hash.new.merge!({1 => 20})"), vec![site("a[b]", "20", ":new"), site("a[1]", "20", ":new"), site("a.[](b)", "20", ":new"), apart("a.fetch(b)", "20")]));
    v.push(row("Hash", "[]=", 2, "{1 => 20}", "1", Some("Hash.new.merge!({1 => 20})"), vec![site("(a[b] = 5; a)", "{1 => 5}", "{1 => 20}"), site("a.[]=(b, 5)", "5", ":new"), site("(a[b] += 1; a)", "{1 => 21}", "{1 => 20}"), apart("a.store(b, 5)", "5")]));
    v.push(row("String", "<<", 1, "+'p'", "'q'", Some("String.new('p')"), vec![site("a << b", "pq", ":new"), site("(a << 'q'; a)", "pq", "p")]));
    v.push(row("String", "[]", 1, "'pq'", "1", Some("String.new('pq')"), vec![site("a[b]", "q", ":new"), site("a[1]", "q", ":new"), apart("a.slice(b)", "q")]));
    v.push(row("Proc", "call", 1, "proc { |x| x }", "1", None, vec![site("a.call(b)", "1", ":new"), site("a.(b)", "1", ":new"), apart("a[b]", "1"), apart("a.yield(b)", "1"), apart("[b].map(&a)[0]", "1")]));
    v.push(row("Obj", "initialize", 0, "Obj", "1", None, vec![site("(a.new; 3)", "3", "3"), site("(x = Obj.new; x.class)", "Obj", "Obj"), apart("(a.allocate; 3)", "3")]));
    v.push(row("Obj", "hi=", 1, "OBJ", "1", None, vec![site("(a.hi = b)", "1", "1"), site("a.send(:hi=, b)", "1", ":new"), site("(a.hi, x = 3, 4; x)", "4", "4")]));
    v
}

/// How the method is replaced and put back.
const WAYS: [&str; 4] = ["def", "define_method", "prepend", "alias"];
fn change(r: &Row, way: usize, n: usize) -> String {
    let (c, m) = (r.class, r.name);
    let ps: Vec<String> = (0..r.params).map(|i| format!("p{i}")).collect();
    let ps = ps.join(", ");
    let new = "($hit = true; :new)";
    match way {
        0 => format!("class {c}\nalias_method :__old, :{m}\ndef {m}({ps})\nif $new\n$new = false\n{new}\nelse\n__old({ps})\nend\nend\nend\n"),
        1 => format!("{c}.class_eval {{ alias_method :__old, :{m} }}\n{c}.define_method(:{m}) {{ |{ps}| if $new\n$new = false\n{new}\nelse\n__old({ps})\nend }}\n"),
        2 => format!("module P{n}\ndef {m}({ps})\nif $new\n$new = false\n{new}\nelse\nsuper\nend\nend\nend\n{c}.prepend(P{n})\n"),
        _ => format!("class {c}\nalias_method :__old, :{m}\ndef __new({ps})\nif $new\n$new = false\n{new}\nelse\n__old({ps})\nend\nend\nalias_method :{m}, :__new\nend\n"),
    }
}
fn restore(r: &Row, way: usize, n: usize) -> String {
    match way {
        2 => format!("P{n}.send(:remove_method, :{})\n", r.name),
        _ => format!("class {}\nalias_method :{}, :__old\nend\n", r.class, r.name),
    }
}

const PRELUDE: &str = r##"
class Obj
  def initialize
    @v = 5
  end
  attr_reader :reader
  attr_writer :hi
  def reader = @v
  def hi = :hi
  def constant = 9
  def nothing
  end
  def me = self
  def inspect = 'OBJ'
end
OBJ = Obj.new
$new = false
$hit = false
def __show(x) = x.is_a?(String) ? x : x.inspect
"##;

fn sites(r: &Row) -> String {
    let mut t = String::new();
    for (k, s) in r.sites.iter().enumerate() {
        t.push_str(&format!("def s{k}(a, b)\n  $hit = false\n  $new = true\n  r = {}\n  $new = false\n  r\nend\n", s.0));
        t.push_str(&format!(
            "def w{k}(n)\n  first = nil\n  k = 0\n  while k < n\n    x = s{k}({}, {})\n    o = __show(x) + ($hit ? '!' : '')\n    if first.nil?\n      first = o\n    elsif first != o\n      first = first + ' but ' + o\n      break\n    end\n    k += 1\n  end\n  R << first\nend\n",
            r.a, r.b
        ));
    }
    t
}
fn expect(s: &Site, new: bool) -> String {
    if new && s.3 { format!("{}!", s.2) } else { s.1.clone() }
}

fn histories(all: bool) -> Space<'static> {
    let rows = rows();
    let uses: usize = rows.iter().map(|r| r.sites.len()).sum();
    let w = WAYS.len();
    Space::new(
        "redefined between calls",
        format!("{} built-in methods with {uses} uses, each warm, then redefined in one of {w} ways, put back, redefined in another way and put back, looked at {} after each", rows.len(), if all { "45 times" } else { "28 times" }),
        (rows.len() * w * w) as u64,
        move |i, c| {
            let mut x = Radix(i);
            let r = &rows[x.take(rows.len())];
            let ways = [x.take(w), x.take(w)];
            let n = if all { 45 } else { 28 };
            let mut t = format!("R = []\n{}", sites(r));
            let mut want = vec![];
            let mut look = |t: &mut String, when: &str, new: bool, n: usize| {
                for (k, s) in r.sites.iter().enumerate() {
                    t.push_str(&format!("w{k}({n})\n"));
                    want.push((format!("{}#{} with {} and {}: {} {when}", r.class, r.name, r.a, r.b, s.0), expect(s, new)));
                }
            };
            look(&mut t, "at first", false, 45);
            for (j, way) in ways.iter().enumerate() {
                t.push_str(&change(r, *way, j));
                look(&mut t, &format!("after {}", WAYS[*way]), true, n);
                t.push_str(&restore(r, *way, j));
                look(&mut t, &format!("after {} was undone", WAYS[*way]), false, n);
            }
            t.push_str("R.join('|').delete(34.chr)\n");
            run_items(t, want, c)
        },
    )
}

fn running() -> Space<'static> {
    let rows = rows();
    let w = WAYS.len();
    Space::new(
        "redefined in a running loop",
        format!("{} built-in methods, each redefined in one of {w} ways by a block while a compiled loop over each of its uses runs, and put back later in the same loop", rows.len()),
        (rows.len() * w) as u64,
        move |i, c| {
            let mut x = Radix(i);
            let r = &rows[x.take(rows.len())];
            let way = x.take(w);
            for s in &r.sites {
                let t = format!(
                    "R = []\ndef run\n  out = []\n  k = 0\n  while k < 170\n    yield(k) if k == 120 || k == 140\n    a = {}\n    b = {}\n    $hit = false\n    $new = true\n    r = {}\n    $new = false\n    o = __show(r) + ($hit ? '!' : '')\n    out << o if out.last != o\n    k += 1\n  end\n  out\nend\nR << run {{ |k|\nif k == 120\neval(<<'EOS')\n{}EOS\nelse\neval(<<'EOS')\n{}EOS\nend\n}}.join(', ')\nR.join('|').delete(34.chr)\n",
                    r.a,
                    r.b,
                    s.0,
                    change(r, way, 0),
                    restore(r, way, 0)
                );
                let mut out = vec![expect(s, false)];
                for new in [true, false] {
                    let e = expect(s, new);
                    if out.last() != Some(&e) {
                        out.push(e);
                    }
                }
                run_items(t, vec![(format!("{}#{} with {} and {}: {} in a loop in which {} redefines it", r.class, r.name, r.a, r.b, s.0, WAYS[way]), out.join(", "))], c)?;
            }
            Ok(())
        },
    )
}

/// A warm place meets an object whose own class, or singleton class, has another method.
fn receivers() -> Space<'static> {
    let rows: Vec<Row> = rows().into_iter().filter(|r| r.sub.is_some()).collect();
    Space::new(
        "another receiver",
        format!("{} built-in methods of collections at places warm with plain receivers, which then meet an object of a subclass, or with a singleton method, that redefines them", rows.len()),
        (rows.len() * 2) as u64,
        move |i, c| {
            let mut x = Radix(i);
            let r = &rows[x.take(rows.len())];
            let single = x.take(2) == 1;
            let ps: Vec<String> = (0..r.params).map(|i| format!("p{i}")).collect();
            let ps = ps.join(", ");
            let body = format!("{}({ps})\nif $new\n$new = false\n($hit = true; :new)\nelse\nsuper\nend\nend\n", r.name);
            let make = r.sub.unwrap();
            let sub = make.replacen(r.class, "Sub", 1);
            let mut t = format!("R = []\n{}class Sub < {}\ndef {body}end\n", sites(r), r.class);
            let other = if single { format!("(o = {make}; def o.{body}; o)") } else { sub };
            for (k, _) in r.sites.iter().enumerate() {
                t.push_str(&format!("def v{k}(n)\n  first = nil\n  k = 0\n  while k < n\n    x = s{k}({other}, {})\n    o = __show(x) + ($hit ? '!' : '')\n    if first.nil?\n      first = o\n    elsif first != o\n      first = first + ' but ' + o\n      break\n    end\n    k += 1\n  end\n  R << first\nend\n", r.b));
            }
            let mut want = vec![];
            for (k, s) in r.sites.iter().enumerate() {
                if s.0.contains(r.a) && !s.0.contains("a ") && !s.0.contains("a.") && !s.0.contains("a,") && !s.0.contains("(a") {
                    continue;
                }
                for turn in 0..3 {
                    t.push_str(&format!("w{k}({})\nv{k}({})\n", [45, 1, 20][turn], [1, 45, 20][turn]));
                    let what = format!("{}#{} with {}: {}", r.class, r.name, r.a, s.0);
                    want.push((format!("{what} for a plain receiver, turn {turn}"), expect(s, false)));
                    want.push((format!("{what} for {}, turn {turn}", if single { "a singleton" } else { "a subclass" }), expect(s, true)));
                }
            }
            t.push_str("R.join('|').delete(34.chr)\n");
            run_items(t, want, c)
        },
    )
}

pub fn plan(tier: Tier) -> Plan {
    let th = tier == Tier::Thorough;
    Plan {
        prelude: PRELUDE.to_string(),
        rule: "a use of a built-in method runs the method that is defined at that moment for its receiver".into(),
        spaces: vec![histories(th), running(), receivers()],
    }
}
