#![allow(private_interfaces, dead_code)]
//! Stand-in for the `ruby-prism` crate (bindings to the C parser), which is not available offline.
//!
//! The same node types and accessors as far as monoruby's lowerer uses them, filled by the
//! recursive-descent parser in `parse.rs`.
mod nodes;
mod parse;
pub use nodes::*;

#[derive(Clone, Copy)]
pub struct Location<'pr> {
    src: &'pr [u8],
    start: usize,
    end: usize,
}
impl<'pr> Location<'pr> {
    pub fn start_offset(&self) -> usize {
        self.start
    }
    pub fn end_offset(&self) -> usize {
        self.end
    }
    pub fn as_slice(&self) -> &'pr [u8] {
        &self.src[self.start..self.end]
    }
}

#[derive(Clone, Copy)]
pub struct ConstantId<'pr>(&'pr str);
impl<'pr> ConstantId<'pr> {
    pub fn as_slice(&self) -> &'pr [u8] {
        self.0.as_bytes()
    }
}

#[derive(Clone, Copy)]
pub struct ConstantList<'pr>(&'pr [String]);
impl<'pr> ConstantList<'pr> {
    pub fn iter(&self) -> impl Iterator<Item = ConstantId<'pr>> + use<'pr> {
        self.0.iter().map(|s| ConstantId(s))
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
}

#[derive(Clone, Copy)]
pub struct NodeList<'pr> {
    list: &'pr [ND],
    src: &'pr [u8],
}
impl<'pr> NodeList<'pr> {
    pub fn iter(&self) -> impl DoubleEndedIterator<Item = Node<'pr>> + ExactSizeIterator + use<'pr> {
        let src = self.src;
        self.list.iter().map(move |n| n.node(src))
    }
    pub fn is_empty(&self) -> bool {
        self.list.is_empty()
    }
    pub fn len(&self) -> usize {
        self.list.len()
    }
    pub fn first(&self) -> Option<Node<'pr>> {
        self.iter().next()
    }
    pub fn last(&self) -> Option<Node<'pr>> {
        self.iter().next_back()
    }
}

/// Sign and magnitude, least significant digit first.
#[derive(Clone, Debug, Default)]
pub struct Int {
    pub negative: bool,
    pub digits: Vec<u32>,
}
#[derive(Clone, Copy)]
pub struct Integer<'pr>(&'pr Int);
impl<'pr> Integer<'pr> {
    pub fn to_u32_digits(&self) -> (bool, &'pr [u32]) {
        (self.0.negative, &self.0.digits)
    }
}
impl<'pr> TryInto<i32> for Integer<'pr> {
    type Error = ();
    fn try_into(self) -> Result<i32, ()> {
        let m = match self.0.digits.as_slice() {
            [] => 0,
            [d] => *d as i64,
            _ => return Err(()),
        };
        i32::try_from(if self.0.negative { -m } else { m }).map_err(|_| ())
    }
}

pub struct Diagnostic<'pr> {
    d: &'pr parse::Diag,
    src: &'pr [u8],
}
impl<'pr> Diagnostic<'pr> {
    pub fn message(&self) -> &'pr str {
        &self.d.message
    }
    pub fn location(&self) -> Location<'pr> {
        Location { src: self.src, start: self.d.at, end: self.d.at }
    }
    pub fn is_verbose(&self) -> bool {
        self.d.verbose
    }
}

pub struct ParseResult<'pr> {
    src: &'pr [u8],
    root: ND,
    errors: Vec<parse::Diag>,
    warnings: Vec<parse::Diag>,
    data: Option<(usize, usize)>,
}
impl<'pr> ParseResult<'pr> {
    pub fn node(&self) -> Node<'_> {
        self.root.node(self.src)
    }
    pub fn source(&self) -> &'pr [u8] {
        self.src
    }
    pub fn errors(&self) -> impl Iterator<Item = Diagnostic<'_>> {
        self.errors.iter().map(|d| Diagnostic { d, src: self.src })
    }
    pub fn warnings(&self) -> impl Iterator<Item = Diagnostic<'_>> {
        self.warnings.iter().map(|d| Diagnostic { d, src: self.src })
    }
    /// From `__END__` to the end of the source.
    pub fn data_loc(&self) -> Option<Location<'_>> {
        self.data.map(|(start, end)| Location { src: self.src, start, end })
    }
}

#[derive(Default, Clone)]
pub struct Scope {
    locals: Vec<String>,
}
impl Scope {
    pub fn new<T: AsRef<[u8]>>(locals: Vec<T>) -> Self {
        Scope { locals: locals.iter().map(|s| String::from_utf8_lossy(s.as_ref()).into_owned()).collect() }
    }
}
#[derive(Default, Clone)]
pub struct Options {
    line: i32,
    scopes: Vec<Scope>,
}
impl Options {
    pub fn new() -> Self {
        Self { line: 1, scopes: vec![] }
    }
    pub fn line(mut self, line: i32) -> Self {
        self.line = line;
        self
    }
    pub fn scopes(mut self, scopes: Vec<Scope>) -> Self {
        self.scopes = scopes;
        self
    }
}

pub fn parse(source: &[u8]) -> ParseResult<'_> {
    parse::parse(source, None)
}
pub fn parse_with_options<'a>(source: &'a [u8], options: &Options) -> ParseResult<'a> {
    parse::parse(source, Some(options))
}
