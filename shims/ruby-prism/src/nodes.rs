//! The node types. Each line of the table is a node type with its fields.
use super::*;

/// The type a field is stored as.
macro_rules! stored {
    (n) => { ND };
    (on) => { Option<ND> };
    (nl) => { Vec<ND> };
    (c) => { String };
    (oc) => { Option<String> };
    (cl) => { Vec<String> };
    (l) => { (usize, usize) };
    (ol) => { Option<(usize, usize)> };
    (s) => { Vec<u8> };
    (int) => { Int };
    (f) => { f64 };
    (u8) => { u8 };
    (u32) => { u32 };
    (b) => { bool };
    ((o $t:ident)) => { Option<Box<$t>> };
    ((t $t:ident)) => { Box<$t> };
}
macro_rules! accessor {
    ($f:ident n) => { pub fn $f(&self) -> Node<'pr> { self.d.$f.node(self.src) } };
    ($f:ident on) => { pub fn $f(&self) -> Option<Node<'pr>> { let src = self.src; self.d.$f.as_ref().map(|n| n.node(src)) } };
    ($f:ident nl) => { pub fn $f(&self) -> NodeList<'pr> { NodeList { list: &self.d.$f, src: self.src } } };
    ($f:ident c) => { pub fn $f(&self) -> ConstantId<'pr> { ConstantId(&self.d.$f) } };
    ($f:ident oc) => { pub fn $f(&self) -> Option<ConstantId<'pr>> { self.d.$f.as_ref().map(|s| ConstantId(s)) } };
    ($f:ident cl) => { pub fn $f(&self) -> ConstantList<'pr> { ConstantList(&self.d.$f) } };
    ($f:ident l) => { pub fn $f(&self) -> Location<'pr> { Location { src: self.src, start: self.d.$f.0, end: self.d.$f.1 } } };
    ($f:ident ol) => { pub fn $f(&self) -> Option<Location<'pr>> { let src = self.src; self.d.$f.map(|(start, end)| Location { src, start, end }) } };
    ($f:ident s) => { pub fn $f(&self) -> &'pr [u8] { &self.d.$f } };
    ($f:ident int) => { pub fn $f(&self) -> Integer<'pr> { Integer(&self.d.$f) } };
    ($f:ident f) => { pub fn $f(&self) -> f64 { self.d.$f } };
    ($f:ident u8) => { pub fn $f(&self) -> u8 { self.d.$f } };
    ($f:ident u32) => { pub fn $f(&self) -> u32 { self.d.$f } };
    ($f:ident b) => { pub fn $f(&self) -> bool { self.d.$f } };
    ($f:ident (o $t:ident)) => { pub fn $f(&self) -> Option<super::$t<'pr>> { let src = self.src; self.d.$f.as_ref().map(|d| super::$t { d, src }) } };
    ($f:ident (t $t:ident)) => { pub fn $f(&self) -> super::$t<'pr> { super::$t { d: &self.d.$f, src: self.src } } };
}
macro_rules! nodes {
    ($($t:ident $as:ident { $($f:ident : $k:tt,)* })*) => {
        pub(crate) mod d {
            use super::*;
            $(
                #[derive(Debug, Clone, Default)]
                pub struct $t {
                    pub loc: (usize, usize),
                    $(pub $f: stored!($k),)*
                }
            )*
        }
        #[derive(Debug, Clone)]
        pub(crate) enum ND { $($t(Box<d::$t>),)* }
        $(impl From<d::$t> for ND { fn from(d: d::$t) -> ND { ND::$t(Box::new(d)) } })*
        impl ND {
            pub fn node<'pr>(&'pr self, src: &'pr [u8]) -> Node<'pr> {
                match self { $(ND::$t(d) => Node::$t { d: Ref(d), src },)* }
            }
            pub fn loc(&self) -> (usize, usize) {
                match self { $(ND::$t(d) => d.loc,)* }
            }
            pub fn set_loc(&mut self, loc: (usize, usize)) {
                match self { $(ND::$t(d) => d.loc = loc,)* }
            }
        }
        #[derive(Clone, Copy)]
        #[allow(private_interfaces)]
        pub enum Node<'pr> { $($t { d: Ref<'pr, d::$t>, src: &'pr [u8] },)* }
        impl<'pr> Node<'pr> {
            pub fn location(&self) -> Location<'pr> {
                match self { $(Node::$t { d, src } => Location { src, start: d.0.loc.0, end: d.0.loc.1 },)* }
            }
            $(pub fn $as(&self) -> Option<$t<'pr>> {
                match self { Node::$t { d, src } => Some($t { d: d.0, src }), _ => None }
            })*
        }
        $(
            #[derive(Clone, Copy)]
            pub struct $t<'pr> { pub(crate) d: &'pr d::$t, pub(crate) src: &'pr [u8] }
        )*
        mod acc {
            use super::{ConstantId, ConstantList, Integer, Location, Node, NodeList};
            $(impl<'pr> super::$t<'pr> {
                pub fn location(&self) -> Location<'pr> { Location { src: self.src, start: self.d.loc.0, end: self.d.loc.1 } }
                pub fn as_node(&self) -> Node<'pr> { Node::$t { d: super::Ref(self.d), src: self.src } }
                $(accessor!($f $k);)*
            })*
        }
    };
}
impl Default for ND {
    fn default() -> Self {
        ND::NilNode(Default::default())
    }
}
/// Keeps the stored types out of the public interface.
pub struct Ref<'pr, T>(pub(crate) &'pr T);
impl<T> Clone for Ref<'_, T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for Ref<'_, T> {}

nodes! {
    AliasGlobalVariableNode as_alias_global_variable_node { new_name: n, old_name: n, }
    AliasMethodNode as_alias_method_node { new_name: n, old_name: n, }
    AlternationPatternNode as_alternation_pattern_node { left: n, right: n, }
    AndNode as_and_node { left: n, right: n, }
    ArgumentsNode as_arguments_node { arguments: nl, }
    ArrayNode as_array_node { elements: nl, opening_loc: ol, closing_loc: ol, }
    ArrayPatternNode as_array_pattern_node { constant: on, requireds: nl, rest: on, posts: nl, }
    AssocNode as_assoc_node { key: n, value: n, }
    AssocSplatNode as_assoc_splat_node { value: on, }
    BackReferenceReadNode as_back_reference_read_node { name: c, }
    BeginNode as_begin_node { begin_keyword_loc: ol, statements: (o StatementsNode), rescue_clause: (o RescueNode), else_clause: (o ElseNode), ensure_clause: (o EnsureNode), }
    BlockArgumentNode as_block_argument_node { expression: on, }
    BlockLocalVariableNode as_block_local_variable_node { name: c, }
    BlockNode as_block_node { locals: cl, parameters: on, body: on, }
    BlockParameterNode as_block_parameter_node { name: oc, }
    BlockParametersNode as_block_parameters_node { parameters: (o ParametersNode), locals: nl, }
    BreakNode as_break_node { arguments: (o ArgumentsNode), }
    CallAndWriteNode as_call_and_write_node { receiver: on, read_name: c, write_name: c, value: n, is_safe_navigation: b, }
    CallNode as_call_node { receiver: on, name: c, message_loc: ol, opening_loc: ol, arguments: (o ArgumentsNode), closing_loc: ol, block: on, is_safe_navigation: b, is_variable_call: b, is_attribute_write: b, }
    CallOperatorWriteNode as_call_operator_write_node { receiver: on, read_name: c, write_name: c, binary_operator: c, value: n, is_safe_navigation: b, }
    CallOrWriteNode as_call_or_write_node { receiver: on, read_name: c, write_name: c, value: n, is_safe_navigation: b, }
    CallTargetNode as_call_target_node { receiver: n, name: c, is_safe_navigation: b, }
    CapturePatternNode as_capture_pattern_node { value: n, target: (t LocalVariableTargetNode), }
    CaseMatchNode as_case_match_node { predicate: on, conditions: nl, else_clause: (o ElseNode), }
    CaseNode as_case_node { predicate: on, conditions: nl, else_clause: (o ElseNode), }
    ClassNode as_class_node { locals: cl, constant_path: n, superclass: on, body: on, name: c, }
    ClassVariableAndWriteNode as_class_variable_and_write_node { name: c, name_loc: l, value: n, }
    ClassVariableOperatorWriteNode as_class_variable_operator_write_node { name: c, name_loc: l, value: n, binary_operator: c, }
    ClassVariableOrWriteNode as_class_variable_or_write_node { name: c, name_loc: l, value: n, }
    ClassVariableReadNode as_class_variable_read_node { name: c, }
    ClassVariableTargetNode as_class_variable_target_node { name: c, }
    ClassVariableWriteNode as_class_variable_write_node { name: c, name_loc: l, value: n, }
    ConstantAndWriteNode as_constant_and_write_node { name: c, name_loc: l, value: n, }
    ConstantOperatorWriteNode as_constant_operator_write_node { name: c, name_loc: l, value: n, binary_operator: c, }
    ConstantOrWriteNode as_constant_or_write_node { name: c, name_loc: l, value: n, }
    ConstantPathAndWriteNode as_constant_path_and_write_node { target: (t ConstantPathNode), value: n, }
    ConstantPathNode as_constant_path_node { parent: on, name: oc, name_loc: l, }
    ConstantPathOperatorWriteNode as_constant_path_operator_write_node { target: (t ConstantPathNode), value: n, binary_operator: c, }
    ConstantPathOrWriteNode as_constant_path_or_write_node { target: (t ConstantPathNode), value: n, }
    ConstantPathTargetNode as_constant_path_target_node { parent: on, name: oc, name_loc: l, }
    ConstantPathWriteNode as_constant_path_write_node { target: (t ConstantPathNode), value: n, }
    ConstantReadNode as_constant_read_node { name: c, }
    ConstantTargetNode as_constant_target_node { name: c, }
    ConstantWriteNode as_constant_write_node { name: c, name_loc: l, value: n, }
    DefNode as_def_node { name: c, name_loc: l, receiver: on, parameters: (o ParametersNode), body: on, locals: cl, equal_loc: ol, end_keyword_loc: ol, }
    DefinedNode as_defined_node { value: n, }
    ElseNode as_else_node { statements: (o StatementsNode), }
    EmbeddedStatementsNode as_embedded_statements_node { statements: (o StatementsNode), }
    EmbeddedVariableNode as_embedded_variable_node { variable: n, }
    EnsureNode as_ensure_node { statements: (o StatementsNode), }
    FalseNode as_false_node {  }
    FindPatternNode as_find_pattern_node { constant: on, left: (t SplatNode), requireds: nl, right: n, }
    FlipFlopNode as_flip_flop_node { left: on, right: on, is_exclude_end: b, }
    FloatNode as_float_node { value: f, }
    ForNode as_for_node { index: n, collection: n, statements: (o StatementsNode), }
    ForwardingArgumentsNode as_forwarding_arguments_node {  }
    ForwardingParameterNode as_forwarding_parameter_node {  }
    ForwardingSuperNode as_forwarding_super_node { block: (o BlockNode), }
    GlobalVariableAndWriteNode as_global_variable_and_write_node { name: c, name_loc: l, value: n, }
    GlobalVariableOperatorWriteNode as_global_variable_operator_write_node { name: c, name_loc: l, value: n, binary_operator: c, }
    GlobalVariableOrWriteNode as_global_variable_or_write_node { name: c, name_loc: l, value: n, }
    GlobalVariableReadNode as_global_variable_read_node { name: c, }
    GlobalVariableTargetNode as_global_variable_target_node { name: c, }
    GlobalVariableWriteNode as_global_variable_write_node { name: c, name_loc: l, value: n, }
    HashNode as_hash_node { elements: nl, }
    HashPatternNode as_hash_pattern_node { constant: on, elements: nl, rest: on, }
    IfNode as_if_node { predicate: n, statements: (o StatementsNode), subsequent: on, }
    ImaginaryNode as_imaginary_node { numeric: n, }
    ImplicitNode as_implicit_node { value: n, }
    ImplicitRestNode as_implicit_rest_node {  }
    InNode as_in_node { pattern: n, statements: (o StatementsNode), }
    IndexAndWriteNode as_index_and_write_node { receiver: on, arguments: (o ArgumentsNode), block: on, value: n, is_safe_navigation: b, }
    IndexOperatorWriteNode as_index_operator_write_node { receiver: on, arguments: (o ArgumentsNode), block: on, binary_operator: c, value: n, is_safe_navigation: b, }
    IndexOrWriteNode as_index_or_write_node { receiver: on, arguments: (o ArgumentsNode), block: on, value: n, is_safe_navigation: b, }
    IndexTargetNode as_index_target_node { receiver: n, arguments: (o ArgumentsNode), block: on, }
    InstanceVariableAndWriteNode as_instance_variable_and_write_node { name: c, name_loc: l, value: n, }
    InstanceVariableOperatorWriteNode as_instance_variable_operator_write_node { name: c, name_loc: l, value: n, binary_operator: c, }
    InstanceVariableOrWriteNode as_instance_variable_or_write_node { name: c, name_loc: l, value: n, }
    InstanceVariableReadNode as_instance_variable_read_node { name: c, }
    InstanceVariableTargetNode as_instance_variable_target_node { name: c, }
    InstanceVariableWriteNode as_instance_variable_write_node { name: c, name_loc: l, value: n, }
    IntegerNode as_integer_node { value: int, }
    InterpolatedMatchLastLineNode as_interpolated_match_last_line_node { parts: nl, closing_loc: l, }
    InterpolatedRegularExpressionNode as_interpolated_regular_expression_node { parts: nl, closing_loc: l, }
    InterpolatedStringNode as_interpolated_string_node { opening_loc: ol, parts: nl, closing_loc: ol, }
    InterpolatedSymbolNode as_interpolated_symbol_node { parts: nl, }
    InterpolatedXStringNode as_interpolated_x_string_node { parts: nl, }
    ItLocalVariableReadNode as_it_local_variable_read_node {  }
    ItParametersNode as_it_parameters_node {  }
    KeywordHashNode as_keyword_hash_node { elements: nl, }
    KeywordRestParameterNode as_keyword_rest_parameter_node { name: oc, }
    LambdaNode as_lambda_node { locals: cl, parameters: on, body: on, }
    LocalVariableAndWriteNode as_local_variable_and_write_node { name: c, name_loc: l, value: n, depth: u32, }
    LocalVariableOperatorWriteNode as_local_variable_operator_write_node { name: c, name_loc: l, value: n, binary_operator: c, depth: u32, }
    LocalVariableOrWriteNode as_local_variable_or_write_node { name: c, name_loc: l, value: n, depth: u32, }
    LocalVariableReadNode as_local_variable_read_node { name: c, depth: u32, }
    LocalVariableTargetNode as_local_variable_target_node { name: c, depth: u32, }
    LocalVariableWriteNode as_local_variable_write_node { name: c, name_loc: l, value: n, depth: u32, }
    MatchLastLineNode as_match_last_line_node { unescaped: s, closing_loc: l, content_loc: l, }
    MatchPredicateNode as_match_predicate_node { value: n, pattern: n, }
    MatchRequiredNode as_match_required_node { value: n, pattern: n, }
    MatchWriteNode as_match_write_node { call: (t CallNode), targets: nl, }
    MissingNode as_missing_node {  }
    ModuleNode as_module_node { locals: cl, constant_path: n, body: on, name: c, }
    MultiTargetNode as_multi_target_node { lefts: nl, rest: on, rights: nl, }
    MultiWriteNode as_multi_write_node { lefts: nl, rest: on, rights: nl, value: n, }
    NextNode as_next_node { arguments: (o ArgumentsNode), }
    NilNode as_nil_node {  }
    NoKeywordsParameterNode as_no_keywords_parameter_node {  }
    NumberedParametersNode as_numbered_parameters_node { maximum: u8, }
    NumberedReferenceReadNode as_numbered_reference_read_node { number: u32, }
    OptionalKeywordParameterNode as_optional_keyword_parameter_node { name: c, name_loc: l, value: n, }
    OptionalParameterNode as_optional_parameter_node { name: c, name_loc: l, value: n, }
    OrNode as_or_node { left: n, right: n, }
    ParametersNode as_parameters_node { requireds: nl, optionals: nl, rest: on, posts: nl, keywords: nl, keyword_rest: on, block: (o BlockParameterNode), }
    ParenthesesNode as_parentheses_node { body: on, }
    PinnedExpressionNode as_pinned_expression_node { expression: n, }
    PinnedVariableNode as_pinned_variable_node { variable: n, }
    PostExecutionNode as_post_execution_node { statements: (o StatementsNode), }
    PreExecutionNode as_pre_execution_node { statements: (o StatementsNode), }
    ProgramNode as_program_node { locals: cl, statements: (t StatementsNode), }
    RangeNode as_range_node { left: on, right: on, is_exclude_end: b, }
    RationalNode as_rational_node { numerator: int, denominator: int, }
    RedoNode as_redo_node {  }
    RegularExpressionNode as_regular_expression_node { unescaped: s, closing_loc: l, content_loc: l, }
    RequiredKeywordParameterNode as_required_keyword_parameter_node { name: c, name_loc: l, }
    RequiredParameterNode as_required_parameter_node { name: c, }
    RescueModifierNode as_rescue_modifier_node { expression: n, rescue_expression: n, }
    RescueNode as_rescue_node { exceptions: nl, reference: on, statements: (o StatementsNode), subsequent: (o RescueNode), }
    RestParameterNode as_rest_parameter_node { name: oc, }
    RetryNode as_retry_node {  }
    ReturnNode as_return_node { arguments: (o ArgumentsNode), }
    SelfNode as_self_node {  }
    ShareableConstantNode as_shareable_constant_node { write: n, }
    SingletonClassNode as_singleton_class_node { locals: cl, expression: n, body: on, }
    SourceEncodingNode as_source_encoding_node {  }
    SourceFileNode as_source_file_node { filepath: s, }
    SourceLineNode as_source_line_node {  }
    SplatNode as_splat_node { expression: on, }
    StatementsNode as_statements_node { body: nl, }
    StringNode as_string_node { opening_loc: ol, content_loc: l, unescaped: s, is_forced_utf8_encoding: b, is_forced_binary_encoding: b, }
    SuperNode as_super_node { arguments: (o ArgumentsNode), block: on, }
    SymbolNode as_symbol_node { unescaped: s, }
    TrueNode as_true_node {  }
    UndefNode as_undef_node { names: nl, }
    UnlessNode as_unless_node { predicate: n, statements: (o StatementsNode), else_clause: (o ElseNode), }
    UntilNode as_until_node { predicate: n, statements: (o StatementsNode), is_begin_modifier: b, }
    WhenNode as_when_node { conditions: nl, statements: (o StatementsNode), }
    WhileNode as_while_node { predicate: n, statements: (o StatementsNode), is_begin_modifier: b, }
    XStringNode as_x_string_node { unescaped: s, content_loc: l, }
    YieldNode as_yield_node { arguments: (o ArgumentsNode), }
}
