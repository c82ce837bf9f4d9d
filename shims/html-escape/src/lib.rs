//! Stand-in for `html-escape`; only used for debugging output.
pub fn encode_text(s: &str) -> std::borrow::Cow<'_, str> {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").into()
}
