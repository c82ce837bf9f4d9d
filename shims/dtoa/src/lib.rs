//! Stand-in for the `dtoa` crate: the shortest digits that read back as the same number.
#[derive(Default)]
pub struct Buffer(String);
impl Buffer {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn format(&mut self, f: f64) -> &str {
        self.0 = if f.is_nan() {
            "NaN".into()
        } else if f.is_infinite() {
            if f > 0.0 { "inf".into() } else { "-inf".into() }
        } else if f != 0.0 && (f.abs() < 1e-5 || f.abs() >= 1e21) {
            format!("{f:e}")
        } else {
            format!("{f:?}")
        };
        &self.0
    }
}
