//! Nothing is similar to anything, so no hint is added to an error message.
pub fn jaro_winkler(_: &str, _: &str) -> f64 {
    0.0
}
