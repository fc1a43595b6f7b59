//! Stand-in for tracing-error: the harness decides what is logged.
#[derive(Default)]
pub struct ErrorLayer;
