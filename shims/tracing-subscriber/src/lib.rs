//! Stand-in for tracing-subscriber: the harness decides what is logged.
pub struct EnvFilter;
impl EnvFilter {
    pub fn try_new<S: AsRef<str>>(_: S) -> Result<EnvFilter, std::fmt::Error> {
        Ok(EnvFilter)
    }
    pub fn new<S: AsRef<str>>(_: S) -> EnvFilter {
        EnvFilter
    }
}
pub mod fmt {
    pub struct Layer;
    pub fn layer() -> Layer {
        Layer
    }
}
pub struct Registry;
pub fn registry() -> Registry {
    Registry
}
pub mod layer {
    pub trait SubscriberExt: Sized {
        fn with<L>(self, _: L) -> Self {
            self
        }
    }
    impl SubscriberExt for crate::Registry {}
}
pub mod util {
    pub trait SubscriberInitExt: Sized {
        fn init(self) {}
    }
    impl SubscriberInitExt for crate::Registry {}
}
pub mod prelude {
    pub use crate::layer::SubscriberExt;
    pub use crate::util::SubscriberInitExt;
}
