//! The part of `tracing-subscriber` 0.2 the repository's helpers use: a registry that records nothing.
use tracing::{span, Event, Metadata, Subscriber};
#[derive(Default, Debug, Clone)]
pub struct Registry { _private: () }
impl Subscriber for Registry {
    fn enabled(&self, _: &Metadata<'_>) -> bool { false }
    fn new_span(&self, _: &span::Attributes<'_>) -> span::Id { span::Id::from_u64(1) }
    fn record(&self, _: &span::Id, _: &span::Record<'_>) {}
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, _: &Event<'_>) {}
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}
pub mod registry { pub use super::Registry; }
pub fn registry() -> Registry { Registry::default() }
pub mod layer {
    use tracing::Subscriber;
    pub trait Layer<S> {}
    pub trait SubscriberExt: Subscriber + Sized {
        fn with<L>(self, _layer: L) -> Self where L: Layer<Self> { self }
    }
    impl<S: Subscriber> SubscriberExt for S {}
    #[derive(Debug)]
    pub struct Layered;
}
pub use layer::Layer;
pub mod prelude { pub use super::layer::SubscriberExt as __tracing_subscriber_SubscriberExt; }
