//! A logger / subscriber that takes every record and formats it.
use std::fmt::Write;
use std::sync::atomic::{AtomicU64, Ordering};
static SEEN: AtomicU64 = AtomicU64::new(0);
struct Sink;
#[cfg(feature = "log")]
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let mut s = String::new();
        let _ = write!(s, "{}", r.args());
        SEEN.fetch_add(s.len() as u64, Ordering::Relaxed);
    }
    fn flush(&self) {}
}
#[cfg(feature = "log")]
pub fn install() {
    log::set_logger(&Sink).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
}
#[cfg(feature = "tracing")]
struct Text(String);
#[cfg(feature = "tracing")]
impl tracing::field::Visit for Text {
    fn record_debug(&mut self, _: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        let _ = write!(self.0, "{v:?}");
    }
}
#[cfg(feature = "tracing")]
impl tracing::Subscriber for Sink {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        let mut t = Text(String::new());
        e.record(&mut t);
        SEEN.fetch_add(t.0.len() as u64, Ordering::Relaxed);
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
#[cfg(feature = "tracing")]
pub fn install() {
    tracing::subscriber::set_global_default(Sink).unwrap();
}
