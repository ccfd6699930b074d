//! Stand-in for tracing-futures: tracing is off in the simulator.
pub trait Instrument: Sized {
    fn instrument(self, _s: tracing::Span) -> Self { self }
    fn in_current_span(self) -> Self { self }
}
impl<T: Sized> Instrument for T {}
