//! tokio's synchronisation primitives are real; its runtime, timers and
//! thread pool are the simulator's.
pub use real::{join, select, try_join, pin};
pub use real::sync;

pub use task::spawn;

pub mod task {
    pub use simrt::{JoinHandle, JoinError};
    use std::future::Future;
    pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
        where F: Future + Send + 'static, F::Output: Send + 'static
    {
        simrt::spawn(f)
    }
    pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
        where F: FnOnce() -> R + Send + 'static, R: Send + 'static
    {
        simrt::spawn_blocking(f)
    }
    pub async fn yield_now() { simrt::yield_now().await }
}

pub mod runtime {
    /// A handle to the (only) runtime
    #[derive(Clone, Debug)]
    pub struct Handle;
    impl Handle {
        pub fn current() -> Self { Handle }
        pub fn spawn<F>(&self, f: F) -> simrt::JoinHandle<F::Output>
            where F: std::future::Future + Send + 'static, F::Output: Send + 'static
        {
            simrt::spawn(f)
        }
    }
}

pub mod time {
    pub use std::time::Duration;
    use std::future::Future;
    use std::ops::{Add, AddAssign, Sub};
    use std::pin::Pin;
    use std::task::{Context, Poll};

    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Instant(u64);

    fn ns(d: Duration) -> u64 { u64::try_from(d.as_nanos()).unwrap_or(u64::MAX) }

    impl Instant {
        pub fn now() -> Self { Instant(simrt::now_ns()) }
        pub fn elapsed(&self) -> Duration { Duration::from_nanos(simrt::now_ns().saturating_sub(self.0)) }
        pub fn duration_since(&self, o: Instant) -> Duration { Duration::from_nanos(self.0.saturating_sub(o.0)) }
        pub fn saturating_duration_since(&self, o: Instant) -> Duration { self.duration_since(o) }
        pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
            self.0.checked_sub(o.0).map(Duration::from_nanos)
        }
        pub fn checked_add(&self, d: Duration) -> Option<Instant> { self.0.checked_add(ns(d)).map(Instant) }
    }
    impl Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant { Instant(self.0.saturating_add(ns(d))) }
    }
    impl AddAssign<Duration> for Instant {
        fn add_assign(&mut self, d: Duration) { *self = *self + d; }
    }
    impl Sub<Duration> for Instant {
        type Output = Instant;
        fn sub(self, d: Duration) -> Instant { Instant(self.0.saturating_sub(ns(d))) }
    }
    impl Sub<Instant> for Instant {
        type Output = Duration;
        fn sub(self, o: Instant) -> Duration { self.duration_since(o) }
    }

    pub struct Sleep(simrt::SleepNs);
    impl Future for Sleep {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            Pin::new(&mut self.0).poll(cx)
        }
    }
    pub fn sleep(d: Duration) -> Sleep { Sleep(simrt::sleep_ns(ns(d))) }
    pub fn sleep_until(i: Instant) -> Sleep { Sleep(simrt::sleep_until_ns(i.0)) }

    pub mod error {
        #[derive(Debug, PartialEq, Eq)]
        pub struct Elapsed(pub(super) ());
        impl std::fmt::Display for Elapsed {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("deadline has elapsed") }
        }
        impl std::error::Error for Elapsed {}
    }
    pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, error::Elapsed> {
        let mut f = std::pin::pin!(f);
        let mut s = std::pin::pin!(sleep(d));
        std::future::poll_fn(move |cx| {
            if let Poll::Ready(v) = f.as_mut().poll(cx) { return Poll::Ready(Ok(v)); }
            if s.as_mut().poll(cx).is_ready() { return Poll::Ready(Err(error::Elapsed(()))); }
            Poll::Pending
        }).await
    }

    #[derive(Debug)]
    pub struct Interval { next: Instant, period: Duration }
    impl Interval {
        pub async fn tick(&mut self) -> Instant {
            sleep_until(self.next).await;
            let n = self.next;
            self.next = n + self.period;
            n
        }
    }
    pub fn interval(p: Duration) -> Interval { Interval { next: Instant::now(), period: p } }
}
