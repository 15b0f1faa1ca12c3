//! The API of ../../shim/now-future over real futures
pub use std::future::{ready, Future};
pub trait Now: Future + Sized {
    fn now(self) -> Self::Output {
        let mut future = std::pin::pin!(self);
        let mut context = std::task::Context::from_waker(std::task::Waker::noop());
        loop {
            if let std::task::Poll::Ready(r) = future.as_mut().poll(&mut context) { return r }
        }
    }
}
impl<F: Future + Sized> Now for F {}
