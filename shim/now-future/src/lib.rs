//! Futures which never wait -- what `std::future` is replaced by in the extraction of the async code (see ../../../tools/thunks.py).
//! As std's, these futures do nothing until awaited for -- and run to completion then.
use std::pin::Pin;
use std::ops::DerefMut;

pub trait Future {
    type Output;
    /// runs this future to completion -- to be called once
    fn complete(&mut self) -> Self::Output;
}
/// what `.await` is replaced by
pub trait Now: Future + Sized {
    fn now(mut self) -> Self::Output { self.complete() }
}
impl<F: Future + Sized> Now for F {}

impl<F: Future + ?Sized> Future for Pin<Box<F>> {
    type Output = F::Output;
    fn complete(&mut self) -> F::Output { unsafe { self.as_mut().get_unchecked_mut() }.complete() }
}
impl<F: Future + ?Sized> Future for Box<F> {
    type Output = F::Output;
    fn complete(&mut self) -> F::Output { self.deref_mut().complete() }
}
impl<F: Future + ?Sized> Future for &mut F {
    type Output = F::Output;
    fn complete(&mut self) -> F::Output { (**self).complete() }
}

/// an async block or the body of an async function
pub struct Lazy<Body>(Option<Body>);
pub fn lazy<R, Body: FnOnce() -> R>(body: Body) -> Lazy<Body> { Lazy(Some(body)) }
impl<R, Body: FnOnce() -> R> Future for Lazy<Body> {
    type Output = R;
    fn complete(&mut self) -> R { (self.0.take().expect("futures are awaited for once"))() }
}

pub struct Ready<T>(Option<T>);
pub fn ready<T>(value: T) -> Ready<T> { Ready(Some(value)) }
impl<T> Ready<T> { pub fn into_inner(self) -> T { self.0.unwrap() } }
impl<T> Future for Ready<T> {
    type Output = T;
    fn complete(&mut self) -> T { self.0.take().expect("futures are awaited for once") }
}

pub trait IntoFuture { type Output; type IntoFuture: Future<Output=Self::Output>; fn into_future(self) -> Self::IntoFuture; }
impl<F: Future> IntoFuture for F { type Output = F::Output; type IntoFuture = F; fn into_future(self) -> F { self } }
