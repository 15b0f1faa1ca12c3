//! Stand-in for `keen-retry` 0.5 (trusted contract -- see DESIGN.md): same types, same control flow, no logging, no sleeping.
//!
//! Contract, as read from keen-retry 0.5.3's sources:
//!   * `Ok` & `Fatal` first outcomes are final -- and never retried;
//!   * after a `Transient` outcome, the operation is rerun -- with the input carried by that outcome -- once for each delay yielded by the
//!     given iterator, until it results in `Ok` (=> `Recovered`) or `Fatal` (=> `Unrecoverable`);
//!   * when there are no more delays, `GivenUp` is the final outcome, bearing the last transient error.
use std::time::Duration;
use std::future::Future;
pub enum RetryResult<ReportedInput, OriginalInput, Output, ErrorType> {
    Ok { reported_input: ReportedInput, output: Output },
    Transient { input: OriginalInput, error: ErrorType },
    Fatal { input: OriginalInput, error: ErrorType },
}
pub type RetryProducerResult<Output, ErrorType> = RetryResult<(), (), Output, ErrorType>;
pub enum ResolvedResult<ReportedInput, OriginalInput, Output, ErrorType> {
    Ok { reported_input: ReportedInput, output: Output },
    Fatal { input: OriginalInput, error: ErrorType },
    Recovered { reported_input: ReportedInput, output: Output, retry_errors: Vec<ErrorType> },
    GivenUp { input: OriginalInput, retry_errors: Vec<ErrorType>, fatal_error: ErrorType },
    Unrecoverable { input: OriginalInput, retry_errors: Vec<ErrorType>, fatal_error: ErrorType },
}
pub fn loggable_retry_errors<ErrorType: std::fmt::Debug>(_e: &Vec<ErrorType>) -> String { String::new() }
pub struct Executor<R, O, Out, E, F> { first: RetryResult<R, O, Out, E>, op: F }
pub struct AsyncExecutor<R, O, Out, E, F> { first: RetryResult<R, O, Out, E>, op: F }
impl<R, O, Out, E> RetryResult<R, O, Out, E> {
    pub fn retry_with<F: FnMut(O) -> RetryResult<R, O, Out, E>>(self, op: F) -> Executor<R, O, Out, E, F> { Executor { first: self, op } }
    pub fn retry_with_async<F: FnMut(O) -> Fut, Fut: Future<Output=RetryResult<R, O, Out, E>>>(self, op: F) -> AsyncExecutor<R, O, Out, E, F> { AsyncExecutor { first: self, op } }
    pub fn is_ok(&self) -> bool { matches!(self, RetryResult::Ok {..}) }
    pub fn is_transient(&self) -> bool { matches!(self, RetryResult::Transient {..}) }
    pub fn is_fatal(&self) -> bool { matches!(self, RetryResult::Fatal {..}) }
    pub fn is_err(&self) -> bool { !self.is_ok() }
}
impl<R, O, Out, E> ResolvedResult<R, O, Out, E> {
    pub fn is_ok(&self) -> bool { matches!(self, ResolvedResult::Ok {..} | ResolvedResult::Recovered {..}) }
    pub fn is_err(&self) -> bool { !self.is_ok() }
}
macro_rules! retry_loop {
    ($self: ident, $delays: ident, $($await: tt)*) => {{
        let (mut input, mut last) = match $self.first {
            RetryResult::Ok { reported_input, output } => return ResolvedResult::Ok { reported_input, output },
            RetryResult::Fatal { input, error } => return ResolvedResult::Fatal { input, error },
            RetryResult::Transient { input, error } => (input, error),
        };
        loop {
            match $delays.next() {
                None => return ResolvedResult::GivenUp { input, retry_errors: Vec::new(), fatal_error: last },
                Some(_delay) => match ($self.op)(input)$($await)* {
                    RetryResult::Ok { reported_input, output } => { std::mem::forget(last); return ResolvedResult::Recovered { reported_input, output, retry_errors: Vec::new() } },
                    RetryResult::Fatal { input, error } => { std::mem::forget(last); return ResolvedResult::Unrecoverable { input, retry_errors: Vec::new(), fatal_error: error } },
                    RetryResult::Transient { input: i, error } => { input = i; std::mem::forget(last); last = error; }
                }
            }
        }
    }}
}
impl<R, O, Out, E, F: FnMut(O) -> RetryResult<R, O, Out, E>> Executor<R, O, Out, E, F> {
    pub fn with_delays(mut self, mut delays: impl Iterator<Item=Duration>) -> ResolvedResult<R, O, Out, E> {
        retry_loop!(self, delays,)
    }
}
impl<R, O, Out, E, F: FnMut(O) -> Fut, Fut: Future<Output=RetryResult<R, O, Out, E>>> AsyncExecutor<R, O, Out, E, F> {
    pub async fn with_delays(mut self, mut delays: impl Iterator<Item=Duration>) -> ResolvedResult<R, O, Out, E> {
        retry_loop!(self, delays, .await)
    }
}
