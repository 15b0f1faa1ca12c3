//! Sequential stand-in for the scoped threads of crossbeam 0.8 -- each spawned closure runs to completion when spawned
pub mod thread {
    use std::marker::PhantomData;
    /// which thread is running: `NONE` for the main one; 0.. for the spawned ones
    pub const NONE: usize = 0xCB0B_0001;
    pub static mut RUNNING: usize = NONE;
    /// `THREADS.1`: the number of spawned threads
    pub static mut THREADS: (usize, usize) = (0xCB0B_0002, 0);
    pub type Result<T> = std::result::Result<T, Box<dyn std::any::Any + Send + 'static>>;
    pub struct Scope<'env> { _p: PhantomData<&'env mut &'env ()> }
    pub struct ScopedJoinHandle<'scope, T> { r: T, _p: PhantomData<&'scope ()> }
    impl<'scope, T> ScopedJoinHandle<'scope, T> { pub fn join(self) -> Result<T> { Ok(self.r) } }
    impl<'env> Scope<'env> {
        pub fn spawn<'scope, F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
        where F: FnOnce(&Scope<'env>) -> T + Send + 'env, T: Send + 'env {
            unsafe { RUNNING = THREADS.1; THREADS.1 += 1; }
            let r = f(self);
            unsafe { RUNNING = NONE; }
            ScopedJoinHandle { r, _p: PhantomData }
        }
    }
    pub fn scope<'env, F, R>(f: F) -> Result<R> where F: FnOnce(&Scope<'env>) -> R {
        Ok(f(&Scope { _p: PhantomData }))
    }
}
pub use thread::scope;
