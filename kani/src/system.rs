//! The contract of the system's allocator -- each request is either granted (giving a pointer) or refused (giving null).
pub use big_o_test::metrics_allocator::verif::{Operation, Request, REQUESTS};
use std::alloc::Layout;

/// whatever is requested next to the system's allocator gets an arbitrary answer -- which is returned
pub fn any_answer() -> usize {
    let answer = if kani::any() { 0 } else { kani::any() };
    unsafe {
        REQUESTS.answer = Some(answer);
        REQUESTS.count = 0;
    }
    answer
}

pub fn any_layout() -> Layout {
    let (size, shift): (usize, u32) = (kani::any(), kani::any());
    kani::assume(shift < 30);
    let align = 1usize << shift;
    kani::assume(size <= isize::MAX as usize - (align - 1));
    unsafe { Layout::from_size_align_unchecked(size, align) }
}
