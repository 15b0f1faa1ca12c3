//! The metrics allocator only adds metrics to the system's allocator: requests and results are handed over as they are
use crate::{util::*, system::{self, *}};
use std::alloc::GlobalAlloc;

const N: usize = 2;
fn any_allocator() -> MetricsAllocator<'static, N> {
    verif::allocator::<N>(kani::any(), kani::any(), kani::any())
}

#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(std::hint::spin_loop, nothing_stub)]
#[kani::stub(std::thread::yield_now, nothing_stub)]
fn requests_are_handed_over() {
    let allocator = any_allocator();
    let layout = any_layout();
    let ptr: usize = kani::any();
    let new_size: usize = kani::any();
    let operation = match kani::any::<u8>() { 0 => Operation::Alloc, 1 => Operation::AllocZeroed, 2 => Operation::Realloc, _ => Operation::Dealloc };
    let answer = system::any_answer();
    let returned = unsafe {
        match operation {
            Operation::Alloc => allocator.alloc(layout) as usize,
            Operation::AllocZeroed => allocator.alloc_zeroed(layout) as usize,
            Operation::Realloc => allocator.realloc(ptr as *mut u8, layout, new_size) as usize,
            Operation::Dealloc => { allocator.dealloc(ptr as *mut u8, layout); answer },
        }
    };
    unsafe {
        let request = REQUESTS.last;
        assert!(REQUESTS.count == 1, "the system gets each request once");
        assert!(request.operation == operation, "the system gets the same operation");
        assert!((request.size, request.align) == (layout.size(), layout.align()), "the system gets the same layout");
        assert!(operation == Operation::Alloc || operation == Operation::AllocZeroed || request.ptr == ptr, "the system gets the same pointer");
        assert!(operation != Operation::Realloc || request.new_size == new_size, "the system gets the same new size");
        assert!(returned == answer, "the caller gets what the system gave");
        kani::cover!(returned == 0 && operation == Operation::Realloc, "refused");
        kani::cover!(returned != 0 && operation == Operation::Alloc, "granted");
        kani::cover!(operation == Operation::Dealloc, "released");
    }
    std::mem::forget(allocator);
}
