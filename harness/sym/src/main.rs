//! Symbolic build: compiled to LLVM IR only, executed by /verif/engine/rsym.
#[path = "../../props/mod.rs"]
mod props;
use std::alloc::{GlobalAlloc, Layout};
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe { props::rt::rsym_alloc(l.size(), l.align()) }
    }
    unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}
}
#[global_allocator]
static GLOBAL: A = A;
fn main() {
    for e in props::ENTRIES {
        std::hint::black_box(e);
    }
}
