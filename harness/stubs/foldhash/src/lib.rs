//! Model of the `foldhash` crate for symbolic execution.
//!
//! Any deterministic function of the hashed value is a legal hash. This one mixes integers and the
//! *lengths* of byte strings but not their contents, so symbolic names never make a hash symbolic;
//! names are told apart by the real `Eq` implementations. Every `RandomState` gets its own seed, as in
//! the real crate, so that iteration orders differ between two tables.
#![no_std]
pub mod fast {
    use core::hash::{BuildHasher, Hasher};
    use core::sync::atomic::{AtomicU64, Ordering};
    static NEXT: AtomicU64 = AtomicU64::new(1);
    #[derive(Clone, Copy, Debug)]
    pub struct RandomState(u64);
    impl Default for RandomState {
        fn default() -> Self {
            let k = NEXT.load(Ordering::Relaxed);
            NEXT.store(k + 1, Ordering::Relaxed);
            RandomState(k.wrapping_mul(0x9e37_79b9_7f4a_7c15))
        }
    }
    impl BuildHasher for RandomState {
        type Hasher = FoldHasher;
        #[inline]
        fn build_hasher(&self) -> FoldHasher {
            FoldHasher(self.0)
        }
    }
    #[derive(Clone)]
    pub struct FoldHasher(u64);
    impl FoldHasher {
        #[inline]
        fn mix(&mut self, x: u64) {
            let h = (self.0 ^ x).wrapping_mul(0xff51_afd7_ed55_8ccd);
            self.0 = h ^ (h >> 32);
        }
    }
    impl Hasher for FoldHasher {
        #[inline]
        fn write(&mut self, b: &[u8]) {
            self.mix(b.len() as u64 + 77);
        }
        #[inline]
        fn write_u8(&mut self, _: u8) {
            self.mix(3);
        }
        #[inline]
        fn write_u32(&mut self, x: u32) {
            self.mix(x as u64);
        }
        #[inline]
        fn write_u64(&mut self, x: u64) {
            self.mix(x);
        }
        #[inline]
        fn write_usize(&mut self, x: usize) {
            self.mix(x as u64);
        }
        #[inline]
        fn write_isize(&mut self, x: isize) {
            self.mix(x as u64);
        }
        #[inline]
        fn finish(&self) -> u64 {
            self.0
        }
    }
}
