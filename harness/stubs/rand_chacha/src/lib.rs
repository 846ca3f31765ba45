//! Model of `rand_chacha`: the keystream is an arbitrary function of (seed, position).
//! Under symbolic execution `rsym_rng` returns an unconstrained word per (seed, position), the same one
//! for the same seed and position; in a native replay it pops the word from the replay script.
#![no_std]
use rand_core::block::{BlockRngCore, CryptoBlockRng};
use rand_core::{CryptoRng, RngCore, SeedableRng};
pub use rand_core;

extern "C" {
    fn rsym_rng(seed: *const u8, len: usize, ctr: u64) -> u64;
}
fn word(seed: &[u8; 32], ctr: &mut u64) -> u64 {
    let c = *ctr;
    *ctr = c + 1;
    unsafe { rsym_rng(seed.as_ptr(), 32, c) }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ChaCha12Rng {
    seed: [u8; 32],
    ctr: u64,
}
impl SeedableRng for ChaCha12Rng {
    type Seed = [u8; 32];
    fn from_seed(seed: [u8; 32]) -> Self {
        ChaCha12Rng { seed, ctr: 0 }
    }
}
impl RngCore for ChaCha12Rng {
    fn next_u32(&mut self) -> u32 {
        word(&self.seed, &mut self.ctr) as u32
    }
    fn next_u64(&mut self) -> u64 {
        word(&self.seed, &mut self.ctr)
    }
    fn fill_bytes(&mut self, dst: &mut [u8]) {
        for c in dst.chunks_mut(8) {
            let w = word(&self.seed, &mut self.ctr).to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
}
impl CryptoRng for ChaCha12Rng {}

#[derive(Clone, Debug)]
pub struct ChaCha12Core {
    seed: [u8; 32],
    ctr: u64,
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Block([u32; 8]);
impl AsRef<[u32]> for Block {
    fn as_ref(&self) -> &[u32] {
        &self.0
    }
}
impl AsMut<[u32]> for Block {
    fn as_mut(&mut self) -> &mut [u32] {
        &mut self.0
    }
}
impl SeedableRng for ChaCha12Core {
    type Seed = [u8; 32];
    fn from_seed(seed: [u8; 32]) -> Self {
        ChaCha12Core { seed, ctr: 0 }
    }
}
impl BlockRngCore for ChaCha12Core {
    type Item = u32;
    type Results = Block;
    fn generate(&mut self, r: &mut Block) {
        for x in r.0.iter_mut() {
            *x = word(&self.seed, &mut self.ctr) as u32;
        }
    }
}
impl CryptoBlockRng for ChaCha12Core {}
pub type ChaCha8Rng = ChaCha12Rng;
pub type ChaCha20Rng = ChaCha12Rng;
pub type ChaCha8Core = ChaCha12Core;
pub type ChaCha20Core = ChaCha12Core;
pub type ChaChaRng = ChaCha12Rng;
pub type ChaChaCore = ChaCha12Core;
