//! Model of the operating system's entropy source: arbitrary words.
use std::sync::atomic::{AtomicU64, Ordering};
extern "C" {
    fn rsym_rng(seed: *const u8, len: usize, ctr: u64) -> u64;
}
static NEXT: AtomicU64 = AtomicU64::new(0);
fn word() -> u64 {
    let k = NEXT.load(Ordering::Relaxed);
    NEXT.store(k + 1, Ordering::Relaxed);
    unsafe { rsym_rng(b"os-entropy".as_ptr(), 10, k) }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Error(());
impl Error {
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("getrandom")
    }
}
impl std::error::Error for Error {}
pub fn fill(dest: &mut [u8]) -> Result<(), Error> {
    for c in dest.chunks_mut(8) {
        let w = word().to_le_bytes();
        c.copy_from_slice(&w[..c.len()]);
    }
    Ok(())
}
pub fn u32() -> Result<u32, Error> {
    Ok(word() as u32)
}
pub fn u64() -> Result<u64, Error> {
    Ok(word())
}
