//! Byte search with plain loops: the real crate picks vector code with `cpuid`, which has no IR.
//! Same results as the real crate; the native replay uses the real one.
#![no_std]
pub fn memchr(a: u8, h: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < h.len() {
        if h[i] == a {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn memchr2(a: u8, b: u8, h: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < h.len() {
        if h[i] == a || h[i] == b {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn memchr3(a: u8, b: u8, c: u8, h: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < h.len() {
        if h[i] == a || h[i] == b || h[i] == c {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn memrchr(a: u8, h: &[u8]) -> Option<usize> {
    let mut i = h.len();
    while i > 0 {
        i -= 1;
        if h[i] == a {
            return Some(i);
        }
    }
    None
}
pub fn memrchr2(a: u8, b: u8, h: &[u8]) -> Option<usize> {
    let mut i = h.len();
    while i > 0 {
        i -= 1;
        if h[i] == a || h[i] == b {
            return Some(i);
        }
    }
    None
}
pub struct Memchr<'h> {
    a: u8,
    h: &'h [u8],
    i: usize,
}
pub fn memchr_iter(a: u8, h: &[u8]) -> Memchr<'_> {
    Memchr { a, h, i: 0 }
}
impl Iterator for Memchr<'_> {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        let k = memchr(self.a, &self.h[self.i..])? + self.i;
        self.i = k + 1;
        Some(k)
    }
}
pub mod memmem {
    pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
        let mut i = 0;
        while i + n.len() <= h.len() {
            if &h[i..i + n.len()] == n {
                return Some(i);
            }
            i += 1;
        }
        None
    }
}
