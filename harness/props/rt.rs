//! Interface to the symbolic executor (or, natively, to the replay script).
use bnf::{Expression, Grammar, Production, Term};
#[allow(dead_code)]
unsafe extern "C-unwind" {
    fn rsym_u8() -> u8;
    fn rsym_u32() -> u32;
    fn rsym_u64() -> u64;
    fn rsym_choice(n: u32) -> u32;
    fn rsym_shard(n: u32) -> u32;
    fn rsym_tier() -> u32;
    fn rsym_assume(c: bool);
    fn rsym_check(c: bool, p: *const u8, n: usize);
    fn rsym_observe(v: u64);
    fn rsym_reach(p: *const u8, n: usize);
    fn rsym_show(p: *const u8, n: usize);
    fn rsym_rng(seed: *const u8, len: usize, ctr: u64) -> u64;
    #[cfg(feature = "sym")]
    pub fn rsym_alloc(n: usize, a: usize) -> *mut u8;
}
/// An unconstrained byte / word.
pub fn any_u8() -> u8 {
    unsafe { rsym_u8() }
}
pub fn any_u32() -> u32 {
    unsafe { rsym_u32() }
}
pub fn any_u64() -> u64 {
    unsafe { rsym_u64() }
}
/// Word `ctr` of the random stream of `seed`.
pub fn rng_word(seed: &[u8; 32], ctr: u64) -> u64 {
    unsafe { rsym_rng(seed.as_ptr(), 32, ctr) }
}
/// Case split: every value of `0..n` is explored as a separate path.
pub fn choice(n: usize) -> usize {
    unsafe { rsym_choice(n as u32) as usize }
}
/// Case split handed out to worker processes; called once, first.
pub fn shard(n: usize) -> usize {
    unsafe { rsym_shard(n as u32) as usize }
}
/// 0: quick bounds, 1: thorough bounds.
pub fn thorough() -> bool {
    unsafe { rsym_tier() != 0 }
}
pub fn pick(quick: usize, thoroughly: usize) -> usize {
    if thorough() { thoroughly } else { quick }
}
pub fn assume(c: bool) {
    unsafe { rsym_assume(c) }
}
pub fn check(c: bool, m: &str) {
    unsafe { rsym_check(c, m.as_ptr(), m.len()) }
}
pub fn observe(v: u64) {
    unsafe { rsym_observe(v) }
}
pub fn reach(m: &str) {
    unsafe { rsym_reach(m.as_ptr(), m.len()) }
}
/// Printed by the native replay so that a report shows the offending text.
pub fn show(m: &str) {
    unsafe { rsym_show(m.as_ptr(), m.len()) }
}
pub fn observe_str(s: &str) {
    observe(s.len() as u64);
    for b in s.bytes() {
        observe(b as u64);
    }
}
/// The same byte, but nothing computed from it can be moved before the assumption about it.
pub fn settled(b: u8) -> u8 {
    unsafe { core::ptr::read_volatile(&b) }
}
/// A symbolic ASCII byte.
pub fn ascii() -> u8 {
    let b = any_u8();
    assume(b < 0x80);
    settled(b)
}
/// A symbolic byte of `lo..=hi`.
pub fn byte_in(lo: u8, hi: u8) -> u8 {
    let b = any_u8();
    assume((b >= lo) & (b <= hi));
    settled(b)
}
/// A string of `n` symbolic ASCII bytes.
pub fn ascii_string(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(ascii());
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// A symbolic character of `n` bytes: every character UTF-8 encodes in two, three or four bytes.
pub fn push_wide(n: usize, v: &mut Vec<u8>) {
    let (a, b) = match n {
        2 => (byte_in(0xc2, 0xdf), byte_in(0x80, 0xbf)),
        3 => (byte_in(0xe0, 0xef), byte_in(0x80, 0xbf)),
        _ => (byte_in(0xf0, 0xf4), byte_in(0x80, 0xbf)),
    };
    // no overlong forms, no surrogates, nothing above U+10FFFF
    match n {
        2 => {}
        3 => assume(((a != 0xe0) | (b >= 0xa0)) & ((a != 0xed) | (b < 0xa0))),
        _ => assume(((a != 0xf0) | (b >= 0x90)) & ((a != 0xf4) | (b < 0x90))),
    }
    v.push(a);
    v.push(settled(b));
    for _ in 2..n {
        v.push(byte_in(0x80, 0xbf));
    }
}
const NOTABLE: &[&str] = &["\u{80}", "\u{85}", "\u{a0}", "\u{aa}", "×", "\u{300}", "٣", "ß", "İ", "\u{1680}", "\u{180e}", "\u{200b}", "\u{2028}", "\u{205f}", "\u{2160}", "\u{3000}", "日", "\u{feff}", "＜", "＝", "（", "＇", "𝒜", "😀", "\u{10ffff}"];
/// The text of a template in which every `\x01` is replaced by a fresh symbolic ASCII byte, and every `\x02`,
/// `\x03`, `\x04` by a fresh symbolic character of that many bytes;
/// `\x05` and `\x06` by one of a block of 64, `\x07` by a case split over NOTABLE.
pub fn template(t: &str) -> String {
    let mut v = Vec::with_capacity(t.len() + 8);
    for b in t.bytes() {
        match b {
            1 => v.push(ascii()),
            2..=4 => push_wide(b as usize, &mut v),
            // U+2000 to U+203F, U+3000 to U+303F, and other characters a reader may treat in its own way
            5 => v.extend([0xe2, 0x80, byte_in(0x80, 0xbf)]),
            6 => v.extend([0xe3, 0x80, byte_in(0x80, 0xbf)]),
            7 => v.extend_from_slice(NOTABLE[choice(NOTABLE.len())].as_bytes()),
            b => v.push(b),
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Byte-wise equality without a data-dependent branch per byte.
pub fn same(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
pub fn t(s: &str) -> Term {
    Term::Terminal(s.to_string())
}
pub fn n(s: &str) -> Term {
    Term::Nonterminal(s.to_string())
}
pub fn e(v: Vec<Term>) -> Expression {
    Expression::from_parts(v)
}
pub fn p(l: &str, v: Vec<Expression>) -> Production {
    Production::from_parts(n(l), v)
}
pub fn g(v: Vec<Production>) -> Grammar {
    Grammar::from_parts(v)
}
/// Structural observation of a grammar, compared between symbolic and native runs.
pub fn observe_grammar(x: &Grammar) {
    for p in x.productions_iter() {
        observe(1000);
        observe_term(&p.lhs);
        for e in p.rhs_iter() {
            observe(1001);
            for t in e.terms_iter() {
                observe_term(t);
            }
        }
    }
}
pub fn observe_term(t: &Term) {
    match t {
        Term::Terminal(s) => {
            observe(1002);
            observe_str(s)
        }
        Term::Nonterminal(s) => {
            observe(1003);
            observe_str(s)
        }
    }
}
