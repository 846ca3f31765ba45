//! Concrete runs that show the recorded findings (replayed natively only).
use bnf::*;
pub fn k02_cycle() {
    let g: Grammar = "<s> ::= <s> | 'a'".parse().unwrap();
    let p = g.build_parser().unwrap();
    super::rt::check(p.parse_input("ab").next().is_none(), "no derivation, no tree");
}
pub fn k07_nesting() {
    let s = format!("<a> ::= {}'x'{}", "(".repeat(200_000), ")".repeat(200_000));
    super::rt::observe(s.parse::<Grammar>().is_ok() as u64);
}
