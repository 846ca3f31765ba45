//! Reference reading of grammar text: an independent recursive-descent parser for the documented BNF and
//! ABNF notations, and a comparison of what it reads with the `Grammar` the library built.
use super::rt::*;
use bnf::{Grammar, Production, Term};

#[derive(Clone, Copy, PartialEq)]
pub enum Fmt {
    Bnf,
    Abnf,
}
/// A half-open byte range of the source.
pub type Span = (usize, usize);
pub enum RTerm {
    T(Span),
    N(Span),
    Group(Vec<Vec<RTerm>>),
    Opt(Vec<Vec<RTerm>>),
}
pub struct RProd {
    pub lhs: Span,
    pub rhs: Vec<Vec<RTerm>>,
}
pub struct Reader<'a> {
    pub s: &'a [u8],
    pub fmt: Fmt,
    pub extended: bool,
}
pub fn is_ws(c: u32) -> bool {
    (c >= 9) & (c <= 13) | (c == 32) || c >= 0x80 && (c == 0x85 || c == 0xa0 || c == 0x1680 || (0x2000..=0x200a).contains(&c) || c == 0x2028 || c == 0x2029 || c == 0x202f || c == 0x205f || c == 0x3000)
}
fn is_alpha(c: u32) -> bool {
    (c >= b'a' as u32) & (c <= b'z' as u32) | (c >= b'A' as u32) & (c <= b'Z' as u32) || c >= 0x80 && char::from_u32(c).is_some_and(|x| x.is_alphabetic())
}
type P<T> = Option<(usize, T)>;
impl Reader<'_> {
    fn at(&self, i: usize) -> Option<(u32, usize)> {
        let b = *self.s.get(i)? as u32;
        if b < 0x80 {
            return Some((b, 1));
        }
        let (n, mut c) = if b >= 0xf0 { (4, b & 7) } else if b >= 0xe0 { (3, b & 15) } else { (2, b & 31) };
        for k in 1..n {
            c = c << 6 | (self.s[i + k] as u32 & 63);
        }
        Some((c, n))
    }
    fn is(&self, i: usize, c: u8) -> bool {
        i < self.s.len() && self.s[i] == c
    }
    fn sep_at(&self, i: usize) -> Option<usize> {
        match self.fmt {
            Fmt::Bnf => (self.is(i, b':') && self.is(i + 1, b':') && self.is(i + 2, b'=')).then_some(i + 3),
            Fmt::Abnf => self.is(i, b'=').then_some(i + 1),
        }
    }
    fn alt_char(&self) -> u8 {
        if self.fmt == Fmt::Bnf { b'|' } else { b'/' }
    }
    pub fn ws(&self, mut i: usize) -> usize {
        while let Some((c, n)) = self.at(i) {
            if is_ws(c) {
                i += n;
            } else if c == b';' as u32 {
                i += 1;
                while i < self.s.len() && self.s[i] != b'\r' && self.s[i] != b'\n' {
                    i += 1;
                }
            } else {
                break;
            }
        }
        i
    }
    fn name(&self, i: usize) -> P<Span> {
        match self.fmt {
            Fmt::Bnf => {
                if !self.is(i, b'<') {
                    return None;
                }
                let mut j = i + 1;
                while j < self.s.len() {
                    if self.s[j] == b'>' {
                        return Some((j + 1, (i + 1, j)));
                    }
                    j += 1;
                }
                None
            }
            Fmt::Abnf => {
                let (c, _) = self.at(i)?;
                if !is_alpha(c) {
                    return None;
                }
                let mut j = i;
                while let Some((c, n)) = self.at(j) {
                    if is_ws(c) || c == b')' as u32 || c == b']' as u32 {
                        break;
                    }
                    j += n;
                }
                Some((j, (i, j)))
            }
        }
    }
    fn literal(&self, i: usize) -> P<Span> {
        for q in [b'"', b'\''] {
            if self.is(i, q) {
                let mut j = i + 1;
                while j < self.s.len() {
                    if self.s[j] == q {
                        return Some((j + 1, (i + 1, j)));
                    }
                    j += 1;
                }
                return None;
            }
        }
        None
    }
    pub fn term(&self, i: usize) -> P<RTerm> {
        if let Some((j, s)) = self.literal(i) {
            return Some((self.ws(j), RTerm::T(s)));
        }
        if let Some((j, s)) = self.name(i) {
            return Some((self.ws(j), RTerm::N(s)));
        }
        if !self.extended {
            return None;
        }
        for (open, close) in [(b'(', b')'), (b'[', b']')] {
            if self.is(i, open) {
                let (j, alts) = self.alternatives(self.ws(i + 1))?;
                if !self.is(j, close) {
                    return None;
                }
                let j = self.ws(j + 1);
                return Some((j, if open == b'(' { RTerm::Group(alts) } else { RTerm::Opt(alts) }));
            }
        }
        None
    }
    pub fn sequence(&self, mut i: usize) -> P<Vec<RTerm>> {
        let mut v = Vec::new();
        while let Some((j, t)) = self.term(i) {
            if self.sep_at(j).is_some() {
                break;
            }
            v.push(t);
            i = j;
        }
        if v.is_empty() { None } else { Some((i, v)) }
    }
    pub fn alternatives(&self, mut i: usize) -> P<Vec<Vec<RTerm>>> {
        let mut v = Vec::new();
        loop {
            let (j, s) = self.sequence(i)?;
            v.push(s);
            if !self.is(j, self.alt_char()) {
                return Some((j, v));
            }
            i = self.ws(j + 1);
        }
    }
    fn lhs(&self, i: usize) -> P<Span> {
        let (j, s) = self.name(i)?;
        let mut j = self.sep_at(self.ws(j))?;
        if self.is(j, self.alt_char()) {
            j += 1;
        }
        Some((self.ws(j), s))
    }
    pub fn production(&self, i: usize) -> P<RProd> {
        let (j, lhs) = self.lhs(i)?;
        let (j, rhs) = self.alternatives(j)?;
        Some((j, RProd { lhs, rhs }))
    }
    /// The whole text, or None if it is not a grammar.
    pub fn grammar(&self) -> Option<Vec<RProd>> {
        let mut i = self.ws(0);
        let mut v = Vec::new();
        loop {
            let (j, p) = self.production(i)?;
            v.push(p);
            if j == self.s.len() {
                return Some(v);
            }
            i = j;
        }
    }
}
fn sub(s: &str, x: Span) -> &str {
    unsafe { s.get_unchecked(x.0..x.1) }
}
fn names<'a>(s: &'a str, alts: &[Vec<RTerm>], out: &mut Vec<&'a str>, groups: &mut usize) {
    for a in alts {
        for t in a {
            match t {
                RTerm::N(x) => out.push(sub(s, *x)),
                RTerm::T(_) => {}
                RTerm::Group(v) | RTerm::Opt(v) => {
                    *groups += 1;
                    names(s, v, out, groups)
                }
            }
        }
    }
}
struct Matcher<'a> {
    src: &'a str,
    user: Vec<&'a str>,
    fresh: Vec<&'a Production>,
    used: Vec<bool>,
}
impl<'a> Matcher<'a> {
    fn alts(&mut self, p: &Production, alts: &[Vec<RTerm>], opt: bool) -> bool {
        let mut k = 0;
        let mut eps = 0;
        for e in p.rhs_iter() {
            if opt && k == alts.len() || opt && eps == 0 && is_eps(e) && !(k < alts.len() && self.seq_is_eps(&alts[k])) {
                if !is_eps(e) {
                    return false;
                }
                eps += 1;
                continue;
            }
            if k >= alts.len() {
                return false;
            }
            let want = &alts[k];
            k += 1;
            let mut it = e.terms_iter();
            for w in want {
                let Some(t) = it.next() else { return false };
                if !self.term(t, w) {
                    return false;
                }
            }
            if it.next().is_some() {
                return false;
            }
        }
        k == alts.len() && (!opt || eps == 1)
    }
    fn seq_is_eps(&self, s: &[RTerm]) -> bool {
        s.len() == 1 && matches!(&s[0], RTerm::T(x) if x.0 == x.1)
    }
    fn term(&mut self, t: &Term, w: &RTerm) -> bool {
        match (t, w) {
            (Term::Terminal(a), RTerm::T(x)) => same(a, sub(self.src, *x)),
            (Term::Nonterminal(a), RTerm::N(x)) => same(a, sub(self.src, *x)),
            (Term::Nonterminal(a), RTerm::Group(v) | RTerm::Opt(v)) => {
                // a fresh name, defined exactly once, used nowhere else
                for u in self.user.iter() {
                    if same(u, a) {
                        return false;
                    }
                }
                for i in 0..self.fresh.len() {
                    let p = self.fresh[i];
                    if let Term::Nonterminal(n) = &p.lhs
                        && same(n, a)
                    {
                        if self.used[i] {
                            return false;
                        }
                        self.used[i] = true;
                        return self.alts(p, v, matches!(w, RTerm::Opt(_)));
                    }
                }
                false
            }
            _ => false,
        }
    }
}
fn is_eps(e: &bnf::Expression) -> bool {
    let mut it = e.terms_iter();
    let a = it.next();
    it.next().is_none() && matches!(a, Some(Term::Terminal(s)) if s.is_empty())
}
/// Does the grammar say exactly what the reference read? Groups and optionals must be replaced by
/// nonterminals with fresh names, each defined once, after the user's productions.
pub fn agrees(g: &Grammar, src: &str, want: &[RProd]) -> bool {
    let mut user = Vec::new();
    let mut groups = 0;
    for p in want {
        user.push(sub(src, p.lhs));
        names(src, &p.rhs, &mut user, &mut groups);
    }
    let all: Vec<&Production> = g.productions_iter().collect();
    if all.len() != want.len() + groups {
        return false;
    }
    let (mine, fresh) = all.split_at(want.len());
    let used = vec![false; fresh.len()];
    let mut m = Matcher { src, user, fresh: fresh.to_vec(), used };
    for (p, w) in mine.iter().zip(want) {
        let Term::Nonterminal(l) = &p.lhs else { return false };
        if !same(l, sub(src, w.lhs)) || !m.alts(p, &w.rhs, false) {
            return false;
        }
    }
    m.used.iter().all(|x| *x)
}
pub fn term_agrees(t: &Term, src: &str, w: &RTerm) -> bool {
    Matcher { src, user: vec![], fresh: vec![], used: vec![] }.term(t, w)
}
pub fn prod_agrees(p: &Production, src: &str, w: &RProd) -> bool {
    let Term::Nonterminal(l) = &p.lhs else { return false };
    same(l, sub(src, w.lhs)) && Matcher { src, user: vec![], fresh: vec![], used: vec![] }.alts(p, &w.rhs, false)
}
pub fn expr_agrees(e: &bnf::Expression, src: &str, w: &[RTerm]) -> bool {
    let mut m = Matcher { src, user: vec![], fresh: vec![], used: vec![] };
    let mut it = e.terms_iter();
    for x in w {
        let Some(t) = it.next() else { return false };
        if !m.term(t, x) {
            return false;
        }
    }
    it.next().is_none()
}
