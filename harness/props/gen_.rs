//! Random sentence generation: random words are unconstrained, so every run of the generator is covered.
use super::earley::*;
use super::rt::*;
use bnf::rand::SeedableRng;
use bnf::rand::rngs::StdRng;
use bnf::*;
use std::cell::{Cell, RefCell};

/// Passes on to another strategy; runs that ask for more than `left` choices are left out.
struct Lim<S> {
    inner: S,
    left: usize,
    calls: usize,
}
impl<S: GenerationStrategy> GenerationStrategy for Lim<S> {
    fn choose<'p>(&mut self, production: &'p Production, depth: usize) -> Option<&'p Expression> {
        self.calls += 1;
        assume(self.calls <= self.left);
        let r = self.inner.choose(production, depth);
        check(r.is_some(), "a strategy finds a choice among a production's alternatives");
        check(production.rhs_iter().any(|e| std::ptr::eq(e, r.unwrap())), "a strategy chooses one of the production's alternatives");
        r
    }
}
fn lim<S>(inner: S, left: usize) -> Lim<S> {
    Lim { inner, left, calls: 0 }
}
/// Nonterminals without a production stand for their own name in angle brackets.
fn close(mut g: Gm) -> Gm {
    for k in 0..g.nts {
        if !g.defined(k) {
            g.terms.push(format!("<{}>", NAMES[k]));
            let t = g.terms.len() - 1;
            g.prods.push((k, vec![vec![Sym::T(t)]]));
        }
    }
    g
}
fn member(g: &Gm, s: &str) -> bool {
    derivations(g, s).get(g.prods[0].0, 0, s.len()) > 0
}
fn sentence(r: Result<String, Error>, g: &Gm) -> String {
    check(r.is_ok(), "generation from a grammar in which everything can finish succeeds");
    let s = r.unwrap();
    show(&s);
    check(member(g, &s), "the generated sentence belongs to the grammar's language");
    observe_str(&s);
    s
}
const SEED: [u8; 32] = [7; 32];
/// Runs the generator with each of the strategies the crate offers.
fn with_strategy(gr: &Grammar, which: usize, k: usize) -> Result<String, Error> {
    match which {
        0 => gr.generate_seeded_with_strategy(&mut lim(RandomWalk::from_seed(SEED), k)),
        1 => gr.generate_seeded_with_strategy(&mut lim(DepthBounded::from_seed(choice(3), SEED), k)),
        2 => gr.generate_seeded_with_strategy(&mut lim(CoverageGuided::from_seed(SEED), k)),
        3 => gr.generate_seeded_with_strategy(&mut lim(Weighted::from_seed([0, 1, 3][choice(3)], [0, 1, 2][choice(3)], SEED), k)),
        4 => gr.generate_seeded_with_strategy(&mut lim(RandomWalk::default(), k)),
        5 => gr.generate_seeded_with_strategy(&mut lim(DepthBounded::new(1), k)),
        6 => gr.generate_seeded_with_strategy(&mut lim(CoverageGuided::new(), k)),
        7 => gr.generate_seeded_with_strategy(&mut lim(Weighted::new(2, 1), k)),
        _ => gr.generate_seeded_with_strategy(&mut lim(Weighted::default(), k)),
    }
}
pub const GEN: &[&str] = &[
    "S:a|bS", "S:A|AS;A:a|b|c", "S:aSb|c", "S:SS|a", "S:Aa|bB;A:c|d;B:e|0", "S:0|aA;A:bS|c", "S:a|AB;A:Ba|b;B:c|dA", "S:AAA;A:a|b", "S:aA|b", "S:é|aSé", "A:aS|b;S:c|A", "S:A;A:B;B:a|bS", "S:|aS", "S:aAb;A:|cA|d", "S:a;S:b", "S:A|b;A:aB;B:CC;C:0|c",
    "S:aS|`end of it`", "S:a|b|c|d|e|f|g|h|i|j|k|l|m|n|o|p|q|r|s|u|v|x|y|z|A|B|C|D|E|F|G|H|I|J|K|L|`aa`|`ab`;A:a;B:b;C:c;D:d", "S:ABCDEF;A:a;B:b|A;C:c;D:dEd;E:e|é;F:`日本`", "S:A;A:B;B:C;C:D;D:E;E:F;F:G;G:H;H:I;I:J;J:K;K:x|S", "S:`a b``\"``'`A`<a>`;A:`(,)`|`::=`", "S:ab;S:cA;A:d;A:e;B:f|S;S:B",
];
/// Choices per sentence: grammars in which only one alternative goes on can go further.
fn most(sk: &str, dflt: usize) -> usize {
    match sk {
        "S:a|bS" | "S:aSb|c" | "S:|aS" | "S:aS|`end of it`" | "S:é|aSé" => pick(10, 24),
        "S:A;A:B;B:C;C:D;D:E;E:F;F:G;G:H;H:I;I:J;J:K;K:x|S" => pick(24, 48),
        "S:ABCDEF;A:a;B:b|A;C:c;D:dEd;E:e|é;F:`日本`" => 10,
        _ => dflt,
    }
}
// ---- C14: generated sentences belong to the language ----
pub fn c14_sound() {
    let k = shard(GEN.len() + pick(120, 800));
    let drawn = if k < GEN.len() { String::new() } else { drawn(k - GEN.len()) };
    let sk = if k < GEN.len() { GEN[k] } else { &drawn };
    let g = skeleton(sk);
    let gr = g.grammar();
    show(&gr.to_string());
    let which = choice(if k < GEN.len() { 9 } else { 4 });
    if k >= GEN.len() {
        assume(g.prods.iter().all(|p| p.1.len() > 1 || !p.1[0].is_empty()));
        let r = with_strategy(&gr, which, 3);
        let left_hand_sides = g.prods.len();
        match r {
            Ok(s) => {
                sentence(Ok(s), &close(g));
            }
            Err(Error::GenerateError(_)) => observe(left_hand_sides as u64),
            Err(_) => check(false, "failure is a GenerateError"),
        }
        return;
    }
    let left = match which {
        3 => pick(4, 5),
        7 | 8 => pick(5, 6),
        _ => most(sk, pick(5, 6)),
    };
    let r = with_strategy(&gr, which, left);
    sentence(r, &close(g));
    reach(["RandomWalk", "DepthBounded", "CoverageGuided", "Weighted", "RandomWalk::default", "DepthBounded::new", "CoverageGuided::new", "Weighted::new", "Weighted::default"][which]);
}
const FINITE: &[&str] = &["S:a|b|AB;A:c|0;B:d|e", "S:AA;A:a|bB;B:c|d", "S:aA|B;B:b|c", "S:a|b|c|d|e|f|g|h|i|j|k|l|m|n|o|p|q|r|s|u|v|x|y|z", "S:`long one`|A`x`A;A:é|0|`日`", "S:a;S:b|A;A:c;A:d;A:e|f"];
/// The calls without a strategy argument, on grammars with finitely many sentences: each can come out.
pub fn c14_plain() {
    let k = shard(FINITE.len() * 4);
    let g = skeleton(FINITE[k / 4]);
    let gr = g.grammar();
    show(&gr.to_string());
    let (r, api) = match k % 4 {
        0 => (gr.generate(), "generate"),
        1 => (gr.generate_seeded(&mut StdRng::from_seed(SEED)), "generate_seeded"),
        2 => (gr.generate_callback(|_, _| true), "generate_callback"),
        _ => (gr.generate_seeded_callback(&mut StdRng::from_seed(SEED), |_, _| true), "generate_seeded_callback"),
    };
    let s = sentence(r, &close(g));
    reach(&format!("{api} {s}"));
}
/// Very many alternatives: each can come out of each call.
pub fn c14_wide() {
    let k = shard(8);
    let size = if k < 4 { 70 } else { 300 };
    let gr = match choice(if size < 100 { 2 } else { 1 }) {
        0 => g(vec![wide(size, &[])]),
        _ => g(vec![p("s", (0..size).map(|i| e(vec![t(&format!("{i}")), super::rt::n("x")])).collect()), p("x", vec![e(vec![t("x")])])]),
    };
    let (r, api) = match k % 4 {
        0 => (gr.generate(), "generate"),
        1 => (gr.generate_seeded(&mut StdRng::from_seed(SEED)), "generate_seeded"),
        2 => (gr.generate_callback(|_, _| true), "generate_callback"),
        _ => (gr.generate_seeded_callback(&mut StdRng::from_seed(SEED), |_, _| true), "generate_seeded_callback"),
    };
    check(r.is_ok(), "generation succeeds");
    let s = r.unwrap();
    show(&s);
    let digits = s.strip_prefix('v').or(s.strip_suffix('x'));
    check(digits.and_then(|d| d.parse::<usize>().ok()).is_some_and(|i| i < size), "the sentence is one of the grammar's");
    observe(s.len() as u64);
    reach(&format!("{size} {api} {s}"));
}
/// An alternative per (production, depth), fixed when first asked for.
struct Memo<'a> {
    gr: &'a Grammar,
    left: usize,
    made: Vec<(usize, usize, usize)>,
}
impl GenerationStrategy for Memo<'_> {
    fn choose<'p>(&mut self, production: &'p Production, depth: usize) -> Option<&'p Expression> {
        assume(self.left > 0);
        self.left -= 1;
        let mut pi = usize::MAX;
        for (i, q) in self.gr.productions_iter().enumerate() {
            if std::ptr::eq(q, production) {
                pi = i;
            }
        }
        check(pi != usize::MAX, "the strategy is asked about a production of the grammar");
        let k = match self.made.iter().find(|x| x.0 == pi && x.1 == depth) {
            Some(x) => x.2,
            None => {
                let k = choice(production.len());
                self.made.push((pi, depth, k));
                k
            }
        };
        production.rhs_iter().nth(k)
    }
}
fn expand(g: &Gm, made: &[(usize, usize, usize)], nt: usize, depth: usize, out: &mut Vec<u8>) -> bool {
    if !g.defined(nt) {
        out.extend_from_slice(format!("<{}>", NAMES[nt]).as_bytes());
        return true;
    }
    let Some(x) = made.iter().find(|x| g.prods[x.0].0 == nt && x.1 == depth) else { return false };
    for s in &g.prods[x.0].1[x.2] {
        match s {
            Sym::T(k) => out.extend_from_slice(g.terms[*k].as_bytes()),
            Sym::N(k) => {
                if !expand(g, made, *k, depth + 1, out) {
                    return false;
                }
            }
        }
    }
    true
}
/// A strategy of the user's own decides: the sentence is what its choices spell out, any terminals.
pub fn c14_custom() {
    let sks = ["S:t|tS", "S:AB;A:t|w;B:t|A", "S:At|tB;A:w|0;B:tA", "S:tA|t", "A:tS|t;S:AA|t", "S:SS|t", "S:NNt|t;A:t|tA", "S:éA|t;A:tB|t;B:t|0", "S:ABA;A:B|t;B:t|tt", "S:tS1|t",
        "S:aS1|b|c", "S:A1|aS;A:tSt|t", "S:a|b|c|d|e|f|g|h|i|j|k|l|m|n|o|p|q|r|s|u|v|x|y|z|A|B|C|aa|bb|cc|ab|ac|ad|ae;A:xS|w;B:tt;C:BA", "S:ABCDEFGH;A:t;B:t|A;C:w;D:tEt;E:t|é;F:`日本`;G:0H0;H:tC", "S:aSb|t;S:c", "S:\x02A|t;A:\x03|\x04|t"];
    let sk = sks[shard(sks.len())];
    let g = skeleton(sk);
    let gr = g.grammar();
    show(&gr.to_string());
    let left = match sk {
        "S:tS1|t" | "S:aS1|b|c" => pick(20, 40),
        "S:A1|aS;A:tSt|t" => pick(10, 14),
        "S:ABCDEFGH;A:t;B:t|A;C:w;D:tEt;E:t|é;F:`日本`;G:0H0;H:tC" => 20,
        _ => pick(7, 9),
    };
    let mut m = Memo { gr: &gr, left, made: Vec::new() };
    let r = gr.generate_seeded_with_strategy(&mut m);
    check(r.is_ok(), "generation with choices that finish succeeds");
    let s = r.unwrap();
    let mut want = Vec::new();
    check(expand(&g, &m.made, g.prods[0].0, 0, &mut want), "every expansion asks the strategy, giving its depth");
    check(same(&s, unsafe { std::str::from_utf8_unchecked(&want) }), "the sentence is what the chosen alternatives spell out");
    observe_str(&s);
    reach("sentence");
}
/// Chooses anything a few times, then nothing any more.
struct Decline {
    left: usize,
    declined: bool,
}
impl GenerationStrategy for Decline {
    fn choose<'p>(&mut self, production: &'p Production, _: usize) -> Option<&'p Expression> {
        if self.left == 0 {
            self.declined = true;
            return None;
        }
        self.left -= 1;
        production.rhs_iter().nth(choice(production.len()))
    }
}
/// A strategy that makes no choice ends the generation with an error, wherever that happens.
pub fn c14_decline() {
    let sk = GEN[shard(GEN.len())];
    let g = skeleton(sk);
    let gr = g.grammar();
    show(&gr.to_string());
    let mut d = Decline { left: choice(pick(5, 7)), declined: false };
    let r = if choice(2) == 0 { gr.generate_seeded_with_strategy(&mut d) } else { gr.generate_seeded_callback_with_strategy(|_, _| true, &mut d) };
    match r {
        Ok(s) => {
            check(!d.declined, "without a choice there is no sentence");
            sentence(Ok(s), &close(g));
            reach("sentence");
        }
        Err(Error::GenerateError(_)) => {
            check(d.declined, "generation with choices that finish succeeds");
            reach("declined");
        }
        Err(_) => check(false, "failure is a GenerateError"),
    }
}
/// Takes the first alternative so many times, then the second for ever.
struct Deep(usize);
impl GenerationStrategy for Deep {
    fn choose<'p>(&mut self, production: &'p Production, _: usize) -> Option<&'p Expression> {
        let k = if production.len() == 1 || self.0 == 0 { production.len() - 1 } else { 0 };
        if production.len() > 1 {
            self.0 = self.0.saturating_sub(1);
        }
        production.rhs_iter().nth(k)
    }
}
/// Sentences of hundreds of steps: deep ones and wide ones.
pub fn c14_deep() {
    let sizes = [9, 33, 70, 129, 260, pick(700, 1200), pick(1030, 1300)];
    let kinds = 7;
    let k = shard(sizes.len() * kinds);
    let (size, kind) = (sizes[k / kinds], k % kinds);
    let (x, y) = (ascii_string(1), ascii_string(1));
    let rep = |s: &str, n: usize| s.repeat(n);
    let (lit, nt) = (|s: &str| t(s), |s: &str| super::rt::n(s));
    let (gr, want) = match kind {
        0 => (g(vec![p("s", vec![e(vec![lit(&x), nt("s")]), e(vec![lit(&y)])])]), rep(&x, size) + &y),
        1 => (g(vec![p("s", vec![e(vec![nt("s"), lit(&x)]), e(vec![lit(&y)])])]), y.clone() + &rep(&x, size)),
        2 => (g(vec![p("s", vec![e(vec![lit("("), nt("s"), lit(&x)]), e(vec![lit("")])])]), rep("(", size) + &rep(&x, size)),
        // through a second production
        3 => (g(vec![p("s", vec![e(vec![lit(&x), nt("a")]), e(vec![lit(&y)])]), p("a", vec![e(vec![lit("<"), nt("s"), lit("é")])])]), rep(&(x.clone() + "<"), size) + &y + &rep("é", size)),
        // wide: one expression of many terms
        4 => (g(vec![p("s", vec![e((0..size).map(|i| if i % 2 == 0 { nt("a") } else { lit(&x) }).collect())]), p("a", vec![e(vec![lit(&y), lit("z")])])]), {
            let mut w = String::new();
            for i in 0..size {
                w += if i % 2 == 0 { &y } else { &x };
                if i % 2 == 0 {
                    w += "z";
                }
            }
            w
        }),
        // a chain of productions, each listed before the one that refers to it
        5 => {
            let size = size.min(130);
            let mut ps = vec![p("s", vec![e(vec![nt(&format!("n{}", size - 1)), lit(&x)])])];
            for i in 0..size {
                ps.push(p(&format!("n{i}"), vec![e(if i == 0 { vec![lit(&y)] } else { vec![lit("+"), nt(&format!("n{}", i - 1))] })]));
            }
            (g(ps), rep("+", size - 1) + &y + &x)
        }
        // a long literal
        _ => {
            let long = rep("ab", size * 40) + &x;
            (g(vec![p("s", vec![e(vec![lit(&long), nt("s")]), e(vec![lit(&y)])])]), rep(&long, 2) + &y)
        }
    };
    let r = gr.generate_seeded_with_strategy(&mut Deep(if kind == 6 { 2 } else { size }));
    check(r.is_ok(), "generation with choices that finish succeeds");
    check(same(&r.unwrap(), &want), "the sentence is what the chosen alternatives spell out");
    reach("sentence");
}
// ---- C15: what cannot finish is refused ----
struct Named {
    gr: Grammar,
    /// per production: alternatives as lists of (canonical name or None for a terminal)
    prods: Vec<(usize, Vec<Vec<Option<usize>>>)>,
}
/// Productions over symbolic one-byte names; `n` a reference, `t` a terminal.
fn named(sh: &str) -> Named {
    let mut names: Vec<String> = Vec::new();
    // which earlier name this one equals
    let canon = |s: String, names: &mut Vec<String>| {
        for i in 0..names.len() {
            if names[i] == s {
                return i;
            }
        }
        names.push(s);
        names.len() - 1
    };
    let lhs: Vec<String> = sh.split(';').map(|_| ascii_string(1)).collect();
    let ids: Vec<usize> = lhs.iter().map(|l| canon(l.clone(), &mut names)).collect();
    let (mut ps, mut prods) = (Vec::new(), Vec::new());
    for (i, p) in sh.split(';').enumerate() {
        let (mut alts, mut ralts) = (Vec::new(), Vec::new());
        for a in p.split('|') {
            let (mut v, mut rv) = (Vec::new(), Vec::new());
            for c in a.bytes() {
                if c == b'n' {
                    let s = ascii_string(1);
                    rv.push(Some(canon(s.clone(), &mut names)));
                    v.push(Term::Nonterminal(s));
                } else {
                    rv.push(None);
                    v.push(t("x"));
                }
            }
            alts.push(e(v));
            ralts.push(rv);
        }
        ps.push(Production::from_parts(Term::Nonterminal(lhs[i].clone()), alts));
        prods.push((ids[i], ralts));
    }
    Named { gr: g(ps), prods }
}
impl Named {
    /// rank[p] = round in which production p can first finish; usize::MAX if never
    fn ranks(&self, undefined_ends: bool) -> Vec<usize> {
        let mut rank = vec![usize::MAX; self.prods.len()];
        for round in 0..=self.prods.len() {
            let before = rank.clone();
            let done = |x: usize| {
                let mut defined = false;
                for (i, p) in self.prods.iter().enumerate() {
                    if p.0 == x {
                        defined = true;
                        if before[i] != usize::MAX {
                            return true;
                        }
                    }
                }
                undefined_ends && !defined
            };
            for (i, p) in self.prods.iter().enumerate() {
                if rank[i] == usize::MAX && p.1.iter().any(|a| a.iter().all(|s| s.is_none_or(done))) {
                    rank[i] = round;
                }
            }
            if rank == before {
                break;
            }
        }
        rank
    }
    fn distinct(&self) -> bool {
        (0..self.prods.len()).all(|i| (0..i).all(|j| self.prods[i].0 != self.prods[j].0))
    }
}
/// Chooses towards the end of the expansion when it can.
struct Homing<'a> {
    n: &'a Named,
    rank: Vec<usize>,
    left: usize,
}
impl GenerationStrategy for Homing<'_> {
    fn choose<'p>(&mut self, production: &'p Production, _: usize) -> Option<&'p Expression> {
        check(self.left > 0, "generation ends or is refused, and does not go on for ever");
        self.left -= 1;
        let pi = self.n.gr.productions_iter().position(|q| std::ptr::eq(q, production)).unwrap();
        let (n, rank) = (self.n, &self.rank);
        let near = |x: usize| n.prods.iter().zip(rank).any(|(p, r)| p.0 == x && *r < rank[pi]);
        let k = n.prods[pi].1.iter().position(|a| a.iter().all(|s| s.is_none_or(near))).unwrap_or(0);
        production.rhs_iter().nth(k)
    }
}
/// Long chains of productions: production i refers to i+1 (listed in either order); one place holds a symbolic name.
fn chain(k: usize) -> Named {
    let (len, k) = ([3, 6, 12, 24, 70][k % 5], k / 5);
    let (rev, k) = (k % 2 == 1, k / 2);
    let at = [0, len / 2, len - 1][k % 3];
    let kind = k / 3;
    let nm = |i: usize| format!("n{}", (b'0' + i as u8) as char);
    let free = {
        let b = byte_in(b'0', b'0' + len as u8);
        format!("n{}", b as char)
    };
    let mut spec: Vec<(String, Vec<Vec<Option<String>>>)> = Vec::new();
    for i in 0..len {
        let next = if i + 1 < len { vec![Some(nm(i + 1))] } else { vec![None] };
        let mut alts = vec![next];
        if i == at {
            match kind {
                // the next one and a free one; a free one instead; something endless first
                0 => alts[0].push(Some(free.clone())),
                1 => alts[0] = vec![None, Some(free.clone()), None],
                2 => alts.insert(0, vec![Some(nm(i)), None]),
                _ => alts = vec![vec![Some(nm(i))], vec![None, Some(free.clone())]],
            }
        }
        spec.push((nm(i), alts));
    }
    // the start symbol stays first
    if rev {
        spec[1..].reverse();
    }
    let mut names: Vec<String> = spec.iter().map(|x| x.0.clone()).collect();
    let (mut ps, mut prods) = (Vec::new(), Vec::new());
    for (i, (l, alts)) in spec.into_iter().enumerate() {
        let mut ralts = Vec::new();
        let mut ealts = Vec::new();
        for a in alts {
            let mut rv = Vec::new();
            let mut v = Vec::new();
            for x in a {
                match x {
                    None => {
                        rv.push(None);
                        v.push(t("x"));
                    }
                    Some(s) => {
                        let id = names.iter().position(|y| *y == s).unwrap_or_else(|| {
                            names.push(s.clone());
                            names.len() - 1
                        });
                        rv.push(Some(id));
                        v.push(Term::Nonterminal(s));
                    }
                }
            }
            ralts.push(rv);
            ealts.push(e(v));
        }
        ps.push(Production::from_parts(Term::Nonterminal(l), ealts));
        prods.push((i, ralts));
    }
    Named { gr: g(ps), prods }
}
/// Pseudo-randomly drawn wirings of 4 to 7 productions; one reference is to any of them or to nothing.
fn drawn_named(k: usize) -> Named {
    let mut x = (k as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x0f1e_2d3c_4b5a_6978;
    let mut draw = |m: u64| {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        ((x >> 20) % m) as usize
    };
    let nts = 4 + draw(4);
    let mut first = true;
    let (mut ps, mut prods) = (Vec::new(), Vec::new());
    let nm = |i: usize| format!("n{}", (b'0' + i as u8) as char);
    for i in 0..nts {
        let (mut alts, mut ralts) = (Vec::new(), Vec::new());
        for _ in 0..1 + draw(3) {
            let (mut v, mut rv) = (Vec::new(), Vec::new());
            for _ in 0..[1, 1, 2, 2, 3][draw(5)] {
                let q = draw(nts as u64 * 3);
                if q >= nts * 2 {
                    v.push(t("x"));
                    rv.push(None);
                } else if first && draw(4) == 0 {
                    first = false;
                    let b = byte_in(b'0', b'0' + nts as u8);
                    let id = (0..nts).find(|j| b == b'0' + *j as u8).unwrap_or(nts);
                    v.push(Term::Nonterminal(format!("n{}", b as char)));
                    rv.push(Some(id));
                } else {
                    v.push(Term::Nonterminal(nm(q % nts)));
                    rv.push(Some(q % nts));
                }
            }
            alts.push(e(v));
            ralts.push(rv);
        }
        ps.push(Production::from_parts(Term::Nonterminal(nm(i)), alts));
        prods.push((i, ralts));
    }
    Named { gr: g(ps), prods }
}
const CHAINS: usize = 5 * 2 * 3 * 4;
fn endless_case() -> (Named, bool) {
    let base = pick(12, REFUSE.len());
    let k = shard(base + CHAINS + pick(200, 2000));
    if k >= base + CHAINS {
        let n = drawn_named(k - base - CHAINS);
        show(&n.gr.to_string());
        return (n, true);
    }
    let n = if k < base { named(REFUSE[k]) } else { chain(k - base) };
    assume(n.distinct());
    show(&n.gr.to_string());
    (n, k < base)
}
const REFUSE: &[&str] = &["n", "n|t", "nn|nt", "n;t", "n;n", "nn;t", "n;n|t", "n|n;n|t", "nt;n|n", "n;n;t", "n;n;n|t", "nn;n;t", "n|t;n;n", "nn;nn|t;n|t"];
pub fn c15_refuse() {
    let (n, _) = endless_case();
    let rank = n.ranks(false);
    let ends = rank[0] != usize::MAX;
    let mut h = Homing { n: &n, rank, left: 2500 };
    let r = n.gr.generate_seeded_with_strategy(&mut h);
    match &r {
        Ok(s) => {
            check(ends, "a start symbol without any sentence is refused");
            observe_str(s);
        }
        Err(Error::GenerateError(_)) => check(!ends, "a start symbol with a sentence is not refused"),
        Err(_) => check(false, "refusal is a GenerateError"),
    }
    reach(if ends { "sentence" } else { "refused" });
}
/// Any choices at all: a nonterminal that can never finish is reported, not expanded for ever.
struct Wild<'a> {
    n: &'a Named,
    rank: Vec<usize>,
    left: usize,
}
impl GenerationStrategy for Wild<'_> {
    fn choose<'p>(&mut self, production: &'p Production, _: usize) -> Option<&'p Expression> {
        let pi = self.n.gr.productions_iter().position(|q| std::ptr::eq(q, production)).unwrap();
        check(self.rank[pi] != usize::MAX, "a nonterminal that can never finish is reported before it is expanded");
        assume(self.left > 0);
        self.left -= 1;
        production.rhs_iter().nth(choice(production.len()))
    }
}
pub fn c15_endless() {
    let (n, small) = endless_case();
    let rank = n.ranks(true);
    let all = rank.iter().all(|r| *r != usize::MAX);
    let start = n.ranks(false)[0] != usize::MAX;
    let mut h = Wild { n: &n, rank, left: if small { pick(5, 7) } else { 110 } };
    let r = n.gr.generate_seeded_with_strategy(&mut h);
    match &r {
        Ok(s) => observe_str(s),
        Err(Error::GenerateError(_)) => check(!(all && start), "generation fails only when something cannot finish"),
        Err(_) => check(false, "failure is a GenerateError"),
    }
    reach(if r.is_ok() { "sentence" } else { "reported" });
}
/// Chains of very many nonterminals.
pub fn c15_long() {
    let k = shard(2 * 2 * 3);
    let (len, k) = ([135, pick(300, 600)][k % 2], k / 2);
    let (rev, kind) = (k % 2 == 1, k / 2);
    let nm = |i: usize| n(&format!("n{i}"));
    let x = ascii_string(1);
    // the last one ends, refers to something undefined, or back to one of the chain
    let back = [0, len / 2, len - 1][choice(if kind == 2 { 3 } else { 1 })];
    let last = match kind {
        0 => t(&x),
        1 => n("undefined"),
        _ => nm(back),
    };
    let mut ps: Vec<Production> = (0..len).map(|i| Production::from_parts(nm(i), vec![e(vec![if i + 1 < len { nm(i + 1) } else { last.clone() }])])).collect();
    if rev {
        ps[1..].reverse();
    }
    let r = g(ps).generate_seeded_with_strategy(&mut Deep(0));
    match (&r, kind) {
        (Ok(s), 0) => check(same(s, &x), "the sentence is what the chosen alternatives spell out"),
        (Ok(_), _) => check(false, "a start symbol without any sentence is refused"),
        (Err(Error::GenerateError(_)), 1 | 2) => {}
        (Err(_), _) => check(false, "a start symbol with a sentence is not refused"),
    }
    reach(if r.is_ok() { "sentence" } else { "refused" });
}
// ---- C16: the callback decides what is kept ----
struct Judge {
    seen: RefCell<Vec<(String, String, bool)>>,
    calls: Cell<usize>,
    most: usize,
}
impl Judge {
    fn ask(&self, name: &str, value: &str) -> bool {
        self.calls.set(self.calls.get() + 1);
        assume(self.calls.get() <= self.most);
        let mut seen = self.seen.borrow_mut();
        if let Some(x) = seen.iter().find(|x| x.0 == name && x.1 == value) {
            return x.2;
        }
        let v = choice(2) == 1;
        seen.push((name.to_string(), value.to_string(), v));
        v
    }
}
/// Is `s[i..j]` derivable from `nt` with every node's text accepted?
fn accepted(g: &Gm, ok: &[(String, String, bool)], s: &str) -> bool {
    let w = s.len() + 1;
    let mut can = vec![false; g.nts * w * w];
    loop {
        let mut more = false;
        for (l, alts) in &g.prods {
            for a in alts {
                for i in 0..w {
                    let mut cur = vec![false; w];
                    cur[i] = true;
                    for y in a {
                        let mut nx = vec![false; w];
                        for m in 0..w {
                            if !cur[m] {
                                continue;
                            }
                            match y {
                                Sym::T(k) => {
                                    let t = g.terms[*k].as_bytes();
                                    if s.as_bytes()[m..].starts_with(t) {
                                        nx[m + t.len()] = true;
                                    }
                                }
                                Sym::N(k) => {
                                    for j in m..w {
                                        nx[j] |= can[(k * w + m) * w + j];
                                    }
                                }
                            }
                        }
                        cur = nx;
                    }
                    for j in i..w {
                        if cur[j] && !can[(l * w + i) * w + j] && ok.iter().any(|x| x.2 && x.0 == NAMES[*l] && x.1.as_bytes() == &s.as_bytes()[i..j]) {
                            can[(l * w + i) * w + j] = true;
                            more = true;
                        }
                    }
                }
            }
        }
        if !more {
            return can[g.prods[0].0 * w * w + s.len()];
        }
    }
}
const CALL: &[&str] = &["S:a|b", "S:AA;A:a|b", "S:A|cA;A:a|b", "S:A;A:B|a;B:b|c", "S:a|b|c", "S:A;A:a", "S:AB;A:a;B:b|c", "S:aAb;A:cB;B:d", "S:A|b;A:0", "S:a|b;A:c", "S:A;A:B;B:C;C:D;D:a|b", "S:`ab`|A`b`;A:a|`é`", "S:a|bS", "S:aA|0;A:b|cS", "S:SS|a"];
const CALL_FLAT: usize = 12;
pub fn c16_callback() {
    // the last three are recursive: their length is bounded through the strategy
    let k = shard(CALL_FLAT * 3 + 3);
    let k = if k < CALL_FLAT * 3 { k } else { (k - CALL_FLAT * 3) * 3 + CALL_FLAT * 3 + 2 };
    let g = skeleton(CALL[k / 3]);
    let gr = g.grammar();
    show(&gr.to_string());
    let j = Judge { seen: RefCell::new(Vec::new()), calls: Cell::new(0), most: if k / 3 == 10 { pick(6, 7) } else { pick(4, 6) } };
    let f = |a: &str, b: &str| j.ask(a, b);
    let mut chosen = None;
    let r = match k % 3 {
        0 => gr.generate_callback(f),
        1 => gr.generate_seeded_callback(&mut StdRng::from_seed(SEED), f),
        _ => {
            let mut s = lim(RandomWalk::from_seed(SEED), 2 * j.most);
            let r = gr.generate_seeded_callback_with_strategy(f, &mut s);
            chosen = Some(s.calls);
            r
        }
    };
    check(r.is_ok(), "a rejected value is tried again");
    let s = r.unwrap();
    show(&s);
    let seen = j.seen.borrow();
    check(accepted(&g, &seen, &s), "the sentence is made of accepted values only");
    check(chosen.is_none_or(|c| c == j.calls.get()), "every generated value is shown to the callback once");
    reach(if seen.iter().any(|x| !x.2) { "rejections" } else { "no rejections" });
    observe_str(&s);
}
/// Goes round the alternatives of each production.
struct Turns(Vec<(*const Production, usize)>);
impl GenerationStrategy for Turns {
    fn choose<'p>(&mut self, production: &'p Production, _: usize) -> Option<&'p Expression> {
        let i = match self.0.iter_mut().find(|x| std::ptr::eq(x.0, production)) {
            Some(x) => {
                x.1 += 1;
                x.1
            }
            None => {
                self.0.push((production, 0));
                0
            }
        };
        production.rhs_iter().nth(i % production.len())
    }
}
/// A callback that says no many times before it says yes.
pub fn c16_patience() {
    let times = [3, 9, 17, 33, 65, 101, 130, 257, 1001, pick(1030, 10001)];
    let sks = ["S:a|b|c", "S:A;A:a|b", "S:xAy|A;A:B|bB;B:c|d|0", "S:AAA;A:a|b", "S:a", "S:A|B;A:a|b|c|d|e;B:f|g"];
    let k = shard(times.len() * sks.len());
    let (times, k) = (times[k / sks.len()], k % sks.len());
    let g = skeleton(sks[k]);
    let gr = g.grammar();
    show(&gr.to_string());
    // all values of the nonterminal in question are refused that often; then those with an even number of calls before
    let who = NAMES[choice(g.nts)];
    let asked = Cell::new(0usize);
    let seen: RefCell<Vec<(String, String)>> = RefCell::new(Vec::new());
    let r = gr.generate_seeded_callback_with_strategy(
        |a, b| {
            if a != who {
                seen.borrow_mut().push((a.to_string(), b.to_string()));
                return true;
            }
            asked.set(asked.get() + 1);
            if asked.get() > times {
                seen.borrow_mut().push((a.to_string(), b.to_string()));
            }
            asked.get() > times
        },
        &mut Turns(Vec::new()),
    );
    check(r.is_ok(), "a rejected value is tried again");
    let s = r.unwrap();
    show(&s);
    if asked.get() == 0 {
        reach("not asked");
        return;
    }
    check(asked.get() > times, "a rejected value is tried again until one is accepted");
    let seen = seen.borrow();
    let last: Vec<(&str, &str, bool)> = seen.iter().map(|x| (x.0.as_str(), x.1.as_str(), true)).collect();
    check(last.iter().rev().next().is_some_and(|x| x.0 == NAMES[g.prods[0].0] && x.1 == s), "the sentence is the start symbol's accepted value");
    reach("accepted at last");
}
/// A production of `n` alternatives: numbered terminals, and at the given places one that refers to itself.
fn wide(n: usize, selfish: &[usize]) -> Production {
    let alt = |i: usize| {
        let v = t(&format!("v{i}"));
        e(if selfish.contains(&i) { vec![v, super::rt::n("s")] } else { vec![v] })
    };
    p("s", (0..n).map(alt).collect())
}
/// Fixes the random words of this seed, so that one run of the generator is left.
fn fix_words(seed: &[u8; 32], words: u64) {
    let mut x = 0x9e3779b97f4a7c15u64;
    for i in 0..words {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        assume(rng_word(seed, i) == x);
    }
}
const WIDE: &[usize] = &[5, 9, 17, 33, 65, 70, 130, 260];
fn selfish(n: usize, k: usize) -> Vec<usize> {
    match k {
        0 => vec![],
        1 => vec![0],
        2 => vec![n - 1],
        3 => (0..n - 1).collect(),
        4 => (1..n).collect(),
        _ => (0..n).filter(|i| i % 3 == 1).collect(),
    }
}
/// Many alternatives: the limit holds for each of them, and each can be chosen below it.
pub fn c17_wide() {
    let base = (WIDE.len() - pick(2, 1)) * 6;
    let k = shard(base + 2);
    // at last very many
    let (n, kind, k) = if k < base { (WIDE[k / 6], k % 6, format!("{k}")) } else { (260, [0, 5][k - base], format!("x{}", k - base)) };
    let sel = selfish(n, kind);
    let p = wide(n, &sel);
    let max = 3;
    let mut d = DepthBounded::from_seed(max, SEED);
    let depth = 2 + choice(if n > 20 { 2 } else { 3 });
    let x = d.choose(&p, depth).unwrap();
    let i = p.rhs_iter().position(|q| std::ptr::eq(q, x)).unwrap();
    if depth >= max {
        check(all_terminals(x), "at the maximum depth only an alternative of terminals is chosen");
        reach(&format!("at {k} {i}"));
    } else {
        reach(&format!("below {k} {i}"));
    }
    observe(i as u64);
}
// ---- C17: bounded depth ----
fn all_terminals(x: &Expression) -> bool {
    x.terms_iter().all(|t| matches!(t, Term::Terminal(_)))
}
pub fn c17_choose() {
    let sks = ["S:a|b", "S:a|S", "S:S|a|b", "S:S|SS", "S:aS|b|Sa|c", "S:aS", "S:a", "S:ab|aS|0", "S:|S", "S:S|S|S|aa"];
    let k = shard(sks.len());
    let g = skeleton(sks[k]);
    let gr = g.grammar();
    let p = gr.productions_iter().next().unwrap();
    let (max, depth) = (unsafe_usize(), unsafe_usize());
    let mut d = DepthBounded::from_seed(max, SEED);
    let any_terminal = p.rhs_iter().any(all_terminals);
    // a strategy object may have been used before
    if choice(2) == 1 {
        let _ = d.choose(p, unsafe_usize());
    }
    let x = d.choose(p, depth);
    check(x.is_some(), "there is a choice");
    let x = x.unwrap();
    let i = p.rhs_iter().position(|q| std::ptr::eq(q, x));
    check(i.is_some(), "the choice is one of the production's alternatives");
    let at = depth >= max;
    if any_terminal {
        check(!(at & !all_terminals(x)), "at the maximum depth only an alternative of terminals is chosen");
    }
    observe(i.unwrap() as u64);
    if at {
        reach("at the limit");
    } else {
        reach("below the limit");
        reach(&format!("below {k} {}", i.unwrap()));
    }
}
fn unsafe_usize() -> usize {
    any_u64() as usize
}
/// Number of levels of the flattest derivation of `s` is at most `h`.
fn height_at_most(g: &Gm, s: &str, h: usize) -> bool {
    let w = s.len() + 1;
    let mut can = vec![false; g.nts * w * w];
    for _ in 0..h {
        let mut nc = vec![false; g.nts * w * w];
        for (l, alts) in &g.prods {
            for a in alts {
                for i in 0..w {
                    let mut cur = vec![false; w];
                    cur[i] = true;
                    for y in a {
                        let mut nx = vec![false; w];
                        for m in 0..w {
                            if !cur[m] {
                                continue;
                            }
                            match y {
                                Sym::T(k) => {
                                    let t = g.terms[*k].as_bytes();
                                    if s.as_bytes()[m..].starts_with(t) {
                                        nx[m + t.len()] = true;
                                    }
                                }
                                Sym::N(k) => {
                                    for j in m..w {
                                        nx[j] |= can[(k * w + m) * w + j];
                                    }
                                }
                            }
                        }
                        cur = nx;
                    }
                    for j in i..w {
                        nc[(l * w + i) * w + j] |= cur[j];
                    }
                }
            }
        }
        can = nc;
    }
    can[g.prods[0].0 * w * w + s.len()]
}
pub fn c17_sentence() {
    let sks = ["S:a|bS", "S:SS|a", "S:a|AS;A:b|SA", "S:aSb|0", "S:AA|a;A:SS|b", "S:Sa|b|SS", "S:aA|b;A:cB|d;B:eS|f", "S:abcS|`long one`|é", "S:SaS|bb|0"];
    let k = shard(sks.len());
    let g = skeleton(sks[k]);
    let gr = g.grammar();
    show(&gr.to_string());
    let max = choice(match k {
        0 | 3 => pick(12, 30),
        6 => pick(12, 20),
        7 => pick(6, 9),
        1 | 4 | 5 | 8 => 3,
        _ => pick(4, 5),
    });
    let mut d = DepthBounded::from_seed(max, SEED);
    let r = gr.generate_seeded_with_strategy(&mut d);
    let s = sentence(r, &g);
    check(height_at_most(&g, &s, max + 1), "no expansion goes deeper than the maximum depth");
    if height_at_most(&g, &s, max) {
        reach("shallower");
    } else {
        reach("full depth");
    }
}
// ---- C18: every alternative once before any twice ----
pub fn c18_choose() {
    let sks = ["S:a|b", "S:a|b|c", "S:a", "S:a|b;A:c|d", "S:a|b|c;A:a|b", "S:a|b;A:a|b", "S:a|a", "S:a|b|c|d", "S:a;A:b|c", "S:a|b;A:c|d;B:e|f"];
    let k = shard(sks.len() * 2);
    let (k, seeded) = (k / 2, k % 2 == 1);
    let g = skeleton(sks[k]);
    let gr = g.grammar();
    let ps: Vec<&Production> = gr.productions_iter().collect();
    let mut seen: Vec<Vec<usize>> = ps.iter().map(|_| Vec::new()).collect();
    let mut c = if !seeded { CoverageGuided::new() } else { CoverageGuided::from_seed(SEED) };
    let steps = if ps[0].len() > 3 { 5 } else { pick(4, 5) };
    for step in 0..steps {
        let w = choice(ps.len());
        let x = c.choose(ps[w], step % 2);
        check(x.is_some(), "there is a choice");
        let i = ps[w].rhs_iter().position(|q| std::ptr::eq(q, x.unwrap()));
        check(i.is_some(), "the choice is one of the production's alternatives");
        let i = i.unwrap();
        observe(i as u64);
        if seen[w].len() < ps[w].len() {
            check(!seen[w].contains(&i), "no alternative is repeated while another has not been used");
            seen[w].push(i);
            reach("fresh");
        } else {
            reach(&format!("again {k} {w} {i}"));
        }
    }
}
/// Many alternatives, two productions in turn, for given random words: all of them before any again.
pub fn c18_wide() {
    let k = shard(WIDE.len() * 3);
    let (n, how) = (WIDE[k / 3], k % 3);
    let seed = if how == 0 { [0; 32] } else { SEED };
    fix_words(&seed, 3 * n as u64 + 20);
    let ps = [wide(n, &[n - 1]), Production::from_parts(super::rt::n("s2"), wide(n / 2 + 2, &[]).rhs_iter().cloned().collect())];
    let mut c = if how == 0 { CoverageGuided::default() } else { CoverageGuided::from_seed(seed) };
    let mut seen = [vec![false; n], vec![false; n / 2 + 2]];
    let mut used = [0, 0];
    // alternately, the shorter one again and again after it is used up
    for step in 0..2 * n {
        let w = if how == 2 { step % 2 } else { (step >= n) as usize };
        let x = c.choose(&ps[w], step).unwrap();
        let i = ps[w].rhs_iter().position(|q| std::ptr::eq(q, x)).unwrap();
        observe(i as u64);
        if used[w] < ps[w].len() {
            check(!seen[w][i], "no alternative is repeated while another has not been used");
        }
        seen[w][i] = true;
        used[w] += 1;
    }
    check(seen[0].iter().all(|x| *x), "every alternative comes up");
    reach("covered");
}
/// During generation: over several sentences, each alternative of an expanded production comes up in turn.
struct Log {
    inner: CoverageGuided,
    left: usize,
    log: Vec<(*const Production, usize)>,
}
impl GenerationStrategy for Log {
    fn choose<'p>(&mut self, production: &'p Production, depth: usize) -> Option<&'p Expression> {
        assume(self.left > 0);
        self.left -= 1;
        let r = self.inner.choose(production, depth);
        let i = production.rhs_iter().position(|q| std::ptr::eq(q, r.unwrap())).unwrap();
        self.log.push((production, i));
        r
    }
}
/// Many sentences of one generator, for given random words.
pub fn c18_many() {
    let sks = ["S:a|b|c|d|e|f|g|h", "S:AB|A|B;A:a|b|c|d|e;B:f|g|h|i|AA", "S:aS|b|c|A;A:B|b|c;B:d|e|SS", "S:A;A:B|b;B:C|c;C:D|d;D:a|b|c|d|e|f", "S:éA|A|0;A:`日本`|S|a|b", "S:a|b|A;A:a|b|B;B:a|b|C;C:a|b|D;D:a|b"];
    let k = shard(sks.len() * 4);
    let g = skeleton(sks[k / 4]);
    let gr = g.grammar();
    show(&gr.to_string());
    let mut seed = SEED;
    seed[9] = (k % 4) as u8;
    fix_words(&seed, 200);
    let mut s = Log { inner: CoverageGuided::from_seed(seed), left: 100, log: Vec::new() };
    // four different stretches of the random words
    for _ in 0..k % 4 {
        s.inner.choose(&wide(2, &[]), 0);
    }
    for _ in 0..20 {
        if s.log.len() > 60 {
            break;
        }
        let r = gr.generate_seeded_with_strategy(&mut s);
        sentence(r, &g);
    }
    in_turn(&gr, &s.log);
}
fn in_turn(gr: &Grammar, log: &[(*const Production, usize)]) {
    for (i, (p, a)) in log.iter().enumerate() {
        let q = gr.productions_iter().find(|q| std::ptr::eq(*q, *p)).unwrap();
        let before: Vec<usize> = log[..i].iter().filter(|x| x.0 == *p).map(|x| x.1).collect();
        if before.len() < q.len() {
            check(!before.contains(a), "no alternative is repeated while another has not been used");
        } else {
            reach("covered");
        }
    }
}
pub fn c18_sentences() {
    let sks = ["S:a|b|c", "S:A|b;A:a|c", "S:AA;A:a|b|c", "S:aS|b", "S:A|AA;A:a|b"];
    let g = skeleton(sks[shard(sks.len())]);
    let gr = g.grammar();
    show(&gr.to_string());
    let mut s = Log { inner: CoverageGuided::from_seed(SEED), left: pick(6, 8), log: Vec::new() };
    for _ in 0..pick(2, 3) {
        let r = gr.generate_seeded_with_strategy(&mut s);
        sentence(r, &g);
    }
    in_turn(&gr, &s.log);
}
// ---- C19: weights ----
const W: &[u32] = &[0, 1, 3, 100, 2, 5, 128];
fn recursive(p: &Production, x: &Expression) -> bool {
    x.terms_iter().any(|t| *t == p.lhs)
}
pub fn c19_choose() {
    let sks = ["S:S|a", "S:a|aS|b", "S:S|S|a|b", "S:a|b", "S:S|aSa", "S:A|S", "S:a", "S:SS", "S:A|a|AS|B;A:b;B:c", "S:a|b|S|c"];
    // the quick weights come first
    let nw = pick(4, W.len());
    let k = shard(sks.len() * nw);
    let (k, r) = (k / nw, W[k % nw]);
    let g = skeleton(sks[k]);
    let gr = g.grammar();
    let p = gr.productions_iter().next().unwrap();
    let n = W[choice(nw)];
    let how = choice(3);
    let mut w = match how {
        0 => Weighted::from_seed(r, n, SEED),
        1 => Weighted::new(r, n),
        _ => {
            let mut w = Weighted::default();
            w.recursive_weight = r;
            w.non_recursive_weight = n;
            w
        }
    };
    if how == 1 {
        let _ = w.choose(p, 0);
    }
    weigh(p, &mut w, r, n, &format!("{k} {r} {n}"));
}
/// Many alternatives: each can be chosen, unless its weight is zero.
pub fn c19_wide() {
    let ws = [(1, 1), (0, 1), (1, 0), (3, 2), (100, 1), (0, 0)];
    let base = (WIDE.len() - pick(2, 1)) * 6 * ws.len();
    let k = shard(base + 4);
    let ((r, n), w, kind, k) = if k < base { (ws[k % 6], WIDE[k / 36], k / 6 % 6, format!("{k}")) } else { ([(1, 1), (3, 2), (0, 1), (1, 0)][k - base], 260, 5, format!("x{}", k - base)) };
    let sel = selfish(w, kind);
    let p = wide(w, &sel);
    let mut s = Weighted::from_seed(r, n, SEED);
    weigh(&p, &mut s, r, n, &k);
}
/// Weights so large that their sum does not fit their type.
pub fn c19_large() {
    let sks = ["S:S|a", "S:S|a|b|aS"];
    let ws = [(u32::MAX, u32::MAX), (1 << 31, 1 << 31), (u32::MAX, 0), (0, u32::MAX), (u32::MAX, 1), (1, u32::MAX)];
    let k = shard(sks.len() * ws.len());
    let g = skeleton(sks[k / ws.len()]);
    let gr = g.grammar();
    let p = gr.productions_iter().next().unwrap();
    let (r, n) = ws[k % ws.len()];
    let mut w = Weighted::from_seed(r, n, SEED);
    weigh(p, &mut w, r, n, &format!("{} {r} {n}", k / ws.len()));
}
fn weigh(p: &Production, w: &mut Weighted, r: u32, n: u32, label: &str) {
    let x = w.choose(p, 3);
    check(x.is_some(), "there is a choice");
    let x = x.unwrap();
    let i = p.rhs_iter().position(|q| std::ptr::eq(q, x));
    check(i.is_some(), "the choice is one of the production's alternatives");
    let i = i.unwrap();
    let wt = |y: &Expression| if recursive(p, y) { r } else { n };
    let total: u64 = p.rhs_iter().map(|y| wt(y) as u64).sum();
    check(total == 0 || wt(x) > 0, "an alternative of weight zero is not chosen while another has weight");
    observe(i as u64);
    reach(&format!("{label} {i}"));
}
/// The share of random words that leads to each alternative is its share of the weight.
pub fn c19_share() {
    // with total weight 2^j, r = the top j bits of the word: consecutive blocks of words, one alternative each
    let sks = ["S:S|a", "S:a|S", "S:S|a|b", "S:a|aS|b|S"];
    let cases: &[(usize, u32, u32)] = &[(0, 1, 1), (0, 3, 1), (1, 3, 1), (1, 1, 3), (2, 2, 1), (3, 1, 1), (3, 3, 1), (0, 7, 1), (2, 6, 1), (3, 1, 3), (0, 127, 1), (1, 5, 11)];
    let (sk, r, n) = cases[shard(cases.len())];
    let g = skeleton(sks[sk]);
    let gr = g.grammar();
    let p = gr.productions_iter().next().unwrap();
    let wt: Vec<u64> = p.rhs_iter().map(|y| if recursive(p, y) { r as u64 } else { n as u64 }).collect();
    let total: u64 = wt.iter().sum();
    // two words of the generator that differ only in their top bits ...
    let mut count = vec![0u64; wt.len()];
    let low = any_u32();
    let step = (1u64 << 32) / total;
    for b in 0..total {
        // the b-th block of the words, at an arbitrary place inside it
        let word = (b * step) as u32 + (low as u64 % step) as u32;
        let mut w = Weighted::from_seed(r, n, seed_for(b));
        force(&seed_for(b), word);
        let x = w.choose(p, 0).unwrap();
        let i = p.rhs_iter().position(|q| std::ptr::eq(q, x)).unwrap();
        count[i] += 1;
    }
    for i in 0..wt.len() {
        observe(count[i]);
        check(count[i] == wt[i], "an alternative is chosen for its share of the random words");
    }
}
fn seed_for(b: u64) -> [u8; 32] {
    let mut s = [9u8; 32];
    s[0] = b as u8;
    s[1] = (b >> 8) as u8;
    s
}
/// The first random word of the stream of this seed is `w` (as 32 bits).
fn force(seed: &[u8; 32], w: u32) {
    let x = rng_word(seed, 0);
    // both halves, so that it does not matter how many bits are drawn
    assume((x as u32 == w) & ((x >> 32) as u32 == w));
}
// ---- C20: the same seed gives the same sentence ----
pub fn c20_seeded() {
    let sks = ["S:a|bS", "S:A|AS;A:a|b", "S:SS|a", "S:aA|0;A:b|cS", "S:AB|c;A:a|0;B:b|AA", "S:a|b|c|d|e|f|g|h|i|j|k|l", "S:aS|`end of it`|é", "S:aA|b;A:cB|d;B:eS|f"];
    let k = shard(sks.len() * 7);
    let g = skeleton(if k % 7 < 6 { sks[k / 7] } else { ["S:a|b|c", "S:AA;A:a|b", "S:A|bA;A:a|B;B:c|d", "S:A;A:a|b|0", "S:ABA;A:a|b;B:c", "S:a|b|c|d|e|f|g|h|i|j|k|l", "S:A`x`A;A:é|0|`日`", "S:A;A:B;B:C;C:a|D;D:b|c"][k / 7] });
    let gr = g.grammar();
    let copy: Grammar = if choice(2) == 0 { gr.clone() } else { gr.to_string().parse().unwrap() };
    show(&gr.to_string());
    let mut seed = SEED;
    seed[5] = any_u8();
    let most = if k / 7 > 6 { pick(6, 8) } else if k / 7 == 5 { 3 } else { pick(4, 5) };
    let n = Cell::new(0);
    let f = |_: &str, _: &str| {
        n.set(n.get() + 1);
        assume(n.get() <= 2 * most);
        true
    };
    let run = |gr: &Grammar, times: usize| -> Vec<String> {
        let mut out = Vec::new();
        n.set(0);
        macro_rules! twice {
            ($s:expr) => {{
                let mut s = lim($s, most);
                for _ in 0..times {
                    out.push(gr.generate_seeded_with_strategy(&mut s).unwrap());
                }
            }};
        }
        match k % 7 {
            0 => twice!(RandomWalk::from_seed(seed)),
            1 => twice!(DepthBounded::from_seed(1, seed)),
            2 => twice!(CoverageGuided::from_seed(seed)),
            3 => twice!(Weighted::from_seed(2, 1, seed)),
            4 => twice!(CoverageGuided::new()),
            5 => twice!(Weighted::new(1, 2)),
            _ => {
                let mut r = StdRng::from_seed(seed);
                for _ in 0..times {
                    out.push(gr.generate_seeded_callback(&mut r, f).unwrap());
                }
            }
        }
        out
    };
    let times = 1 + choice(2);
    let (a, b) = (run(&gr, times), run(&copy, times));
    check(a == b, "the same seed gives the same sentences");
    for s in &a {
        observe_str(s);
    }
    if k % 7 == 6 {
        // without a callback the same sentence comes out
        let s = gr.generate_seeded(&mut StdRng::from_seed(seed)).unwrap();
        check(s == a[0], "generate_seeded and generate_seeded_callback agree on the same seed");
    }
    reach("sentences");
}
