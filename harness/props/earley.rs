//! Parsing input against grammars: an independent derivation counter decides what the parser must say.
use super::rt::*;
use bnf::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Sym {
    N(usize),
    T(usize),
}
/// A small grammar: concrete shape, symbolic terminal bytes.
pub struct Gm {
    pub prods: Vec<(usize, Vec<Vec<Sym>>)>,
    pub terms: Vec<String>,
    pub nts: usize,
    /// derivation counts saturate here
    pub cap: u32,
}
pub const NAMES: [&str; 13] = ["s", "a", "b", "cc", "d", "expr", "s1", "s s", "A", "", "é", "k-k", "a'b"];
fn nt_of(c: u8) -> usize {
    match c {
        b'S' => 0,
        b'A'..=b'L' => (c - b'A') as usize + 1,
        _ => panic!("shape"),
    }
}
fn is_nt(c: u8) -> bool {
    c == b'S' || (b'A'..=b'L').contains(&c)
}
/// `S:AtA|0;A:t|1` — S A B C nonterminals, N any defined nonterminal, t a fresh symbolic one-byte terminal,
/// w a fresh two-byte one, 0 the empty terminal, 1..9 an earlier terminal again, anything else itself; `ab` in
/// backquotes one longer terminal.
pub fn skeleton(sk: &str) -> Gm {
    let mut g = Gm { prods: Vec::new(), terms: Vec::new(), nts: 0, cap: CAP };
    let mut quoted = false;
    for c in sk.bytes() {
        quoted ^= c == b'`';
        if !quoted && is_nt(c) {
            g.nts = g.nts.max(nt_of(c) + 1);
        }
    }
    let nts = g.nts;
    for p in sk.split(';') {
        let mut alts = Vec::new();
        for a in p[2..].split('|') {
            let mut v = Vec::new();
            let mut cs = a.chars();
            while let Some(c) = cs.next() {
                v.push(match c {
                    'S' | 'A'..='L' => Sym::N(nt_of(c as u8)),
                    '`' => {
                        let mut w = String::new();
                        for x in cs.by_ref() {
                            if x == '`' {
                                break;
                            }
                            w.push(x);
                        }
                        g.terms.push(w);
                        Sym::T(g.terms.len() - 1)
                    }
                    'N' => Sym::N(choice(nts)),
                    '1'..='9' => Sym::T(c as usize - '1' as usize),
                    _ => {
                        let s = match c {
                            't' => ascii_string(1),
                            'w' => ascii_string(2),
                            '0' => String::new(),
                            '\u{2}'..='\u{4}' => template(&c.to_string()),
                            c => c.to_string(),
                        };
                        g.terms.push(s);
                        Sym::T(g.terms.len() - 1)
                    }
                });
            }
            alts.push(v);
        }
        g.prods.push((nt_of(p.as_bytes()[0]), alts));
    }
    g
}
impl Gm {
    pub fn grammar(&self) -> Grammar {
        let term = |s: &Sym| match s {
            Sym::N(k) => n(NAMES[*k]),
            Sym::T(k) => t(&self.terms[*k]),
        };
        g(self.prods.iter().map(|(l, alts)| p(NAMES[*l], alts.iter().map(|a| e(a.iter().map(term).collect())).collect())).collect())
    }
    pub fn defined(&self, k: usize) -> bool {
        self.prods.iter().any(|p| p.0 == k)
    }
}
pub const CAP: u32 = 64;
/// Number of derivations of every span of `input` from every nonterminal, saturating at CAP.
pub struct Table {
    c: Vec<u32>,
    w: usize,
    cap: u32,
    /// some span has infinitely many (or more than CAP) derivations
    pub infinite: bool,
}
impl Table {
    pub fn get(&self, nt: usize, i: usize, j: usize) -> u32 {
        self.c[(nt * self.w + i) * self.w + j]
    }
}
pub fn derivations(g: &Gm, input: &str) -> Table {
    let (w, inp, cap) = (input.len() + 1, input.as_bytes(), g.cap);
    // which terminal occurs where; one case split per symbolic comparison
    let mut occ = vec![false; g.terms.len() * w];
    for (k, t) in g.terms.iter().enumerate() {
        let t = t.as_bytes();
        for i in 0..w {
            let mut ok = i + t.len() < w;
            let mut x = 0;
            while ok && x < t.len() {
                ok = t[x] == inp[i + x];
                x += 1;
            }
            occ[k * w + i] = ok;
        }
    }
    let mut c = vec![0u32; g.nts * w * w];
    loop {
        let mut nc = vec![0u32; g.nts * w * w];
        let mut cur = vec![0u32; w];
        let mut nxt = vec![0u32; w];
        for (l, alts) in &g.prods {
            for a in alts {
                for i in 0..w {
                    for x in cur.iter_mut() {
                        *x = 0;
                    }
                    cur[i] = 1;
                    for s in a {
                        for x in nxt.iter_mut() {
                            *x = 0;
                        }
                        for m in i..w {
                            if cur[m] == 0 {
                                continue;
                            }
                            match s {
                                Sym::T(k) => {
                                    if occ[k * w + m] {
                                        let q = m + g.terms[*k].len();
                                        nxt[q] = (nxt[q] + cur[m]).min(cap);
                                    }
                                }
                                Sym::N(k) => {
                                    for j in m..w {
                                        let d = c[(k * w + m) * w + j];
                                        if d != 0 {
                                            nxt[j] = (nxt[j] + cur[m] * d).min(cap);
                                        }
                                    }
                                }
                            }
                        }
                        std::mem::swap(&mut cur, &mut nxt);
                    }
                    for j in i..w {
                        let q = &mut nc[(l * w + i) * w + j];
                        *q = (*q + cur[j]).min(cap);
                    }
                }
            }
        }
        let stable = nc == c;
        c = nc;
        if stable {
            let infinite = c.iter().any(|x| *x == cap);
            return Table { c, w, cap, infinite };
        }
    }
}
/// The text at the leaves, in order.
fn leaves(t: &ParseTree, out: &mut Vec<u8>) {
    for c in t.rhs_iter() {
        match c {
            ParseTreeNode::Terminal(s) => out.extend_from_slice(s.as_bytes()),
            ParseTreeNode::Nonterminal(x) => leaves(x, out),
        }
    }
}
pub fn index_of(t: &Term, g: &Gm) -> usize {
    match t {
        Term::Nonterminal(s) => {
            for k in 0..g.nts {
                if s == NAMES[k] {
                    return k;
                }
            }
            99
        }
        _ => 98,
    }
}
/// Every node is an alternative of some production of its left-hand side.
fn licensed(t: &ParseTree, g: &Gm) -> bool {
    let l = index_of(t.lhs, g);
    let kids: Vec<&ParseTreeNode> = t.rhs_iter().collect();
    let mut any = false;
    for (pl, alts) in &g.prods {
        if *pl != l {
            continue;
        }
        for a in alts {
            if a.len() != kids.len() {
                continue;
            }
            let mut ok = true;
            for (s, k) in a.iter().zip(kids.iter()) {
                match (s, k) {
                    (Sym::N(x), ParseTreeNode::Nonterminal(c)) => {
                        if index_of(c.lhs, g) != *x {
                            ok = false;
                            break;
                        }
                    }
                    (Sym::T(x), ParseTreeNode::Terminal(c)) => {
                        if c.len() != g.terms[*x].len() {
                            ok = false;
                            break;
                        }
                        ok &= same(c, &g.terms[*x]);
                    }
                    _ => {
                        ok = false;
                        break;
                    }
                }
            }
            any |= ok;
        }
    }
    let mut all = any;
    for k in kids {
        if let ParseTreeNode::Nonterminal(c) = k {
            all &= licensed(c, g);
        }
    }
    all
}
pub fn valid(t: &ParseTree, g: &Gm, start: usize, input: &str) {
    check(index_of(t.lhs, g) == start, "the root of the tree is the start symbol");
    let mut y = Vec::new();
    leaves(t, &mut y);
    check(same(unsafe { std::str::from_utf8_unchecked(&y) }, input), "the leaves of the tree spell the input");
    check(licensed(t, g), "every node of the tree is licensed by a production");
}
/// Structural equality, decided without a case split.
fn equal(a: &ParseTree, b: &ParseTree) -> bool {
    let (x, y): (Vec<_>, Vec<_>) = (a.rhs_iter().collect(), b.rhs_iter().collect());
    if x.len() != y.len() || a.lhs != b.lhs {
        return false;
    }
    let mut r = true;
    for (p, q) in x.iter().zip(y.iter()) {
        match (p, q) {
            (ParseTreeNode::Terminal(s), ParseTreeNode::Terminal(t)) => {
                if s.len() != t.len() {
                    return false;
                }
                r &= same(s, t)
            }
            (ParseTreeNode::Nonterminal(s), ParseTreeNode::Nonterminal(t)) => r &= equal(s, t),
            _ => return false,
        }
    }
    r
}
/// No nonterminal has the same alternative twice.
fn assume_distinct_alternatives(g: &Gm) {
    let mut all: Vec<(usize, &Vec<Sym>)> = Vec::new();
    for (l, alts) in &g.prods {
        for a in alts {
            all.push((*l, a));
        }
    }
    for i in 0..all.len() {
        for j in 0..i {
            if all[i].0 != all[j].0 || all[i].1.len() != all[j].1.len() {
                continue;
            }
            let mut eq = true;
            for (x, y) in all[i].1.iter().zip(all[j].1.iter()) {
                match (x, y) {
                    (Sym::N(a), Sym::N(b)) => eq &= a == b,
                    (Sym::T(a), Sym::T(b)) => eq &= same(&g.terms[*a], &g.terms[*b]),
                    _ => eq = false,
                }
            }
            assume(!eq);
        }
    }
}
pub fn show_case(gr: &Grammar, input: &str) {
    show(&gr.to_string());
    show(input);
}
pub fn observe_tree(t: &ParseTree) {
    observe_term(t.lhs);
    for c in t.rhs_iter() {
        match c {
            ParseTreeNode::Terminal(s) => {
                observe(1);
                observe_str(s)
            }
            ParseTreeNode::Nonterminal(x) => {
                observe(2);
                observe_tree(x)
            }
        }
    }
    observe(3);
}
/// Hand-picked shapes: recursion of every kind, nullability, hidden left recursion, ambiguity, unit cycles,
/// repeated left-hand sides, empty alternatives, longer terminals, multi-byte characters.
pub const SHAPES: &[(&str, usize, usize)] = &[
    // (shape, longest input quick, thorough)
    ("S:t|St", 5, 6),
    ("S:t|tS", 5, 6),
    ("S:0|tSt", 5, 6),
    ("S:tS|t", 5, 6),
    ("S:SS|t", 5, 6),
    ("S:A|B;A:t|tA;B:tB|t", 4, 5),
    ("S:AS|t;A:0|t", 3, 4),
    ("S:ASt|t;A:0", 4, 5),
    ("S:AB;A:t|0;B:t|0", 3, 4),
    ("S:AAA;A:t|0", 4, 5),
    ("S:|tS", 4, 5),
    ("S:A;A:|t|At", 4, 5),
    ("S:A|t;A:S|t", 3, 4),
    ("S:S|t", 3, 4),
    ("S:SS|0|t", 2, 2),
    ("S:t;S:St", 4, 5),
    ("S:A1;A:t;A:tA;A:0", 3, 4),
    ("S:w|tt|tS", 4, 5),
    ("S:wS|t|St", 4, 5),
    ("S:tA|tB;A:t;B:t", 3, 4),
    ("S:NN|t;A:t", 3, 4),
    ("S:Nt|t;A:N|0", 3, 4),
    ("S:tN;A:Nt|0", 3, 4),
    ("S:AAt|0;A:0|t", 3, 4),
    ("S:éS|t|0", 4, 5),
    ("S:\x02S|t|0", 3, 4),
    ("S:S1S|t", 5, 6),
    ("S:ABC;A:t|0;B:0|0A;C:t|B", 3, 4),
    ("S:AtA;A:BB;B:0|t", 3, 4),
    ("S:0S0|t", 3, 4),
    ("S:A;A:B;B:A|t", 3, 4),
    ("S:A0B;A:t0|0;B:0|0t", 3, 4),
    ("S:BA|AB;A:t|1;B:1", 3, 4),
];
/// Larger grammars with fixed terminals and longer inputs in which some bytes are symbolic.
pub const LARGE: &[(&str, &[&str])] = &[
    ("S:S+A|A;A:A*B|B;B:(S)|x|y", &["x+x*\x01", "(x+\x01)*x", "x+x*(x+y)\x01x", "((x))\x01\x01", "\x01x+x)*y", "x*(y+x*(x+y\x01)*x)+y"]),
    ("S:Sa|a", &["aaaaaaaaaaaa\x01", "aaaaaa\x01aaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"]),
    ("S:aS|a", &["aaaaaaaaaaaa\x01", "aaaaaa\x01aaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"]),
    ("S:S,A|A;A:x|y|z|(S)|0", &["x,y,z,x,y,z,x,y,z,x,y,\x01", "x,(y,\x01),z,,,x", "((((((x))))))", "(x,y,(z,x),((y)),\x01)"]),
    ("S:tS|0", &["abababababababab"]),
    ("S:wSt|`aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa`|0", &["aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaa\x01aaaaaaaaaaaaaaaaaaaa"]),
    ("S:aS|0", &["aaaaaaaaaaaa\x01", "aaaaaaaaaaaaaaa"]),
    ("S:|Sab", &["ababababab\x01\x01"]),
    ("S:SS|a", &["aaaaa\x01", "a\x01aaa", "!aaaaaaa", "!aaaaaaaa"]),
    ("S:SSS|a", &["aaaa\x01aa"]),
    ("S:a|b|c|d|e|f|g|h|i|j|k|l|m|n|o|p|q|r|s|u|v|x|y|zS", &["\x01", "\x01\x01", "zzzzzz\x01"]),
    ("S:A;A:B;B:C;C:D;D:E;E:F;F:G;G:H;H:I;I:J;J:x|xS", &["xxx\x01", "x\x01"]),
    ("S:`ab`S|`abc`|cS|a|0", &["ababc\x01c", "abab\x01\x01", "ab\x01\x01c"]),
    ("S:`if`A`then`S|`if`A`then`S`else`S|x;A:c", &["ifcthenifcthenxelse\x01", "ifcth\x01nx", "ifcthenxelseifcthenx\x01lsex"]),
    ("S:éS|`日本`S|x|0", &["é日本\x01é", "日本\x01", "日é\x01", "x\x01é", "\x02x", "\x03本x", "é\x04"]),
    ("S:\x02S|\x03|0", &["\x02", "\x03", "é\x02", "\x02\x03", "\x01é"]),
    ("S:ß|ẞS|éA|ΣS;A:É|σ|ς|0", &["ẞ\x02", "\x03ß", "é\x02", "\x02\x02", "Σé\x02"]),
    ("S:`éa`A|éaA;A:`a😀`|a😀", &["éaa😀", "éa\x01😀"]),
    ("S:ABCD;A:a|0;B:b|A0;C:|c;D:d|CC", &["\x01", "ab\x01", "acc\x01"]),
    ("S:AAAAAA;A:a|0", &["aaa", "aa\x01a", "aaaaa\x01", "aaaaaaa"]),
    ("S:aSa|bSb|a|b|0", &["abab\x01baba", "ab\x01\x01\x01ba", "aabbaabb\x01"]),
    ("S:Aa|b;A:Sc|d", &["bcaca\x01", "dacac\x01", "bca\x01acaca"]),
    ("S:aAd|bBd|aBe|bAe;A:cA|c;B:cB|c", &["acccc\x01", "\x01cccd", "bc\x01ce"]),
    ("S:A;A:Aa|B;B:Bb|S`!`|c", &["cbb!a\x01", "c!bb!\x01a"]),
    ("S:AB;S:BA;A:a;A:ab;B:b;B:ba;A:0", &["ab\x01", "\x01ba", "abb\x01"]),
    ("S:DE|ED;D:dD|0;E:Ee|0", &["dde\x01", "ddee\x01e", "eed\x01"]),
    ("S:`aaaaaaaa`|`aaaa`S|`aaaaa`A;A:`aaa`|A`a`|0", &["aaaaaaaa", "aaaa\x01aaa", "aaaaaaaaa", "aaaaaaa\x01aaaa"]),
    ("S:AxB;A:|a|aa;B:A|AA", &["aaxa\x01", "ax\x01", "aaxaa\x01"]),
    ("S:abcdefgh|abcdefghS|abcdefA;A:gi|gh", &["abcdefg\x01", "abcdefgh\x01bcdefgh"]),
    ("S:{A}|{};A:B|B,A;B:`\"k\"`:C;C:S|1|[D]|[];D:C|C,D", &["{\"k\":1}", "{\"k\":[1,{}\x01}", "{\"k\":{\"k\":\x01}}", "{\"k\":[1,1\x01,{}]}"]),
    ("S:aB|bA;A:a|aS|bAA;B:b|bS|aBB", &["abab\x01b", "aabb\x01\x01", "ba\x01baab"]),
    ("S:L;L:LK|K;K:(L)|()", &["()(()\x01", "(()())\x01\x01", "((((\x01))))"]),
    ("S:AAa|b;A:BB|c;B:0|S0", &["cca", "c\x01a", "bba"]),
    ("S:SA|0;A:a|B;B:SbS", &["ab\x01", "ba\x01"]),
    ("S:AC;A:aAb|0;C:cC|0;B:b", &["aabbc\x01", "aab\x01c", "aaabbbccc\x01"]),
];
/// `!` before the input: many derivations, count them further.
fn large(sk: &str, input: &str) -> (Gm, String) {
    let mut g = skeleton(sk);
    if let Some(x) = input.strip_prefix('!') {
        g.cap = 450;
        return (g, template(x));
    }
    (g, template(input))
}
fn large_count() -> usize {
    LARGE.iter().map(|x| x.1.len()).sum()
}
/// Systematic shapes for the thorough tier: S with two alternatives and A with two, up to two symbols each.
const ALTS: &[&str] = &["", "0", "t", "S", "A", "tt", "tS", "St", "tA", "At", "SS", "SA", "AS", "AA", "1", "1A", "S1"];
const GRID_S: usize = 17 * 17;
/// Pseudo-randomly drawn grammars of 3 to 5 nonterminals, up to 3 alternatives of up to 4 symbols.
pub fn drawn(k: usize) -> String {
    let mut x = (k as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x1234_5678_9abc_def1;
    let mut draw = |m: u64| {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        (x >> 20) % m
    };
    let nts = 3 + draw(3);
    let mut out = String::new();
    let name = |i: u64| (b"SABCD"[i as usize]) as char;
    let mut order: Vec<u64> = (0..nts).collect();
    if draw(4) == 0 {
        // a nonterminal defined in two places
        order.push(draw(nts));
    }
    for (q, l) in order.iter().enumerate() {
        if q > 0 {
            out.push(';');
        }
        out.push(name(*l));
        out.push(':');
        let alts = 1 + draw(3);
        for a in 0..alts {
            if a > 0 {
                out.push('|');
            }
            let len = [0, 1, 1, 2, 2, 2, 3, 3, 4][draw(9) as usize];
            for _ in 0..len {
                match draw(10) {
                    0..=2 => out.push('a'),
                    3 | 4 => out.push('b'),
                    5 => out.push_str(["`ab`", "0", "`ba`", "`aa`"][draw(4) as usize]),
                    _ => out.push(name(draw(nts))),
                }
            }
        }
    }
    out
}
fn drawn_count() -> usize {
    pick(240, 1500)
}
pub fn shapes() -> usize {
    SHAPES.len() + GRID_S * pick(1, 4)
}
fn pick_shape(k: usize) -> (String, usize) {
    if k < SHAPES.len() {
        let (s, q, l) = SHAPES[k];
        return (s.to_string(), pick(q, l));
    }
    let k = k - SHAPES.len();
    let (i, j) = (k % 17, k / 17 % 17);
    let a2 = ["t|0", "S|t", "tA|S", "AA|t"][k / GRID_S];
    // 1 refers to the first terminal: make sure there is one
    (format!("S:t|{}|{};A:{}", ALTS[i], ALTS[j], a2), pick(2, 3))
}
pub fn case() -> (Gm, String) {
    let mut k = shard(large_count() + drawn_count() + shapes());
    for (sk, ins) in LARGE {
        if k < ins.len() {
            return large(sk, ins[k]);
        }
        k -= ins.len();
    }
    if k < drawn_count() {
        let g = skeleton(&drawn(k));
        let input = ascii_string(choice(pick(5, 6)));
        assume(!derivations(&g, &input).infinite);
        return (g, input);
    }
    k -= drawn_count();
    let (sk, l) = pick_shape(k);
    let g = skeleton(&sk);
    let input = match choice(l + 1 + sk.contains('é') as usize) {
        k if k > l => format!("é{}", template("\x01")),
        k => ascii_string(k),
    };
    (g, input)
}
/// How many trees can be asked for before the search may fail to end.
fn safe_count(tb: &Table, start: usize, len: usize) -> usize {
    match tb.get(start, 0, len) {
        c if !tb.infinite => c as usize + 1,
        c if c == tb.cap => 3,
        c => (c > 0) as usize,
    }
}
pub fn bounded<'a>(it: impl Iterator<Item = ParseTree<'a>>, k: usize) -> Vec<ParseTree<'a>> {
    let mut v = Vec::new();
    for t in it {
        v.push(t);
        if v.len() == k {
            break;
        }
    }
    v
}

// ---- C01: every tree is a derivation of the input ----
pub fn c01_sound() {
    let (g, input) = case();
    let gr = g.grammar();
    show_case(&gr, &input);
    let tb = derivations(&g, &input);
    let c = tb.get(0, 0, input.len());
    // KNOWN-FINDING: with a cyclic derivation and no (further) tree the iterator does not end
    assume(!tb.infinite || c > 0);
    let ps = gr.build_parser();
    assume(ps.is_ok());
    let ps = ps.unwrap();
    let trees = bounded(ps.parse_input(&input), if !tb.infinite { tb.cap as usize + 2 } else if c == tb.cap { 3 } else { 1 });
    for t in &trees {
        valid(t, &g, 0, &input);
        observe_tree(t);
    }
    reach(if trees.is_empty() { "no tree" } else { "tree" });
}
// ---- C02: a tree is found exactly for the strings of the language, and the search ends ----
pub fn c02_member() {
    let (g, input) = case();
    let gr = g.grammar();
    show_case(&gr, &input);
    let tb = derivations(&g, &input);
    let c = tb.get(0, 0, input.len());
    assume(!tb.infinite || c > 0);
    let ps = gr.build_parser();
    check(ps.is_ok(), "a grammar without undefined nonterminals gives a parser");
    let ps = ps.unwrap();
    let first = ps.parse_input(&input).next();
    check(!(first.is_none() && c > 0), "a string of the language has a parse tree");
    check(!(first.is_some() && c == 0), "a string outside the language has no parse tree");
    observe(first.is_some() as u64);
    reach(if c > 0 { "member" } else { "non-member" });
}
// ---- C03: every derivation exactly once ----
pub fn c03_count() {
    let (g, input) = case();
    let gr = g.grammar();
    show_case(&gr, &input);
    let tb = derivations(&g, &input);
    assume(!tb.infinite);
    let c = tb.get(0, 0, input.len()) as usize;
    let ps = gr.build_parser().unwrap();
    let trees = bounded(ps.parse_input(&input), c + 1);
    check(trees.len() >= c, "no derivation is missing");
    check(trees.len() <= c, "no derivation is reported twice");
    observe(c as u64);
    reach(if c > 1 { "ambiguous" } else { "unambiguous" });
    if c > 1 && c <= CAP as usize {
        assume_distinct_alternatives(&g);
        reach("distinct");
        for i in 0..trees.len() {
            for j in 0..i {
                check(!equal(&trees[i], &trees[j]), "the trees are pairwise different");
            }
        }
    }
}
/// Cyclic derivations: the trees keep coming, all different.
pub fn c03_infinite() {
    let (g, input) = case();
    let gr = g.grammar();
    show_case(&gr, &input);
    let tb = derivations(&g, &input);
    assume(tb.infinite && tb.get(0, 0, input.len()) == tb.cap);
    assume_distinct_alternatives(&g);
    let ps = gr.build_parser().unwrap();
    let trees = bounded(ps.parse_input(&input), 4);
    check(trees.len() == 4, "a string with endlessly many derivations has more trees");
    reach("endless");
    for i in 0..trees.len() {
        for j in 0..i {
            check(!equal(&trees[i], &trees[j]), "the trees are pairwise different");
        }
    }
}

/// Long inputs of languages whose strings can be told by looking at them: (grammar, input, is it in the language,
/// index of the unknown byte). Every string of these languages has one derivation.
fn long_case() -> (Gm, String, bool) {
    let kinds = 12;
    let places = 4;
    let k = shard(kinds * places);
    let (kind, place) = (k % kinds, k / kinds);
    let size = |q: usize, th: usize| pick(q, th);
    let (sk, mut text) = match kind {
        0 => ("S:Sa|a", vec![b'a'; size(2500, 5000)]),
        1 => ("S:aS|a", vec![b'a'; size(520, 800)]),
        2 => {
            let k = size(400, 2000);
            let mut v = vec![b'a'; k];
            v.resize(2 * k, b'b');
            ("S:aSb|ab", v)
        }
        3 => ("S:A|S,A;A:x|y", b"x,y,".repeat(size(300, 1500))[1..].to_vec()),
        4 => ("S:`L`A;A:a|b", vec![b'a'; 70001]),
        5 => ("S:A`L`A;A:a|b|bA", vec![b'a'; 66002]),
        6 => ("S:|S(S)", b"(()())(())".repeat(size(30, 60))),
        // a nonterminal at two places that many bytes apart
        8 | 9 => ("S:A`L`A;A:b|0", [vec![b'a'; if kind == 8 { 65536 } else { 256 }], vec![b'b']].concat()),
        // many alternatives, many terms
        10 => ("S:S,A|A;A:x", b"v000,v255,v299,v064,v128,v129,v130,v065,v298".to_vec()),
        11 => ("S:A;A:x", (0..size(150, 400)).flat_map(|i| [b'a', b'0' + (i % 10) as u8]).collect()),
        _ => ("S:`abcdefghij`S|`abcdefghij`", b"abcdefghij".repeat(size(200, 500))),
    };
    if kind == 3 {
        text.insert(0, b'y');
    }
    if kind == 3 {
        text.pop();
    }
    let at = [0, text.len() / 2, text.len() - 2, text.len() - 1][place];
    text[at] = ascii();
    let mut g = skeleton(sk);
    if kind == 4 || kind == 5 {
        let i = g.terms.iter().position(|t| t == "L").unwrap();
        g.terms[i] = "a".repeat(if kind == 4 { 70000 } else { 66000 });
    }
    if kind == 8 || kind == 9 {
        let i = g.terms.iter().position(|t| t == "L").unwrap();
        g.terms[i] = "a".repeat(text.len() - 1);
    }
    if kind == 10 {
        // A ::= v000 | ... | v299
        let k = g.terms.len();
        for i in 0..300 {
            g.terms.push(format!("v{i:03}"));
        }
        g.prods[1].1 = (k..k + 300).map(|i| vec![Sym::T(i)]).collect();
    }
    if kind == 11 {
        // A ::= 'a' '0' 'a' '1' ...
        let k = g.terms.len();
        for b in b"a0123456789" {
            g.terms.push((*b as char).to_string());
        }
        g.prods[1].1 = vec![(0..text.len()).map(|i| Sym::T(if i % 2 == 0 { k } else { k + 1 + i / 2 % 10 })).collect()];
    }
    let all = |from: usize, to: usize, b: u8| {
        let mut d = 0;
        for x in &text[from..to] {
            d |= x ^ b;
        }
        d == 0
    };
    let len = text.len();
    let member = match kind {
        0 | 1 => all(0, len, b'a'),
        2 => all(0, len / 2, b'a') & all(len / 2, len, b'b'),
        3 => {
            let mut ok = len % 2 == 1;
            for (i, x) in text.iter().enumerate() {
                ok &= if i % 2 == 1 { *x == b',' } else { (*x == b'x') | (*x == b'y') };
            }
            ok
        }
        4 => all(0, len - 1, b'a') & ((text[len - 1] == b'a') | (text[len - 1] == b'b')),
        5 => all(1, len - 1, b'a') & ((text[0] == b'a') | (text[0] == b'b')) & ((text[len - 1] == b'a') | (text[len - 1] == b'b')),
        8 | 9 => all(1, len - 1, b'a') & ((text[0] == b'a') & (text[len - 1] == b'b') | (text[0] == b'b') & (text[len - 1] == b'a')),
        10 => {
            let mut ok = true;
            for (i, w) in text.chunks(5).enumerate() {
                ok &= (w[0] == b'v') & (w[1] >= b'0') & (w[1] <= b'2') & (w[2] >= b'0') & (w[2] <= b'9') & (w[3] >= b'0') & (w[3] <= b'9');
                ok &= i == 8 || w[4] == b',';
            }
            ok
        }
        11 => {
            let mut ok = true;
            for (i, x) in text.iter().enumerate() {
                ok &= *x == if i % 2 == 0 { b'a' } else { b'0' + (i / 2 % 10) as u8 };
            }
            ok
        }
        6 => {
            let (mut depth, mut ok) = (0i64, true);
            for x in &text {
                ok &= (*x == b'(') | (*x == b')');
                depth += if *x == b'(' { 1 } else { -1 };
                ok &= depth >= 0;
            }
            ok & (depth == 0)
        }
        _ => {
            let mut ok = true;
            for (i, x) in text.iter().enumerate() {
                ok &= *x == b'a' + (i % 10) as u8;
            }
            ok
        }
    };
    (g, unsafe { String::from_utf8_unchecked(text) }, member)
}
fn long(what: u8) {
    let (g, input, member) = long_case();
    let gr = g.grammar();
    let ps = gr.build_parser().unwrap();
    let mut it = ps.parse_input(&input);
    let first = it.next();
    observe(first.is_some() as u64);
    reach(if member { "member" } else { "non-member" });
    match what {
        1 => {
            if let Some(t) = &first {
                valid(t, &g, 0, &input);
            }
        }
        2 => {
            check(!(first.is_none() & member), "a string of the language has a parse tree");
            check(!(first.is_some() & !member), "a string outside the language has no parse tree");
        }
        _ => {
            check(first.is_some() | !member, "no derivation is missing");
            check(it.next().is_none(), "no derivation is reported twice");
        }
    }
}
pub fn c01_long() {
    long(1)
}
pub fn c02_long() {
    long(2)
}
pub fn c03_long() {
    long(3)
}

// ---- C04: where parsing starts ----
const START_SHAPES: &[&str] = &[
    "A:tS;S:t|tS", "A:t;S:A1", "B:t|A;A:tB;S:B", "S:tA|t;A:t|tS", "A:|tA;S:tA", "A:S;S:t|0", "S:t;A:tt;S:tt", "A:t;S:AA;A:tt", "S:A|t;A:S|t", "A:AA|t;S:A", "S:|A;A:t", "B:S1;S:t|SS;A:B",
    // referring to nonterminals that nothing defines
    "S:tA|t", "S:A|tS|t", "A:tB|S;S:t|B", "S:AB|tt;B:t",
];
/// Larger: (grammar, inputs), parsed from every nonterminal.
const START_LARGE: &[(&str, &[&str])] = &[
    ("S:S+A|A;A:A*B|B;B:(S)|x|y", &["x", "x*y", "(x)", "x+\x01", "(x+y)*\x01"]),
    ("D:aE;E:bF|b;F:cG|c;G:dD|d;S:DE", &["abcda", "bcd\x01", "\x01bc", "d", "cd", "abb"]),
    ("A:a|aA;B:b|bB;C:AB|BA;D:CC;S:D", &["ab", "aab\x01", "ba\x01b", "aaa", "\x01"]),
    ("I:x;H:I;G:H;F:G|H;E:FG;D:E|F;S:D", &["x", "xx", "x\x01"]),
    ("A:a;S:b;A:c;B:A|S;S:d;A:e", &["a", "b", "c", "d", "e", "\x01"]),
    ("S:`日本`A|A;A:é|`éé`|éA", &["日本é", "éé", "é\x01", "日本"]),
    ("J:;A:JaJ;S:AJ|J", &["", "a", "\x01"]),
    ("A:aB|b;B:aA|DS;S:c|CA", &["aaab", "c", "\x01", "ab"]),
];
pub fn c04_start() {
    let k = shard(START_SHAPES.len() + START_LARGE.len() + pick(120, 800));
    let (g, input) = if k >= START_SHAPES.len() + START_LARGE.len() {
        let (g, input) = (skeleton(&drawn(k * 7)), ascii_string(choice(pick(4, 5))));
        assume(!derivations(&g, &input).infinite);
        (g, input)
    } else if k < START_SHAPES.len() {
        (skeleton(START_SHAPES[k]), ascii_string(choice(pick(4, 5))))
    } else {
        let (sk, ins) = START_LARGE[k - START_SHAPES.len()];
        (skeleton(sk), template(ins[choice(ins.len())]))
    };
    let gr = g.grammar();
    show_case(&gr, &input);
    let tb = derivations(&g, &input);
    let first = g.prods[0].0;
    let asked = choice(g.nts + 2);
    let term = match asked {
        x if x < g.nts => n(NAMES[x]),
        x if x == g.nts => n("zz"),
        _ => t(NAMES[0]),
    };
    let start = if asked < g.nts { asked } else { first };
    assume(!tb.infinite || tb.get(first, 0, input.len()) > 0 && tb.get(start, 0, input.len()) > 0);
    let holds = |trees: Vec<ParseTree>, start: usize, m: &str| {
        let (c, k) = (tb.get(start, 0, input.len()) as usize, safe_count(&tb, start, input.len()));
        check(trees.len() == if tb.infinite { k } else { c }, m);
        for t in &trees {
            check(index_of(t.lhs, &g) == start, "the root of the tree is the requested start symbol");
            valid(t, &g, start, &input);
        }
        observe(trees.len() as u64);
        if c > 0 {
            reach(m);
        }
    };
    let k = |s: usize| safe_count(&tb, s, input.len()).max(1);
    let built = gr.build_parser();
    if let Ok(ps) = &built {
        holds(bounded(ps.parse_input(&input), k(first)), first, "parse_input derives from the first production's left-hand side");
        let it = ps.parse_input_starting_with(&input, &term);
        if asked < g.nts {
            holds(bounded(it, k(start)), start, "parse_input_starting_with derives from the given nonterminal");
        } else {
            check(bounded(it, 1).is_empty(), "nothing derives from a term without productions");
        }
    }
    #[allow(deprecated)]
    {
        holds(bounded(gr.parse_input(&input), k(first)), first, "Grammar::parse_input derives from the first production's left-hand side");
        let it = gr.parse_input_starting_with(&input, &term);
        if asked < g.nts {
            holds(bounded(it, k(start)), start, "Grammar::parse_input_starting_with derives from the given nonterminal");
        } else {
            check(bounded(it, 1).is_empty(), "nothing derives from a term without productions");
        }
    }
}
// ---- C05: one parser, many inputs ----
pub fn c05_reuse() {
    let list = [0, 1, 2, 4, 6, 7, 8, 10, 11, 12, 13, 15, 18, 19, 22, 23, 25, 27];
    let small = pick(12, list.len());
    let k = shard(small + LARGE.len());
    let (g, xs) = if k < small {
        (skeleton(SHAPES[list[k]].0), [ascii_string(choice(pick(3, 4))), ascii_string(choice(pick(2, 3)))])
    } else {
        let (sk, ins) = LARGE[k - small];
        let (i, j) = (choice(ins.len()), choice(ins.len()));
        let unknown = |x: usize| ins[x].bytes().filter(|b| *b == 1).count();
        assume(unknown(i) + unknown(j) <= if sk.len() > 40 { 2 } else { 3 });
        // the second input is the first one again, another one, or the first one cut short
        let (g, a) = large(sk, ins[i]);
        assume(a.len() < 30);
        let b = if i == j { a[..a.char_indices().nth(a.chars().count() / 2).map_or(0, |x| x.0)].to_string() } else { large(sk, ins[j]).1 };
        assume(b.len() < 30);
        (g, [a, b])
    };
    let gr = g.grammar();
    show_case(&gr, &xs[0]);
    show(&xs[1]);
    let tbs = [derivations(&g, &xs[0]), derivations(&g, &xs[1])];
    for i in 0..2 {
        assume(!tbs[i].infinite || tbs[i].get(0, 0, xs[i].len()) > 0);
    }
    let most = |i: usize| safe_count(&tbs[i], 0, xs[i].len()).min(4);
    // what each input gives on its own, each time with a parser of its own
    let (p0, p1) = (gr.build_parser().unwrap(), gr.build_parser().unwrap());
    let want = [bounded(p0.parse_input(&xs[0]), most(0)), bounded(p1.parse_input(&xs[1]), most(1))];
    // one parser, both inputs at once, in some order
    let ps = gr.build_parser().unwrap();
    let mut got = [Vec::new(), Vec::new()];
    {
        let mut a = ps.parse_input(&xs[0]);
        let mut b = ps.parse_input(&xs[1]);
        let order = choice(3);
        for step in 0..8 {
            let i = match order {
                0 => step % 2,
                1 => (step + 1) / 2 % 2,
                _ => (step < 4) as usize,
            };
            if got[i].len() < most(i) {
                match if i == 0 { a.next() } else { b.next() } {
                    Some(t) => got[i].push(t),
                    None => check(got[i].len() == want[i].len(), "a parser used for several inputs finds the trees a fresh one finds"),
                }
            }
        }
    }
    let again = bounded(ps.parse_input(&xs[0]), most(0));
    for (a, b) in [(&got[0], &want[0]), (&got[1], &want[1]), (&again, &want[0])] {
        check(a.len() == b.len(), "a parser used for several inputs finds as many trees as a fresh one");
        for (x, y) in a.iter().zip(b.iter()) {
            check(equal(x, y), "a parser used for several inputs finds the trees a fresh one finds");
        }
        if a.len() > 1 {
            reach("several trees");
        }
    }
}
/// A tree written out, independent of what it was parsed from.
fn flat(t: &ParseTree, out: &mut Vec<u8>) {
    out.push(b'(');
    if let Term::Nonterminal(s) = t.lhs {
        out.extend_from_slice(s.as_bytes());
    }
    for c in t.rhs_iter() {
        match c {
            ParseTreeNode::Terminal(s) => {
                out.push(s.len() as u8);
                out.extend_from_slice(s.as_bytes())
            }
            ParseTreeNode::Nonterminal(x) => flat(x, out),
        }
    }
    out.push(b')');
}
const SEQ: &[(&str, &[&str])] = &[
    ("S:aS|A;A:b|bA|c", &["a\x01", "b", "aab", "\x01"]),
    ("S:AB;A:a|aA;B:b|bB", &["ab", "\x01", "aab\x01", "bb"]),
    ("S:A|B;A:aA|0;B:Bb|0", &["", "a\x01", "bb"]),
    ("S:SS|a|A;A:b|A`,`A", &["aa\x01", "b,\x01", "b,b,b", "aaa"]),
    ("S:SA|A;A:xB|B;B:(S)|y", &["x\x01", "(yxy)\x01", "xxy", "y"]),
    ("S:Aa|b;A:Sc|d;B:`bca`|S", &["bc\x01", "da", "\x01", "d"]),
    ("S:t|tA;A:t", &["\x01", "ab", "\x01b"]),
    ("S:AAA;A:a|0;B:S|b", &["a", "a\x01", "", "aaa"]),
];
/// One parser, many questions one after another: other inputs in the same buffer, other start symbols, iterators
/// dropped half-way, and all of it again.
pub fn c05_sequence() {
    let k = shard(SEQ.len() * 4 + pick(60, 400));
    let some = drawn(k * 5 + 2);
    let (sk, ins) = if k < SEQ.len() * 4 { SEQ[k / 4] } else { (&some[..], &["", "a", "b", "ab", "a\x01"][..]) };
    let order = k % 4;
    let g = skeleton(sk);
    let gr = g.grammar();
    let xs: Vec<String> = ins.iter().map(|x| template(x)).collect();
    for x in &xs {
        assume(k < SEQ.len() * 4 || !derivations(&g, x).infinite);
    }
    show(&gr.to_string());
    for x in &xs {
        show(x);
    }
    let mut asked = Vec::new();
    for i in 0..xs.len() {
        for s in 0..g.nts + 3 {
            asked.push((i, s));
        }
    }
    match order {
        1 => asked.reverse(),
        2 => asked.sort_by_key(|x| (x.1, x.0)),
        3 => asked.sort_by_key(|x| (x.0 * 7 + x.1 * 5) % 11),
        _ => {}
    }
    let terms: Vec<Term> = (0..g.nts + 2).map(|x| if x < g.nts { n(NAMES[x]) } else if x == g.nts { n("zz") } else { t(NAMES[0]) }).collect();
    let read = |ps: &bnf::GrammarParser, x: &str, s: usize, most: usize| {
        let mut out = Vec::new();
        // the parser outlives this closure, and nothing of the trees is kept
        let (ps, x): (&'static bnf::GrammarParser<'static>, &'static str) = unsafe { (std::mem::transmute(ps), std::mem::transmute(x)) };
        let mut go = |it: &mut dyn Iterator<Item = ParseTree<'static>>| {
            for _ in 0..most {
                let Some(t) = it.next() else {
                    out.push(b'.');
                    break;
                };
                flat(&t, &mut out);
            }
        };
        if s == 0 {
            go(&mut ps.parse_input(x));
        } else {
            // the term need not live longer than the call's result
            let term: &'static Term = unsafe { std::mem::transmute(&terms[s - 1]) };
            go(&mut ps.parse_input_starting_with(x, term));
        }
        out
    };
    let ps = gr.build_parser().unwrap();
    let mut buf = String::with_capacity(64);
    let mut want: Vec<Vec<u8>> = Vec::new();
    for (i, s) in &asked {
        let fresh = gr.build_parser().unwrap();
        let x = xs[*i].clone();
        want.push(read(&fresh, &x, *s, 4));
    }
    for pass in 0..3 {
        for (q, (i, s)) in asked.iter().enumerate() {
            buf.clear();
            buf.push_str(&xs[*i]);
            if pass == 0 {
                read(&ps, &buf, *s, q % 3);
                continue;
            }
            let got = read(&ps, &buf, *s, 4);
            check(got.len() == want[q].len(), "a parser used before finds as many trees as a fresh one");
            check(same(unsafe { std::str::from_utf8_unchecked(&got) }, unsafe { std::str::from_utf8_unchecked(&want[q]) }), "a parser used before finds the trees a fresh one finds");
            observe(got.len() as u64);
            if got.len() > 1 {
                reach("trees");
            }
        }
    }
}
// ---- C13: validation ----
/// Names are symbolic, so every coincidence between definitions and references is covered.
pub fn c13_validate() {
    // (production sizes): each production is a list of alternatives, each a list of terms
    // n reference, t terminal
    let shapes = ["!", "n", "t", "nn", "n|n", "n;n", "t;n", "n;t", "", "|t", ";n", "n;", "nt|;n", "n|n;n", "n;n;n", "nn;n;t", "|n;"];
    let k = shard(shapes.len());
    let sh = shapes[k];
    let len = if k < 7 { choice(3) } else { 1 };
    let mut prods = Vec::new();
    let (mut lhs, mut refs): (Vec<String>, Vec<String>) = (Vec::new(), Vec::new());
    if sh != "!" {
        for p in sh.split(';') {
            let l = ascii_string(len);
            lhs.push(l.clone());
            let mut alts = Vec::new();
            if !p.is_empty() {
                for a in p.split('|') {
                    let mut v = Vec::new();
                    for c in a.bytes() {
                        let s = ascii_string(len);
                        if c == b'n' {
                            refs.push(s.clone());
                            v.push(Term::Nonterminal(s));
                        } else {
                            v.push(Term::Terminal(s));
                        }
                    }
                    alts.push(e(v));
                }
            }
            prods.push(Production::from_parts(Term::Nonterminal(l), alts));
        }
    }
    judge(g(prods), lhs, refs);
}
/// Pseudo-randomly drawn productions and references, defined or not; one name has an unknown byte.
pub fn c13_drawn() {
    let k = shard(pick(600, 4000));
    let mut d = super::text::Draw::new(k);
    let pool = ["a", "b", "c", "aa", "", "é", "A", "a ", "d", "__anon0"];
    let b = format!("{}", byte_in(b'a', b'f') as char);
    let upto = 2 + d.of(9);
    let mut pick_name = |d: &mut super::text::Draw| {
        let q = d.of(upto);
        if q == 1 { b.clone() } else { pool[q.min(9)].to_string() }
    };
    let (mut lhs, mut refs, mut prods) = (Vec::new(), Vec::new(), Vec::new());
    for _ in 0..1 + d.of(8) {
        let l = pick_name(&mut d);
        lhs.push(l.clone());
        let mut alts = Vec::new();
        for _ in 0..d.of(4) {
            let mut v = Vec::new();
            for _ in 0..d.of(4) {
                let s = pick_name(&mut d);
                if d.of(3) > 0 {
                    v.push(Term::Terminal(s));
                } else {
                    refs.push(s.clone());
                    v.push(Term::Nonterminal(s));
                }
            }
            alts.push(e(v));
        }
        prods.push(Production::from_parts(Term::Nonterminal(l), alts));
    }
    judge(g(prods), lhs, refs);
}
/// Many productions, alternatives or terms; the reference in question stands at some place among them.
pub fn c13_large() {
    let sizes = [4, 12, 40, 70];
    let k = shard(sizes.len() * 3 * 4 * 5);
    let (len, k) = (sizes[k % 4], k / 4);
    let (pos, k) = ([0, len / 2, len - 1][k % 3], k / 3);
    let (kind, long) = (k % 4, k / 4);
    // names that share a long prefix
    let prefix = ["", "name", "a rather long name with é in it: ", "__anon", " \u{3000}<|'"][long];
    let nm = |i: usize| format!("{prefix}{}{}", (b'a' + (i / 10) as u8) as char, i % 10);
    let free = format!("{prefix}a{}", ascii_string(1));
    let mut lhs = Vec::new();
    let mut refs = Vec::new();
    let mut prods = Vec::new();
    let mut refer = |s: String| {
        refs.push(s.clone());
        Term::Nonterminal(s)
    };
    match kind {
        // one reference per production / many alternatives / many terms / the name also as a terminal
        0 => {
            for i in 0..len {
                let mut v = vec![refer(nm((i + 1) % len)), Term::Terminal(nm(len))];
                if i == pos {
                    v.push(refer(free.clone()));
                }
                lhs.push(nm(i));
                prods.push(Production::from_parts(n(&nm(i)), vec![e(vec![t("x")]), e(v)]));
            }
        }
        1 => {
            let alts = (0..len).map(|i| e(vec![refer(if i == pos { free.clone() } else { nm(i % 3) })])).collect();
            for i in 0..3 {
                lhs.push(nm(i));
            }
            prods = vec![p(&nm(0), vec![]), p(&nm(1), vec![e(vec![])]), p(&nm(2), alts)];
        }
        2 => {
            let terms = (0..len).map(|i| if i == pos { refer(free.clone()) } else if i % 2 == 0 { refer(nm(1)) } else { Term::Terminal(nm(5)) }).collect();
            lhs = vec![nm(1), nm(4)];
            prods = vec![p(&nm(1), vec![e(vec![]), e(terms)]), p(&nm(4), vec![e(vec![])])];
        }
        _ => {
            for i in 0..len {
                lhs.push(nm(i % 5));
                let v = if i == pos { vec![Term::Terminal(free.clone()), refer(free.clone())] } else { vec![Term::Terminal(free.clone())] };
                prods.push(p(&nm(i % 5), vec![e(v)]));
            }
        }
    }
    judge(g(prods), lhs, refs);
}
fn judge(gr: Grammar, lhs: Vec<String>, refs: Vec<String>) {
    show(&gr.to_string());
    let mut undefined = Vec::new();
    for r in &refs {
        let mut d = false;
        for l in &lhs {
            d |= same(l, r);
        }
        if !d {
            undefined.push(r);
        }
    }
    let good = undefined.is_empty() && !lhs.is_empty();
    let names = |m: &str| undefined.iter().any(|u| m.contains(&format!("<{u}>")));
    let verdict = |r: Result<(), Error>, ok: &str, bad: &str, what: &str| match r {
        Ok(()) => check(good, bad),
        Err(Error::ValidationError(m)) => {
            check(!good, ok);
            check(lhs.is_empty() || names(&m), "the error names an undefined nonterminal");
            // which one is named may depend on the hasher
            if undefined.len() < 2 {
                observe(m.len() as u64);
            }
        }
        Err(_) => check(false, what),
    };
    verdict(gr.validate(), "validate accepts a grammar that defines all it refers to", "validate rejects a grammar that refers to something undefined", "validate fails with a ValidationError");
    verdict(gr.build_parser().map(|_| ()), "build_parser accepts a grammar that defines all it refers to", "build_parser rejects a grammar that refers to something undefined", "build_parser fails with a ValidationError");
    reach(if good { "valid" } else { "invalid" });
}
