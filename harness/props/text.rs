//! Text in, text out: printing and parsing.
use super::refsyn::*;
use super::rt::*;
use bnf::*;

/// A string of `n` symbolic ASCII bytes, or one of a few multi-byte strings.
fn any_text(n: usize, uni: bool) -> String {
    if uni {
        template(["\x02", "\x03\u{3000}", "\x04'", "é日😀"][choice(4)])
    } else {
        ascii_string(n)
    }
}
fn has(s: &str, c: u8) -> bool {
    let mut r = false;
    for b in s.bytes() {
        r |= b == c;
    }
    r
}
/// Terms whose printed form is unambiguous: names without '>', terminals without both kinds of quote.
fn printable(t: &Term) -> bool {
    match t {
        Term::Nonterminal(s) => !has(s, b'>'),
        Term::Terminal(s) => !(has(s, b'\'') & has(s, b'"')),
    }
}
fn any_term(n: usize, uni: bool) -> Term {
    let s = any_text(n, uni);
    let t = if choice(2) == 0 { Term::Nonterminal(s) } else { Term::Terminal(s) };
    assume(printable(&t));
    t
}
fn is_parse_error<T>(r: &Result<T, Error>) -> bool {
    matches!(r, Ok(_) | Err(Error::ParseError(_)))
}

// ---- C06: printing then parsing gives the same value back ----
pub fn c06_term() {
    let k = shard(pick(9, 12));
    let term = any_term(k.saturating_sub(1), k == 0);
    let txt = term.to_string();
    show(&txt);
    let back: Result<Term, Error> = txt.parse();
    check(back.is_ok(), "printed term parses");
    check(back.unwrap() == term, "printed term parses to the same term");
    observe_str(&txt);
}
pub fn c06_expression() {
    // number of terms and the length of each
    let shapes: &[&[usize]] = &[&[2], &[1, 1], &[0, 1], &[2, 1], &[1, 2], &[1, 1, 1], &[9, 1], &[1, 9], &[0, 0, 0], &[2, 2], &[3, 1], &[1, 3], &[2, 1, 1], &[1, 1, 2], &[1, 1, 1, 1], &[3, 2], &[2, 3]];
    let v = shapes[shard(shapes.len())];
    let terms: Vec<Term> = v.iter().map(|n| any_term(*n, *n == 9)).collect();
    let ex = Expression::from_parts(terms);
    let txt = ex.to_string();
    show(&txt);
    let back: Result<Expression, Error> = txt.parse();
    check(back.is_ok(), "printed expression parses");
    check(back.unwrap() == ex, "printed expression parses to the same expression");
    observe_str(&txt);
}
fn name(n: usize, uni: bool) -> Term {
    let t = Term::Nonterminal(any_text(n, uni));
    assume(printable(&t));
    t
}
fn any_production(shape: &[usize], uni: bool) -> Production {
    let lhs = name(1, uni);
    let mut alts = Vec::new();
    for k in shape {
        let mut v = Vec::new();
        for _ in 0..*k {
            v.push(any_term(1, uni));
        }
        alts.push(Expression::from_parts(v));
    }
    Production::from_parts(lhs, alts)
}
pub fn c06_production() {
    let shapes: &[&[usize]] = &[&[1], &[2], &[1, 1], &[1, 2], &[2, 1], &[1, 1, 1], &[3], &[2, 2], &[1, 1, 2]];
    let k = shard(shapes.len());
    let uni = k < 2 && choice(2) == 1;
    let pr = any_production(shapes[k], uni);
    let txt = pr.to_string();
    show(&txt);
    let back: Result<Production, Error> = txt.parse();
    check(back.is_ok(), "printed production parses");
    check(back.unwrap() == pr, "printed production parses to the same production");
    observe_str(&txt);
}
pub fn c06_grammar() {
    let shapes: &[&[&[usize]]] = &[&[&[1]], &[&[2]], &[&[1, 1]], &[&[1], &[1]], &[&[1], &[2]], &[&[2], &[1]], &[&[1, 1], &[1]], &[&[1], &[1, 1]], &[&[1], &[1], &[1]], &[&[1, 2]], &[&[3]]];
    let k = shard(pick(8, shapes.len()));
    let uni = k == 0 && choice(2) == 1;
    let gr = Grammar::from_parts(shapes[k].iter().map(|s| any_production(s, uni)).collect());
    let txt = gr.to_string();
    show(&txt);
    let back: Result<Grammar, Error> = txt.parse();
    check(back.is_ok(), "printed grammar parses");
    let back = back.unwrap();
    check(back == gr, "printed grammar parses to the same grammar");
    let back: Result<Grammar, Error> = Grammar::parse_from::<BNF>(&txt);
    check(back.is_ok() && back.unwrap() == gr, "printed grammar parses as BNF to the same grammar");
    observe_str(&txt);
}

/// Names and literals full of characters that mean something in grammar text, in small and larger grammars.
const C06_N: &[&str] = &["a\x01", "(\x01", "a [\x01]", ";\x01", "\x01=", "__anon\x01", "'\x01", "|\x01", "a\x01b c", "<\x01", "é\x01", "::=\x01", "\n\x01", "\x02", "\x03\x01", "long name with a \x01"];
const C06_L: &[&str] = &["\x01", "(\x01", "[\x01]", ";\x01", "<\x01>", "|\x01", "::=\x01", "\"\x01", "'\x01", "\n\x01", " \x01 ", "日\x01", "\x02\x01", "\x03", "\x04", "\\\x01", "", "a literal with \x01 in it", "<a> ::= \x01", "\x01\x01"];
pub fn c06_special() {
    let k = shard(C06_N.len() * C06_L.len());
    let (name, lit) = (template(C06_N[k % C06_N.len()]), template(C06_L[k / C06_N.len()]));
    let (nm, lt) = (Term::Nonterminal(name), Term::Terminal(lit));
    assume(printable(&nm) & printable(&lt));
    let (a, x) = (n("a"), t("x"));
    let ex = |v: &[&Term]| e(v.iter().map(|t| (*t).clone()).collect());
    let pr = |l: &Term, v: Vec<Expression>| Production::from_parts(l.clone(), v);
    let one = pr(&nm, vec![ex(&[&lt, &a]), ex(&[&x])]);
    let prods = match choice(5) {
        0 => vec![one],
        1 => vec![pr(&a, vec![ex(&[&nm, &lt]), ex(&[&lt])])],
        2 => vec![pr(&a, vec![ex(&[&lt])]), one],
        3 => vec![one, pr(&a, vec![ex(&[&x, &nm, &lt, &a, &lt, &nm])]), pr(&nm, vec![ex(&[&lt])])],
        _ => {
            let mut v = vec![ex(&[&x]); 12];
            v[10] = ex(&[&nm]);
            v[11] = ex(&[&x, &lt]);
            let mut ps = vec![pr(&a, v)];
            for _ in 0..5 {
                ps.push(pr(&a, vec![ex(&[&x, &a])]));
            }
            ps.push(one);
            ps
        }
    };
    let gr = Grammar::from_parts(prods);
    let txt = gr.to_string();
    show(&txt);
    let back: Result<Grammar, Error> = txt.parse();
    check(back.is_ok(), "printed grammar parses");
    check(back.unwrap() == gr, "printed grammar parses to the same grammar");
    let back: Result<Grammar, Error> = Grammar::parse_from::<BNF>(&txt);
    check(back.is_ok() && back.unwrap() == gr, "printed grammar parses as BNF to the same grammar");
    for p in gr.productions_iter() {
        let txt = p.to_string();
        let back: Result<Production, Error> = txt.parse();
        check(back.is_ok() && back.unwrap() == *p, "printed production parses to the same production");
        for x in p.rhs_iter() {
            let back: Result<Expression, Error> = x.to_string().parse();
            check(back.is_ok() && back.unwrap() == *x, "printed expression parses to the same expression");
        }
    }
    observe_str(&txt);
}

/// Grammars of many productions, alternatives or terms, or with long names and literals.
pub fn c06_long() {
    let sizes = [5, 11, 33, 70, pick(130, 300)];
    let k = shard(sizes.len() * 6);
    let (size, kind) = (sizes[k / 6], k % 6);
    let (x, y) = (Term::Terminal(ascii_string(1)), Term::Nonterminal(ascii_string(1)));
    assume(printable(&x) & printable(&y));
    let nth = |i: usize| match i % 5 {
        0 => x.clone(),
        1 => n(&format!("name {i}")),
        2 => t(&format!("it's {i}")),
        3 => y.clone(),
        _ => t("say \"é\""),
    };
    let (nm, one) = (|i: usize| n(&format!("n{i}")), |i: usize| e(vec![nth(i)]));
    let gr = match kind {
        0 => g((0..size).map(|i| Production::from_parts(if i % 7 == 3 { y.clone() } else { nm(i) }, vec![one(i), one(i + 1)])).collect()),
        1 => g(vec![Production::from_parts(y.clone(), (0..size).map(one).collect())]),
        2 => g(vec![Production::from_parts(y.clone(), vec![e((0..size).map(nth).collect())])]),
        3 => g(vec![Production::from_parts(n(&"long ".repeat(size)), vec![e(vec![t(&"'q' ".repeat(size)), x, y, t(&"\"q\" ".repeat(size))])])]),
        // the same thing again and again
        4 => g((0..size).map(|_| Production::from_parts(y.clone(), vec![one(0), one(0), one(3)])).collect()),
        _ => g(vec![Production::from_parts(nm(1), (0..size).map(|i| e((0..i % 9 + 1).map(|j| nth(i * j)).collect())).collect()), Production::from_parts(nm(1), vec![one(2)])]),
    };
    let txt = gr.to_string();
    show(&txt);
    let back: Result<Grammar, Error> = txt.parse();
    check(back.is_ok(), "printed grammar parses");
    check(back.unwrap() == gr, "printed grammar parses to the same grammar");
    if let Some(p) = gr.productions_iter().next() {
        let back: Result<Production, Error> = p.to_string().parse();
        check(back.is_ok() && back.unwrap() == *p, "printed production parses to the same production");
        for x in p.rhs_iter().take(3) {
            let back: Result<Expression, Error> = x.to_string().parse();
            check(back.is_ok() && back.unwrap() == *x, "printed expression parses to the same expression");
        }
    }
    observe(txt.len() as u64);
}

// ---- C07: any text at all: no panic, no hang, and only ParseError ----
const HOLE: u8 = 1;
fn holes(n: usize) -> String {
    String::from_utf8(vec![HOLE; n]).unwrap()
}
/// Free text: symbolic bytes only, or a template with holes and multi-byte characters.
const FREE_T: &[&str] = &[
    "", "\x01", "\x01\x01", "\x01\x01\x01", "\x01\x01\x01\x01", "\x01\x01\x01\x01\x01", "\x01\x01\x01\x01\x01\x01", "é\x01\x01", "\x01日\x01", "<é\x01\x01::=\x01", "<a>::=\x01\x01\x01", "a =\x01\x01\x01", "\u{a0}\x01\x01\u{3000}\x01", "<a>::='\x01\x01",
    "<a>::=(\x01\x01\x01", "a = [\x01\x01\x01", "<a>::='b' \x01\x01\u{2028}\x01", "<\x01\x01\x01\x01\x01", "<a>\x01\x01\x01\x01", "<a>::=\x01\x01\x01\x01", "a \x01\x01\x01\x01", "a = (\x01\x01\x01\x01",
    ";é\x01\r\x01日", "<a>::=\"é\x01日\x01", "<a>::='x'\u{85}\x01\u{feff}\x01", "😀\x01::=\x01'😀", "((((((((((\x01", "<a>::=((((((((((\x01))))))))))", "<a>::=[[[[[[[[[[\x01x']]]]]]]]]]\x01", "a = [[[[[[[[\x01x']]]]]]]]\x01", "<a>::='x'||||\x01|||", "<<<<\x01>>>>", ";;;;\x01;;;;\n\x01;", "<a>::=\x01é\x01", "a\x01é\x01=\x01日", "'\x01'\x01'\x01'",
    // thorough
    "\x01\x01\x01\x01\x01\x01\x01", "<a>::=\x01\x01\x01\x01\x01\x01", "a =\x01\x01\x01\x01\x01\x01", "<a>::=(\x01\x01\x01\x01\x01\x01", "<\x01\x01\x01\x01\x01\x01\x01", "é\x01\x01\x01日\x01\x01\x01",
];
/// Besides FREE_T, the texts whose exact meaning C08 and C09 decide.
fn free_count() -> usize {
    pick(FREE_T.len() - 6, FREE_T.len()) + BNF_T.len() - 13 + ABNF_T.len() - 10
}
fn free_text(k: usize) -> String {
    let (f, b) = (pick(FREE_T.len() - 6, FREE_T.len()), BNF_T.len() - 13);
    let t = if k < f { FREE_T[k] } else if k - f < b { BNF_T[k - f] } else { ABNF_T[k - f - b] };
    let mut s = template(t);
    s.shrink_to_fit();
    s
}
pub fn c07_grammar_auto() {
    let s = free_text(shard(free_count()));
    show(&s);
    let r: Result<Grammar, Error> = s.parse();
    check(is_parse_error(&r), "Grammar::from_str returns a grammar or a ParseError");
    observe(r.is_ok() as u64);
}
pub fn c07_bnf() {
    let s = free_text(shard(free_count()));
    show(&s);
    let r = Grammar::parse_from::<BNF>(&s);
    check(is_parse_error(&r), "Grammar::parse_from::<BNF> returns a grammar or a ParseError");
    observe(r.is_ok() as u64);
}
pub fn c07_abnf() {
    let s = free_text(shard(free_count()));
    show(&s);
    let r = Grammar::parse_from::<ABNF>(&s);
    check(is_parse_error(&r), "Grammar::parse_from::<ABNF> returns a grammar or a ParseError");
    observe(r.is_ok() as u64);
}
pub fn c07_parts() {
    let s = free_text(shard(free_count()));
    show(&s);
    match choice(3) {
        0 => {
            let r: Result<Term, Error> = s.parse();
            check(is_parse_error(&r), "Term::from_str returns a term or a ParseError");
            observe(r.is_ok() as u64);
        }
        1 => {
            let r: Result<Expression, Error> = s.parse();
            check(is_parse_error(&r), "Expression::from_str returns an expression or a ParseError");
            observe(r.is_ok() as u64);
        }
        _ => {
            let r: Result<Production, Error> = s.parse();
            check(is_parse_error(&r), "Production::from_str returns a production or a ParseError");
            observe(r.is_ok() as u64);
        }
    }
}

// ---- C08 / C09: exactly the documented notation, and the documented meaning ----
fn against_reference(s: &str, fmt: Fmt) {
    show(s);
    let got = if fmt == Fmt::Bnf { Grammar::parse_from::<BNF>(s) } else { Grammar::parse_from::<ABNF>(s) };
    let want = Reader { s: s.as_bytes(), fmt, extended: true }.grammar();
    match (&got, &want) {
        (Ok(_), None) => check(false, "text that is not a grammar is rejected"),
        (Err(_), Some(_)) => check(false, "a well-formed grammar is accepted"),
        (Ok(gr), Some(w)) => {
            reach("accepted");
            check(agrees(gr, s, w), "the grammar says what the text says");
            observe_grammar(gr);
        }
        (Err(_), None) => reach("rejected"),
    }
}
const BNF_T: &[&str] = &[
    // quick
    "\x01\x01\x01\x01", "<a>::=\x01\x01\x01\x01", "<\x01\x01::='x'", "<a>\x01\x01::='x'\x01", "<a>\x01::\x01='x'", "<a>::='x'\x01\x01\x01", "<a>::='x'|\x01\x01\x01", "<a>::=<b>\x01\x01<b>::='y'\x01", "<a>::=('x'\x01\x01\x01", "<a>::=[\x01\x01\x01]\x01", "<a>::=(<b>|\x01\x01\x01)",
    "<a>::=\"\x01\x01'\x01", "<a>::=<b>'x'\x01<c>\x01::=<d>", "\x01<a>::=|\x01\x01'x'", "<a>::='x';\x01\x01<b>::='y'", "<a>::=('x'[\x01\x01])\x01", "<a>::=\x01<b>\x01<c>\x01", "<a>::=((\x01\x01)\x01'y')",
    // comments, quotes and names holding the characters that mean something elsewhere
    ";\x01\n<a>::=(\x01x')", "<a>::='x';\x01\x01\n<b>::=[<a>]", "<a>::='x'|('y'\x01|\x01z');\x01", "<a>::=\"\x01\"('y'|\x01b>)", "<a>::=<(\x01>'x'\x01", "<a>::='(\x01'<b>\x01", "<a>::=<b>;\x01(\x01\n'x'", "<a>::='x'\n;\x01\n;\x01\n<b>::=('y')", "<a>::='x;\x01'\x01<b>::='y'", "<a>::=<;\x01>\x01'y'",
    "<a>::=<b>\x01<b>::=(\x01y')", "<a>::=('x')\x01['y']\x01('z')", "<a>::=([(\x01x')\x01])", "<a>::=('x'|)\x01", "<a>::=[]\x01|\x01", "<a>::=()\x01\x01",
    // ordinary text with a few unknown characters
    "<rule name> ::= <\x01\x01> 'text with \x01' | (\"quoted \x01\" [<rule name>])\n", "<first> ::= <second> | 'one' 'two'\x01\n<second> ::= 'three'\x01| <first>\n\n<third> ::= ''\x01", "<dna> ::= <base> | <base> <dna>\n<base> ::= 'A' | 'C' | 'G'\x01|\x01'T'\n", "<a> ::= 'x'\n    | 'y'\x01\n    | \x01'z'\n<b> ::= <a>\x01\n    | <b>",
    "<é\x01> ::= '日本\x01' | \x01'😀'\x01", "<postal-address> ::= <name-part>\x01<street>\n<name-part> ::=\x01(<first> ['x'] <last>)\n",
    "<\x01> ::= <\x01> | <\x01>", "<a>\n::=\n'x'\x01\n<b>\n::=\x01'y'", "<a>::=<b><c>::=\x01\x01<d>",
    "\x01\x01\x01\x01\x01", "<a>::=\x01\x01\x01\x01\x01", "<a>\x01\x01\x01\x01'x'\x01", "<a>::='x'\x01\x01\x01\x01\x01", "<a>::=(\x01\x01\x01\x01\x01", "<a>::=[\x01\x01\x01\x01\x01", "<a>::=<b>\x01\x01\x01<b>::=\x01y\x01", "<a>::=<\x01\x01\x01\x01\x01::='x'", "\x01\x01<a\x01::=\x01\x01x'\x01", "<a>::=(\x01b\x01|[\x01c\x01]\x01)\x01",
    // thorough
    "<a>::=\x01\x01\x01\x01\x01\x01", "<a>::='x'\x01<\x01\x01\x01::=\x01\x01'", "<a>::=('x'\x01\x01\x01[\x01\x01\x01",
];
/// Texts with unknown characters of two, three and four bytes.
const BNF_W: &[&str] = &["<a>::='x'\x02<b>::='y'", "<a>::='x'\x03<b>::='y'", "<a>::='x'\x04<b>::='y'", "<a\x02>::='\x02'\x01", "<a>\x03::=\x01'x'", "\x03<a>::='\x03\x01", "\x02\x02<a>::='x'", "\x02", "\x03\x01", "\x04", "<\x02\x03\x04>::=\"\x04\x03\x02\"", "<a>::=\x02\x01", "<a>::=\x03\x01", "<a>:\x03:=\x01x'", "<a>::='x'|\x02'y'", "<a>::='x'\x03|\x03'y'", "<a>::=(\x02'x'\x03|\x01y'\x03)", "<a>::=[\x03<\x02>\x01]\x02", "<a>::='x';\x02\x01'y'", "<a>::='x';\x03\x01<b>::='y'", ";\x04\x01\x03\x01<a>::='x'", "<a>::=\x02('\x03')\x01", "<a\x03b> ::= '\x02 \x03 \x04' | <a\x03b>\n", "<\x02> ::= <\x02> | <\x01>", "<a>::='x'\x02\x03\x04", "<a>::='\x01\x02\x01"];
const ABNF_W: &[&str] = &["a = 'x'\x02\nb = 'y'", "\x02b = 'x'", "b\x02 = 'x'", "b\x03\x01= 'x'", "a = '\x02\x03\x04'\x01", "a = b\x03", "a = b\x04 'x'", "a = 'x';\x03\x01b = 'y'", ";\x04\x01\x05\x01a = 'x'", "a = (b\x03)\x01", "a = 'x' /\x02'y'", "\x02a = \x01x'", "a\x02b = '\x02' / b", "a = [\x02'x']", "a =\x02'x'", "a =\x05'x'", "a =\x06'x'", "a\x05= 'x'", "a\x06=\x01'x'", "\x05a = 'x'", "\x06a = 'x'", "a = 'x'\x06/ 'y'", "a = 'x'\x05\x01b = 'y'", "\x07 = 'x'", "\x07b = 'x'", "a = \x07 'x'", "a = 'x'\x07 / \x07", "a = (\x07 / 'x')\x07", "a = b\x07=\x07'x'", "a = 'x'\x01\x07 = 'y'"];
pub fn c08_wide() {
    let s = template(BNF_W[shard(BNF_W.len())]);
    against_reference(&s, Fmt::Bnf);
}
pub fn c09_wide() {
    let s = template(ABNF_W[shard(ABNF_W.len())]);
    against_reference(&s, Fmt::Abnf);
}
/// A stream of pseudo-random numbers for drawing shapes.
pub struct Draw(u64, u64);
fn step(x: &mut u64, m: usize) -> usize {
    *x ^= *x << 13;
    *x ^= *x >> 7;
    *x ^= *x << 17;
    ((*x >> 20) % m as u64) as usize
}
impl Draw {
    pub fn new(k: usize) -> Draw {
        Draw::spaced(k, k)
    }
    /// The second number decides the spacing.
    pub fn spaced(k: usize, j: usize) -> Draw {
        let mix = |k: usize| (k as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x5bd1_e995_dead_beef;
        Draw(mix(k), mix(j))
    }
    pub fn of(&mut self, m: usize) -> usize {
        step(&mut self.0, m)
    }
    pub fn space(&mut self, m: usize) -> usize {
        step(&mut self.1, m)
    }
}
fn drawn_space(d: &mut Draw, out: &mut String, needed: bool) {
    let m = if d.space(3) == 0 { 11 } else { 3 };
    let gap = [" ", "", " ", "\n", "  ", "\t", ";c\n", " ; it's (a\r\n ", "\u{a0}", "\r\n", "\n\n;\n"][d.space(m)];
    // a bare name runs up to the next whitespace
    if needed && (gap.is_empty() || gap.starts_with(';')) {
        out.push(' ');
    }
    out.push_str(gap);
}
fn drawn_exprs(d: &mut Draw, bnf: bool, depth: usize, brackets: bool, out: &mut String) {
    let alts = 1 + d.of(if depth == 0 { 3 } else { 2 });
    for a in 0..alts {
        if a > 0 {
            out.push(if bnf { '|' } else { '/' });
            drawn_space(d, out, false);
        }
        for _ in 0..1 + d.of(3) {
            match d.of(if brackets && depth < 3 { 9 } else { 7 }) {
                0..=2 => {
                    out.push_str(["'a'", "\"b\"", "''", "'c d'", "\"it's\"", "'\"'", "'é'", "';'", "'(['", "\"\"", "'<b>'", "'::='", "'|'", "'日本'"][d.of(14)]);
                    drawn_space(d, out, false);
                }
                3..=6 => {
                    let nm = ["a", "b", "c", "long-name", "é", "a1", "__anon0", "__anon2"][d.of(if bnf { 8 } else { 6 })];
                    if bnf {
                        *out += &format!("<{nm}>");
                        drawn_space(d, out, false);
                    } else {
                        *out += nm;
                        drawn_space(d, out, true);
                    }
                }
                x => {
                    out.push_str(["(", "["][x - 7]);
                    drawn_space(d, out, false);
                    drawn_exprs(d, bnf, depth + 1, true, out);
                    out.push_str([")", "]"][x - 7]);
                    drawn_space(d, out, false);
                }
            }
        }
    }
}
/// A pseudo-randomly drawn text in one of the notations.
fn drawn_text(d: &mut Draw, bnf: bool) -> String {
    let mut out = String::new();
    let brackets = d.of(2) == 0;
    drawn_space(d, &mut out, false);
    for _ in 0..1 + d.of(3) {
        let nm = ["a", "b", "c", "long-name", "é", "__anon1"][d.of(if bnf { 6 } else { 5 })];
        if bnf {
            out += &format!("<{nm}>");
            drawn_space(d, &mut out, false);
            out += "::=";
        } else {
            out += nm;
            drawn_space(d, &mut out, true);
            out += "=";
        }
        drawn_space(d, &mut out, false);
        drawn_exprs(d, bnf, 0, brackets, &mut out);
        if d.space(2) == 0 {
            out.push('\n');
        }
    }
    out
}
/// A drawn text with one unknown byte, or none, put in somewhere or in place of something.
fn drawn_case(fmt: Fmt, k: usize) -> String {
    let mut d = Draw::new(k * 2 + (fmt == Fmt::Bnf) as usize);
    let text = drawn_text(&mut d, fmt == Fmt::Bnf);
    let places: Vec<usize> = text.char_indices().map(|x| x.0).chain([text.len()]).collect();
    let at = places[d.of(places.len())];
    match choice(4) {
        0 => text,
        // inserted
        1 => template(&format!("{}\x01{}", &text[..at], &text[at..])),
        // instead of the character there
        2 => {
            let after = text[at..].chars().next().map_or(at, |c| at + c.len_utf8());
            template(&format!("{}\x01{}", &text[..at], &text[after..]))
        }
        // cut off there
        _ => template(&format!("{}\x01", &text[..at])),
    }
}
pub fn c08_drawn() {
    against_reference(&drawn_case(Fmt::Bnf, shard(pick(1500, 8000))), Fmt::Bnf);
}
pub fn c09_drawn() {
    against_reference(&drawn_case(Fmt::Abnf, shard(pick(1500, 8000))), Fmt::Abnf);
}
/// The same drawn tokens, spaced in two ways; an unknown byte in a comment at the end.
pub fn c11_drawn() {
    let k = shard(pick(1000, 6000));
    let bnf = k % 2 == 0;
    let plain = drawn_text(&mut Draw::spaced(k, k), bnf);
    let mut wild = drawn_text(&mut Draw::spaced(k, k + 77_777), bnf);
    if bnf {
        assume(Grammar::parse_from::<BNF>(&plain).is_ok());
    } else {
        assume(Grammar::parse_from::<ABNF>(&plain).is_ok());
        // a bare name may be the last thing
        wild.push(' ');
    }
    if k % 3 == 0 {
        wild.push_str(&template(";\x01"));
        assume(!wild.ends_with(['\n', '\r']));
    }
    reach("read");
    if bnf {
        same_meaning::<BNF>(&plain, &wild);
    } else {
        same_meaning::<ABNF>(&plain, &wild);
    }
}
/// Drawn texts with groups and optionals in which many names look like generated ones.
pub fn c10_drawn() {
    let k = shard(pick(1000, 6000));
    let mut d = Draw::new(k + 60_000);
    let text = drawn_text(&mut d, true);
    assume(text.contains('(') || text.contains('['));
    let (x, y) = (d.of(4), d.of(4));
    let s = text.replace("<a>", &format!("<__anon{x}>")).replace("<b>", "<__anon\x01>").replace("<c>", &format!("<__anon{y}>"));
    // one unknown digit, the same wherever it stands
    let b = byte_in(b'0', b'9');
    against_reference(&s.replace('\x01', &(b as char).to_string()), Fmt::Bnf);
}
pub fn c12_drawn() {
    let k = shard(pick(1000, 5000));
    detects(&drawn_case(if k % 2 == 0 { Fmt::Bnf } else { Fmt::Abnf }, k + 20_000));
}
pub fn c06_drawn() {
    let k = shard(pick(1000, 5000));
    let s = drawn_case(if k % 2 == 0 { Fmt::Bnf } else { Fmt::Abnf }, k + 40_000);
    show(&s);
    let Ok(gr) = s.parse::<Grammar>() else { return };
    reach("read");
    let out = gr.to_string();
    show(&out);
    let back = Grammar::parse_from::<BNF>(&out);
    // a literal with both kinds of quotes, a name with > in it cannot be written down
    let plain = |t: &Term| match t {
        Term::Terminal(x) => !(x.contains('\'') && x.contains('"')),
        Term::Nonterminal(x) => !x.contains('>'),
    };
    let printable = gr.productions_iter().all(|p| plain(&p.lhs) && p.rhs_iter().all(|e| e.terms_iter().all(plain)));
    assume(printable);
    check(back.is_ok(), "a printed grammar can be read back");
    check(back.unwrap() == gr, "a printed grammar reads back as itself");
    observe_grammar(&gr);
}
/// Ill-formed and well-formed texts full of wide characters, so that every byte offset falls inside one for some pad.
pub fn c07_wide() {
    let heads = ["<", "<a>::='", "<a>::=<", "", "<a>::=", "<a>::='x' ", ";", "<a> ", "a = '", "a = ", "a = (", "<a>::=('x' [", "a = 'x' / "];
    let k = shard(heads.len() * 3 * 4 + BNF_W.len() + ABNF_W.len());
    let api = choice(6);
    let s = if k < heads.len() * 12 {
        let (head, k) = (heads[k / 12], k % 12);
        let (fill, pad) = (["é", "日", "😀"][k / 4], k % 4);
        let many = [10, 45, pick(100, 300)][choice(3)];
        format!("{head}{}{}{}", "z".repeat(pad), fill.repeat(many), template(["", "\x01", "\n\x01"][choice(3)]))
    } else {
        let k = k - heads.len() * 12;
        assume(if k < BNF_W.len() { api != 0 && api != 2 } else { api == 0 || api == 2 });
        template(if k < BNF_W.len() { BNF_W[k] } else { ABNF_W[k - BNF_W.len()] })
    };
    show(&s);
    let r = match api {
        0 => s.parse::<Grammar>().map(|_| ()),
        1 => Grammar::parse_from::<BNF>(&s).map(|_| ()),
        2 => Grammar::parse_from::<ABNF>(&s).map(|_| ()),
        3 => s.parse::<Term>().map(|_| ()),
        4 => s.parse::<Expression>().map(|_| ()),
        _ => s.parse::<Production>().map(|_| ()),
    };
    check(is_parse_error(&r), "reading a text returns a value or a ParseError");
    if let Err(e) = &r {
        check(!e.to_string().is_empty(), "the error can be shown");
    }
    observe(r.is_ok() as u64);
}
pub fn c08_bnf() {
    let s = template(BNF_T[shard(pick(BNF_T.len() - 3, BNF_T.len()))]);
    against_reference(&s, Fmt::Bnf);
}
const ABNF_T: &[&str] = &[
    "\x01\x01\x01\x01", "a =\x01\x01\x01", "\x01\x01 ='x'", "a\x01=\x01'x'\x01", "a = 'x'\x01\x01\x01", "a = 'x' /\x01\x01\x01", "a = b\x01\x01\nb = 'y'\x01", "a = ('x'\x01\x01\x01", "a = [\x01\x01\x01]\x01", "a = (b /\x01\x01\x01)", "a =\x01\x01'x'\x01", "a =/\x01\x01b", "a = b\x01c\x01=\x01'd'", "a = 'x';\x01\x01b = 'y'",
    "a = ('x' [\x01\x01])\x01", "a = b\x01\x01)\x01",
    ";\x01\na = (\x01x')", "a = 'x';\x01\x01\nb = [a]", "a = 'x' / ('y'\x01/ \x01z');\x01", "a = \"\x01\" ('y' / \x01b )", "a = '(\x01' b\x01", "a = b ;\x01(\x01\n'x'", "a = b\x01b = (\x01y')", "a = ('x')\x01['y']\x01('z')", "a = ([(\x01x')\x01])", "a = ('x' / )\x01", "a = []\x01/\x01", "a = ()\x01\x01",
    "rule-name = oth\x01r 'text with \x01' / (\"quoted \x01\" [rule-name])\n", "first = second / 'one' 'two'\x01\nsecond = 'three'\x01/ first\n\nthird = ''\x01", "é\x01 = '日本\x01' / \x01'😀'\x01", "\x01 = \x01 / \x01", "a\n=\n'x'\x01\nb\n=\x01'y'", "a = b c =\x01\x01d", "a-\x01 = b\x01-", "a = b\n  / c\x01\nd\x01= 'x'", "a = 'x'\x01=/ 'y'\x01",
    "\x01\x01\x01\x01\x01", "a =\x01\x01\x01\x01\x01", "a = \x01\x01\x01\x01\x01", "\x01\x01\x01=\x01'x'\x01", "a = 'x'\x01\x01\x01\x01\x01", "a = (\x01\x01\x01\x01\x01", "a = [\x01\x01\x01\x01\x01", "a\x01\x01\x01\x01b\x01",
    // thorough
    "a = b\x01\x01\x01\x01= \x01y\x01", "a = ('x'\x01\x01\x01[\x01\x01\x01",
];
pub fn c09_abnf() {
    let s = template(ABNF_T[shard(pick(ABNF_T.len() - 2, ABNF_T.len()))]);
    against_reference(&s, Fmt::Abnf);
}
/// A long text of one kind or another, with one unknown byte put in somewhere.
fn long_text(fmt: Fmt, k: usize, size: usize, x: &str) -> String {
    let b = fmt == Fmt::Bnf;
    let nm = |s: &str| if b { format!("<{s}>") } else { s.to_string() };
    let (def, or) = if b { ("::=", "|") } else { ("=", "/") };
    let a = nm("a");
    let each = |n: usize, f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
    match k {
        0 => each(size, &|i| format!("{} {def} '{x}' {or} {}\n", nm(&format!("n{i}")), nm(&format!("n{}", (i + 1) % size)))),
        1 => format!("{a} {def} '{x}'{}", each(size, &|i| if i % 2 == 0 { format!(" {or} 'v{i}'") } else { format!("\n   {or} {a} ") })),
        2 => format!("{a} {def}{}", each(size, &|i| if i % 3 == 0 { " '{x}'".into() } else { format!(" {a}") })),
        3 => format!("{a} {def} {}'{x}'{}", "(".repeat(size.min(60)), " 'y')".repeat(size.min(60))),
        4 => format!("{a} {def} 'y' {}'{x}'{}", "['z' ".repeat(size.min(60)), format!(" {or} {a}]").repeat(size.min(60))),
        5 => format!("{a} {def} '{}' \"{}\"", "long ; (text) ".repeat(size), "it's ".repeat(size)),
        6 => format!("{} {def} {} '{x}'", nm(&"name-".repeat(size)), nm(&"name-".repeat(size))),
        7 => format!("{a} {def} '{x}' ; {}\n{} {def} 'y'{}", "a comment (with ' things) ".repeat(size), nm("b"), "\n;;\n".repeat(size)),
        8 => format!("{}{a}{} {def} '{x}'{}{or} {a}{}", "\n".repeat(size), " ".repeat(size), "\t \r\n".repeat(size), "\n ".repeat(size)),
        9 => format!("{a} {def} '{x}'{}", each(size, &|i| if i % 2 == 0 { format!(" ('v{i}' {or} {a})") } else { format!(" ['w' {or} 'v{i}']") })),
        _ => each(size, &|i| format!("{} {def} ('{x}' {or} ['v{i}']) {}\n", nm(&format!("n{i}")), nm(&format!("{}anon{}", if b { "__" } else { "" }, (i * 7) % size)))),
    }
}
const LONG_KINDS: usize = 11;
fn long_case(fmt: Fmt) -> String {
    let sizes = [4, 13, 45, pick(110, 300)];
    let k = shard(LONG_KINDS * sizes.len());
    let mut v = long_text(fmt, k % LONG_KINDS, sizes[k / LONG_KINDS], "x").into_bytes();
    // one byte more, or one byte changed
    let many = pick(24, 100);
    let n = v.len();
    let at = match choice(many + 3) {
        x if x < many => x * n / many,
        x => n - (x - many),
    };
    if choice(2) == 0 {
        v.insert(at, ascii());
    } else {
        assume(at < n);
        v[at] = ascii();
    }
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn c08_long() {
    against_reference(&long_case(Fmt::Bnf), Fmt::Bnf);
}
pub fn c09_long() {
    against_reference(&long_case(Fmt::Abnf), Fmt::Abnf);
}
pub fn c07_long() {
    let s = long_case(if choice(2) == 0 { Fmt::Bnf } else { Fmt::Abnf });
    show(&s);
    let r = match choice(3) {
        0 => s.parse::<Grammar>().map(|_| ()),
        1 => Grammar::parse_from::<BNF>(&s).map(|_| ()),
        _ => Grammar::parse_from::<ABNF>(&s).map(|_| ()),
    };
    check(is_parse_error(&r), "reading a text returns a grammar or a ParseError");
    observe(r.is_ok() as u64);
}
/// Long texts: the notation is told, and both say the same.
pub fn c12_long() {
    let sizes = [4, 13, 45, pick(110, 300)];
    let k = shard((LONG_KINDS - 1) * sizes.len());
    let x = template("é\x01 = <\x01");
    assume(!has(&x, b'\'') & !has(&x, b'"'));
    let lead = ["", "\n\n ", "; a = <b>\n", "; <a> ::= \r\n;\n\t"][choice(4)];
    let text = |f: Fmt| lead.to_string() + &long_text(f, k % (LONG_KINDS - 1), sizes[k / (LONG_KINDS - 1)], &x);
    let (b, a) = (text(Fmt::Bnf), text(Fmt::Abnf));
    show(&b);
    let (gb, ga) = (b.parse::<Grammar>(), a.parse::<Grammar>());
    check(gb.is_ok(), "the BNF text is accepted");
    check(ga.is_ok(), "the ABNF text is accepted");
    let gb = gb.unwrap();
    check(gb == ga.unwrap(), "both notations give the same grammar");
    check(Grammar::parse_from::<BNF>(&b).is_ok_and(|g| g == gb), "FromStr gives the grammar of the detected format");
    reach("same");
}
/// Many groups; the user's own names look like generated ones.
pub fn c10_long() {
    let sizes = [9, 12, 25, pick(105, 300)];
    let k = shard(sizes.len() * 11);
    let (size, k) = (sizes[k / 11], k % 11);
    // the user's names
    let mine = |i: usize| format!("<__anon{}>", i);
    let own = ["<__anon1\x01>", "<__anon\x01>", "<__anon\x011>", "<__anon10\x01>", "<_\x01anon7>", "<__anon2>", "<__anon\x01\x01>"];
    let own = template(own[choice(own.len())]);
    let grp = |i: usize| if i % 2 == 0 { format!(" ('v{i}' | <a>)") } else { format!(" ['v{i}']") };
    let groups: String = (0..size).map(grp).collect();
    let text = match k {
        0 => format!("<a> ::= {own}{groups}"),
        1 => format!("<a> ::= 'x'{groups} {own}"),
        2 => format!("<a> ::= 'x'{groups}\n{own} ::= 'y'"),
        3 => (0..size).map(|i| format!("{} ::= 'u{i}'{}\n", mine(i), grp(i))).collect::<String>() + &own + " ::= <a>\n<a> ::= 'z'",
        4 => (0..size).map(|i| format!("<b{i}> ::= {}{}\n", mine(2 * i), grp(i))).collect::<String>() + "<a> ::= " + &own,
        // one of the user's productions is large itself
        6 => format!("{own} ::= 'x'{} | ('y') | ['z'\n]", " | 'w'".repeat(size)),
        7 => format!("<a> ::= ('x' {own}{} {own})\n{own} ::= ['y']", " 'w'".repeat(size)),
        8 => format!("<a> ::= 'x'{} | ['z' {own}]", " | ('w')".repeat(size)),
        9 => format!("<a> ::= 'x'{} | 'z' {own}", " | 'w'".repeat(size)) + "\n<b> ::= ('q')['r']",
        10 => (0..size).map(|i| format!("<b{i}> ::= 'x'\n")).collect::<String>() + &own + " ::= ('p')\n<c> ::= [('q')]",
        _ => format!("<a> ::= {}{own}{} | ({own})", "('q' ".repeat(size.min(60)), ")".repeat(size.min(60))),
    };
    against_reference(&text, Fmt::Bnf);
}
/// The smaller parsers: Term, Expression and Production text.
pub fn c08_parts() {
    let ts: &[&str] = &["\x01\x01\x01\x01", "<\x01\x01\x01\x01", "'\x01\x01\x01\x01", "<a>\x01'b'\x01", "<a>::=\x01\x01\x01\x01", "<a>\x01::=\x01'x'\x01\x01", "<a>::='x'\x01\x01<b>\x01", "<a> ;\x01\x01\x01", "\x01\x01\x01\x01\x01", "<a>\x01\x01\x01\x01\x01", "'a'\x01\x01\x01\x01\x01", "<a>::='x'\x01\x01\x01\x01", "<a>\x01\x01\x01\x01<b>", "<a>::=<b>\x01\x01\x01\x01\x01",
        "<a \x01 b>\x01", "'é\x01日'\x01", "\"it's \x01\"\x01", "<a>'x'<b>\"y\"\x01<c>\x01'z'\x01", "<a>\n'x'\x01\n;\x01\n<b>", "<a> ::= <b> 'c'\x01|\x01\"d\"\n | <e>\x01", "<a>::=('x')\x01", "<a>::='x'\x01\n<b>::='y'", "('x')\x01", "<a>::=\x01", "''\x01", "<>\x01", "<a>::=''|''\x01<>"];
    let s = template(ts[shard(ts.len())]);
    show(&s);
    let rd = Reader { s: s.as_bytes(), fmt: Fmt::Bnf, extended: false };
    let end = |i: usize| i == s.len();
    match choice(3) {
        0 => {
            let got: Result<Term, Error> = s.parse();
            match (&got, rd.term(0).filter(|x| end(x.0))) {
                (Ok(t), Some((_, w))) => {
                    check(term_agrees(t, &s, &w), "the term says what the text says");
                    observe_term(t)
                }
                (Err(_), None) => {}
                _ => check(false, "Term::from_str accepts exactly one term with trailing whitespace"),
            }
        }
        1 => {
            let got: Result<Expression, Error> = s.parse();
            match (&got, rd.sequence(0).filter(|x| end(x.0))) {
                (Ok(t), Some((_, w))) => {
                    check(expr_agrees(t, &s, &w), "the expression says what the text says");
                    for x in t.terms_iter() {
                        observe_term(x)
                    }
                }
                (Err(_), None) => {}
                _ => check(false, "Expression::from_str accepts exactly a sequence of terms"),
            }
        }
        _ => {
            let got: Result<Production, Error> = s.parse();
            match (&got, rd.production(0).filter(|x| end(x.0))) {
                (Ok(t), Some((_, w))) => {
                    check(prod_agrees(t, &s, &w), "the production says what the text says");
                    observe_term(&t.lhs)
                }
                (Err(_), None) => {}
                _ => check(false, "Production::from_str accepts exactly one production"),
            }
        }
    }
}

// ---- C11: whitespace and comments between tokens do not matter ----
/// What may stand between two tokens; `must`: something has to.
fn gap(kind: usize, must: bool, after_bare: bool, out: &mut Vec<u8>) {
    let fixed: &[&str] = &["\u{a0}\u{2003}\r\n", " ;(<'\n\t", ";\n", ";\r\n", ";; \"[ ::= | é日 /\n ; second ]\n", "\n\n;a\n\n", "\u{85}\u{2028}\x0b\x0c", ";<b> ::= 'c' | ('d')\r", "                                                                        ", ";long comment long comment long comment long comment long comment long comment\n"];
    match kind {
        0 => {
            if must {
                out.push(b' ')
            }
        }
        1 => {
            let b = any_u8();
            assume((b >= 9) & (b <= 13) | (b == 32));
            out.push(b);
        }
        2 => {
            if must || after_bare {
                out.push(b' ');
            }
            out.push(b';');
            let b = ascii();
            assume((b != b'\n') & (b != b'\r'));
            out.push(b);
            out.push(if choice(2) == 0 { b'\n' } else { b'\r' });
        }
        // any whitespace character of two or three bytes
        3 | 4 => {
            let n = kind - 1;
            let mut w = Vec::new();
            push_wide(n, &mut w);
            let c = if n == 2 { (w[0] as u32 & 31) << 6 | w[1] as u32 & 63 } else { (w[0] as u32 & 15) << 12 | (w[1] as u32 & 63) << 6 | w[2] as u32 & 63 };
            assume((c == 0x85) | (c == 0xa0) | (c == 0x1680) | (c >= 0x2000) & (c <= 0x200a) | (c == 0x2028) | (c == 0x2029) | (c == 0x202f) | (c == 0x205f) | (c == 0x3000));
            out.extend(w.iter().map(|b| settled(*b)));
        }
        // a comment with a character of two or three bytes in it
        5 | 6 => {
            if must || after_bare {
                out.push(b' ');
            }
            out.extend_from_slice(b"; ");
            push_wide(kind - 3, out);
            out.extend_from_slice(if choice(2) == 0 { b"'(<=\n" } else { b" d = 'x'\r\n" });
        }
        k => {
            let f = fixed[k - 7];
            if f.starts_with(';') && (must || after_bare) {
                out.push(b' ');
            }
            out.extend_from_slice(f.as_bytes());
        }
    }
}
const GAPS: usize = 17;
/// Join tokens with gaps. `vary` < 100: the gaps before tokens `2*vary` and `2*vary + 1` are anything, the others
/// plain; otherwise all gaps are of one kind.
fn spaced(tokens: &[&str], vary: usize, need: &dyn Fn(usize) -> bool, bare: &dyn Fn(usize) -> bool) -> (String, String) {
    let mut plain = String::new();
    let mut wild: Vec<u8> = Vec::new();
    for (i, t) in tokens.iter().enumerate() {
        let must = i > 0 && need(i);
        let after_bare = i > 0 && bare(i - 1);
        if must {
            plain.push(' ');
        }
        let kind = match vary {
            100.. => match vary - 100 {
                0 => 0,
                k => k + 6,
            },
            v if i / 2 == v => {
                let k = choice(GAPS);
                assume(i % 2 == 0 || k != 3 && k != 4);
                k
            }
            _ => 0,
        };
        gap(kind, must, after_bare, &mut wild);
        plain.push_str(t);
        wild.extend_from_slice(t.as_bytes());
    }
    // the end of the text
    match choice(4) {
        0 => {}
        1 => wild.push(b'\n'),
        2 => wild.extend_from_slice("  ;'(<é\r\n\u{3000}\n;end".as_bytes()),
        _ => {
            wild.extend_from_slice(b" ;");
            wild.push(ascii());
        }
    }
    (plain, unsafe { String::from_utf8_unchecked(wild) })
}
const BNF_TOK: &[&[&str]] = &[
    &["<a>", "::=", "'x'", "<b>", "|", "\"y\"", "<b>", "::=", "'z'"],
    &["<a>", "::=", "(", "'x'", "|", "<b>", ")", "[", "<b>", "]", "'q'"],
    &["<a>", "::=", "[", "(", "'x'", "<a>", ")", "|", "'y'", "]", "<b>", "::=", "''"],
    &["<a>", "::=", "<b>", "<c>", "::=", "'x'", "|", "<a>", "<d>", "|", "''", "<e>", "::=", "<a>"],
    &["<a b>", "::=", "'; x'", "|", "\"(\"", "|", "<c;d>", "'|'"],
    &["<a>", "::=", "'x'"],
];
const ABNF_TOK: &[&[&str]] = &[
    &["a", "=", "'x'", "b", "/", "\"y\"", "b", "=", "'z'"],
    &["a", "=", "(", "'x'", "/", "b", ")", "[", "b", "]", "'q'"],
    &["a", "=", "[", "(", "'x'", "a", ")", "/", "'y'", "]", "b", "=", "''"],
    &["a", "=", "b", "c", "=", "'x'", "/", "a", "d", "/", "''", "e", "=", "a"],
    &["a-b", "=", "'; x'", "/", "\"(\"", "/", "c-d", "'/'"],
    &["a", "=", "'x'"],
];
fn spacing_shard(toks: &'static [&'static [&'static str]]) -> (&'static [&'static str], usize) {
    let mut k = shard(toks.iter().map(|t| t.len().div_ceil(2) + GAPS - 6).sum());
    for t in toks {
        let (w, all) = (t.len().div_ceil(2), GAPS - 6);
        if k < w {
            return (t, k);
        }
        if k < w + all {
            return (t, 100 + k - w);
        }
        k -= w + all;
    }
    unreachable!()
}
pub fn c11_bnf() {
    let (toks, v) = spacing_shard(BNF_TOK);
    let (plain, wild) = spaced(toks, v, &|_| false, &|_| false);
    same_meaning::<BNF>(&plain, &wild);
}
pub fn c11_abnf() {
    let (toks, v) = spacing_shard(ABNF_TOK);
    // a bare name runs up to the next whitespace or closing bracket
    let bare = |i: usize| toks[i].as_bytes()[0].is_ascii_alphabetic();
    let (plain, wild) = spaced(toks, v, &|i| bare(i - 1) && toks[i] != ")" && toks[i] != "]", &bare);
    same_meaning::<ABNF>(&plain, &wild);
}
fn same_meaning<F: Format>(plain: &str, wild: &str) {
    show(plain);
    show(wild);
    let a = Grammar::parse_from::<F>(plain);
    let b = Grammar::parse_from::<F>(wild);
    check(a.is_ok(), "the plainly spaced grammar is accepted");
    check(b.is_ok(), "the same grammar with other spacing or comments is accepted");
    check(a.unwrap() == b.unwrap(), "spacing and comments do not change the grammar");
    let c: Result<Grammar, Error> = wild.parse();
    check(c.is_ok(), "the same grammar with other spacing or comments is accepted by FromStr");
}

// ---- C12: format detection, and the two notations mean the same ----
pub fn c12_detect() {
    let ts: &[&str] = &["\x01\x01\x01<a>::='x'", "\x01\x01\x01a = 'x'", "\x01;\x01\x01<a>::='x'", "\x01;\x01\x01a = 'x'", "\x01\x01\x01\x01", "\x01\x01a>::='x'", ";<\n\x01\x01a = b<\x01", ";a\x01\x01<a>::='x'", "\x01\x01\x01\x01<a>::=<b>", "\x01\x01\x01\x01a = b", "\x01\x01\x01\x01\x01", "\x01\x01a \x01 \x01b\x01",
        "; <a> ::= 'x'\n\x01\x01a = 'x'", "\u{feff}<a>::='x'\x01", "\u{3000}\x01<a>::='x'", "\u{3000}\u{85}\x01a = 'x'", "a = '<b> ::= x'\x01", "a = b ; <c> ::= 'x'\x01", "<a> ::= 'b = c'\x01\n<d>::=\x01'='", "; a = b\n\n;\x01\n <a>::='x'\x01", ";\r\n;\x01\r\n\x01<a>::=('x' | [<b>])", ";\x01\n;\x01\n;\x01\na = ('x' / [b])", "a = <\x01>\x01", "a::=\x01'x'", "<a> = 'x'\x01", "a> ::= \x01", "\n\n\n\t<a>::=<b>\x01<b>::=\x01'y'", "\n\n\n\ta = b\x01b = \x01'y'", "<a\x01::='x'\x01", "é = '<'\x01", "<é> ::= '='\x01", "; it's\x01\n<a> ::= ('x')", "; it's\x01\na = ('x')", "\x02<a>::='x'", "\x05<a>::='x'", "\x02a = 'x'", "\x05\x01a = 'x'", "\x06\x01<a>::='x'", "\x07a = '<'", "\x07<a>::='x'", ";\x02\x01<a>::='x'", ";\x03\x01a = '<\x02'", "; \x04\n\x01<a>::='\x03'",
        "\x01\x01\x01\x01\x01\x01", "\x01\x01\x01\x01\x01a = 'x'", "\x01\x01\x01\x01\x01<a>::='x'"];
    detects(&template(ts[shard(pick(ts.len() - 3, ts.len()))]));
}
fn detects(s: &str) {
    show(&s);
    let rd = Reader { s: s.as_bytes(), fmt: Fmt::Bnf, extended: true };
    let i = rd.ws(0);
    let bnf = i < s.len() && s.as_bytes()[i] == b'<';
    let auto: Result<Grammar, Error> = s.parse();
    let explicit = if bnf { Grammar::parse_from::<BNF>(&s) } else { Grammar::parse_from::<ABNF>(&s) };
    check(auto.is_ok() == explicit.is_ok(), "FromStr accepts what the detected format accepts");
    if let (Ok(a), Ok(b)) = (&auto, &explicit) {
        reach(if bnf { "bnf" } else { "abnf" });
        check(a == b, "FromStr gives the grammar of the detected format");
        observe_grammar(a);
    }
}
/// The same grammar written in both notations; `x` is a template token list.
pub fn c12_same() {
    // (n name, l literal, = separator, | alternative, brackets, ; end of production)
    let ts: &[&str] = &["n=l;", "n=nl|l;n=l;", "n=l|n;n=n|l;", "n=(l|n)l;", "n=[n]l;n=(n);", "n=([l]n|l);n=l;", "n=nn|l|n;n=[l|l];n=l;", "n=((l)n)[(n)];n=l;", "n=(L)(L)(L)(L)(L)(L)(L)(L)(L)(L)(l)M;", "n=[L][L][l]M[L][L][L][L][L][L][L][L][L];M=L;", "n=(((((L)l)M)L)M);M=l|L|M|L|M|L|M|L;", "M=ML;n=Ml|L;M=[l];M=(M);M=n|L;", "M=L|(L|(l|[L|(M)]))|n;"];
    let k = shard(ts.len());
    let (mut b, mut a) = (String::new(), String::new());
    let mut nn = 0;
    for c in ts[k].bytes() {
        match c {
            b'n' => {
                let x = if nn == 0 { byte_in(b'a', b'z') } else { [b'a', b'z'][choice(2)] };
                nn += 1;
                b.push('<');
                b.push(x as char);
                b.push_str("> ");
                a.push(x as char);
                a.push(' ');
            }
            b'L' => {
                for s in [&mut a, &mut b] {
                    s.push_str("\"é; (/|it's\" ");
                }
            }
            b'M' => {
                b.push_str("<rule-7> ");
                a.push_str("rule-7 ");
            }
            b'l' => {
                let x = ascii();
                assume((x != b'\'') & (x != b'"'));
                for s in [&mut a, &mut b] {
                    s.push('\'');
                    s.push(x as char);
                    s.push_str("' ");
                }
            }
            b'=' => {
                b.push_str("::= ");
                a.push_str("= ");
            }
            b'|' => {
                b.push_str("| ");
                a.push_str("/ ");
            }
            b';' => {
                b.push('\n');
                a.push('\n');
            }
            c => {
                b.push(c as char);
                a.push(c as char);
            }
        }
    }
    show(&b);
    show(&a);
    let gb: Result<Grammar, Error> = b.parse();
    let ga: Result<Grammar, Error> = a.parse();
    check(gb.is_ok(), "the BNF text is accepted");
    check(ga.is_ok(), "the ABNF text is accepted");
    let gb = gb.unwrap();
    check(gb == ga.unwrap(), "both notations give the same grammar");
    observe_grammar(&gb);
}
// ---- C10: generated names stay apart from the user's names ----
pub fn c10_hygiene() {
    let ts: &[&str] = &["<a>::=('x')<__anon\x01>", "<__anon\x01>::=['x']<a>\n<a>::=('y'|'z')", "<a>::=(<__anon\x01>|('q'))\n<__anon\x01>::='y'", "<a>::=[<b>][<__ano\x01\x01>]", "<a>::=('x')|['y'<__anon\x01>('z')]\n<__anon\x01>::='w'", "<__anon\x01>::=(<__anon\x01>['x'])", "<a>::=((('x')<__anon\x01>)['y']<__anon\x01>)\n<__anon\x01>::='w'", "<a>::=(<__anon\x01\x01>)(<__anon\x01>)(<__anon\x01>)",
        "<a>::=('a')('b')('c')('d')('e')('f')('g')('h')('i')('j')('k')('l')<__anon1\x01>", "<__anon\x01\x01>::='x'\n<a>::=('a')['b']('c')['d']('e')['f']('g')['h']('i')['j']('k')['l']", "<a>::=('a')\n<b>::=('b')\n<c>::=['c']|(<__anon\x01>)\n<d>::=('d'['e'])", "<a>::=('a')\n<b>::=<__anon\x01>('b')", "<__anon>::=('x')<__anon0><__anon\x01>\n<__anon1>::=['y']", "<a>::=('x'<__anon1>)('y'<__anon2>)('z'<__anon\x01>)['w'<__anon4>]<__anon6>", "<__anon1>::='1'\n<__anon2>::='2'\n<__anon3>::='3'\n<a>::=('x')['y'](<__anon\x01>)", "<a>::=[['x']<__anon\x01>][['y']<__anon\x01>]", "<a>::=('x')('x')['x']('x'|)", "<A\x01on1>::=('x')", "<__anon\x01>::='x'|('y'<__anon\x01>)|['z']\n<__anon\x01>::=(<__anon\x01>)"];
    let s = template(ts[shard(ts.len())]);
    against_reference(&s, Fmt::Bnf);
}
