//! Rendering of parse trees, editing of grammars, comparison, JSON, and grammar text used end to end.
use super::earley::*;
use super::refsyn::*;
use super::rt::*;
use bnf::*;
use std::hash::{Hash, Hasher};

// ---- C22: parse trees as text ----
/// Shapes with trees of several levels; the input is spelled from the grammar's own (symbolic) terminals.
const TREES: &[(&str, &str)] = &[
    // (grammar, input: digits are terminals of the grammar)
    ("S:t", "1"), ("S:\x02A|t;A:\x03t", "134"), ("S:0", ""), ("S:|t", ""), ("S:AB;A:t;B:t", "12"), ("S:tA|t;A:tS", "133"), ("S:AtA;A:t", "212"), ("S:A;A:B;B:t", "1"), ("S:AAA;A:t|0", "11"), ("S:AtB;A:BB;B:t", "2212"), ("S:SS|w", "111"), ("S:ABt;A:tB;B:t", "23313"), ("S:éA;A:té", "121"),
    ("S:ASB|t;A:t;B:t", "22133"), ("S:ABA;A:BtB;B:0|t", "1311"), ("S:tA;A:|AB;B:t", "122"), ("S:ACB;A:B;B:C;C:t", "111"),
];
fn a_tree(k: usize, f: &dyn Fn(&ParseTree)) {
    if k < DRAWN {
        let g = skeleton(&drawn(k * 3 + 1));
        let input = template(["", "a", "b", "aab", "ab\x01", "\x01a"][choice(6)]);
        assume(!derivations(&g, &input).infinite);
        return some_trees(&g, &input, f);
    }
    let k = k - DRAWN;
    let mut big = k.wrapping_sub(TREES.len());
    let mut found = None;
    if k >= TREES.len() {
        for (sk, ins) in BIG {
            if big < ins.len() {
                found = Some((*sk, ins[big]));
                break;
            }
            big -= ins.len();
        }
        if found.is_none() {
            return named_tree(big, f);
        }
    }
    let (g, input) = match found {
        Some((sk, i)) => (skeleton(sk), template(i)),
        None => {
            let (sk, inp) = TREES[k];
            let g = skeleton(sk);
            let mut input = String::new();
            for c in inp.bytes() {
                input.push_str(&g.terms[(c - b'1') as usize]);
            }
            (g, input)
        }
    };
    some_trees(&g, &input, f);
}
const DRAWN: usize = 60;
fn some_trees(g: &Gm, input: &str, f: &dyn Fn(&ParseTree)) {
    let gr = g.grammar();
    show_case(&gr, input);
    let ps = gr.build_parser().unwrap();
    let list = bounded(ps.parse_input(input), pick(5, 12));
    for t in &list {
        reach("tree");
        f(t);
    }
    // trees changed by hand
    let Some(t) = list.last() else { return };
    let kids = t.rhs_iter().count();
    if kids == 0 || kids > 40 || input.len() > 24 || g.terms.iter().any(|t| t.len() > 1) {
        return;
    }
    let at = choice(kids.min(3));
    let at = if at == 2 { kids - 1 } else { at };
    let put = match choice(3) {
        0 => ParseTreeNode::Terminal("new\n"),
        1 => ParseTreeNode::Nonterminal(t.clone()),
        _ => t.rhs_iter().next().unwrap().clone(),
    };
    let mut e = t.clone();
    *e.rhs_iter_mut().nth(at).unwrap() = put.clone();
    check(e.rhs_iter().count() == kids, "a changed node leaves the number of children");
    for (i, (x, y)) in e.rhs_iter().zip(t.rhs_iter()).enumerate() {
        check(*x == if i == at { put.clone() } else { y.clone() }, "the changed node is in its place and the others are as they were");
    }
    reach("edited");
    f(&e);
}
/// Larger trees: fixed terminals, an input in which some bytes are symbolic.
const BIG: &[(&str, &[&str])] = &[
    ("S:(S)|x", &["((((((((((((x))))))))))))", "(((\x01)))", "((((((((((((((((((((((((((((((x))))))))))))))))))))))))))))))"]),
    ("S:aS|a", &["aaaaaaaaaaaaaaaaaaaaaaaa", "aaa\x01aa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"]),
    ("S:Sa|a", &["aaaaaaaaaaaaaaaaaaaaaaaa", "aaaa\x01", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"]),
    ("S:aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", &["aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"]),
    ("S:AbA;A:(A)c|x", &["((((((((((((((((((((((((((((((((((((((((((((((((((((((((((((((((((((((x)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)cbx", "xb((((((((((((((((((((((((((((((((((((((((((((((((((((((((((((((((((x)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c)c", "(x)cb(\x01)c"]),
    ("S:abcdefghijklmnopqrsuvxyz", &["abcdefghijklmnopqrsuvxyz"]),
    ("S:AAAAAAAAAAAAAAA;A:a|b", &["aaaaaaa\x01aaaaaaa", "\x01aaaaaaaaaaaaa\x01"]),
    ("S:S+A|A;A:A*B|B;B:(S)|x|y", &["x+x*(x+y)*x", "((x)*\x01)+y", "x*(y+x*(x+y)*x)+y\x01x"]),
    ("S:ABC;A:aD|D;B:bDb|0;C:D|DC;D:d|(S)", &["adbdbdd", "(ddd)\x01d", "a(add)b\x01bdd(dd)"]),
    ("S:`\"`A`\"`|`\n`;A:`'`|`<s>`A|`[\\]`A|`#`A|`a\r\nb`|0", &["\"<s>[\\]\"", "\"'\"", "\n", "\"a\r\nb\"", "\"\""]),
    ("S:EFG;E:HI;F:JK;G:L|0;H:x;I:x|0;J:0;K:JJx;L:`日本`E", &["xxx日本x", "xx\x01"]),
    ("S:AB;A:|aA;B:|bB", &["aabb", "aaaaaaaaaabbbbbbbbbb", "a\x01"]),
    ("S:{A}|{};A:B|B,A;B:`\"k\"`:C;C:S|1|[D]|[];D:C|C,D", &["{\"k\":[1,{},[],\x01],\"k\":{}}"]),
];
fn trees() -> usize {
    DRAWN + TREES.len() + BIG.iter().map(|x| x.1.len()).sum::<usize>() + NAMED
}
/// Names with symbolic bytes in them, at every level.
const NAMED: usize = 8;
fn named_tree(k: usize, f: &dyn Fn(&ParseTree)) {
    let nm = |pre: &str, free: bool| format!("{pre}{}", if free { ascii_string(if thorough() { 2 } else { 1 }) } else { "\"&#<>[\\];\n\r>é".to_string() });
    let (x, y, z) = (Term::Nonterminal(nm("x", k % 4 == 0)), Term::Nonterminal(nm("", k % 4 == 1)), Term::Nonterminal(nm("z z", k % 4 == 2)));
    assume(x != y && y != z && x != z);
    let pr = |l: &Term, v: Vec<Vec<&Term>>| Production::from_parts(l.clone(), v.into_iter().map(|a| e(a.into_iter().cloned().collect())).collect());
    let (a, b) = (t("a"), t(&nm("b", k % 4 == 3)));
    let gr = if k < 4 { g(vec![pr(&x, vec![vec![&y, &a, &z]]), pr(&y, vec![vec![&z, &z]]), pr(&z, vec![vec![&b], vec![]])]) } else { g(vec![pr(&x, vec![vec![&y]]), pr(&y, vec![vec![&z, &b, &y], vec![]]), pr(&z, vec![vec![&a]])]) };
    let Term::Terminal(b) = &b else { return };
    let input = if k < 4 { format!("{b}a{b}") } else { format!("a{b}a{b}") };
    show_case(&gr, &input);
    let ps = gr.build_parser().unwrap();
    for t in bounded(ps.parse_input(&input), 2) {
        reach("named");
        f(&t);
    }
}
fn name_of(t: &ParseTree) -> String {
    match t.lhs {
        Term::Nonterminal(s) => s.clone(),
        Term::Terminal(_) => unreachable!(),
    }
}
fn draw(t: &ParseTree, indent: &str, branch: &str, below: &str, out: &mut Vec<u8>) {
    out.extend_from_slice(indent.as_bytes());
    out.extend_from_slice(branch.as_bytes());
    out.extend_from_slice(format!("<{}> ::=", name_of(t)).as_bytes());
    let kids: Vec<&ParseTreeNode> = t.rhs_iter().collect();
    for k in &kids {
        match k {
            ParseTreeNode::Terminal(s) => {
                out.extend_from_slice(b" \"");
                out.extend_from_slice(s.as_bytes());
                out.push(b'"');
            }
            ParseTreeNode::Nonterminal(x) => out.extend_from_slice(format!(" <{}>", name_of(x)).as_bytes()),
        }
    }
    out.push(b'\n');
    let indent = format!("{indent}{below}");
    for (i, k) in kids.iter().enumerate() {
        let last = i + 1 == kids.len();
        let (b, c) = if last { ("└── ", "    ") } else { ("├── ", "│   ") };
        match k {
            ParseTreeNode::Terminal(s) => {
                out.extend_from_slice(indent.as_bytes());
                out.extend_from_slice(b.as_bytes());
                out.push(b'"');
                out.extend_from_slice(s.as_bytes());
                out.extend_from_slice(b"\"\n");
            }
            ParseTreeNode::Nonterminal(x) => draw(x, &indent, b, c, out),
        }
    }
}
pub fn c22_display() {
    let k = shard(trees());
    a_tree(k, &|t| {
        let got = t.to_string();
        show(&got);
        let mut want = Vec::new();
        draw(t, "", "", "", &mut want);
        check(same(&got, unsafe { std::str::from_utf8_unchecked(&want) }), "the printed tree shows every node at its place");
        observe_str(&got);
    });
}
// ---- C21: Mermaid ----
fn special(c: u8) -> bool {
    (c == b'"') | (c == b'&') | (c == b'#') | (c == b'<') | (c == b'>') | (c == b'[') | (c == b'\\') | (c == b']') | (c == b';') | (c == b'\n') | (c == b'\r')
}
fn escaped(s: &str) -> Vec<u8> {
    let mut v = Vec::new();
    for b in s.bytes() {
        if b < 0x80 && special(b) {
            v.push(b'#');
            if b >= 100 {
                v.push(b'0' + b / 100);
            }
            if b >= 10 {
                v.push(b'0' + b / 10 % 10);
            }
            v.push(b'0' + b % 10);
            v.push(b';');
        } else {
            v.push(b);
        }
    }
    v
}
pub fn c21_escape() {
    let ts = ["\x02\x01", "\x03\x01", "\x04", "\x01\x02\x03", "", "\x01", "\x01\x01", "\x01\x01\x01", "é\x01", "\x01日\x01", "a\x01\u{2028}\x01b", "\x01#38;\x01", "😀\x01", "\x01\x01\x01\x01", "a long label with \x01 and (\x01) and é\x01 日本 \x01", "\u{b}\u{85}\u{2028}\u{feff}\x01\0\x7f", "\"\"\"\"&&&&####\x01<<<<>>>>[[[[\\\\]]]];;;;\n\n\r\r", "\x01\x01\x01\x01\x01"];
    let s = template(ts[shard(pick(17, ts.len()))]);
    show(&s);
    let got = escape_mermaid_label(&s);
    show(&got);
    let want = escaped(&s);
    check(same(&got, unsafe { std::str::from_utf8_unchecked(&want) }), "every special character becomes its entity code and nothing else changes");
    observe_str(&got);
}
fn edges(t: &ParseTree, me: usize, next: &mut usize, out: &mut Vec<u8>) {
    let lhs = escaped(&name_of(t));
    for k in t.rhs_iter() {
        *next += 1;
        let id = *next;
        let label = match k {
            ParseTreeNode::Terminal(s) => escaped(s),
            ParseTreeNode::Nonterminal(x) => escaped(&name_of(x)),
        };
        out.extend_from_slice(format!("{me}[\"").as_bytes());
        out.extend_from_slice(&lhs);
        out.extend_from_slice(format!("\"] --> {id}[\"").as_bytes());
        out.extend_from_slice(&label);
        out.extend_from_slice(b"\"]\n");
        if let ParseTreeNode::Nonterminal(x) = k {
            edges(x, id, next, out);
        }
    }
}
pub fn c21_tree() {
    let k = shard(trees());
    a_tree(k, &|t| {
        let got = t.mermaid().to_string();
        show(&got);
        let mut want = b"flowchart TD\n".to_vec();
        edges(t, 0, &mut 0, &mut want);
        check(same(&got, unsafe { std::str::from_utf8_unchecked(&want) }), "the flowchart has one edge per child, with distinct nodes and escaped labels");
        observe_str(&got);
    });
}
// ---- C23: editing ----
fn any_term1() -> Term {
    let s = ascii_string(1);
    if choice(2) == 0 { Term::Terminal(s) } else { Term::Nonterminal(s) }
}
fn teq(a: &Term, b: &Term) -> bool {
    match (a, b) {
        (Term::Terminal(x), Term::Terminal(y)) | (Term::Nonterminal(x), Term::Nonterminal(y)) => same(x, y),
        _ => false,
    }
}
fn eeq(a: &[Term], b: &Expression) -> bool {
    let b: Vec<&Term> = b.terms_iter().collect();
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| teq(x, y))
}
fn holds_terms(x: &Expression, m: &[Term]) {
    check(eeq(m, x), "the expression holds the terms put into it, in order");
}
pub fn c23_expression() {
    let k = shard(4 * 3);
    let (n, kind) = (k / 3, k % 3);
    let mut m: Vec<Term> = (0..n).map(|_| any_term1()).collect();
    let mut x = match kind {
        0 => Expression::from_parts(m.clone()),
        1 => {
            let mut x = Expression::new();
            for t in &m {
                x.add_term(t.clone());
            }
            x
        }
        _ => {
            let mut x = Expression::default();
            for t in &m {
                x = if choice(2) == 0 { x + t.clone() } else { &x + t.clone() };
            }
            x
        }
    };
    holds_terms(&x, &m);
    for _ in 0..if n < 2 || thorough() { 3 } else { 2 } {
        let t = any_term1();
        match choice(5) {
            0 => {
                x.add_term(t.clone());
                m.push(t);
            }
            1 => {
                let r = x.remove_term(&t);
                let at = m.iter().position(|y| teq(y, &t));
                check(r.is_some() == at.is_some(), "a term is removed exactly when it is there");
                if let Some(i) = at {
                    reach("removed");
                    check(teq(&r.unwrap(), &t), "the removed term is given back");
                    m.remove(i);
                }
            }
            2 => {
                for y in x.terms_iter_mut() {
                    if teq(y, &t) {
                        *y = super::rt::t("é");
                    }
                }
                for y in m.iter_mut() {
                    if teq(y, &t) {
                        *y = super::rt::t("é");
                    }
                }
            }
            3 => {
                let o = Expression::from_parts(vec![t.clone(), n_("q")]);
                x = if choice(2) == 0 { x + o } else { &x + o };
                m.push(t);
                m.push(n_("q"));
            }
            _ => {
                let o = t.clone() + n_("z");
                holds_terms(&o, &[t, n_("z")]);
            }
        }
        holds_terms(&x, &m);
    }
}
fn n_(s: &str) -> Term {
    n(s)
}
/// Term + Expression keeps the terms of both, those of the expression in order.
pub fn c23_prepend() {
    let k = shard(4);
    let m: Vec<Term> = (0..k).map(|_| any_term1()).collect();
    let t = any_term1();
    let x = Expression::from_parts(m.clone());
    let r = if choice(2) == 0 { t.clone() + x } else { t.clone() + &x };
    let mut end = m.clone();
    end.push(t.clone());
    let mut front = vec![t];
    front.extend(m);
    check(eeq(&end, &r) || eeq(&front, &r), "a term added to an expression joins the expression's terms");
}
/// Longer lists: `len` elements of a few kinds, one of them symbolic, and edits near it.
fn long_case(count: usize) -> (usize, usize, usize) {
    let k = shard(count * 12);
    let len = [8, 20, 40][k % 3];
    (len, [0, 5, len / 2, len - 1][k / 3 % 4], k / 12)
}
fn nth_term(i: usize) -> Term {
    let s = ["a", "b", "c", "a b", ""][i * 7 % 5];
    if i % 3 == 1 { t(s) } else { n(s) }
}
fn letter() -> String {
    String::from(byte_in(b'a', b'e') as char)
}
pub fn c23_long() {
    let (len, at, what) = long_case(3);
    let l = letter();
    let other = |i: usize| if i == at { n(&l) } else { nth_term(i) };
    let target = if choice(2) == 0 { n(&letter()) } else { t(&letter()) };
    let first = |eq: &dyn Fn(usize) -> bool| (0..len).position(|i| eq(i));
    match what {
        0 => {
            let mut m: Vec<Term> = (0..len).map(other).collect();
            let mut x = Expression::from_parts(m.clone());
            let i = first(&|i| teq(&m[i], &target));
            let r = x.remove_term(&target);
            check(r.is_some() == i.is_some(), "a term is removed exactly when it is there");
            if let Some(i) = i {
                check(teq(&r.unwrap(), &target), "the removed term is given back");
                m.remove(i);
                reach("removed");
            }
            x.add_term(target.clone());
            m.push(target);
            holds_terms(&x, &m);
            let y = &x + x.clone();
            m.extend(m.clone());
            holds_terms(&y, &m);
        }
        1 => {
            let mut m: Vec<Expression> = (0..len).map(|i| e(vec![t("q"), other(i)])).collect();
            let mut p = p("l", m.clone());
            let target = e(vec![t("q"), target]);
            let i = first(&|i| xeq(&m[i], &target));
            let r = p.remove_from_rhs(&target);
            check(r.is_some() == i.is_some(), "an alternative is removed exactly when it is there");
            if let Some(i) = i {
                check(xeq(&r.unwrap(), &target), "the removed alternative is given back");
                m.remove(i);
                reach("removed");
            }
            p.add_to_rhs(target.clone());
            m.push(target);
            let q: Vec<&Expression> = p.rhs_iter().collect();
            check(q.len() == m.len() && q.iter().zip(&m).all(|(x, y)| xeq(x, y)), "the production holds the alternatives put into it, in order");
            check(p.len() == m.len(), "len counts the alternatives");
        }
        _ => {
            let mk = |i: usize| p("same", vec![e(vec![]), e(vec![other(i)])]);
            let mut m: Vec<Production> = (0..len).map(mk).collect();
            let mut gr = Grammar::from_parts(m.clone());
            let target = p("same", vec![e(vec![]), e(vec![target])]);
            let i = first(&|i| peq(&m[i], &target));
            let r = gr.remove_production(&target);
            check(r.is_some() == i.is_some(), "a production is removed exactly when it is there");
            if let Some(i) = i {
                check(peq(&r.unwrap(), &target), "the removed production is given back");
                m.remove(i);
                reach("removed");
            }
            gr.add_production(target.clone());
            m.push(target);
            let q: Vec<&Production> = gr.productions_iter().collect();
            check(q.len() == m.len() && q.iter().zip(&m).all(|(x, y)| peq(x, y)), "the grammar holds the productions put into it, in order");
        }
    }
}
fn any_expr(n: usize) -> Expression {
    e((0..n).map(|_| any_term1()).collect())
}
fn terms(x: &Expression) -> Vec<Term> {
    x.terms_iter().cloned().collect()
}
fn xeq(a: &Expression, b: &Expression) -> bool {
    eeq(&terms(a), b)
}
pub fn c23_production() {
    let k = shard(4);
    let mut m: Vec<Expression> = (0..k).map(|_| any_expr(1)).collect();
    let mut p = if choice(2) == 0 {
        Production::from_parts(n("l"), m.clone())
    } else {
        let mut p = if choice(2) == 0 { Production::new() } else { Production::default() };
        p.lhs = n("l");
        for x in &m {
            p.add_to_rhs(x.clone());
        }
        p
    };
    let holds = |p: &Production, m: &[Expression]| {
        let r: Vec<&Expression> = p.rhs_iter().collect();
        check(r.len() == m.len() && r.iter().zip(m).all(|(x, y)| xeq(x, y)), "the production holds the alternatives put into it, in order");
        check(p.len() == m.len(), "len counts the alternatives");
        check(p.is_empty() == m.is_empty(), "is_empty says whether there are alternatives");
        check(teq(&p.lhs, &n("l")), "the left-hand side stays");
    };
    holds(&p, &m);
    for _ in 0..if k < 2 { pick(3, 4) } else { 3 } {
        let x = any_expr(choice(2));
        match choice(3) {
            0 => {
                p.add_to_rhs(x.clone());
                m.push(x);
            }
            1 => {
                let r = p.remove_from_rhs(&x);
                let at = m.iter().position(|y| xeq(y, &x));
                check(r.is_some() == at.is_some(), "an alternative is removed exactly when it is there");
                if let Some(i) = at {
                    reach("removed");
                    check(xeq(&r.unwrap(), &x), "the removed alternative is given back");
                    m.remove(i);
                }
            }
            _ => {
                for y in p.rhs_iter_mut() {
                    y.add_term(n("k"));
                }
                for y in m.iter_mut() {
                    y.add_term(n("k"));
                }
            }
        }
        holds(&p, &m);
    }
}
fn any_prod() -> Production {
    Production::from_parts(Term::Nonterminal(ascii_string(1)), vec![e(vec![t("x")])])
}
fn peq(a: &Production, b: &Production) -> bool {
    let (x, y): (Vec<_>, Vec<_>) = (a.rhs_iter().collect(), b.rhs_iter().collect());
    teq(&a.lhs, &b.lhs) && x.len() == y.len() && x.iter().zip(y).all(|(p, q)| xeq(p, q))
}
pub fn c23_grammar() {
    let k = shard(5);
    let mut m: Vec<Production> = (0..k).map(|_| any_prod()).collect();
    let mut gr = match choice(2) {
        0 => Grammar::from_parts(m.clone()),
        _ => {
            let mut gr = if choice(2) == 0 { Grammar::new() } else { Grammar::default() };
            for p in &m {
                gr.add_production(p.clone());
            }
            gr
        }
    };
    let holds = |gr: &Grammar, m: &[Production]| {
        let r: Vec<&Production> = gr.productions_iter().collect();
        check(r.len() == m.len() && r.iter().zip(m).all(|(x, y)| peq(x, y)), "the grammar holds the productions put into it, in order");
    };
    holds(&gr, &m);
    for _ in 0..pick(4, 5) {
        let p = any_prod();
        match choice(3) {
            0 => {
                gr.add_production(p.clone());
                m.push(p);
            }
            1 => {
                let r = gr.remove_production(&p);
                let at = m.iter().position(|y| peq(y, &p));
                check(r.is_some() == at.is_some(), "a production is removed exactly when it is there");
                if let Some(i) = at {
                    reach("removed");
                    check(peq(&r.unwrap(), &p), "the removed production is given back");
                    m.remove(i);
                }
            }
            _ => {
                for y in gr.productions_iter_mut() {
                    y.add_to_rhs(e(vec![n("k")]));
                }
                for y in m.iter_mut() {
                    y.add_to_rhs(e(vec![n("k")]));
                }
            }
        }
        holds(&gr, &m);
    }
}
// ---- C24: JSON ----
fn long_grammar(n: usize) -> Grammar {
    let x = any_term1();
    let mut ps = Vec::new();
    for i in 0..n {
        let mut alts = Vec::new();
        for j in 0..i % 4 {
            alts.push(e((0..j + i % 3).map(|k| nth_term(i + j + k)).collect()));
        }
        if i == n - 2 {
            alts.push(e(vec![nth_term(i), x.clone(), nth_term(i)]));
        }
        ps.push(Production::from_parts(nth_term(3 * i), alts));
    }
    g(ps)
}
pub fn c24_json() {
    let k = shard(pick(17, 19));
    let txt = |n: usize| if choice(4) == 3 { template(["é\u{1F600}\u{7f}", "\x02", "\x03", "\x04"][if k < 2 { choice(4) } else { 0 }]) } else { ascii_string(n) };
    macro_rules! back {
        ($x:expr, $t:ty, $same:expr) => {{
            let x: $t = $x;
            let js = serde_json::to_string(&x);
            check(js.is_ok(), "serialisation succeeds");
            let js = js.unwrap();
            show(&js);
            let r: Result<$t, _> = serde_json::from_str(&js);
            check(r.is_ok(), "what was serialised deserialises");
            let r = r.unwrap();
            let same: fn(&$t, &$t) -> bool = $same;
            check(same(&x, &r), "deserialising gives the value back");
            check(x == r, "deserialising gives an equal value");
            // the same through the other ways serde_json offers
            let r: Result<$t, _> = match choice(3) {
                0 => serde_json::to_string_pretty(&x).and_then(|s| serde_json::from_str(&s)),
                1 => serde_json::to_vec(&x).and_then(|s| serde_json::from_slice(&s)),
                _ => serde_json::to_value(&x).and_then(serde_json::from_value),
            };
            check(r.is_ok() && same(&x, &r.unwrap()), "deserialising gives the value back, whichever way it was written");
            observe_str(&js);
        }};
    }
    let geq: fn(&Grammar, &Grammar) -> bool = |a, b| {
        let (x, y): (Vec<_>, Vec<_>) = (a.productions_iter().collect(), b.productions_iter().collect());
        x.len() == y.len() && x.iter().zip(y).all(|(p, q)| peq(p, q))
    };
    match k {
        0 => back!(Term::Terminal(txt(1)), Term, teq),
        1 => back!(Term::Nonterminal(txt(2)), Term, teq),
        2 => back!(any_expr(choice(3)), Expression, xeq),
        3 => back!(Production::from_parts(any_term1(), vec![]), Production, peq),
        4 => back!(Production::from_parts(Term::Nonterminal(txt(1)), vec![any_expr(1), e(vec![])]), Production, peq),
        5 => back!(g(vec![p("a", vec![any_expr(1)]), p("b", vec![any_expr(1)])]), Grammar, geq),
        6 => back!(g(vec![]), Grammar, geq),
        7 => back!(g(vec![p("a", vec![any_expr(1)]), any_prod()]), Grammar, geq),
        8 => back!(Term::Terminal(txt(3)), Term, teq),
        9 => back!(g(vec![p("", vec![e(vec![])]), p("", vec![]), p("é", vec![e(vec![t("")]), e(vec![]), e(vec![n("")])]), any_prod()]), Grammar, geq),
        10 => back!(long_grammar(12), Grammar, geq),
        11 => back!(long_grammar(40), Grammar, geq),
        12 => back!(Production::from_parts(Term::Terminal(ascii_string(1)), (0..20).map(|i| e(vec![nth_term(i), t(&"x".repeat(i))])).collect()), Production, peq),
        13 => back!(e((0..40).map(nth_term).chain([any_term1()]).collect()), Expression, xeq),
        14 => back!(Term::Nonterminal(template("\"\\/\u{8}\x01\u{c}\n\r\t\0\u{1f}\u{7f}\u{2028}\u{feff}é日😀\x01<>&'")), Term, teq),
        15 => back!(Term::Terminal(format!("{}{}", "long ".repeat(60), ascii_string(1))), Term, teq),
        16 => back!(g(vec![Production::new(), Production::from_parts(t("t"), vec![Expression::new(), any_expr(1)])]), Grammar, geq),
        17 => back!(Term::Terminal(txt(4)), Term, teq),
        _ => back!(g(vec![p("a", vec![any_expr(2), any_expr(1)]), any_prod()]), Grammar, geq),
    }
}
// ---- C25: equality, hashing and order ----
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn same_hash<T: Hash>(a: &T, b: &T) -> bool {
    let (mut x, mut y) = (Rec::default(), Rec::default());
    a.hash(&mut x);
    b.hash(&mut y);
    same(unsafe { std::str::from_utf8_unchecked(&x.0) }, unsafe { std::str::from_utf8_unchecked(&y.0) })
}
fn consistent<T: Eq + Hash + Clone>(a: &T, b: &T, eq: bool) {
    check((a == b) == eq, "two values are equal exactly when they have the same parts");
    check((a != b) != eq, "inequality is the opposite of equality");
    check((b == a) == eq, "equality is symmetric");
    if eq {
        reach("equal");
        check(same_hash(a, b), "equal values hash alike");
    } else {
        reach("different");
    }
    let c = a.clone();
    check(c == *a, "a clone equals the original");
    check(same_hash(&c, a), "a clone hashes like the original");
}
fn ordered<T: Ord>(a: &T, b: &T, c: &T) {
    use std::cmp::Ordering::*;
    let ab = a.cmp(b);
    check((ab == Equal) == (a == b), "cmp agrees with equality");
    check(b.cmp(a) == ab.reverse(), "cmp is antisymmetric");
    check(a.partial_cmp(b) == Some(ab), "partial_cmp agrees with cmp");
    check((a < b) == (ab == Less), "comparison operators agree with cmp");
    if ab != Greater && b.cmp(c) != Greater {
        reach("chain");
        check(a.cmp(c) != Greater, "cmp is transitive");
    }
}
pub fn c25_term() {
    let k = shard(9);
    let mk = |n: usize| if choice(2) == 0 { Term::Terminal(ascii_string(n)) } else { Term::Nonterminal(ascii_string(n)) };
    let (a, b) = (mk(k % 3), mk(k / 3));
    consistent(&a, &b, teq(&a, &b));
    let c = mk(choice(2));
    ordered(&a, &b, &c);
}
/// Long strings and lists that differ in one place at most.
pub fn c25_long() {
    let k = shard(5 * 3);
    let (what, at) = (k % 5, [0, 7, 15][k / 5]);
    let long = |s: &str| format!("{}{s}{}", "ab".repeat(at / 2), "cd".repeat(10));
    let list = |x: Term| -> Vec<Term> { (0..16).map(|i| if i == at { x.clone() } else { nth_term(i) }).collect() };
    let kind = |s: String| if choice(2) == 0 { t(&s) } else { n(&s) };
    match what {
        0 => {
            let (a, b, c) = (kind(long(&ascii_string(1))), kind(long(&ascii_string(1))), kind(long(&ascii_string(1))));
            consistent(&a, &b, teq(&a, &b));
            ordered(&a, &b, &c);
        }
        1 => {
            let (a, b, c) = (e(list(any_term1())), e(list(any_term1())), e(list(any_term1())));
            consistent(&a, &b, xeq(&a, &b));
            ordered(&a, &b, &c);
            let short = e(list(any_term1())[..at + 1].to_vec());
            consistent(&a, &short, xeq(&a, &short));
            ordered(&short, &a, &b);
        }
        2 => {
            let mk = |x: Term| p("l", (0..16).map(|i| e(vec![t("q"), if i == at { x.clone() } else { nth_term(i) }])).collect());
            let (a, b) = (mk(any_term1()), mk(any_term1()));
            consistent(&a, &b, peq(&a, &b));
        }
        3 => {
            let mk = |x: Term| (0..16).map(|i| Production::from_parts(if i == at { x.clone() } else { nth_term(i) }, vec![e(vec![nth_term(i)])])).collect::<Vec<_>>();
            let (x, y) = (any_term1(), any_term1());
            let eq = teq(&x, &y);
            consistent(&g(mk(x)), &g(mk(y)), eq);
        }
        _ => {
            // the same terms, cut into alternatives or productions at different places
            let ts = list(any_term1());
            let cut = |i: usize| p("l", vec![e(ts[..i].to_vec()), e(ts[i..].to_vec())]);
            let (i, j) = (choice(4), choice(4));
            consistent(&cut(i), &cut(j), i == j);
            let cut = |i: usize| g(vec![p("l", ts[..i].iter().map(|t| e(vec![t.clone()])).collect()), p("l", ts[i..].iter().map(|t| e(vec![t.clone()])).collect())]);
            consistent(&cut(i), &cut(j), i == j);
        }
    }
}
/// Different expressions that look alike: printed, joined, folded or counted.
fn alikes() -> Vec<Vec<Term>> {
    let x = ascii_string(1);
    vec![
        vec![n("x"), n("b> <c"), n("y")],
        vec![n("x"), n("b"), n("c"), n("y")],
        vec![n("x> <b"), n("c> <y")],
        vec![t("ab")],
        vec![t("a"), t("b")],
        vec![t("a"), t("b"), t("")],
        vec![t(""), t("ab")],
        vec![t("a' 'b")],
        vec![n("ab")],
        vec![t("<ab>")],
        vec![t("aB")],
        vec![t("a b")],
        vec![t(" ab")],
        vec![t("ab ")],
        vec![],
        vec![t("")],
        vec![n("")],
        vec![t(""), t("")],
        vec![n("a> | <b")],
        vec![n("a> | <b"), t("ab")],
        vec![t("é")],
        vec![t("e\u{301}")],
        vec![t("É")],
        vec![t("b"), t("a")],
        vec![t("a"), n("b")],
        vec![n("a"), t("b")],
        vec![t("a\0"), t("b")],
        vec![t("a"), t("\0b")],
        vec![t("ab"), t("ab")],
        vec![t("ab"), t("ab"), t("ab")],
        vec![t("abababab"); 9],
        vec![t("abababab"); 10],
        vec![t(&("a".to_string() + &x))],
        vec![n(&x), n("b")],
        vec![t("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab")],
        vec![t("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaac")],
        vec![t("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"), t("b")],
    ]
}
const ALIKE: usize = 37;
/// The same value with room to spare.
fn roomy(v: &[Term]) -> Expression {
    let wide = |s: &String| {
        let mut r = String::with_capacity(s.len() + 9);
        r.push_str(s);
        r
    };
    let mut r = Vec::with_capacity(v.len() + 5);
    for t in v {
        r.push(match t {
            Term::Terminal(s) => Term::Terminal(wide(s)),
            Term::Nonterminal(s) => Term::Nonterminal(wide(s)),
        });
    }
    e(r)
}
pub fn c25_alike() {
    let all = alikes();
    let (i, j) = (shard(ALIKE), choice(ALIKE));
    let (a, b) = (e(all[i].clone()), roomy(&all[j]));
    let eq = xeq(&a, &b);
    consistent(&a, &b, eq);
    ordered(&a, &b, &e(all[(i + j) % ALIKE].clone()));
    if let (Some(x), Some(y)) = (a.terms_iter().next(), b.terms_iter().next()) {
        consistent(x, y, teq(x, y));
        ordered(x, y, &t("b"));
    }
    let mut alts = Vec::with_capacity(4);
    alts.push(b.clone());
    consistent(&p("l", vec![a.clone()]), &Production::from_parts(n("l"), alts), eq);
    consistent(&p("l", vec![a.clone(), e(vec![t("z")])]), &p("l", vec![b.clone(), e(vec![t("z")])]), eq);
    consistent(&g(vec![p("l", vec![a.clone()])]), &g(vec![p("l", vec![b.clone()])]), eq);
    consistent(&g(vec![p("l", vec![a.clone()]), p("m", vec![b.clone()])]), &g(vec![p("l", vec![b]), p("m", vec![a])]), eq);
}
/// Removing one of many that look alike removes that one.
pub fn c23_alike() {
    let all = alikes();
    let (i, what) = (shard(ALIKE), choice(3));
    let xs: Vec<Expression> = all.iter().map(|v| e(v.clone())).collect();
    let target = roomy(&all[i]);
    let at = xs.iter().position(|x| xeq(x, &target)).unwrap();
    // the target stands in the list or not, the others in either order
    let back = choice(2) == 1;
    let mut m: Vec<Expression> = xs.clone();
    if choice(2) == 0 {
        m.retain(|x| !xeq(x, &target));
    }
    if back {
        m.reverse();
    }
    let want = m.iter().position(|x| xeq(x, &target));
    observe(at as u64);
    match what {
        0 => {
            let mut q = p("l", m.clone());
            let r = q.remove_from_rhs(&target);
            check(r.is_some() == want.is_some() && r.is_none_or(|r| xeq(&r, &target)), "an alternative is removed exactly when it is there");
            if let Some(k) = want {
                m.remove(k);
            }
            let q: Vec<&Expression> = q.rhs_iter().collect();
            check(q.len() == m.len() && q.iter().zip(&m).all(|(x, y)| xeq(x, y)), "the production holds the alternatives put into it, in order");
        }
        1 => {
            let mk = |x: &Expression| p("l", vec![x.clone()]);
            let mut m: Vec<Production> = m.iter().map(mk).collect();
            let mut gr = g(m.clone());
            let r = gr.remove_production(&mk(&target));
            check(r.is_some() == want.is_some() && r.is_none_or(|r| peq(&r, &mk(&target))), "a production is removed exactly when it is there");
            if let Some(k) = want {
                m.remove(k);
            }
            let q: Vec<&Production> = gr.productions_iter().collect();
            check(q.len() == m.len() && q.iter().zip(&m).all(|(x, y)| peq(x, y)), "the grammar holds the productions put into it, in order");
        }
        _ => {
            let one = |v: &Expression| v.terms_iter().next().cloned().unwrap_or(n("none"));
            let mut m: Vec<Term> = m.iter().map(one).collect();
            let target = one(&target);
            let want = m.iter().position(|x| teq(x, &target));
            let mut x = e(m.clone());
            let r = x.remove_term(&target);
            check(r.is_some() == want.is_some() && r.is_none_or(|r| teq(&r, &target)), "a term is removed exactly when it is there");
            if let Some(k) = want {
                m.remove(k);
            }
            holds_terms(&x, &m);
        }
    }
    reach("removed");
}
pub fn c25_expression() {
    let k = shard(9);
    let ns = [(0, 0, 0), (0, 1, 1), (1, 1, 1), (1, 2, 1), (2, 1, 0), (2, 2, 1), (2, 0, 1), (1, 0, 2), (2, 2, 2)][k];
    let (a, b, c) = (any_expr(ns.0), any_expr(ns.1), any_expr(ns.2));
    consistent(&a, &b, xeq(&a, &b));
    ordered(&a, &b, &c);
}
pub fn c25_whole() {
    let k = shard(6);
    let mk = |sh: usize| -> Vec<Expression> {
        match sh {
            0 => vec![],
            1 => vec![any_expr(1)],
            2 => vec![any_expr(1), e(vec![t("x")])],
            _ => vec![e(vec![t("x")]), any_expr(1)],
        }
    };
    let (x, y) = [(0, 1), (1, 1), (1, 2), (2, 2), (2, 3), (0, 0)][k];
    let (l, r) = (any_term1(), any_term1());
    let (a, b) = (Production::from_parts(l, mk(x)), Production::from_parts(r, mk(y)));
    let eq = peq(&a, &b);
    consistent(&a, &b, eq);
    let q = p("q", vec![]);
    match choice(3) {
        0 => consistent(&g(vec![a.clone(), q.clone()]), &g(vec![b.clone(), q.clone()]), eq),
        1 => consistent(&g(vec![a.clone()]), &g(vec![b.clone(), q.clone()]), false),
        _ => consistent(&g(vec![q.clone(), a.clone()]), &g(vec![q.clone(), b.clone()]), eq),
    }
}
// ---- C26: grammar text used to parse input ----
/// End positions of matches of alternatives starting at `i`; `can` says what is known of the nonterminals.
fn ends(src: &[u8], alts: &[Vec<RTerm>], i: usize, inp: &[u8], prods: &[RProd], can: &[bool]) -> Vec<bool> {
    let w = inp.len() + 1;
    let mut all = vec![false; w];
    for a in alts {
        let mut cur = vec![false; w];
        cur[i] = true;
        for t in a {
            let mut nx = vec![false; w];
            for m in 0..w {
                if !cur[m] {
                    continue;
                }
                match t {
                    RTerm::T(s) => {
                        let lit = &src[s.0..s.1];
                        let mut ok = m + lit.len() < w;
                        let mut x = 0;
                        while ok && x < lit.len() {
                            ok = lit[x] == inp[m + x];
                            x += 1;
                        }
                        if ok {
                            nx[m + lit.len()] = true;
                        }
                    }
                    RTerm::N(s) => {
                        for (k, p) in prods.iter().enumerate() {
                            if src[p.lhs.0..p.lhs.1] == src[s.0..s.1] {
                                for j in m..w {
                                    nx[j] |= can[(k * w + m) * w + j];
                                }
                            }
                        }
                    }
                    RTerm::Group(v) | RTerm::Opt(v) => {
                        let r = ends(src, v, m, inp, prods, can);
                        for j in m..w {
                            nx[j] |= r[j];
                        }
                        if matches!(t, RTerm::Opt(_)) {
                            nx[m] = true;
                        }
                    }
                }
            }
            cur = nx;
        }
        for j in 0..w {
            all[j] |= cur[j];
        }
    }
    all
}
fn described(src: &str, prods: &[RProd], inp: &[u8]) -> bool {
    let (src, w) = (src.as_bytes(), inp.len() + 1);
    let mut can = vec![false; prods.len() * w * w];
    loop {
        let mut more = false;
        for (k, p) in prods.iter().enumerate() {
            for i in 0..w {
                let r = ends(src, &p.rhs, i, inp, prods, &can);
                for j in i..w {
                    if r[j] && !can[(k * w + i) * w + j] {
                        can[(k * w + i) * w + j] = true;
                        more = true;
                    }
                }
            }
        }
        if !more {
            let first = &src[prods[0].lhs.0..prods[0].lhs.1];
            return prods.iter().enumerate().any(|(k, p)| src[p.lhs.0..p.lhs.1] == *first && can[k * w * w + inp.len()]);
        }
    }
}
/// (text, notation, longest input); \x01 in a literal is a symbolic byte
const E2E: &[(&str, Fmt, usize)] = &[
    ("<s>::='\x01'|'\x01'<s>", Fmt::Bnf, 4),
    ("<s> ::= (<a>|<b>) <c>\n<a>::='\x01'\n<b>::='\x01'\n<c>::='\x01'", Fmt::Bnf, 3),
    ("<s>::=<l>[<d>]\n<l>::='\x01'\n<d>::='\x01'|'\x01'", Fmt::Bnf, 3),
    ("<s>::=('\x01'|'\x01''\x01')['\x01']", Fmt::Bnf, 4),
    ("<s>::=[<s>'\x01']'\x01'", Fmt::Bnf, 4),
    ("<s>::=[('\x01'|<t>)'\x01']\n<t>::=('\x01')", Fmt::Bnf, 3),
    ("<s>::=<a>|<b> <c>\n<a>::='\x01'\n<b>::='\x01'\n<c>::='\x01'", Fmt::Bnf, 3),
    ("s = ('\x01' / t) [t]\nt = '\x01' / \"\x01\"", Fmt::Abnf, 3),
    ("s = ['\x01' s] \"\x01\" ; c\n", Fmt::Abnf, 4),
    ("<s>::='\x01';('x')\n<s>::='\x01'<s>", Fmt::Bnf, 4),
    ("<s>::=((('\x01')['\x01'])|['\x01'<s>'\x01'])", Fmt::Bnf, 4),
    ("s = t / [s] 'q'\nt = ('\x01' '\x01' / '')", Fmt::Abnf, 3),
];
/// Longer texts with inputs in which some bytes are symbolic.
const E2E_LARGE: &[(&str, Fmt, &[&str])] = &[
    ("<s>::=('a')('b')('c')('d')('e')('f')('g')('h')('i')('j')('k')('l')", Fmt::Bnf, &["abcdefghijkl", "abcde\x01ghijkl", "abcdefghij\x01\x01", "\x01bcdefghijkl"]),
    ("<s>::=['a']['b']['c']['d']['e']['f']['g']['h']['i']['j']['k']['l']", Fmt::Bnf, &["", "\x01", "a\x01", "abl\x01", "bdfhjl", "acegik\x01"]),
    ("<s>::=['a']<t>\n<t>::=['b']<u>\n<u>::=('c'|['d']'e')[<s>]", Fmt::Bnf, &["c", "ab\x01", "abde\x01c", "deab\x01", "cabcabc\x01"]),
    ("<expr> ::= <term> [('+' | '-') <expr>]\n<term> ::= <factor> [('*' | '/') <term>]\n<factor> ::= '(' <expr> ')' | ['-'] <digit>\n<digit> ::= '0' | '1' | '2'", Fmt::Bnf, &["1+2*0", "(1\x012)*0", "-1\x01-2", "((1))\x01(2)", "1+\x011)"]),
    ("expr = term [(\"+\" / \"-\") expr]\nterm = factor [(\"*\" / \"/\") term] ; product\nfactor = \"(\" expr \")\" / [\"-\"] digit\ndigit = \"0\" / \"1\" / \"2\"", Fmt::Abnf, &["1+2*0", "(1\x012)*0", "-1\x01-2", "((1))\x01(2)", "1+\x011)"]),
    ("; addresses\n<postal> ::= <name> <street> ; two parts\n<name> ::= ('Mr '|'Ms ')<word>', '\n<street> ::= <word>' '[<num>]\n<word> ::= <l>|<l><word>\n<l> ::= 'a'|'b'\n<num>::='1'|'2'", Fmt::Bnf, &["Mr ab, b 1", "Ms a\x01 a ", "M\x01 a, b 2", "Mr aba, ab \x01"]),
    ("<s>::=(<a>|<b>)(<a>|<b>)(<a>|<b>)\n<a>::='x'\n<b>::='y''z'", Fmt::Bnf, &["xxx", "xyz\x01", "yzyzy\x01", "xx\x01z"]),
    ("s = a / b / ('c' / d) / [e]\na = 'a' a / 'a'\nb = ('b' / 'bb') b / 'q'\nd = ['d'] 'd'\ne = 'e' [e]", Fmt::Abnf, &["", "aaa\x01", "bbb\x01", "d\x01", "eee\x01", "c"]),
    ("<s>::=[['a']['b']]\n<t>::='x'", Fmt::Bnf, &["", "\x01", "ab", "a\x01"]),
    ("<s>::=((((((((((('x')))))))))))", Fmt::Bnf, &["\x01", "x\x01"]),
    ("<s>::=[[[[[[[[['x']]]]]]]]]'y'", Fmt::Bnf, &["\x01", "x\x01", "y"]),
    ("<s>::='a'\n<s>::='b'\n<s>::=('c'|<s>)'d'\n<s>::=['e']'f'", Fmt::Bnf, &["\x01", "\x01d", "\x01f", "add\x01", "efd"]),
    ("<__anon0>::=('x')<__anon1>\n<__anon1>::=['y']'z'", Fmt::Bnf, &["xyz", "x\x01", "xy\x01", "\x01z"]),
    ("<s>::='é'['日本']('ü'|'u')", Fmt::Bnf, &["éü", "é日本\x01", "é\x01", "日本ü"]),
    ("<s>::=(''|'a')'b'['c'|'d'<s>]", Fmt::Bnf, &["b", "ab\x01", "abdb\x01", "bdab\x01"]),
    ("<s>::=<s>('a'|'b')|('c')", Fmt::Bnf, &["cabab\x01", "c\x01b", "\x01aa"]),
    ("<s>::=<a>('-'<a>)\n<a>::=['+'|'-']<d>\n<d>::='0'|'1'", Fmt::Bnf, &["1-0", "-1-\x010", "+\x01--0"]),
];
/// Every kind of bracket contents at every kind of place, in both notations.
pub fn c26_grid() {
    let bodies = ["'a'", "''", "'a' ''", "'' 'a'", "'a' | ''", "'' | 'a'", "<t>", "<t> '' | 'b'", "('a')", "['a']", "'a' ['b']", "<s> 'c'", "['a'] ['b']", "(['a'] 'b' | 'c')", "'a' | 'a'", "'a' | <t> | 'ab'", "'a' 'b' 'c'", "[''] <t>"];
    let places = ["@ 'x'", "'x' @", "@ @", "'y' | @", "@ | 'y' @", "'x' @ 'y' | <t>"];
    let k = shard(bodies.len() * 2 * places.len() * 2);
    let (body, k) = (bodies[k % bodies.len()], k / bodies.len());
    let (opt, k) = (k % 2 == 1, k / 2);
    let (place, abnf) = (places[k % places.len()], k / places.len() == 1);
    let text = format!("<s> ::= {}\n<t> ::= 'a' | 'd' <t>\n", place.replace('@', &if opt { format!("[{body}]") } else { format!("({body})") }));
    let text = if abnf { text.replace("::=", "=").replace('|', "/").replace("<s>", "s ").replace("<t>", "t ") } else { text };
    let input = ascii_string(choice(pick(4, 5)));
    e2e(text, input, if abnf { Fmt::Abnf } else { Fmt::Bnf });
}
fn drawn_body(d: &mut super::text::Draw, bnf: bool, depth: usize, out: &mut String) {
    for a in 0..1 + d.of(3) {
        if a > 0 {
            out.push_str(if bnf { "| " } else { "/ " });
        }
        for _ in 0..1 + d.of(2) {
            match d.of(if depth < 2 { 8 } else { 5 }) {
                0..=2 => out.push_str(["'a' ", "'b' ", "'ab' ", "'' "][d.of(4)]),
                // what precedes a reference takes something away, so that there are finitely many derivations
                3 | 4 => {
                    let nm = ["s", "t", "u"][d.of(3)];
                    *out += &if bnf { format!("'c' <{nm}> ") } else { format!("'c' {nm} ") };
                }
                x => {
                    out.push_str(if x % 2 == 0 { "(" } else { "[" });
                    drawn_body(d, bnf, depth + 1, out);
                    out.push_str(if x % 2 == 0 { ")" } else { "]" });
                }
            }
        }
    }
}
/// Pseudo-randomly drawn grammars with nested brackets.
pub fn c26_drawn() {
    let k = shard(pick(600, 4000));
    let bnf = k % 2 == 0;
    let mut d = super::text::Draw::new(k);
    let mut text = String::new();
    for l in ["s", "t", "u"] {
        text += &if bnf { format!("<{l}> ::= ") } else { format!("{l} = ") };
        drawn_body(&mut d, bnf, 0, &mut text);
        text.push('\n');
    }
    let input = ascii_string(choice(pick(4, 5)));
    e2e(text, input, if bnf { Fmt::Bnf } else { Fmt::Abnf });
}
pub fn c26_large() {
    let k = shard(E2E_LARGE.len());
    let (tx, fmt, ins) = E2E_LARGE[k];
    let input = template(ins[choice(ins.len())]);
    e2e(tx.to_string(), input, fmt);
}
pub fn c26_end_to_end() {
    let (tx, fmt, l) = E2E[shard(E2E.len())];
    let s = {
        let mut v = Vec::new();
        for b in tx.bytes() {
            v.push(if b == 1 {
                let b = ascii();
                assume((b != b'\'') & (b != b'"'));
                settled(b)
            } else {
                b
            });
        }
        unsafe { String::from_utf8_unchecked(v) }
    };
    let input = ascii_string(choice(l + thorough() as usize + 1));
    e2e(s, input, fmt);
}
fn e2e(s: String, input: String, fmt: Fmt) {
    show(&s);
    show(&input);
    let gr: Result<Grammar, Error> = s.parse();
    check(gr.is_ok(), "the grammar text is accepted");
    let gr = gr.unwrap();
    let read = Reader { s: s.as_bytes(), fmt, extended: true }.grammar().unwrap();
    let want = described(&s, &read, input.as_bytes());
    let ps = gr.build_parser();
    check(ps.is_ok(), "the grammar gives a parser");
    let ps = ps.unwrap();
    let got = ps.parse_input(&input).next().is_some();
    check(got || !want, "input the text describes is accepted");
    check(!got || want, "input the text does not describe is rejected");
    observe(got as u64);
    reach(if want { "accepted" } else { "rejected" });
}
