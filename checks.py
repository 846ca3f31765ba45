"""What each property's check runs: harness entries, bounds and assumptions."""

COMMON_ASSUMPTIONS = [
    "The IR executed is rustc's own LLVM IR of /repo's crate, its dependencies and the standard library, linked with the harness, with default features (ABNF, serde), for x86-64, optimised at O1; opt's and rustc's translations are trusted.",
    "The hasher behind the library's hash maps (foldhash) is replaced while executing symbolically by one that mixes integers and the lengths, not the contents, of strings with a seed of its own per table: one iteration order of each table is explored. Counterexamples and sampled paths are replayed against the real code with its real, randomly seeded hasher.",
    "Random numbers come from a stand-in generator whose words are unconstrained symbolic values, one stream per seed; the real ChaCha generator is a deterministic function of the seed and its output words are among those values.",
    "Memory allocation never fails; the stack is as deep as a path needs.",
]

EARLEY_BOUNDS = ("Grammars: 33 hand-picked shapes (up to 4 nonterminals, left/right/hidden recursion, nullability, unit cycles, repeated left-hand sides, symbolic multi-byte characters), 35 larger ones and a grid of 17x17 two-nonterminal shapes (x4 thorough); every terminal byte is symbolic. "
                 "Inputs: symbolic strings of up to 2-5 bytes (quick), 3-6 (thorough), per shape as listed in SHAPES of harness/props/earley.rs; long inputs of 12 kinds of language with a closed form, with one symbolic byte at 4 places; 240 (1500) pseudo-randomly drawn grammars of 3-5 nonterminals with inputs of up to 4 (5) symbolic bytes, where these have finitely many derivations.")
CYCLE = "Inputs for which the grammar has infinitely many derivations of some span and no derivation of the whole input are left out: the search does not end there (known finding)."

CHECKS = {
    "C01": dict(entries=[dict(entry="c01_sound", what="every reported tree: root, leaves, licensed nodes", reach=["tree", "no tree"]), dict(entry="c01_long", what="long inputs of languages with a closed form", max_steps=8_000_000_000, reach=["member", "non-member"])], bounds=EARLEY_BOUNDS, assumptions=[CYCLE]),
    "C02": dict(entries=[dict(entry="c02_member", what="first tree exists exactly when the reference counter finds a derivation", reach=["member", "non-member"]), dict(entry="c02_long", what="long inputs of languages with a closed form", max_steps=8_000_000_000, reach=["member", "non-member"])], bounds=EARLEY_BOUNDS, assumptions=[CYCLE]),
    "C03": dict(entries=[dict(entry="c03_count", what="number of trees and their difference", reach=["ambiguous", "unambiguous", "distinct"]), dict(entry="c03_infinite", what="cyclic derivations keep giving new trees", reach=["endless"]), dict(entry="c03_long", what="long inputs of languages with a closed form", max_steps=8_000_000_000, reach=["member", "non-member"])],
                bounds=EARLEY_BOUNDS + " Up to 64 derivations; of endless ones the first 4.", assumptions=[CYCLE]),
    "C06": dict(entries=[dict(entry="c06_term"), dict(entry="c06_expression"), dict(entry="c06_production"), dict(entry="c06_grammar"), dict(entry="c06_special"), dict(entry="c06_long", max_steps=2_000_000_000), dict(entry="c06_drawn", what="drawn texts, read and printed", reach=["read"])],
                bounds="Terms of up to 7 (10) symbolic ASCII bytes; expressions of up to 3 (4) terms; productions of up to 3 (4) terms in up to 3 alternatives; grammars of up to 3 productions; 16 kinds of names x 20 kinds of literals with symbolic two-, three- and four-byte characters, Unicode spaces, quotes, control bytes; long values (names, literals, terms, alternatives, productions in the tens and hundreds); 1000 (5000) pseudo-randomly drawn texts of up to 3 productions with brackets up to 3 deep, an unknown byte inserted, put in the place of a character, or at the end of the text cut there, read, printed and read again."),
    "C07": dict(entries=[dict(entry="c07_grammar_auto"), dict(entry="c07_bnf"), dict(entry="c07_abnf"), dict(entry="c07_parts"), dict(entry="c07_long", max_steps=2_000_000_000), dict(entry="c07_wide", max_steps=2_000_000_000)],
                bounds="All ASCII texts of up to 4 (6) bytes; 36 (42) templates of free bytes and the templates of C08 and C09 (up to 6 symbolic bytes around grammar text) through 6 calls; texts with symbolic two-, three- and four-byte characters, also far from the start of the text and at the place of the error; 11 kinds of long text of 4/13/45/110 (300) units; step bound 40 million instructions per path (2 billion for long ones): a path that reaches it is reported as not ending."),
    "C08": dict(entries=[dict(entry="c08_bnf", reach=["accepted", "rejected"]), dict(entry="c08_parts"), dict(entry="c08_wide", what="characters of two, three and four bytes", reach=["accepted", "rejected"]), dict(entry="c08_long", max_steps=2_000_000_000, reach=["accepted", "rejected"]), dict(entry="c08_drawn", what="drawn texts with an unknown byte anywhere", reach=["accepted", "rejected"])],
                bounds="53 (56) BNF templates with 3-6 symbolic ASCII bytes each; 27 templates for single terms, expressions and productions; 26 templates with symbolic two-, three- and four-byte characters, Unicode spaces and 25 notable characters; 11 kinds of long text of 4/13/45/110 (300) units; 1500 (8000) pseudo-randomly drawn texts of up to 3 productions with brackets up to 3 deep, an unknown byte inserted, put in the place of a character, or at the end of the text cut there."),
    "C09": dict(entries=[dict(entry="c09_abnf", reach=["accepted", "rejected"]), dict(entry="c09_wide", what="characters of two, three and four bytes", reach=["accepted", "rejected"]), dict(entry="c09_long", max_steps=2_000_000_000, reach=["accepted", "rejected"]), dict(entry="c09_drawn", what="drawn texts with an unknown byte anywhere", reach=["accepted", "rejected"])], bounds="45 (47) ABNF templates with 3-6 symbolic ASCII bytes each; 30 templates with symbolic two-, three- and four-byte characters, Unicode spaces and 25 notable characters; 11 kinds of long text of 4/13/45/110 (300) units; 1500 (8000) pseudo-randomly drawn texts of up to 3 productions with brackets up to 3 deep, an unknown byte inserted, put in the place of a character, or at the end of the text cut there."),
    "C10": dict(entries=[dict(entry="c10_hygiene", reach=["accepted"]), dict(entry="c10_long", max_steps=2_000_000_000, reach=["accepted"]), dict(entry="c10_drawn", what="drawn texts with names like generated ones", reach=["accepted"])], bounds="19 templates with groups and optionals and 1-3 symbolic bytes in user names of the form __anon?; 11 kinds of text with 9/12/25/105 groups and user names among the generated ones; 1000 (6000) drawn texts with names like generated ones, one of them with an unknown digit."),
    "C11": dict(entries=[dict(entry="c11_bnf"), dict(entry="c11_abnf"), dict(entry="c11_drawn", what="drawn texts, spaced in two ways", reach=["read"])],
                bounds="6 token sequences per notation (9-13 tokens); the gaps of three consecutive tokens at a time vary over 17 kinds: nothing, any ASCII whitespace byte, any two- or three-byte whitespace character, comments with symbolic ASCII and multi-byte characters ended by LF or CR, fixed comments and Unicode spaces; symbolic trailing comment; 1000 (6000) drawn token sequences, each spaced in two drawn ways."),
    "C12": dict(entries=[dict(entry="c12_detect", reach=["bnf", "abnf"]), dict(entry="c12_same"), dict(entry="c12_long", max_steps=2_000_000_000, reach=["same"]), dict(entry="c12_drawn", what="drawn texts with an unknown byte anywhere", reach=["bnf", "abnf"])],
                bounds="44 templates of 2-5 symbolic bytes or multi-byte characters around either notation; 13 grammars with symbolic names and literals written in both notations; long texts in both notations; 1000 (5000) pseudo-randomly drawn texts of up to 3 productions with brackets up to 3 deep, an unknown byte inserted, put in the place of a character, or at the end of the text cut there."),
}
CHECKS.update({
    "C04": dict(entries=[dict(entry="c04_start", reach=["parse_input derives from the first production's left-hand side", "parse_input_starting_with derives from the given nonterminal", "Grammar::parse_input derives from the first production's left-hand side", "Grammar::parse_input_starting_with derives from the given nonterminal"])],
                bounds="16 grammar shapes (first production not the usual start, repeated left-hand sides, undefined nonterminals for the deprecated calls) with symbolic terminal bytes and 35 larger ones; inputs of up to 2 (4) symbolic bytes; every nonterminal, an unknown one and a terminal as the requested start; 120 drawn grammars.", assumptions=[CYCLE]),
    "C05": dict(entries=[dict(entry="c05_reuse", reach=["several trees"]), dict(entry="c05_sequence", what="a long sequence of questions to one parser: other inputs in the same buffer, other start symbols, dropped iterators", reach=["trees"])],
                bounds="12 (18) grammar shapes with symbolic terminals; two symbolic inputs of up to 2 and 1 (3 and 2) bytes; 3 ways to interleave two iterators of one parser, then a third; up to 4 trees each. 8 grammars x 4 orders of asking one parser for all short inputs (same buffer) from all starts, three passes, with iterators dropped half-way; the same with 60 (400) drawn grammars.", assumptions=[CYCLE]),
    "C13": dict(entries=[dict(entry="c13_validate", reach=["valid", "invalid"]), dict(entry="c13_large", reach=["valid", "invalid"]), dict(entry="c13_drawn", what="drawn productions", reach=["valid", "invalid"])],
                bounds="17 grammar shapes of up to 3 productions and 3 references; all names symbolic ASCII strings of length 1 (0 to 2 for the six smallest shapes); large grammars of up to hundreds of productions with one reference anywhere left undefined, with 5 kinds of names (also ones like the reader's generated names); 600 (4000) drawn grammars of up to 8 productions with one name unknown."),
})

_FIN = [("a", "b", "cd", "ce", "d", "e"), tuple(x + y for x in ("a", "bc", "bd") for y in ("a", "bc", "bd")), ("a<a>", "b", "c"), tuple("abcdefghijklmnopqrsuvxyz"), ("long one", "x"), ("a",)]
_APIS = ("generate", "generate_seeded", "generate_callback", "generate_seeded_callback")
_D = [2, 2, 3, 2, 4, 1, 1, 3, 2, 4]
_W = {  # recursive? per alternative of the shapes of c19_choose
    0: "rn", 1: "nrn", 2: "rrnn", 3: "nn", 4: "rr", 5: "nr", 6: "n", 7: "r", 8: "nnrn", 9: "nnrn"}
_WL = {0: "rn", 1: "rnnr"}


def _weights(shapes, pairs):
    out = []
    for k, alts in shapes.items():
        for r, n in pairs:
            ws = [r if c == "r" else n for c in alts]
            out += [f"{k} {r} {n} {i}" for i, w in enumerate(ws) if w or not sum(ws)]
    return out


_WIDE = (5, 9, 17, 33, 65, 70)


def _selfish(n, k):
    return [[], [0], [n - 1], list(range(n - 1)), list(range(1, n)), [i for i in range(n) if i % 3 == 1]][k]


def _wide17():
    out = []
    for a, n in enumerate(_WIDE):
        for b in range(6):
            k, sel = a * 6 + b, set(_selfish(n, b))
            out += [f"below {k} {i}" for i in range(n)] + [f"at {k} {i}" for i in range(n) if i not in sel]
    for j, b in enumerate((0, 5)):
        sel = set(_selfish(260, b))
        out += [f"below x{j} {i}" for i in range(260)] + [f"at x{j} {i}" for i in range(260) if i not in sel]
    return out


def _wide19():
    out, ws = [], [(1, 1), (0, 1), (1, 0), (3, 2), (100, 1), (0, 0)]
    for a, n in enumerate(_WIDE):
        for b in range(6):
            sel = set(_selfish(n, b))
            for c, (r, m) in enumerate(ws):
                w = [r if i in sel else m for i in range(n)]
                out += [f"{a * 36 + b * 6 + c} {i}" for i in range(n) if w[i] or not sum(w)]
    for j, (r, m) in enumerate([(1, 1), (3, 2), (0, 1), (1, 0)]):
        out += [f"x{j} {i}" for i in range(260) if (r if i in set(_selfish(260, 5)) else m)]
    return out


_SMALL = [(r, n) for r in (0, 1, 3, 100) for n in (0, 1, 3, 100)]
_LARGE = [(2**32 - 1, 2**32 - 1), (2**31, 2**31), (2**32 - 1, 0), (0, 2**32 - 1), (2**32 - 1, 1), (1, 2**32 - 1)]
RNG = "Random words are unconstrained 32- or 64-bit values, so every sequence of draws is covered, also ones no seed of the real generator gives."

CHECKS.update({
    "C14": dict(entries=[
        dict(entry="c14_sound", what="every strategy, every random word: the sentence is in the language", reach=["RandomWalk", "DepthBounded", "CoverageGuided", "Weighted", "RandomWalk::default", "DepthBounded::new", "CoverageGuided::new", "Weighted::new", "Weighted::default"]),
        dict(entry="c14_plain", what="calls without a strategy: sound, and every sentence of a finite grammar can come out", can=[f"{a} {s}" for a in _APIS for f in _FIN for s in f]),
        dict(entry="c14_wide", what="hundreds of alternatives: each can come out of each call", can=[f"70 {a} {x}" for a in _APIS for i in range(70) for x in (f"v{i}", f"{i}x")] + [f"300 {a} v{i}" for a in _APIS for i in range(300)]),
        dict(entry="c14_custom", what="a user's own strategy: the sentence is what its choices spell out", reach=["sentence"]),
        dict(entry="c14_decline", what="a strategy that makes no choice: an error, no sentence", reach=["sentence", "declined"]),
        dict(entry="c14_deep", what="deep and wide sentences of hundreds of steps", max_steps=8_000_000_000, reach=["sentence"])],
        bounds="22 grammar shapes with 9 strategy constructions and at most 5 (7) choices per sentence (4 (5) for Weighted); 6 finite grammars through the 4 calls without a strategy, with all their sentences; 70 and 300 alternatives, each reachable through each call; 16 shapes with symbolic terminals and a strategy that may choose anything or nothing, at most 7 (9) choices, and 120 drawn grammars; sentences of up to 1030 steps.", assumptions=[RNG]),
    "C15": dict(entries=[dict(entry="c15_refuse", what="a start symbol is refused exactly when it has no sentence", reach=["sentence", "refused"]), dict(entry="c15_endless", what="whatever the strategy chooses, a nonterminal that never ends is reported and never expanded", reach=["sentence", "reported"]), dict(entry="c15_long", what="chains of hundreds of nonterminals", max_steps=8_000_000_000, reach=["sentence", "refused"])],
                bounds="12 (14) shapes of up to 3 productions, 2 alternatives and 2 references each; every name a symbolic byte, so every wiring of references to productions (and to nothing) is covered; distinct left-hand sides; at most 5 (7) choices where the strategy chooses freely; 150 chains and loops of 3 to 70 nonterminals, and chains of 135 and 300 (600); 200 drawn wirings of 4-7 productions."),
    "C16": dict(entries=[dict(entry="c16_callback", reach=["rejections", "no rejections"]), dict(entry="c16_patience", what="many rejections before a value is accepted", max_steps=8_000_000_000, reach=["accepted at last"])],
                bounds="12 grammar shapes, 3 calls; the callback answers each (name, value) by an unconstrained, consistent choice; at most 4 (6) calls of it; up to 1030 (10001) rejections in a row before a value is accepted.", assumptions=[RNG]),
    "C17": dict(entries=[dict(entry="c17_choose", reach=["at the limit", "below the limit"], can=[f"below {k} {i}" for k, n in enumerate(_D) for i in range(n)]), dict(entry="c17_wide", can=_wide17()), dict(entry="c17_sentence", reach=["shallower", "full depth"])],
                bounds="10 productions of up to 4 alternatives with any 64-bit depth and maximum, after at most one earlier call; productions of 5 to 260 alternatives in 6 kinds of recursion; sentences of 6 grammars with maximum depths 0 to 3 (4).", assumptions=[RNG]),
    "C18": dict(entries=[dict(entry="c18_choose", reach=["fresh"]), dict(entry="c18_wide", what="many alternatives, one stream of random words", reach=["covered"]), dict(entry="c18_many", what="many sentences, one stream of random words", reach=["covered"]), dict(entry="c18_sentences", reach=["covered"])],
                bounds="10 grammars of up to 3 productions and 4 alternatives, any sequence of 4-5 calls over the productions; up to 260 alternatives with one arbitrary stream of random words; 5 grammars with 2 (3) sentences of together at most 6 (8) choices, and 20 sentences in a row with one stream.", assumptions=[RNG]),
    "C19": dict(entries=[dict(entry="c19_choose", can=_weights(_W, _SMALL)), dict(entry="c19_wide", can=_wide19()), dict(entry="c19_large", can=_weights(_WL, _LARGE)), dict(entry="c19_share", what="shares of the random words equal shares of the weight")],
                bounds="10 productions of up to 4 alternatives, weights from {0,1,3,100} (and 2,5,128 thorough) in all pairs, 6 pairs of weights near 2^32 on 2 productions; productions of 5 to 260 alternatives with 6 weightings; shares for 12 weightings whose total is a power of two, one arbitrary word in each equal block of words.", assumptions=[RNG]),
    "C20": dict(entries=[dict(entry="c20_seeded", reach=["sentences"])],
                bounds="8 grammar shapes, 7 ways to generate (finite grammars for the callback call), 256 seeds (one symbolic byte), 1-2 sentences of at most 4 (5) choices together, against a clone and against the grammar printed and read back.", assumptions=[RNG, "The generator is a function of the seed and the number of words drawn; that is how the stand-in is made."]),
    "C21": dict(entries=[dict(entry="c21_escape"), dict(entry="c21_tree", reach=["tree", "named", "edited"])],
                bounds="Labels of up to 3 (4) symbolic ASCII bytes, mixed with multi-byte characters (17 templates); trees of 16 grammar shapes of up to 4 levels with symbolic terminals, the first 2 (4) trees of each input; 58 large trees (140 levels, 290 children, branch lines 70 deep); 60 drawn grammars; trees with one child replaced through rhs_iter_mut."),
    "C22": dict(entries=[dict(entry="c22_display", reach=["tree", "named", "edited"])], bounds="Trees of 16 grammar shapes of up to 4 levels with symbolic terminals, the first 2 (4) trees of each input; 58 large trees (140 levels, 290 children, branch lines 70 deep); 60 drawn grammars; trees with one child replaced through rhs_iter_mut."),
    "C23": dict(entries=[dict(entry="c23_expression", reach=["removed"]), dict(entry="c23_prepend"), dict(entry="c23_production", reach=["removed"]), dict(entry="c23_grammar", reach=["removed"]), dict(entry="c23_long", reach=["removed"]), dict(entry="c23_alike", reach=["removed"])],
                bounds="Expressions of up to 3 terms, productions of up to 3 alternatives, grammars of up to 4 productions, built in every way the API offers, then any 2 (3) edits; names and literals are symbolic bytes; lists of up to hundreds of parts; lists of parts that look alike."),
    "C24": dict(entries=[dict(entry="c24_json")], bounds="Terms of up to 2 (4) symbolic ASCII bytes or with symbolic multi-byte characters, expressions of up to 2 terms, productions of up to 2 alternatives, grammars of up to 2 productions; through serde_json."),
    "C25": dict(entries=[dict(entry="c25_term", reach=["equal", "different", "chain"]), dict(entry="c25_expression", reach=["equal", "different", "chain"]), dict(entry="c25_whole", reach=["equal", "different"]), dict(entry="c25_long", reach=["equal", "different", "chain"]), dict(entry="c25_alike", reach=["equal", "different", "chain"])],
                bounds="Terms of up to 2 symbolic bytes, expressions of up to 2 terms, productions of up to 2 alternatives, grammars of up to 2 productions; in pairs and triples; long values differing in one place; values that look alike."),
    "C26": dict(entries=[dict(entry="c26_end_to_end", reach=["accepted", "rejected"]), dict(entry="c26_grid", what="every kind of bracket contents at every kind of place", reach=["accepted", "rejected"]), dict(entry="c26_large", reach=["accepted", "rejected"]), dict(entry="c26_drawn", what="drawn grammars with nested brackets", reach=["accepted", "rejected"])],
                bounds="12 grammar texts (BNF and ABNF, nested groups and optionals, comments, repeated left-hand sides) with symbolic literal bytes; inputs of up to 3-4 (4-5) symbolic bytes; a grid of 18 bracket contents x group/optional x 6 places x 2 notations with inputs of up to 3 (4) bytes; large texts; 600 (4000) drawn texts of 3 rules with brackets up to 2 deep, inputs of up to 3 (4) bytes."),
})
