#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (committed; the checks do not run this)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, text, why, files, mech, over=("inputs",), observe=(), note=""):
    P.append(dict(note=note, row=dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
             anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None))))


EARLEY = ["src/earley/mod.rs", "src/earley/traversal.rs", "src/earley/input_range.rs", "src/parser/mod.rs", "src/parser/grammar.rs", "src/append_vec.rs"]
TEXT = ["src/parsers/mod.rs", "src/parsers/bnf.rs", "src/parsers/augmented.rs", "src/parsers/nom_xt.rs", "src/grammar.rs", "src/production.rs", "src/expression.rs", "src/term.rs"]
GEN = ["src/generation.rs", "src/grammar.rs"]

prop("C01", "Every parse tree returned is a derivation of the input",
     "Every tree that parsing an input returns is a correct derivation: its root is the nonterminal parsing started from, every node's children spell out one of the alternatives the grammar gives for that node's nonterminal, in order, and the terminal leaves from left to right concatenate to exactly the input.",
     "every grammar (recursive, ambiguous, nullable, with repeated left-hand sides), every input, every tree of the iterator", "The tests parse a few fixed grammars and inputs and mostly count trees; a tree that takes a child from the wrong span or alternative on another grammar goes unseen.",
     EARLEY, [("predict, scan, complete", "src/earley/mod.rs"), ("traversal tree and its reuse", "src/earley/traversal.rs"), ("tree building", "src/earley/mod.rs ParseIter")], over=("inputs", "programs"), observe=["GrammarParser::parse_input", "ParseTree::rhs_iter"])
prop("C02", "An input gets a parse tree exactly when the grammar derives it",
     "Parsing an input yields at least one tree if, and only if, the start nonterminal derives that input. In particular nullable, left-recursive, right-recursive and ambiguous rules neither lose nor invent sentences, and terminals longer than one character match only in full and at the right place.",
     "every grammar and every input", "Membership has to be right for every pair of grammar and input; the tests sample some dozens of pairs and a round trip of random grammars.",
     EARLEY, [("Earley recogniser", "src/earley/mod.rs"), ("nullable completion", "src/parser/grammar.rs, src/earley/mod.rs"), ("InputRange", "src/earley/input_range.rs")], over=("inputs", "programs"), observe=["GrammarParser::parse_input(..).next()"])
prop("C03", "All derivations are returned, each exactly once",
     "Iterating over the trees of an input returns every distinct derivation the grammar has for it, and no derivation twice; when there are finitely many the iterator ends after the last one. When a derivable input has infinitely many derivations, the iterator keeps yielding new, pairwise different ones.",
     "every grammar, every input, the whole iteration", "The tests count trees for a few ambiguous grammars; a lost or repeated tree on another ambiguity pattern (nullable plus left recursion, unit chains) is not seen.",
     EARLEY, [("completion map and deduplication of traversals", "src/earley/mod.rs"), ("TraversalTree::match_term", "src/earley/traversal.rs")], over=("inputs", "programs"), observe=["iterator of parse trees"])
prop("C04", "Parsing starts from the right nonterminal, and all parse calls agree",
     "Parsing without an explicit start derives the input from the left-hand side of the grammar's first production, and parsing with one derives it from exactly that nonterminal, using all productions of it. The prepared parser and the older calls on the grammar return the same trees; a start the grammar does not define (or a terminal) gives no tree rather than a wrong one.",
     "every grammar, every requested start, every input", "The tests use one or two start symbols on fixed grammars.",
     ["src/parser/mod.rs", "src/parser/grammar.rs", "src/grammar.rs", "src/earley/mod.rs"], [("starting_term", "src/grammar.rs"), ("parse_input_starting_with", "src/parser/mod.rs, src/grammar.rs")], over=("inputs", "programs"), observe=["parse_input", "parse_input_starting_with"])
prop("C05", "A parser can be reused: earlier and concurrent parses change nothing",
     "The trees a prepared parser returns for an input depend only on the grammar and that input. Earlier, abandoned or interleaved iterations over other inputs with the same parser do not change them.",
     "every parser, every sequence of parses and every interleaving of their iterators", "A test would have to try every order of partially consumed iterators; the existing ones reuse a parser once or twice in sequence.",
     ["src/parser/mod.rs", "src/parser/grammar.rs", "src/earley/mod.rs", "src/append_vec.rs"], [("shared ParseGrammar, per-parse state", "src/parser/mod.rs, src/earley/mod.rs")], over=("histories", "inputs"), observe=["GrammarParser::parse_input"])
prop("C06", "Printing a grammar and parsing it back gives the same grammar",
     "The text a term, expression, production or grammar prints as parses back (as BNF) to an equal value, provided its literals can be quoted (no literal has both quote characters), its names have no closing angle bracket, and nothing is left empty.",
     "every such value, whatever its names and literals contain", "The property test in the repository draws only alphabetic names; spaces, delimiters, comment signs, the other quote and line breaks inside literals are not reached.",
     TEXT, [("Display of Term picks the quote", "src/term.rs"), ("Display of Expression, Production, Grammar", "src/expression.rs, src/production.rs, src/grammar.rs"), ("literal and name parsers", "src/parsers/mod.rs, src/parsers/bnf.rs")], observe=["Display", "FromStr", "Grammar::parse_from"])
prop("C07", "Reading grammar text always ends with a value or an error",
     "Parsing any text as a grammar (with or without a given notation), production, expression or term returns a value or an error: it never panics and never runs on without end. What it returns does not depend on anything but the text.",
     "every text", "Totality over all texts cannot be sampled; a slice at a non-boundary, an unwrap or a loop that makes no progress needs one particular text.",
     TEXT, [("complete-input combinators and error mapping", "src/parsers/mod.rs, src/error.rs"), ("format detection", "src/parsers/mod.rs")], observe=["FromStr", "Grammar::parse_from", "Term::from_str"])
prop("C08", "BNF text means the grammar it spells out",
     "Text in BNF is accepted exactly when it is well formed, and then gives exactly the productions, alternatives and terms written, in the order written, names and literals verbatim; nothing after the first ill-formed place is silently dropped. Groups and optionals become references to generated nonterminals that have the bracketed alternatives (and, for optionals, the empty one).",
     "every text in BNF notation", "Compared with the handful of grammar texts in the tests, acceptance, order, and verbatim content must be right for every text.",
     TEXT, [("nonterminal, terminal, expression and production combinators", "src/parsers/mod.rs, src/parsers/bnf.rs"), ("normalisation of groups and optionals", "src/parsers/mod.rs")], observe=["Grammar::parse_from::<BNF>", "FromStr"])
prop("C09", "ABNF text means the grammar it spells out",
     "Text in the supported ABNF notation is accepted exactly when it is well formed, and then gives exactly the rules, alternatives and terms written, in order, with rule names and literals verbatim. Groups and optionals mean the same as in BNF.",
     "every text in ABNF notation", "The tests parse a few ABNF texts.",
     TEXT, [("ABNF name, assignment and alternation parsers", "src/parsers/augmented.rs"), ("shared combinators", "src/parsers/mod.rs")], observe=["Grammar::parse_from::<ABNF>", "FromStr"])
prop("C10", "Names generated for groups never clash with names in the grammar",
     "However the grammar's own nonterminals are named, also when they look like generated names and also when they are only referred to, a group or optional gets a nonterminal of its own: every reference and definition the user wrote keeps its meaning. Two different brackets never share a nonterminal with different contents.",
     "every grammar text with groups or optionals and every choice of user names", "The tests use one clashing name; clashes with names that are only referred to, or with later numbers, are not tried.",
     ["src/parsers/mod.rs"], [("fresh name allocation during normalisation", "src/parsers/mod.rs")], observe=["Grammar::parse_from"])
prop("C11", "Spaces, line breaks and comments between tokens do not matter",
     "Adding or removing whitespace, line breaks or comments between the tokens of a grammar text does not change the grammar it gives, in either notation, also around alternation signs, inside brackets and before the end of the text. A comment may contain any character but a line break.",
     "every placement and content of spacing and comments", "There are as many placements as gaps times spacing texts; the tests try a few.",
     ["src/parsers/mod.rs", "src/parsers/bnf.rs", "src/parsers/augmented.rs", "src/parsers/nom_xt.rs"], [("whitespace and comment skipping", "src/parsers/mod.rs, src/parsers/nom_xt.rs")], observe=["FromStr", "Grammar::parse_from"])
prop("C12", "Notation detection picks the right reader; both notations give one grammar",
     "Parsing text without naming the notation gives the same result as naming the notation the text is written in. A grammar written in BNF and in ABNF, with the same names, literals and structure, gives equal grammars.",
     "every text in one of the notations, every grammar expressible in both", "The tests detect the notation of a few texts.",
     ["src/parsers/mod.rs", "src/grammar.rs"], [("is_format_standard_bnf", "src/parsers/mod.rs"), ("Grammar::from_str", "src/grammar.rs")], observe=["FromStr", "Grammar::parse_from"])
prop("C13", "A parser is built exactly when every nonterminal used is defined",
     "Validating a grammar and building a parser from it fail exactly when the grammar has no productions or some alternative refers to a nonterminal that no production defines; in the latter case the error names an undefined nonterminal. The two always agree.",
     "every grammar and every choice of names", "Definedness has to be decided right for every wiring of names; the tests have a few grammars.",
     ["src/validation.rs", "src/parser/mod.rs", "src/grammar.rs"], [("validation of references", "src/validation.rs, src/parser/mod.rs")], over=("inputs", "programs"), observe=["Grammar::build_parser"])
prop("C14", "Generated sentences belong to the grammar's language",
     "Every sentence generated from a grammar, with any of the strategies offered or the user's own and whatever the random numbers, is derivable from the start symbol: it is the concatenation of what the chosen alternatives spell out, a nonterminal without a production standing for its own name in angle brackets. When the strategy makes no choice there is no sentence but an error. The calls without a strategy can produce every sentence of a grammar that has finitely many.",
     "every grammar, every strategy, every sequence of random numbers", "A test runs a few seeds; the sentence must be right for every sequence of draws.",
     GEN, [("traverse_with_strategy", "src/grammar.rs"), ("choose of each strategy", "src/generation.rs")], over=("inputs", "programs", "configurations"), observe=["Grammar::generate*"])
prop("C15", "Generation reports what can never end instead of running on",
     "Generation fails with an error exactly when the start symbol has no sentence, for every way the productions refer to one another; and whatever is chosen on the way, a nonterminal that can never end is reported as an error, not expanded without end. It does not fail when everything can end.",
     "every grammar", "Whether a nonterminal can end is a fixed point over all productions; the tests have a few cyclic grammars.",
     ["src/grammar.rs", "src/production.rs", "src/expression.rs"], [("Grammar::terminates", "src/grammar.rs"), ("has_terminating_expression", "src/production.rs"), ("terminates", "src/expression.rs")], over=("inputs", "programs"), observe=["Grammar::generate*"])
prop("C16", "The generation callback decides what is kept",
     "With a callback, the value generated for every nonterminal is shown to it exactly once per generation of that value together with the nonterminal's name, a rejected value is generated again, and the sentence returned is composed of accepted values only.",
     "every grammar, every callback, every sequence of random numbers", "Every pattern of answers has to be handled; the tests use callbacks that reject by length.",
     ["src/grammar.rs"], [("retry loop in traverse_with_strategy", "src/grammar.rs")], over=("inputs", "histories"), observe=["Grammar::generate_callback", "generate_seeded_callback", "generate_seeded_callback_with_strategy"])
prop("C17", "DepthBounded chooses only terminal alternatives at its maximum depth",
     "At or beyond the maximum depth the depth-bounded strategy chooses an alternative made of terminals only whenever the production has one; below it every alternative can be chosen. So when every production has an alternative of terminals only, no sentence's derivation is deeper than the maximum depth, with the start symbol at depth 0.",
     "every production, every depth and maximum, every random number", "The tests check that a few sentences are short.",
     GEN, [("DepthBounded", "src/generation.rs"), ("depth counting", "src/grammar.rs")], over=("inputs", "configurations"), observe=["DepthBounded::choose", "generate_seeded_with_strategy"])
prop("C18", "CoverageGuided uses every alternative before repeating one",
     "For each production of a grammar, the coverage-guided strategy chooses an alternative it has chosen before only when it has chosen all of that production's alternatives; coverage of one production does not count for another, and it carries over from sentence to sentence.",
     "every sequence of choices over the productions of a grammar, every random number", "The tests run a few seeds over small grammars.",
     ["src/generation.rs"], [("CoverageGuided", "src/generation.rs")], over=("inputs", "histories"), observe=["CoverageGuided::choose"])
prop("C19", "Weighted chooses each alternative in proportion to its weight",
     "An alternative that refers to its own left-hand side counts with the recursive weight and any other with the non-recursive weight, for all 32-bit weights; an alternative is chosen for its share of the total weight, never when its weight is zero and another's is not, and any can be chosen when all weights are zero.",
     "every production, every pair of weights, every random number", "The tests count choices of a few seeds with one pair of weights.",
     ["src/generation.rs"], [("Weighted", "src/generation.rs")], over=("inputs", "configurations"), observe=["Weighted::choose"])
prop("C20", "The same seed gives the same sentences",
     "Generating twice with the same grammar, the same strategy settings and the same seed gives the same sentences, also for an equal grammar built another way, and also when several sentences are generated in a row. Generating with a seed and with the same seed and an always-accepting callback gives the same sentence.",
     "every seed, every grammar, every seeded strategy", "A test compares a few seeds.",
     GEN, [("from_seed constructors", "src/generation.rs"), ("generate_seeded", "src/grammar.rs")], over=("inputs", "histories"), observe=["generate_seeded*"])
prop("C21", "The Mermaid flowchart shows the tree, with labels that cannot break it",
     "The flowchart of a parse tree has exactly one edge for every parent and child in the tree, each node with an identifier of its own, labelled with the nonterminal's name or the terminal's text. In labels, every character with a meaning in Mermaid (quotes, brackets, angle brackets, backslash, &, #, ; and line breaks) is replaced by its character code and nothing else is changed.",
     "every tree, every terminal text", "Labels can hold any text; the tests escape a few strings.",
     ["src/grammar.rs"], [("MermaidParseTree and escape_mermaid_label", "src/grammar.rs")], observe=["ParseTree::mermaid", "escape_mermaid_label"])
prop("C22", "Printing a parse tree shows every node at its place",
     "The text of a parse tree shows each node once, in depth-first order, on a line of its own that names its nonterminal and its right-hand side (or its text, for a terminal), indented and joined with branch lines according to its depth and to which of its ancestors have further children.",
     "every tree", "The tests print a few trees.",
     ["src/grammar.rs"], [("ParseTree::fmt_node", "src/grammar.rs")], observe=["Display of ParseTree"])
prop("C23", "Editing keeps everything else as it was",
     "A grammar, production or expression built or edited through the API holds exactly what was put in, in order: adding appends at the end, removing takes out the first equal element, returns it and leaves the others in order, and changing through mutable iterators changes only what was changed. Removing something that is not there changes nothing and returns nothing.",
     "every sequence of edits", "The tests do one edit at a time on fixed values.",
     ["src/grammar.rs", "src/production.rs", "src/expression.rs", "src/term.rs"], [("add/remove methods and operators", "src/grammar.rs, src/production.rs, src/expression.rs")], over=("inputs", "histories"), observe=["add_*", "remove_*", "*_iter", "*_iter_mut", "+"])
prop("C24", "Serialising to JSON and back gives the same value",
     "A grammar, production, expression or term serialised to JSON deserialises to an equal value, whatever characters its names and literals contain and also when parts of it are empty.",
     "every value", "The tests serialise a few values.",
     ["src/grammar.rs", "src/production.rs", "src/expression.rs", "src/term.rs"], [("derived Serialize and Deserialize", "src/*.rs")], observe=["serde"])
prop("C25", "Equality, hashing and ordering of grammar values agree",
     "Two terms, expressions, productions or grammars are equal exactly when they have equal parts in the same order (a terminal never equals a nonterminal); equal values hash alike and clones are equal. The order on terms and expressions is total, transitive and agrees with equality.",
     "every pair and triple of values", "The tests compare a few values.",
     ["src/grammar.rs", "src/production.rs", "src/expression.rs", "src/term.rs"], [("derived Eq, Hash, Ord", "src/*.rs")], observe=["==", "Hash", "cmp"])
prop("C26", "A grammar text accepts exactly the inputs it describes",
     "Reading a grammar from text and parsing an input with it accepts the input exactly when it is described by the text as written, groups meaning a choice of their alternatives and optionals meaning the same or nothing, in BNF and in ABNF.",
     "every grammar text with groups and optionals, every input", "This is the product of reading, normalising and parsing; the tests check a few texts with a few inputs.",
     TEXT + EARLEY[:1] + ["src/parser/mod.rs"], [("normalisation of groups and optionals", "src/parsers/mod.rs"), ("Earley parsing", "src/earley/mod.rs")], over=("inputs", "programs"), observe=["FromStr then parse_input"])
prop("C27", "The macros build the value written",
     "term!, expression!, production! and grammar! expand to the value their text spells out, in the order written.",
     "every macro invocation", "Each invocation is expanded at compile time; the tests have a few.",
     ["src/term.rs", "src/expression.rs", "src/production.rs", "src/grammar.rs"], [("macro_rules", "src/*.rs")], over=("programs",), observe=["macros"])

NOTE = ("Bounded: decided for every value of the symbolic inputs within the bounds in the evidence file (and DESIGN.md), over rustc's LLVM IR of the current source; "
        "trusts rustc, opt, the symbolic executor in engine/ (checked by replaying sampled paths natively and by cvc5 on sampled queries), z3, the reference in harness/props, and the stand-ins for hasher and random generator.")
NA = {"C27": "The macros are expanded by the compiler; an invocation has no inputs left at run time, so there is nothing to make symbolic: one would have to enumerate invocations, which is testing. The defect found by reading (written order) is repaired in 5fc1446."}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["row"], ensure_ascii=False) + "\n")
    m = dict(version=1, setup_cmd="python3 run.py --build", checks=[], not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
             notes="No hooks in /repo: the harness uses the public API only; the random generator and the hasher are replaced through [patch.crates-io] in the harness crates.")
    for p in P:
        i = p["row"]["id"]
        if i in NA:
            continue
        m["checks"].append(dict(property=i, quick_cmd=f"python3 run.py {i} --tier quick", thorough_cmd=f"python3 run.py {i} --tier thorough", evidence_file=f"evidence/{i}.json",
                                technique="symbolic execution of the LLVM IR of the real code, decided with z3 (SMT)", level="model_checking", level_note=NOTE))
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
