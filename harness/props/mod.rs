#![allow(dead_code)]
pub mod rt;
macro_rules! entries {
    ($($m:ident :: $f:ident),* $(,)?) => {
        $(#[unsafe(no_mangle)] pub extern "C-unwind" fn $f() { $m::$f() })*
        pub static ENTRIES: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($f), $f)),*];
    };
}
mod earley;
mod gen_;
mod known;
mod refsyn;
mod render;
mod text;
entries! {
    text::c06_term, text::c06_expression, text::c06_production, text::c06_grammar, text::c06_special, text::c06_long,
    text::c07_grammar_auto, text::c07_bnf, text::c07_abnf, text::c07_parts,
    text::c08_bnf, text::c08_parts, text::c08_long, text::c09_long, text::c07_long, text::c10_long, text::c12_long, text::c09_abnf, text::c10_hygiene,
    earley::c01_sound, earley::c02_member, earley::c03_count, earley::c03_infinite, earley::c01_long, earley::c02_long, earley::c03_long,
    earley::c04_start, earley::c05_reuse, earley::c05_sequence, gen_::c14_wide, gen_::c14_decline, gen_::c15_long, render::c26_grid, render::c26_drawn, text::c10_drawn, text::c11_drawn, earley::c13_drawn, text::c08_drawn, text::c09_drawn, text::c12_drawn, text::c06_drawn, earley::c13_validate, earley::c13_large,
    gen_::c14_sound, gen_::c14_plain, gen_::c14_custom, gen_::c14_deep, gen_::c16_patience, gen_::c15_refuse, gen_::c15_endless, gen_::c16_callback, gen_::c17_choose, gen_::c17_sentence, gen_::c17_wide, gen_::c18_wide, gen_::c18_many, gen_::c19_wide,
    gen_::c18_choose, gen_::c18_sentences, gen_::c19_choose, gen_::c19_large, gen_::c19_share, gen_::c20_seeded,
    render::c21_escape, render::c21_tree, render::c22_display, render::c23_expression, render::c23_prepend, render::c23_production, render::c23_grammar, render::c23_long, render::c25_long, render::c25_alike, render::c23_alike, render::c26_large,
    render::c24_json, render::c25_term, render::c25_expression, render::c25_whole, render::c26_end_to_end,
    known::k02_cycle, known::k07_nesting,
    text::c11_bnf, text::c11_abnf, text::c12_detect, text::c12_same, text::c08_wide, text::c09_wide, text::c07_wide,
}
