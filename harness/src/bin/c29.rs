//! C29: messages name what was expected, or quote what was not.
use hx::grams::*;
use hx::lang::*;
use hx::run::*;
use hx::*;
use hx::sym::check;
use teleparse::syntax::{Error, ErrorKind, FirstSet};
use teleparse::{Lexicon, Span};
/// Words of a message, for names that have no space and no comma.
fn words(m: &str) -> Vec<&str> {
    m.split([' ', ',']).collect()
}
const LITS: [&str; 26] = [
    "a", "b", "if", "in", "+", "++", "+=", "->", "=", "==", "=>", "<", "<<", "<=", "{", "}", "[", "]", "λ", "🦀", "a-b", "0", "\\", "|", "\"", "{}",
];
/// As many terminals at once as there are.
fn many<L: Lexicon + std::fmt::Debug>(types: usize) {
    let mut all = vec![];
    let mut t = Some(L::first());
    while let Some(x) = t {
        all.push(x);
        t = x.next();
    }
    let mut set = FirstSet::<L>::new();
    // a run of the types, then a run of the literals of a type outside the run
    let from = sym::pick(types.min(all.len()) as u8);
    let to = from + sym::pick((all.len().min(types + 2) - from) as u8);
    for x in &all[from..to] {
        set.insert(*x, None);
    }
    let of = if to < all.len() { Some(all[to]) } else { None };
    let mut lits = (0, 0);
    if let Some(x) = of {
        let a = sym::pick(3) * 7;
        lits = (a, a + sym::pick((LITS.len() - a) as u8 + 1));
        for l in &LITS[lits.0..lits.1] {
            set.insert(x, Some(l));
        }
    }
    let m = Error::new(Span::new(0, 0), ErrorKind::Expecting(set)).message("");
    let w = words(&m);
    for (i, x) in all.iter().enumerate() {
        check(2910, w.contains(&&format!("{x:?}")[..]) == (from <= i && i < to)); // the types expected are named, and no other
    }
    for (i, x) in LITS.iter().enumerate() {
        check(2911, w.contains(&&format!("\"{x}\"")[..]) == (lits.0 <= i && i < lits.1)); // the literals expected are named, and no other
    }
    sym::cover(4);
}
/// A long text that was unexpected.
fn long(max: u8) {
    const C: [&str; 6] = ["?", "é", "€", "🦀", "\n", "\""];
    let mut text = String::from("ab ");
    for _ in 0..sym::pick(4) {
        text.push('x');
    }
    let lo = sym::pick(4);
    let c = C[sym::each(sym::below(6) as usize)];
    for _ in 0..sym::pick(max) {
        text.push_str(c);
    }
    let hi = text.len();
    text.push_str(" é");
    let chars = sym::pick(2) == 0;
    let e = Error::<L0>::new(lo..hi, if chars { ErrorKind::UnexpectedCharacters } else { ErrorKind::UnexpectedTokens });
    check(2912, e.message(&text).as_bytes().ends_with(&text.as_bytes()[lo..hi])); // the message quotes all of what is unexpected
    let e = Error::<L0>::new(lo..hi, ErrorKind::Custom(text.clone()));
    check(2913, e.message("") == text); // a message of one's own is that message
    sym::cover(5);
}
harnesses! {
    h_many_9 => many::<hx::big::w9::L>(9);
    h_many_33 => many::<hx::big::w33::L>(sym::bound(9, 33));
    h_long => long(sym::bound(40, 120) as u8);
    h_g1 => parse_of!(g1::E, 4, 5, EVERYTHING, MESSAGE);
    h_g2 => parse_of!(g2::E, 4, 5, EVERYTHING, MESSAGE);
    h_g3 => parse_of!(g3::S, 4, 5, EVERYTHING, MESSAGE);
    h_g4 => parse_of!(g4::S, 4, 5, EVERYTHING, MESSAGE);
    h_g5 => parse_of!(g5::S, 4, 5, EVERYTHING, MESSAGE);
    h_g6 => parse_of!(g6::S, 4, 5, EVERYTHING, MESSAGE);
    h_g7 => parse_of!(g7::S, 4, 5, EVERYTHING, MESSAGE);
    h_g8 => parse_of!(g8::S, 4, 5, EVERYTHING, MESSAGE);
    h_g9 => parse_of!(g9::S, 4, 5, EVERYTHING, MESSAGE);
    h_g10 => parse_of!(g10::S, 4, 5, EVERYTHING, MESSAGE);
    h_g11 => parse_of!(g11::S, 4, 5, EVERYTHING, MESSAGE);
    h_g12 => parse_of!(g12::S, 4, 5, EVERYTHING, MESSAGE);
    h_g13 => parse_of!(g13::S, 4, 5, EVERYTHING, MESSAGE);
    h_g14 => parse_of!(g14::S, 4, 5, EVERYTHING, MESSAGE);
    h_g15 => parse_of!(g15::S, 4, 5, EVERYTHING, MESSAGE);
    h_g16 => parse_of!(g16::S, 4, 5, EVERYTHING, MESSAGE);
    h_g17 => parse_of!(g17::S, 4, 5, EVERYTHING, MESSAGE);
    h_g18 => parse_of!(g18::S, 4, 5, EVERYTHING, MESSAGE);
    h_g19 => parse_of!(g19::S, 4, 5, EVERYTHING, MESSAGE);
    h_g20 => parse_of!(g20::S, 4, 5, EVERYTHING, MESSAGE);
    h_g21 => parse_of!(g21::S, 4, 5, EVERYTHING, MESSAGE);
    h_g22 => parse_of!(g22::S, 4, 5, EVERYTHING, MESSAGE);
    h_g24 => parse_of!(g24::S, 4, 5, EVERYTHING, MESSAGE);
    h_t_g4 => parse_of!(g4::S, 6, 8, TOKENS_ONLY, MESSAGE);
    h_t_g10 => parse_of!(g10::S, 6, 8, TOKENS_ONLY, MESSAGE);
    h_t_g11 => parse_of!(g11::S, 6, 8, TOKENS_ONLY, MESSAGE);
    h_t_g16 => parse_of!(g16::S, 6, 8, TOKENS_ONLY, MESSAGE);
    h_t_g22 => parse_of!(g22::S, 6, 8, TOKENS_ONLY, MESSAGE);
    h_t_g2 => parse_of!(g2::E, 6, 8, TOKENS_ONLY, MESSAGE);
    h_p_g1 => pump_of!(g1::E, 33, 65, TOKENS_ONLY, MESSAGE);
    h_p_g2 => pump_of!(g2::E, 33, 65, TOKENS_ONLY, MESSAGE);
    h_p_g3 => pump_of!(g3::S, 33, 65, TOKENS_ONLY, MESSAGE);
    h_p_g4 => pump_of!(g4::S, 33, 65, TOKENS_ONLY, MESSAGE);
    h_p_g5 => pump_of!(g5::S, 33, 65, TOKENS_ONLY, MESSAGE);
    h_p_g6 => pump_of!(g6::S, 33, 65, TOKENS_ONLY, MESSAGE);
    h_p_g7 => pump_of!(g7::S, 33, 65, TOKENS_ONLY, MESSAGE);
    h_p_g8 => pump_of!(g8::S, 33, 65, TOKENS_ONLY, MESSAGE);
    h_p_g9 => pump_of!(g9::S, 33, 65, TOKENS_ONLY, MESSAGE);
    h_p_g10 => pump_of!(g10::S, 33, 65, TOKENS_ONLY, MESSAGE);
    h_p_g11 => pump_of!(g11::S, 33, 65, TOKENS_ONLY, MESSAGE);
    h_p_g12 => pump_of!(g12::S, 33, 65, TOKENS_ONLY, MESSAGE);
    h_p_g13 => pump_of!(g13::S, 33, 65, TOKENS_ONLY, MESSAGE);
    h_p_g14 => pump_of!(g14::S, 33, 65, TOKENS_ONLY, MESSAGE);
    h_p_g15 => pump_of!(g15::S, 33, 65, TOKENS_ONLY, MESSAGE);
    h_p_g16 => pump_of!(g16::S, 33, 65, TOKENS_ONLY, MESSAGE);
    h_p_g17 => pump_of!(g17::S, 33, 65, TOKENS_ONLY, MESSAGE);
    h_p_g18 => pump_of!(g18::S, 33, 65, TOKENS_ONLY, MESSAGE);
    h_p_g19 => pump_of!(g19::S, 33, 65, TOKENS_ONLY, MESSAGE);
    h_p_g20 => pump_of!(g20::S, 33, 65, TOKENS_ONLY, MESSAGE);
    h_p_g21 => pump_of!(g21::S, 33, 65, TOKENS_ONLY, MESSAGE);
    h_p_g22 => pump_of!(g22::S, 33, 65, TOKENS_ONLY, MESSAGE);
    h_p_g24 => pump_of!(g24::S, 33, 65, TOKENS_ONLY, MESSAGE);
}
