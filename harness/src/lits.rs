//! Unions of many literals: which alternative a text selects, against the
//! reference lexer.
mod tree {
    use crate::lexing::*;
    use teleparse::prelude::*;
    #[derive_syntax]
    pub enum Any { Sel(Sel), M0(M0), M1(M1), M2(M2), M3(M3), M4(M4), M5(M5), M6(M6), M7(M7), M8(M8), M9(M9), M10(M10), M11(M11), M12(M12), M13(M13), M14(M14), M15(M15), M16(M16), M17(M17), Id(Ident), One(One), Ten(Ten) }
    #[derive_syntax]
    #[teleparse(root, no_test)]
    pub struct R(pub tp::Vec<Any>);
    pub fn of(x: &Any) -> (usize, teleparse::Span) {
        match x {
            Any::M0(t) => (0, t.span()), Any::M1(t) => (1, t.span()), Any::M2(t) => (2, t.span()), Any::M3(t) => (3, t.span()), Any::M4(t) => (4, t.span()), Any::M5(t) => (5, t.span()), Any::M6(t) => (6, t.span()), Any::M7(t) => (7, t.span()), Any::M8(t) => (8, t.span()), Any::M9(t) => (9, t.span()), Any::M10(t) => (10, t.span()), Any::M11(t) => (11, t.span()), Any::M12(t) => (12, t.span()), Any::M13(t) => (13, t.span()), Any::M14(t) => (14, t.span()), Any::M15(t) => (15, t.span()), Any::M16(t) => (16, t.span()), Any::M17(t) => (17, t.span()),
            Any::Id(t) => (18, t.span()), Any::One(t) => (19, t.span()), Any::Ten(t) => (20, t.span()), Any::Sel(t) => (21, t.span()),
        }
    }
}
use crate::lexing::*;
use teleparse::{Parser, Span};

pub struct Out {
    /// the alternatives of the tree; none when there is no tree
    pub got: Option<Vec<(usize, Span)>>,
    /// the alternatives the tokens call for, up to the first token that calls for none
    pub want: Vec<(usize, Span)>,
    /// is the whole text made of such tokens?
    pub whole: bool,
    pub errors: usize,
}

/// A list of alternatives, over a text of up to N letters.
pub fn list<const N: usize>(alpha: &[u8]) -> Out {
    let mut b = [0u8; N];
    let n = letters(&mut b, N, alpha);
    let src = unsafe { std::str::from_utf8_unchecked(&b[..n]) };
    let mut p = Parser::<LC>::new(src).ok().unwrap();
    let got = p.parse::<tree::R>().ok().unwrap().map(|t| t.0.iter().map(tree::of).collect());
    let errors = p.info().errors.len();
    let mut want = vec![];
    let mut whole = true;
    let mut stopped = false;
    for s in reference::<LC>(&b[..n]) {
        if s.bad.is_some() {
            whole = false;
        }
        let Some((lo, hi, ty)) = s.tok else { break };
        let text = &src[lo..hi];
        let k = match ty {
            LC::Meta => META.iter().position(|m| *m == text),
            LC::Id => Some(18),
            LC::Nat => match text {
                "1" => Some(19),
                "10" => Some(20),
                _ => None,
            },
            LC::Sel => if text == "SE" { Some(21) } else { None },
            _ => continue, // extracted
        };
        match k {
            Some(k) if !stopped => want.push((k, Span::new(lo, hi))),
            Some(_) => {}
            None => {
                stopped = true;
                whole = false;
            }
        }
    }
    Out { got, want, whole, errors }
}
