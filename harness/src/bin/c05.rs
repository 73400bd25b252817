//! C05: what parses without error is what the grammar derives.
use hx::grams::*;
use hx::lang::*;
use hx::run::*;
use hx::*;
use hx::sym::check;
/// Terminals that are roots themselves; a literal with a space at its end.
mod alone {
    use hx::lexing::letters;
    use hx::sym::{self, check};
    use teleparse::prelude::*;
    use teleparse::{Parser, Root};
    #[derive_lexicon]
    #[teleparse(terminal_parse, ignore(r" +"))]
    pub enum LD {
        #[teleparse(regex(r"[a-c]+"), terminal(Word, Key = "ab"))]
        Word,
        #[teleparse(terminal(End = "; ", Semi = ";", Nl = "\n", Dots = ".. .", Dot = "."))]
        Op,
    }
    macro_rules! roots { ($($n:ident $t:ident),*) => { $(
        #[derive_syntax]
        #[teleparse(root, no_test)]
        pub struct $n($t);
    )* } }
    roots!(R0 Word, R1 Key, R2 End, R3 Semi, R4 Nl, R5 Dots, R6 Dot);
    #[derive_syntax]
    #[teleparse(root, no_test)]
    pub struct Both(Semi, tp::Option<End>, tp::Vec<Dots>);
    const LITS: [&[u8]; 5] = [b"; ", b";", b"\n", b".. .", b"."];
    /// The tokens: start, end, which literal (5 for a word); and whether something was not a token.
    fn tokens(b: &[u8]) -> (Vec<(usize, usize, usize)>, bool) {
        let (mut v, mut bad, mut i) = (vec![], false, 0);
        while i < b.len() {
            let mut k = i;
            while k < b.len() && b[k] >= b'a' && b[k] <= b'c' {
                k += 1;
            }
            if k > i {
                v.push((i, k, 5));
                i = k;
            } else if b[i] == b' ' {
                i += 1;
            } else {
                let mut best: Option<(usize, usize)> = None;
                for (j, l) in LITS.iter().enumerate() {
                    if b[i..].starts_with(l) && best.map_or(true, |x| x.1 < l.len()) {
                        best = Some((j, l.len()));
                    }
                }
                match best {
                    Some((j, n)) => {
                        v.push((i, i + n, j));
                        i += n;
                    }
                    None => {
                        bad = true;
                        i += 1;
                    }
                }
            }
        }
        (v, bad)
    }
    fn one<T: Root + teleparse::ToSpan, R: Root + teleparse::ToSpan>(src: &str, fits: impl Fn(usize, &str) -> bool)
    where
        T: teleparse::Produce, <T as teleparse::Produce>::Prod: teleparse::syntax::Production<L = LD>,
        R: teleparse::Produce, <R as teleparse::Produce>::Prod: teleparse::syntax::Production<L = LD>,
    {
        let (toks, bad) = tokens(src.as_bytes());
        let mut p = Parser::<LD>::new(src).ok().unwrap();
        let got = p.parse::<T>().ok().unwrap().map(|t| (t.lo(), t.hi()));
        let clean = p.info().errors.is_empty();
        let mut q = Parser::<LD>::new(src).ok().unwrap();
        let inner = q.parse::<R>().ok().unwrap().map(|t| (t.lo(), t.hi()));
        let fit = toks.first().map_or(false, |t| fits(t.2, &src[t.0..t.1]));
        check(560, !clean | fit); // a terminal alone parses without errors only what it stands for
        check(561, clean | !fit | bad); // and all of that
        check(562, got == inner && p.info().errors == q.info().errors); // as a grammar of just that terminal does
        check(563, !clean | (got == toks.first().map(|t| (t.0, t.1)))); // and it spans its token
        if clean {
            sym::cover(3);
        }
    }
    pub fn run<const N: usize>(which: usize, alpha: &[u8]) {
        let mut b = [0u8; N];
        let n = letters(&mut b, N, alpha);
        let src = unsafe { std::str::from_utf8_unchecked(&b[..n]) };
        match which {
            0 => one::<Word, R0>(src, |k, _| k == 5),
            1 => one::<Key, R1>(src, |k, t| k == 5 && t == "ab"),
            2 => one::<End, R2>(src, |k, _| k == 0),
            3 => one::<Semi, R3>(src, |k, _| k == 1),
            4 => one::<Nl, R4>(src, |k, _| k == 2),
            5 => one::<Dots, R5>(src, |k, _| k == 3),
            6 => one::<Dot, R6>(src, |k, _| k == 4),
            _ => {
                let (toks, bad) = tokens(src.as_bytes());
                let mut p = Parser::<LD>::new(src).ok().unwrap();
                let got = p.parse::<Both>().ok().unwrap().map(|t| (t.1.is_some(), t.2.len()));
                let clean = p.info().errors.is_empty();
                let k: Vec<usize> = toks.iter().map(|t| t.2).collect();
                let want = if k.first() == Some(&1) {
                    let end = k.get(1) == Some(&0);
                    let dots = k[1 + end as usize..].iter().take_while(|x| **x == 3).count();
                    if dots > 0 {
                        sym::cover(3);
                    }
                    Some((end, dots))
                } else {
                    None
                };
                check(564, !clean | (got == want)); // literals with spaces in a sequence
                check(567, !clean | want.is_some()); // which has no errors only when it is there
                check(568, clean | want.is_none() | bad); // and has none then
            }
        }
    }
}
fn literals<const N: usize>(alpha: &[u8]) {
    let o = hx::lits::list::<N>(alpha);
    check(565, o.got == Some(o.want)); // a list of literals holds just these
    check(566, (o.errors == 0) | !o.whole); // and a list of only such literals has no errors
    if o.whole {
        hx::sym::cover(3);
    }
}
harnesses! {
    h_lits_op => if sym::tier() == 0 { literals::<4>(b".+?=\\d[^") } else { literals::<6>(b".+?=\\d[^") };
    h_lits_word => if sym::tier() == 0 { literals::<4>(b"SELA10_#a") } else { literals::<6>(b"SELA10_#a") };
    h_lits_quote => if sym::tier() == 0 { literals::<4>(b"\"'\\\t$|^*(") } else { literals::<6>(b"\"'\\\t$|^*(") };
    h_alone_word => if sym::tier() == 0 { alone::run::<5>(sym::pick(2), b"abd ;") } else { alone::run::<7>(sym::pick(2), b"abd ;") };
    h_alone_op => if sym::tier() == 0 { alone::run::<5>(2 + sym::pick(5), b".; \na") } else { alone::run::<7>(2 + sym::pick(5), b".; \na") };
    h_alone_both => if sym::tier() == 0 { alone::run::<7>(7, b"; .") } else { alone::run::<10>(7, b"; .") };

    h_g1 => parse_of!(g1::E, 5, 6, TOKENS_ONLY, SOUND);
    h_g2 => parse_of!(g2::E, 5, 6, TOKENS_ONLY, SOUND);
    h_g4 => parse_of!(g4::S, 6, 8, TOKENS_ONLY, SOUND);
    h_g5 => parse_of!(g5::S, 5, 6, TOKENS_ONLY, SOUND);
    h_g6 => parse_of!(g6::S, 5, 6, TOKENS_ONLY, SOUND);
    h_g7 => parse_of!(g7::S, 4, 5, TOKENS_ONLY, SOUND);
    h_g8 => parse_of!(g8::S, 4, 5, TOKENS_ONLY, SOUND);
    h_g9 => parse_of!(g9::S, 6, 8, TOKENS_ONLY, SOUND);
    h_g10 => parse_of!(g10::S, 6, 8, TOKENS_ONLY, SOUND);
    h_g11 => parse_of!(g11::S, 6, 8, TOKENS_ONLY, SOUND);
    h_g12 => parse_of!(g12::S, 7, 9, TOKENS_ONLY, SOUND);
    h_g13 => parse_of!(g13::S, 5, 7, TOKENS_ONLY, SOUND);
    h_g14 => parse_of!(g14::S, 4, 5, TOKENS_ONLY, SOUND);
    h_g16 => parse_of!(g16::S, 5, 7, TOKENS_ONLY, SOUND);
    h_g17 => parse_of!(g17::S, 5, 6, TOKENS_ONLY, SOUND);
    h_g18 => parse_of!(g18::S, 5, 6, TOKENS_ONLY, SOUND);
    h_g19 => parse_of!(g19::S, 4, 5, TOKENS_ONLY, SOUND);
    h_g20 => parse_of!(g20::S, 4, 5, TOKENS_ONLY, SOUND);
    h_g21 => parse_of!(g21::S, 7, 9, TOKENS_ONLY, SOUND);
    h_g22 => parse_of!(g22::S, 5, 6, TOKENS_ONLY, SOUND);
    h_g23 => parse_of!(g23::S, 6, 7, TOKENS_ONLY, SOUND);
    h_g24 => parse_of!(g24::S, 5, 6, TOKENS_ONLY, SOUND);
    h_p1 => parse_of!(g1::E, 6, 7, TOKENS_ONLY, PREDICT);
    h_p2 => parse_of!(g2::E, 6, 8, TOKENS_ONLY, PREDICT);
    h_p4 => parse_of!(g4::S, 8, 10, TOKENS_ONLY, PREDICT);
    h_p5 => parse_of!(g5::S, 7, 8, TOKENS_ONLY, PREDICT);
    h_p6 => parse_of!(g6::S, 6, 8, TOKENS_ONLY, PREDICT);
    h_p8 => parse_of!(g8::S, 6, 8, TOKENS_ONLY, PREDICT);
    h_p9 => parse_of!(g9::S, 8, 10, TOKENS_ONLY, PREDICT);
    h_p12 => parse_of!(g12::S, 10, 12, TOKENS_ONLY, PREDICT);
    h_p13 => parse_of!(g13::S, 7, 9, TOKENS_ONLY, PREDICT);
    h_p14 => parse_of!(g14::S, 5, 7, TOKENS_ONLY, PREDICT);
    h_p16 => parse_of!(g16::S, 7, 9, TOKENS_ONLY, PREDICT);
    h_p17 => parse_of!(g17::S, 6, 8, TOKENS_ONLY, PREDICT);
    h_p18 => parse_of!(g18::S, 6, 8, TOKENS_ONLY, PREDICT);
    h_p21 => parse_of!(g21::S, 9, 11, TOKENS_ONLY, PREDICT);
    h_p22 => parse_of!(g22::S, 6, 7, TOKENS_ONLY, PREDICT);
    h_p24 => parse_of!(g24::S, 6, 8, TOKENS_ONLY, PREDICT);
    h_q_g4 => parse_of!(g4::S, 5, 7, QUOTED, PREDICT);
    h_q_g10 => parse_of!(g10::S, 5, 7, QUOTED, PREDICT);
    h_q_g11 => parse_of!(g11::S, 5, 7, QUOTED, PREDICT);
    h_q_g16 => parse_of!(g16::S, 5, 7, QUOTED, PREDICT);
    h_q_g22 => parse_of!(g22::S, 5, 7, QUOTED, PREDICT);
    h_y3 => parse_of!(y3::S, 5, 7, TOKENS_ONLY, PREDICT);
    h_r_g1 => nest_of!(g1::E, 40, 60, TOKENS_ONLY, SOUND);
    h_r_g2 => nest_of!(g2::E, 40, 60, TOKENS_ONLY, SOUND);
    h_r_g21 => nest_of!(g21::S, 40, 60, TOKENS_ONLY, SOUND);
    h_r_m5 => nest_of!(m5::S, 30, 60, TOKENS_ONLY, PREDICT);
    h_p_g1 => pump_of!(g1::E, 19, 59, TOKENS_ONLY, SOUND);
    h_p_g2 => pump_of!(g2::E, 19, 59, TOKENS_ONLY, SOUND);
    h_p_g4 => pump_of!(g4::S, 19, 59, TOKENS_ONLY, SOUND);
    h_p_g5 => pump_of!(g5::S, 19, 59, TOKENS_ONLY, SOUND);
    h_p_g6 => pump_of!(g6::S, 19, 59, TOKENS_ONLY, SOUND);
    h_p_g7 => pump_of!(g7::S, 19, 59, TOKENS_ONLY, SOUND);
    h_p_g8 => pump_of!(g8::S, 19, 59, TOKENS_ONLY, SOUND);
    h_p_g9 => pump_of!(g9::S, 19, 59, TOKENS_ONLY, SOUND);
    h_p_g10 => pump_of!(g10::S, 19, 59, TOKENS_ONLY, SOUND);
    h_p_g11 => pump_of!(g11::S, 19, 59, TOKENS_ONLY, SOUND);
    h_p_g12 => pump_of!(g12::S, 19, 59, TOKENS_ONLY, SOUND);
    h_p_g13 => pump_of!(g13::S, 19, 59, TOKENS_ONLY, SOUND);
    h_p_g14 => pump_of!(g14::S, 19, 59, TOKENS_ONLY, SOUND);
    h_p_g16 => pump_of!(g16::S, 19, 59, TOKENS_ONLY, SOUND);
    h_p_g17 => pump_of!(g17::S, 19, 59, TOKENS_ONLY, SOUND);
    h_p_g18 => pump_of!(g18::S, 19, 59, TOKENS_ONLY, SOUND);
    h_p_g19 => pump_of!(g19::S, 19, 59, TOKENS_ONLY, SOUND);
    h_p_g20 => pump_of!(g20::S, 19, 59, TOKENS_ONLY, SOUND);
    h_p_g21 => pump_of!(g21::S, 19, 59, TOKENS_ONLY, SOUND);
    h_p_g22 => pump_of!(g22::S, 19, 59, TOKENS_ONLY, SOUND);
    h_p_g23 => pump_of!(g23::S, 19, 59, TOKENS_ONLY, SOUND);
    h_p_g24 => pump_of!(g24::S, 19, 59, TOKENS_ONLY, SOUND);
    h_m1 => parse_of!(m1::S, 4, 5, TOKENS_ONLY, SOUND);
    h_m2 => parse_of!(m2::S, 4, 5, TOKENS_ONLY, SOUND);
    h_m3 => parse_of!(m3::S, 4, 5, TOKENS_ONLY, SOUND);
    h_m4 => parse_of!(m4::S, 4, 5, TOKENS_ONLY, SOUND);
    h_m5 => parse_of!(m5::S, 4, 5, TOKENS_ONLY, SOUND);
    h_w1 => parse_of!(w1::S, 4, 5, TOKENS_ONLY, SOUND);
    h_w2 => parse_of!(w2::S, 4, 5, TOKENS_ONLY, SOUND);
    h_m7 => parse_of!(m7::S, 4, 5, TOKENS_ONLY, SOUND);
    h_m8 => parse_of!(m8::S, 4, 5, TOKENS_ONLY, SOUND);
    h_m9 => parse_of!(m9::S, 4, 5, TOKENS_ONLY, SOUND);
    h_m10 => parse_of!(m10::S, 4, 5, TOKENS_ONLY, SOUND);
    h_m11 => parse_of!(m11::S, 4, 5, TOKENS_ONLY, SOUND);
}
