//! C06: parsing ends, without a panic, whatever the text is.
use hx::grams::*;
use hx::lexing::*;
use hx::run::source;
use hx::sym::check;
use hx::*;
use teleparse::syntax::Error;
use teleparse::{Lexicon, Parser, Production, Root};

/// A grammar over words, numbers, quoted texts, comments and symbols.
mod n1 {
    use hx::lexing::*;
    use teleparse::prelude::*;
    #[derive_syntax]
    #[teleparse(root, no_test)]
    pub struct S(tp::Loop<tp::Recover<St, OpArrow>>);
    #[derive_syntax]
    pub enum St {
        Do((KwDo, tp::Vec<Name>, KwDone)),
        Let((Name, OpEq, X)),
        Txt(tp::String<(Text, tp::Option<SymL>)>),
        Num(tp::Parse<u8, Number>),
    }
    #[derive_syntax]
    pub struct X(tp::Split<Y, OpLt>, tp::Exists<SymE>);
    #[derive_syntax]
    pub enum Y {
        N(tp::Parse<i64, Number>),
        V(Name),
        P(P),
    }
    #[derive_syntax]
    pub struct P(SymC, tp::Option<tp::Punct<Box<Y>, OpShl>>, SymL);
}
/// Everything but the empty text is a surprise.
mod n2 {
    use hx::lexing::*;
    use teleparse::prelude::*;
    #[derive_syntax]
    #[teleparse(root, no_test)]
    pub struct S {
        a: tp::Option<tp::Recover<(KwIf, Name), KwDo>>,
        b: tp::Punct<(OpEqEq, tp::String<tp::Option<Text>>), OpArrow>,
        c: tp::Exists<tp::Nev<Number>>,
        d: KwDone,
    }
}

fn error<L: Lexicon>(e: &Error<L>, text: &str) {
    check(601, e.span.lo <= e.span.hi && e.span.hi <= text.len()); // an error is inside the source
    check(602, text.is_char_boundary(e.span.lo) && text.is_char_boundary(e.span.hi)); // and splits no character
    let m = e.message(text);
    check(603, !m.is_empty()); // an error has a message
}
fn all<L: Lexicon, R: Root>(text: &str, rounds: usize)
where
    R::Prod: Production<L = L>,
{
    let Ok(mut p) = Parser::<L>::new(text) else {
        check(605, false); // a parser is made for any text
        return;
    };
    for _ in 0..rounds {
        let t = p.parse::<R>();
        check(606, t.is_ok()); // a grammar that is accepted stays accepted
        let rest = p.remaining().len();
        check(607, rest <= text.len() && text.is_char_boundary(text.len() - rest)); // parsing stops between characters
        let some = matches!(t, Ok(Some(_)));
        check(608, some || !p.info().errors.is_empty()); // no tree without an error
        if some {
            sym::cover(1);
        } else {
            sym::cover(2);
        }
        std::mem::forget(t);
    }
    for e in &p.info().errors {
        error(e, text);
    }
    for t in p.info().tokens.iter() {
        check(609, !t.src(text).is_empty()); // every token has text
    }
}
fn any<L: Lexicon, R: Root, const N: usize>(n: usize)
where
    R::Prod: Production<L = L>,
{
    let _ = R::metadata();
    let mut b = [0u8; N];
    let n = text(&mut b, n);
    all::<L, R>(unsafe { std::str::from_utf8_unchecked(&b[..n]) }, 2);
}
fn of<L: Lexicon, R: Root, const N: usize>(alpha: &[u8])
where
    R::Prod: Production<L = L>,
{
    let _ = R::metadata();
    let mut b = [0u8; N];
    let n = source::<N>(alpha, 0, &mut b);
    all::<L, R>(unsafe { std::str::from_utf8_unchecked(&b[..n]) }, 2);
}
/// Up to `n` of a few characters, one path for each choice.
fn chars<L: Lexicon, R: Root>(n: usize, of: &[&str])
where
    R::Prod: Production<L = L>,
{
    let _ = R::metadata();
    let mut s = String::new();
    for _ in 0..sym::pick(n as u8 + 1) {
        s.push_str(of[sym::each(sym::below(of.len() as u8) as usize)]);
    }
    all::<L, R>(&s, 2);
}
/// A long text: up to 3 characters, then up to 2 repeated, then one more.
fn long<L: Lexicon, R: Root>(reps: usize, of: &[&str])
where
    R::Prod: Production<L = L>,
{
    let _ = R::metadata();
    let one = |s: &mut String, n: usize| {
        for _ in 0..sym::pick(n as u8 + 1) {
            s.push_str(of[sym::each(sym::below(of.len() as u8) as usize)]);
        }
    };
    let (mut s, mut unit) = (String::new(), String::new());
    one(&mut s, sym::bound(1, 2));
    one(&mut unit, 2);
    for _ in 0..reps {
        s.push_str(&unit);
    }
    one(&mut s, 1);
    all::<L, R>(&s, 2);
}
macro_rules! any_of {
    ($l:ty, $r:ty, $q:literal, $t:literal) => {
        any::<$l, $r, { 4 * $t }>(sym::bound($q, $t))
    };
}
macro_rules! text_of {
    ($l:ty, $r:ty, $q:literal, $t:literal, $a:expr) => {
        if sym::tier() == 0 {
            of::<$l, $r, $q>($a)
        } else {
            of::<$l, $r, $t>($a)
        }
    };
}
use hx::lang::L0;
harnesses! {
    h_n1 => any_of!(LA, n1::S, 3, 4);
    h_n2 => any_of!(LA, n2::S, 3, 4);
    h_g7 => any_of!(L0, g7::S, 3, 4);
    h_g15 => any_of!(L0, g15::S, 3, 4);
    h_g13 => any_of!(L0, g13::S, 3, 4);
    h_g19 => any_of!(L0, g19::S, 3, 4);
    h_s5 => any_of!(L0, s5::S, 3, 4);
    h_g23 => any_of!(L0, g23::S, 3, 4);
    h_n1_do => text_of!(LA, n1::S, 8, 9, b"done=>");
    h_n1_num => text_of!(LA, n1::S, 7, 8, b"19x=< a");
    h_n1_text => text_of!(LA, n1::S, 7, 8, b"\"a=>\n1");
    h_n1_comment => text_of!(LA, n1::S, 7, 8, b"/*a=>");
    h_n1_symbols => chars::<LA, n1::S>(sym::bound(5, 6), &["🦀", "λ", "1", "€", "<", "<<", "a="]);
    h_n1_long => long::<LA, n1::S>(sym::bound(25, 90), &["🦀", "λ", "?", "é", "1", "€", "\"", "a", "a=1", "=>", "do "]);
    h_n2_long => long::<LA, n2::S>(sym::bound(25, 90), &["λ", "é", "?", "==\"x\"", "=>", "if a", "do", "1"]);
    h_g15_long => long::<L0, g15::S>(sym::bound(25, 90), &["é", "?", "a", "+", ";", "(", "#", " "]);
    h_g23_long => long::<L0, g23::S>(sym::bound(25, 90), &["é", "?", "a", "+", ";", "(", "1"]);
    h_n2_op => text_of!(LA, n2::S, 8, 9, b"=>done");
    h_n2_if => text_of!(LA, n2::S, 8, 9, b"ifa do");
    h_n2_num => text_of!(LA, n2::S, 7, 8, b"=1 \"x>");
}
