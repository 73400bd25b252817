//! The parser's stream of tokens against the reference's.
use crate::lang::*;
use crate::refp::*;
use crate::run::{error_of, set_mask};
use crate::sym::check;
use crate::tree::G;
use teleparse::prelude::*;
use teleparse::syntax::{ErrorKind, FollowSet, Result};
use teleparse::Parser;

/// Terminals that can be asked for, with what matches them.
const LITS: [(L0, &str, u32); 6] = [
    (L0::Word, "a", A_A),
    (L0::Word, "b", A_B),
    (L0::Op, "+", A_ADD),
    (L0::Op, "*", A_MUL),
    (L0::Delim, ";", A_SEMI),
    (L0::Word, "+", 0), // a word is never "+"
];
const TYPES: [(L0, u32); 4] = [
    (L0::Word, A_A | A_B | A_W),
    (L0::Op, A_ADD | A_MUL),
    (L0::Digit, A_NUM),
    (L0::Paren, A_PO | A_PC),
];

pub struct St<'s> {
    pub p: Parser<'s, L0>,
    pub r: Rp<'s>,
}

fn tok(t: Option<Token<L0>>) -> Option<(u32, u32, L0)> {
    t.map(|t| (t.span.lo as u32, t.span.hi as u32, t.ty))
}
fn want(t: Option<Tok>) -> Option<(u32, u32, L0)> {
    t.map(|t| (t.lo, t.hi, ty_of(t.atom)))
}
fn at(s: Span) -> (u32, u32) {
    (s.lo as u32, s.hi as u32)
}

impl<'s> St<'s> {
    pub fn new(text: &'s str, g: &'s G) -> Self {
        let p = match Parser::<L0>::new(text) {
            Ok(p) => p,
            Err(_) => {
                check(500, false); // the lexicon of the harness is rejected
                unreachable!()
            }
        };
        St { p, r: Rp::new(text.as_bytes(), g) }
    }

    pub fn consume(&mut self) {
        let got = tok(self.p.consume_token());
        let next = self.r.peek();
        self.r.take();
        check(2302, got == want(next)); // consuming a token gives the next one
    }
    pub fn peek(&mut self) {
        check(2301, tok(self.p.peek_token()) == want(self.r.peek())); // peeking gives the next token
    }
    pub fn peek_src(&mut self) {
        let next = self.r.peek();
        let got = self.p.peek_token_src();
        match (got, next) {
            (None, None) => {}
            (Some(s), Some(t)) => {
                let text = &self.p.info().source.as_bytes()[t.lo as usize..t.hi as usize];
                check(2303, s.ty == ty_of(t.atom)); // peeking gives the next token's type
                check(2304, s.src.as_bytes() == text); // peeking gives the next token's text
            }
            _ => check(2305, false), // peeking gives a token exactly when there is one
        }
    }
    pub fn spans(&mut self) {
        let (lo, hi) = self.r.here();
        check(2306, at(self.p.current_span()) == (lo, hi)); // the current span is the next token's or the end's
        let n = self.r.nowhere();
        check(2307, at(self.p.empty_span()) == (n, n)); // the empty span is at the end of the last consumed token
        let rest = self.p.remaining();
        let source = self.p.info().source;
        check(2308, rest.len() == source.len() - lo as usize && source.ends_with(rest)); // what remains starts at the next token
        let e = error_of(&self.p.unexpected_eof());
        check(2309, (e.lo, e.hi, e.kind) == (lo, hi, E_EOF)); // an error is at the current span
    }
    /// Ask for a type.
    pub fn ask(&mut self, i: usize) {
        let (ty, mask) = TYPES[i];
        let next = self.r.peek();
        let here = self.r.here();
        match self.p.parse_token(ty) {
            Result::Success(t) => {
                check(2310, next.map_or(false, |n| n.atom & mask != 0)); // a token is only accepted when it has the type asked for
                check(2311, tok(Some(t)) == want(next)); // the token accepted is the next one
                self.r.take();
            }
            Result::Recovered(..) => check(2312, false), // asking for a type never recovers
            Result::Panic(e) => {
                check(2313, next.map_or(true, |n| n.atom & mask == 0)); // a token is only refused when it has another type
                check(2314, e.len() == 1); // a refusal is one error
                let e = error_of(&e[0]);
                check(2315, (e.lo, e.hi) == here && e.kind == E_EXPECT && e.set == mask); // the error names the type, at the next token
            }
        }
    }
    /// Ask for a literal, with a symbolic set of what can follow.
    pub fn ask_lit(&mut self, i: usize, follow: usize) {
        let (ty, lit, mask) = LITS[i];
        let mut f = FollowSet::new();
        let mut fmask = 0;
        let options: [(L0, Option<&'static str>, u32); 5] = [
            (L0::Word, None, A_A | A_B | A_W),
            (L0::Word, Some("b"), A_B),
            (L0::Op, Some("+"), A_ADD),
            (L0::Digit, None, A_NUM),
            (L0::Delim, Some(";"), A_SEMI),
        ];
        for (k, (t, l, m)) in options.iter().enumerate() {
            if follow >> k & 1 != 0 {
                f.insert(*t, *l);
                fmask |= m;
            }
        }
        let eof = follow >> 5 & 1 != 0;
        if eof {
            f.insert_eof();
        }
        let next = self.r.peek();
        let here = self.r.here();
        let n = self.r.nowhere();
        let hit = next.map_or(false, |t| t.atom & mask != 0);
        let insert = !hit && next.map_or(eof, |t| t.atom & fmask != 0);
        match self.p.parse_token_lit(ty, lit, &f) {
            Result::Success(t) => {
                check(1601, hit); // only the literal asked for is accepted
                check(1602, tok(Some(t)) == want(next)); // the token accepted is the next one
                self.r.take();
            }
            Result::Recovered(t, e) => {
                check(1603, insert); // a missing literal is only inserted before what can follow it
                check(1604, tok(Some(t)) == Some((n, n, ty))); // it is an empty token right after the last one
                check(1605, e.len() == 1); // and one error
                let x = &e[0];
                check(1606, at(x.span) == here); // the error is at the next token
                check(1607, matches!(&x.data, ErrorKind::Expecting(s) if mask == 0 || set_mask(s) == mask)); // and names the literal
            }
            Result::Panic(e) => {
                check(1608, !hit && !insert); // refused only when it is neither there nor can be inserted
                check(1609, e.len() == 1); // a refusal is one error
                let x = &e[0];
                check(1610, at(x.span) == here); // the error is at the next token
                check(1611, match (&x.data, next) {
                    (ErrorKind::UnexpectedEof, None) => true,
                    (ErrorKind::Expecting(s), Some(_)) => mask == 0 || set_mask(s) == mask,
                    _ => false,
                }); // and says what was expected, or that the input ended
            }
        }
    }
    /// Nothing is lost, and the next token is the same again.
    pub fn finish(&mut self) {
        self.peek();
        let got: Vec<_> = self.p.info().tokens.iter().map(|t| (t.span.lo as u32, t.span.hi as u32, t.ty)).collect();
        let need: Vec<_> = self.r.tokens.iter().map(|t| (t.lo, t.hi, ty_of(t.atom))).collect();
        check(2320, got == need); // the tokens recorded are those consumed
        let ex: Vec<_> = self.p.info().extracted_tokens.iter().map(|t| at(t.span)).collect();
        check(2321, ex == self.r.extracted); // extracted tokens
        let inv: Vec<_> = self.p.info().invalid_source.iter().map(|s| at(*s)).collect();
        check(2322, inv == self.r.invalid); // invalid characters
        let e: Vec<_> = self.p.info().errors.iter().map(error_of).collect();
        check(2323, e == self.r.errors); // the only errors recorded are about invalid characters
    }
}
