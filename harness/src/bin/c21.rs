//! C21: spans and the text they stand for.
use hx::lang::{Id, L0};
use hx::sym;
use hx::sym::check;
use hx::*;
use teleparse::lex::TokenSrc;
use teleparse::ToSpan;
use teleparse::prelude::*;

fn span() -> Span {
    Span::new(sym::u64s() as usize, sym::u64s() as usize)
}

/// The text of a span is the bytes of the source at its positions.
fn get<const N: usize>() {
    let len = sym::pick(N as u8 + 1);
    let mut buf = [0u8; N];
    sym::fill(&mut buf[..len]);
    for b in &buf[..len] {
        sym::assume(*b < 0x80);
    }
    let text = unsafe { std::str::from_utf8_unchecked(&buf[..len]) };
    let s = span();
    let got = s.get(text);
    text_is(text, s, got);
    check(2102, Token::new(s, L0::Op).src(text) == got); // the text of a token is that of its span
    let src = Token::new(s, L0::Op).to_src(text);
    check(2103, src.src == got && src.ty == L0::Op); // so is its source, with its type
    sym::cover(1);
}
fn text_is(text: &str, s: Span, got: &str) {
    let len = text.len();
    let hi = if s.hi < len { s.hi } else { len };
    if s.lo < hi {
        let lo = sym::each(s.lo);
        let hi = sym::each(hi);
        check(2100, got.len() == hi - lo && got.as_bytes() == &text.as_bytes()[lo..hi]); // the text of a span is the source from its start to its end
        check(2104, got.as_ptr() as usize == text.as_ptr() as usize + lo); // and borrowed from there
    } else {
        check(2101, got.is_empty()); // an empty, reversed or outside span has no text
    }
}
/// Characters of 1 to 4 bytes, at every pair of positions between characters.
fn chars<const N: usize>() {
    let mut buf = [0u8; 16];
    let mut at = vec![0usize];
    let mut n = 0;
    for _ in 0..sym::pick(N as u8 + 1) {
        let k = sym::pick(4) + 1;
        let c: &[u8] = [&b"x"[..], "é".as_bytes(), "→".as_bytes(), "😀".as_bytes()][k - 1];
        buf[n..n + k].copy_from_slice(c);
        n += k;
        at.push(n);
    }
    let text = unsafe { std::str::from_utf8_unchecked(&buf[..n]) };
    let i = sym::pick(at.len() as u8);
    let j = sym::pick(at.len() as u8 + 1);
    let s = Span::new(at[i], if j < at.len() { at[j] } else { sym::u64s() as usize });
    sym::assume(j < at.len() || s.hi >= n);
    let got = s.get(text);
    text_is(text, s, got);
    sym::cover(1);
}

#[derive(ToSpan, Clone)]
struct Named {
    s: Span,
    #[allow(dead_code)]
    other: Span,
}
#[derive(ToSpan, Clone)]
struct Unnamed(Token<L0>, #[allow(dead_code)] Span);
#[derive(ToSpan, Clone)]
enum Either {
    A(Named),
    B(Unnamed, #[allow(dead_code)] Named),
    C {
        t: Token<L0>,
        #[allow(dead_code)]
        u: Span,
    },
}
#[derive(ToSpan)]
struct Wrap<'a, T: ToSpan>(&'a T);

fn is(x: &impl ToSpan, lo: usize, hi: usize) -> bool {
    x.lo() == lo && x.hi() == hi && x.span() == Span::new(lo, hi)
}
/// For all positions at once.
fn to_span() {
    let (a, b, c, d, e) = (span(), span(), span(), span(), span());
    check(2110, is(&a, a.lo, a.hi) && is(&&a, a.lo, a.hi) && is(&&&a, a.lo, a.hi)); // a span, and a reference to it, is itself
    check(2111, is(&(a, b), a.lo, b.hi) && is(&(a, b, c), a.lo, c.hi)); // a tuple spans from its first to its last
    check(2112, is(&(a, b, c, d), a.lo, d.hi) && is(&(a, b, c, d, e), a.lo, e.hi)); // a longer tuple spans from its first to its last
    check(2113, is(&((a, b), (c, d)), a.lo, d.hi) && is(&(&a, Token::new(b, L0::Op)), a.lo, b.hi)); // nested tuples
    let t = Token::new(a, L0::Word);
    check(2114, is(&t, a.lo, a.hi) && t.ty == L0::Word && t.span == a); // a token has its span and type
    check(2115, is(&Id::from_span(a), a.lo, a.hi)); // a terminal has the span it is made from
    let n = Named { s: a, other: b };
    let u = Unnamed(t, b);
    check(2116, is(&n, a.lo, a.hi) && is(&u, a.lo, a.hi)); // a derived struct has its first field's span
    check(2117, is(&Either::A(n.clone()), a.lo, a.hi) && is(&Either::B(u, Named { s: c, other: d }), a.lo, a.hi) && is(&Either::C { t, u: b }, a.lo, a.hi)); // so has a derived enum
    check(2118, is(&Wrap(&n), a.lo, a.hi)); // and a derived generic struct
    check(2119, Span::from((a.lo, b.hi)) == Span::new(a.lo, b.hi) && Span::from(a.lo..b.hi) == Span::new(a.lo, b.hi)); // conversions
    check(2120, Token::new(a.lo..a.hi, L0::Word) == t && Token::new((a.lo, a.hi), L0::Word) == t); // a token from a range or a pair
    check(2121, (a == b) == (a.lo == b.lo && a.hi == b.hi)); // spans are equal when both ends are
    let same = Token::new(a, L0::Word) == Token::new(b, if a.lo < b.lo { L0::Op } else { L0::Word });
    check(2122, same == (a == b && !(a.lo < b.lo))); // tokens are equal when their spans and types are
    check(2123, Span::default() == Span::new(0, 0)); // the default span
    let s = TokenSrc::from((L0::Op, "+"));
    check(2124, s == TokenSrc::new(L0::Op, "+") && s != TokenSrc::new(L0::Op, "*") && s != TokenSrc::new(L0::Word, "+")); // sources are equal when type and text are
    sym::cover(1);
}
/// How spans and tokens are shown.
fn show(max: u8) {
    let (lo, hi) = (sym::pick(max), sym::pick(max));
    let s = Span::new(lo, hi);
    let got = format!("{s:?}");
    let want = if hi <= lo { format!("{lo}") } else { format!("{lo}..{hi}") };
    check(2130, got == want); // a span is shown as its ends, an empty one as its start
    let t = Token::new(s, L0::Op);
    check(2131, format!("{t:?}") == format!("token Op({want})")); // a token is shown as its type and span
    sym::cover(1);
}
harnesses! {
    h_get => if sym::tier() == 0 { get::<4>() } else { get::<8>() };
    h_chars => if sym::tier() == 0 { chars::<3>() } else { chars::<4>() };
    h_to_span => to_span();
    h_show => show(sym::bound(15, 120) as u8);
}
