//! C27: text and value nodes hold the text, or the value, of what they span.
use hx::grams::*;
use hx::lang::*;
use hx::lexing::*;
use hx::run::*;
use hx::sym::check;
use hx::*;
use teleparse::{Parser, ToSpan};

mod v {
    use hx::lexing::*;
    use teleparse::prelude::*;
    #[derive_syntax]
    #[teleparse(root, no_test)]
    pub struct S {
        pub first: tp::Parse<u8, Number>,
        pub text: tp::String<tp::Nev<Name>>,
        pub rest: tp::Vec<P>,
    }
    #[derive_syntax]
    pub struct P {
        pub op: tp::Quote<Box<str>, OpEq>,
        pub v: tp::Parse<u16, Number>,
        pub t: tp::Option<tp::Quote<Own, Name>>,
    }
    #[derive_syntax]
    #[teleparse(root, no_test)]
    pub struct Flag(pub tp::Parse<bool, tp::Option<Name>>, pub tp::Quote<Own, tp::Split<Number, OpLt>>);
    /// Text that starts or ends with something absent.
    #[derive_syntax]
    #[teleparse(root, no_test)]
    pub struct Gap {
        pub n: Number,
        pub a: tp::String<(tp::Option<OpEq>, tp::Option<Name>)>,
        pub b: tp::Parse<u16, (tp::Option<OpLt>, Number)>,
        pub c: tp::Quote<Own, (tp::Vec<Text>, tp::Option<OpLt>, tp::Exists<Name>)>,
        pub d: tp::Option<tp::Parse<char, (OpEq, tp::Option<Name>)>>,
    }
    /// A user's own text.
    pub struct Own(pub usize, pub Vec<u8>);
    impl From<&str> for Own {
        fn from(s: &str) -> Self {
            Own(s.len(), s.as_bytes().to_vec())
        }
    }
}

/// Digits to a number that is at most `max`.
fn value(s: &[u8], max: u32) -> Option<u32> {
    let mut v = 0u32;
    if s.is_empty() {
        return None;
    }
    for c in s {
        if !c.is_ascii_digit() {
            return None;
        }
        v = v * 10 + (*c - b'0') as u32;
        if v > max {
            return None;
        }
    }
    Some(v)
}
fn of(text: &str, s: &impl ToSpan) -> Vec<u8> {
    text.as_bytes()[s.lo()..s.hi()].to_vec()
}
fn values<const N: usize>(alpha: &[u8], before: &str) {
    let _ = <v::S as teleparse::Root>::metadata();
    let mut buf = [0u8; 32];
    buf[..before.len()].copy_from_slice(before.as_bytes());
    let mut b = [0u8; N];
    let n = source::<N>(alpha, 0, &mut b);
    buf[before.len()..before.len() + n].copy_from_slice(&b[..n]);
    let text = unsafe { std::str::from_utf8_unchecked(&buf[..before.len() + n]) };
    let Ok(mut p) = Parser::<LA>::new(text) else { return };
    let Ok(Some(s)) = p.parse::<v::S>() else {
        sym::cover(2);
        return;
    };
    sym::cover(1);
    check(2701, s.first.as_ref().ok().map(|v| *v as u32) == value(&of(text, &s.first), 255)); // the value is that of the text, or an error
    check(2702, s.text.as_bytes() == &of(text, &s.text)[..]); // a text node has the text it spans
    for x in s.rest.iter() {
        check(2703, x.op.as_bytes() == b"="); // text of a literal
        check(2704, x.v.as_ref().ok().map(|v| *v as u32) == value(&of(text, &x.v), 65535)); // the value of an element is that of its text
        if let Some(t) = &*x.t {
            check(2705, t.0 == t.hi() - t.lo() && t.1 == of(text, t)); // a user's own text type is made from the text spanned
            sym::cover(3);
        }
    }
}
fn gaps<const N: usize>(alpha: &[u8], before: &str) {
    let _ = <v::Gap as teleparse::Root>::metadata();
    let mut buf = [0u8; 32];
    buf[..before.len()].copy_from_slice(before.as_bytes());
    let mut b = [0u8; N];
    let n = source::<N>(alpha, 0, &mut b);
    buf[before.len()..before.len() + n].copy_from_slice(&b[..n]);
    let text = unsafe { std::str::from_utf8_unchecked(&buf[..before.len() + n]) };
    let Ok(mut p) = Parser::<LA>::new(text) else { return };
    let Ok(Some(s)) = p.parse::<v::Gap>() else {
        sym::cover(2);
        return;
    };
    sym::cover(1);
    check(2711, s.a.lo() == s.n.hi() || s.a.lo() >= s.n.hi() && b"=abcdefghijklmnopqrstuvwxyz_".contains(&text.as_bytes()[s.a.lo()])); // a node that starts with something absent starts right after the token before
    check(2712, s.a.as_bytes() == &of(text, &s.a)[..]); // the text is what is spanned, with the gap it starts with
    check(2713, s.b.as_ref().ok().map(|v| *v as u32) == value(&of(text, &s.b), 65535)); // the value is that of what is spanned, gap included
    check(2714, s.c.1 == of(text, &s.c) && s.c.0 == s.c.1.len()); // the text of a node that can be empty
    if let Some(d) = &*s.d {
        let t = of(text, d);
        check(2715, d.as_ref().ok().map(|c| *c as u32) == if t.len() == 1 { Some(t[0] as u32) } else { None }); // a character is the value of a text of one
        sym::cover(3);
    }
}
fn flags<const N: usize>(alpha: &[u8]) {
    let _ = <v::Flag as teleparse::Root>::metadata();
    let mut b = [0u8; N];
    let n = source::<N>(alpha, 0, &mut b);
    let text = unsafe { std::str::from_utf8_unchecked(&b[..n]) };
    let Ok(mut p) = Parser::<LA>::new(text) else { return };
    let Ok(Some(s)) = p.parse::<v::Flag>() else {
        sym::cover(2);
        return;
    };
    sym::cover(1);
    let t = of(text, &s.0);
    let want = match &t[..] {
        b"true" => Some(true),
        b"false" => Some(false),
        _ => None,
    };
    check(2706, s.0.as_ref().ok().copied() == want); // the value of an optional text is an error when the text is none
    check(2707, s.1 .1 == of(text, &s.1)); // the text of a list is everything it spans, separators and gaps too
    if want.is_some() {
        sym::cover(3);
    }
}
harnesses! {
    h_u8 => if sym::tier() == 0 { values::<5>(b"0123456789xa", "") } else { values::<7>(b"0123456789xa =", "") };
    h_rest => if sym::tier() == 0 { values::<6>(b"=0956a x", "1a") } else { values::<8>(b"=0956a x", "1a") };
    h_u16 => if sym::tier() == 0 { values::<5>(b"01234567x9", "1a=") } else { values::<7>(b"01234567x9 ", "1a=") };
    h_names => if sym::tier() == 0 { values::<6>(b"ab 0=/*", "1") } else { values::<8>(b"ab 0=/*", "1") };
    h_flag => if sym::tier() == 0 { flags::<6>(b"true1") } else { flags::<8>(b"truefals1") };
    h_list => if sym::tier() == 0 { flags::<6>(b"12< t") } else { flags::<8>(b"12< t") };
    h_gap => if sym::tier() == 0 { gaps::<6>(b"1a =<", "1 ") } else { gaps::<8>(b"1a =<\n", "1 ") };
    h_gap_more => if sym::tier() == 0 { gaps::<6>(b"1a =<\"", " 1\n 2") } else { gaps::<8>(b"1a =<\"", " 1\n 2") };
    h_g23 => parse_of!(g23::S, 5, 7, EVERYTHING, TREE);
}
