//! C28: serialised values say what the values are.
use hx::ser::{get, put, V};
use hx::sym;
use hx::sym::check;
use hx::*;
use teleparse::lex::{Map, Set};
use teleparse::prelude::*;
use teleparse::syntax::{Error, ErrorKind, FirstSet, FollowSet, LitSet, TerminalSet};

#[derive_lexicon]
pub enum T {
    #[teleparse(regex(r"[a-z]+"), terminal(Id, KwA = "a"))]
    Word,
    #[teleparse(terminal(Add = "+", Mul = "*"))]
    Op,
    #[teleparse(regex(r"[0-9]+"), terminal(Num))]
    Digit,
}
impl serde::Serialize for T {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(*self as u32)
    }
}

fn field<'a>(v: &'a V, k: &str) -> Option<&'a V> {
    match v {
        V::Map(m) => m.iter().find(|f| f.0 == k).map(|f| &f.1),
        _ => None,
    }
}
fn number(v: Option<&V>) -> Option<u128> {
    match v {
        Some(V::N(n)) => Some(*n),
        _ => None,
    }
}
fn is_span(v: Option<&V>, s: Span) -> bool {
    let Some(v) = v else { return false };
    number(field(v, "lo")) == Some(s.lo as u128) && number(field(v, "hi")) == Some(s.hi as u128)
}
fn any_span() -> Span {
    Span::new(sym::u64s() as usize, sym::u64s() as usize)
}
fn spans() {
    let s = any_span();
    let v = put(&s);
    check(2800, is_span(v.as_ref(), s)); // a span is written as its start and its end
    check(2801, v.and_then(get::<Span>) == Some(s)); // and read back as it was
    sym::cover(1);
}

macro_rules! size {
    ($f:ident, $m:ident, $n:literal, $bit:ty) => {
        pub mod $f {
            use super::*;
            use hx::big::$m::L;
            const N: usize = $n;
            const ALL: u128 = if N == 128 { !0 } else { (1 << N) - 1 };
            pub fn sets() {
                let b = sym::u128s() & ALL;
                let s = Set::<L>::from_bits(b as $bit);
                let v = put(&s);
                check(2810, number(v.as_ref()) == Some(b)); // a set of types is written as its bits
                check(2811, v.and_then(get::<Set<L>>) == Some(s)); // and read back as it was
                sym::cover(1);
            }
            pub fn maps() {
                let mut m: Map<L, u32> = Map::new();
                let (i, j) = (sym::pick(N as u8), sym::pick(N as u8));
                let (x, y) = (sym::byte() as u32, sym::byte() as u32);
                *m.get_mut(L::from_id_unchecked(i)) = x;
                *m.get_mut(L::from_id_unchecked(j)) = y;
                let v = put(&m);
                let mut ok = false;
                if let Some(V::Seq(v)) = v {
                    ok = v.len() == N;
                    for (k, a) in v.iter().enumerate() {
                        let want = if k == j {
                            y
                        } else if k == i {
                            x
                        } else {
                            0
                        };
                        ok &= number(Some(a)) == Some(want as u128);
                    }
                }
                check(2820, ok); // a map is written as its items, in the order of the types
                sym::cover(1);
            }
        }
    };
}
size!(s1, w1, 1, u8);
size!(s7, w7, 7, u8);
size!(s8, w8, 8, u8);
size!(s9, w9, 9, u16);
size!(s16, w16, 16, u16);
size!(s17, w17, 17, u32);
size!(s32, w32, 32, u32);
size!(s33, w33, 33, u64);
size!(s64, w64, 64, u64);
size!(s65, w65, 65, u128);
size!(s128, w128, 128, u128);
macro_rules! all {
    ($f:ident) => {{
        match sym::pick(11) {
            0 => s1::$f(),
            1 => s7::$f(),
            2 => s8::$f(),
            3 => s9::$f(),
            4 => s16::$f(),
            5 => s17::$f(),
            6 => s32::$f(),
            7 => s33::$f(),
            8 => s64::$f(),
            9 => s65::$f(),
            _ => s128::$f(),
        }
    }};
}

const LITS: [[&str; 4]; 3] = [["a", "", "ab", "b c"], ["+", "*", "\"", "++"], ["1", "0", "00", "é"]];
/// No literal, some of them, or any.
fn literals(of: usize) -> usize {
    sym::pick([17, 9, 5][of])
}
fn any(of: usize) -> usize {
    [16, 8, 4][of]
}
fn is_lits(v: Option<&V>, of: usize, state: usize) -> bool {
    let Some(v) = v else { return false };
    if state == any(of) {
        return field(v, "type") == Some(&V::S("Any".to_string()));
    }
    let Some(V::Seq(set)) = field(v, "set") else { return false };
    let mut ok = field(v, "type") == Some(&V::S("Match".to_string()));
    let mut n = 0;
    for (i, l) in LITS[of].iter().enumerate() {
        if state >> i & 1 != 0 {
            n += 1;
            ok &= set.iter().any(|x| matches!(x, V::S(s) if s == l));
        }
    }
    ok && set.len() == n
}
fn literal_sets() {
    let state = literals(0);
    let mut s = LitSet::new();
    if state == any(0) {
        s.union_universe();
    } else {
        for (i, l) in LITS[0].iter().enumerate() {
            if state >> i & 1 != 0 {
                s.insert(l);
            }
        }
    }
    check(2830, is_lits(put(&s).as_ref(), 0, state)); // a set of literals is written as its literals, or as any
    sym::cover(1);
}
fn terms() -> (TerminalSet<T>, [usize; 3], bool) {
    let mut s = TerminalSet::new();
    let states = [literals(0), literals(1), literals(2)];
    for (of, ty) in [T::Word, T::Op, T::Digit].into_iter().enumerate() {
        if states[of] == any(of) {
            s.insert(ty, None);
        } else {
            for (i, l) in LITS[of].iter().enumerate() {
                if states[of] >> i & 1 != 0 {
                    s.insert(ty, Some(l));
                }
            }
        }
    }
    let e = sym::pick(2) == 1;
    if e {
        s.insert_e();
    }
    (s, states, e)
}
fn is_terms(v: Option<&V>, states: [usize; 3], e: bool) -> bool {
    let Some(v) = v else { return false };
    let Some(V::Seq(m)) = field(v, "map") else { return false };
    m.len() == 3 && (0..3).all(|of| is_lits(Some(&m[of]), of, states[of])) && field(v, "e") == Some(&V::B(e))
}
fn terminal_sets() {
    let (s, states, e) = terms();
    check(2840, is_terms(put(&s).as_ref(), states, e)); // a set of terminals is written as its literals of each type, and whether it has the empty word
    check(2841, is_terms(put(&FirstSet::from(s.clone())).as_ref(), states, e)); // so is a FIRST set
    check(2842, is_terms(put(&FollowSet::from(s)).as_ref(), states, e)); // so is a FOLLOW set
    sym::cover(1);
}
fn errors() {
    let span = any_span();
    let kind = sym::pick(6);
    let c = sym::byte();
    sym::assume(c < 0x80);
    let text = String::from(c as char);
    let mut want = None;
    let data = match kind {
        0 => ErrorKind::Custom(text.clone()),
        1 => ErrorKind::UnexpectedCharacters,
        2 => ErrorKind::UnexpectedTokens,
        3 => {
            let mut f = FirstSet::one(T::Op, Some("+"));
            let (a, e) = (sym::pick(2), sym::pick(2) == 1);
            if a == 1 {
                f.insert(T::Word, None);
            }
            if e {
                f.insert_epsilon();
            }
            want = Some(([a * any(0), 1, 0], e));
            ErrorKind::Expecting(f)
        }
        4 => ErrorKind::UnexpectedEof,
        _ => ErrorKind::UnexpectedNoAdvanceInLoop,
    };
    let v = put(&Error::<T>::new(span, data));
    check(2850, is_span(v.as_ref().and_then(|v| field(v, "span")), span)); // an error is written with its span
    let d = v.as_ref().and_then(|v| field(v, "data"));
    let name = ["Custom", "UnexpectedCharacters", "UnexpectedTokens", "Expecting", "UnexpectedEof", "UnexpectedNoAdvanceInLoop"][kind];
    let (n, inner) = match d {
        Some(V::S(n)) => (n.as_str(), None),
        Some(V::Var(n, v)) => (*n, Some(&**v)),
        _ => ("", None),
    };
    check(2851, n == name); // and its kind
    check(2852, kind != 0 || matches!(inner, Some(V::S(s)) if *s == text)); // and its text
    check(2853, match want {
        Some((states, e)) => is_terms(inner, states, e),
        None => kind == 0 || inner.is_none(),
    }); // and what was expected
    sym::cover(1);
}

harnesses! {
    h_spans => spans();
    h_sets => all!(sets);
    h_maps => all!(maps);
    h_literal_sets => literal_sets();
    h_terminal_sets => terminal_sets();
    h_errors => errors();
}
