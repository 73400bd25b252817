//! Two parses of sources that differ only in what the parser never sees.
use crate::lang::*;
use crate::refp::Er;
use crate::run::*;
use crate::sym;
use crate::sym::check;
use crate::tree::*;
use teleparse::{Parser, Production, Root};

/// Rewrites the positions of a dump.
struct Moved<'a> {
    g: &'a G,
    d: &'a mut [u32],
    at: usize,
    to: &'a [u32],
}
impl Moved<'_> {
    fn get(&mut self) -> u32 {
        self.at += 1;
        self.d[self.at - 1]
    }
    fn place(&mut self) {
        for _ in 0..2 {
            let v = self.d[self.at] as usize;
            self.d[self.at] = if v < self.to.len() { self.to[v] } else { u32::MAX };
            self.at += 1;
        }
    }
    fn node(&mut self, n: usize) {
        let g = self.g;
        let kind = self.get();
        self.place();
        match &g.d[n] {
            D::Undefined => {}
            D::Tok { .. } => self.at += 1,
            D::Seq(v) => v.iter().for_each(|x| self.node(*x)),
            D::Alt(v) => {
                let i = self.get() as usize;
                self.node(v[i])
            }
            D::Opt(t) => {
                if kind == K_SOME {
                    self.node(*t)
                }
            }
            D::Exists(_) => self.at += 1,
            D::Plus(t) | D::Star(t) | D::Loop(t) => {
                for _ in 0..self.get() {
                    self.node(*t)
                }
            }
            D::Split(t, s) | D::Punct(t, s) => {
                for _ in 0..self.get() {
                    self.node(*t)
                }
                for _ in 0..self.get() {
                    self.node(*s)
                }
            }
            D::Rec(t, r) => {
                let there = self.get();
                self.place();
                if there != 0 {
                    self.node(*t)
                }
                self.node(*r)
            }
            D::Text(_) => {
                let k = self.get() as usize;
                self.at += k;
            }
        }
    }
}

struct Seen {
    dump: Option<Vec<u32>>,
    errors: Vec<Er>,
    tokens: Vec<(u32, u32, u32)>,
    rest: u32,
}
fn see<R: Root + Ref>(text: &str) -> Option<Seen>
where
    R::Prod: Production<L = L0>,
{
    let Ok(mut p) = Parser::<L0>::new(text) else { return None };
    let Ok(t) = p.parse::<R>() else { return None };
    let dump = t.map(|t| {
        let mut o = vec![];
        t.dump(&mut o);
        o
    });
    let rest = (text.len() - p.remaining().len()) as u32;
    Some(Seen {
        dump,
        errors: p.info().errors.iter().map(error_of).collect(),
        tokens: p.info().tokens.iter().map(|t| (t.span.lo as u32, t.span.hi as u32, t.ty as u32)).collect(),
        rest,
    })
}

/// What is put into a gap between tokens.
const GAPS: [&[u8]; 5] = [b"", b" ", b"#", b"  ", b" # "];

/// A source of up to `N` tokens, and the same with gaps: `every` gap one of
/// the first `kinds`, or one gap one of the others.
pub fn gaps<R: Root + Ref, const N: usize>(g: &(G, usize), alpha: &[u8], every: usize)
where
    R::Prod: Production<L = L0>,
{
    let _ = R::metadata();
    let mut buf = [0u8; N];
    let len = source::<N>(alpha, 0, &mut buf);
    let mut wide = Vec::with_capacity(4 * N + 4);
    let one = if every == 0 { sym::pick(len as u8 + 1) } else { 0 };
    // where each position of the second source is in the first
    let mut to = Vec::with_capacity(4 * N + 4);
    for i in 0..=len {
        let gap = if every > 0 {
            sym::pick(every as u8)
        } else if i == one {
            1 + sym::pick(4)
        } else {
            0
        };
        for c in GAPS[gap] {
            wide.push(*c);
            to.push(i as u32);
        }
        if i < len {
            wide.push(buf[i]);
        }
        to.push(i as u32);
    }
    let tight = unsafe { std::str::from_utf8_unchecked(&buf[..len]) };
    let wide = unsafe { std::str::from_utf8_unchecked(&wide) };
    let (Some(a), Some(mut b)) = (see::<R>(tight), see::<R>(wide)) else {
        check(500, false); // the grammar of the harness is rejected
        return;
    };
    check(2601, a.dump.is_some() == b.dump.is_some()); // gaps do not decide whether there is a tree
    if let (Some(x), Some(y)) = (&a.dump, &mut b.dump) {
        sym::cover(1);
        let n = y.len();
        if x.len() == n {
            Moved { g: &g.0, d: y, at: 0, to: &to }.node(g.1);
        }
        check(2602, x == y); // the tree is the same, at the corresponding places
    } else {
        sym::cover(2);
    }
    let back = |v: u32| to[v as usize];
    check(2603, a.errors.len() == b.errors.len()); // as many errors
    for (x, y) in a.errors.iter().zip(&b.errors) {
        check(2604, x.kind == y.kind && x.set == y.set && x.lo == back(y.lo) && x.hi == back(y.hi)); // the same errors at the corresponding places
    }
    check(2605, a.tokens.len() == b.tokens.len()); // as many tokens
    for (x, y) in a.tokens.iter().zip(&b.tokens) {
        check(2606, x.2 == y.2 && x.0 == back(y.0) && x.1 == back(y.1) && y.1 - y.0 == x.1 - x.0); // the same tokens at the corresponding places
    }
    check(2607, a.rest == back(b.rest)); // parsing stops at the same token
}
#[macro_export]
macro_rules! gaps_of {
    ($r:ty, $q:literal, $t:literal, $every:literal) => {{
        let g = $crate::tree::G::of::<$r>();
        if $crate::sym::tier() == 0 {
            $crate::relate::gaps::<$r, $q>(&g, $crate::lang::TOKENS_ONLY, $every)
        } else {
            $crate::relate::gaps::<$r, $t>(&g, $crate::lang::TOKENS_ONLY, $every)
        }
    }};
}
