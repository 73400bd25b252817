//! The common part of the parser harnesses: parse a symbolic source with the
//! real parser, then with the reference, and compare.
use crate::gram::{Derive, EPS};
use crate::lang::*;
use crate::refp::*;
use crate::sym;
use crate::sym::check;
use crate::tree::*;
use teleparse::prelude::*;
use teleparse::syntax::{self, ErrorKind, FirstSet};
use teleparse::{Parser, Production, Root};

/// Error-free parses are derivations, and derivable inputs parse error-free.
pub const SOUND: u32 = 1;
/// Errors are the documented ones.
pub const ERRORS: u32 = 2;
/// The tree is the documented one, also after recovery.
pub const TREE: u32 = 4;
/// Spans nest and are ordered.
pub const SPANS: u32 = 8;
/// Tokens, extracted tokens and invalid characters are accounted for.
pub const TOKENS: u32 = 16;
/// Parse a second time from where the first parse stopped.
pub const AGAIN: u32 = 32;
/// Failure is explained.
pub const EXPLAIN: u32 = 64;
/// Error-free parses are the ones of a predictive parser.
pub const PREDICT: u32 = 128;
/// Tokens have the semantic types the tree gives them.
pub const SEMANTIC: u32 = 256;
/// The message of an error names what it expects.
pub const MESSAGE: u32 = 512;
pub const FULL: u32 = ERRORS | TREE | TOKENS;

pub fn set_mask(s: &FirstSet<L0>) -> u32 {
    let mut m = 0;
    for (i, t) in ATOM_TEXT.iter().enumerate() {
        if s.contains(Some((*t).into())) {
            m |= 1 << i;
        }
    }
    if s.contains_epsilon() {
        m |= EPS;
    }
    m
}

pub fn error_of(e: &syntax::Error<L0>) -> Er {
    let (kind, set) = match &e.data {
        ErrorKind::UnexpectedCharacters => (E_CHARS, 0),
        ErrorKind::UnexpectedTokens => (E_TOKENS, 0),
        ErrorKind::Expecting(s) => (E_EXPECT, set_mask(s)),
        ErrorKind::UnexpectedEof => (E_EOF, 0),
        ErrorKind::UnexpectedNoAdvanceInLoop => (E_STUCK, 0),
        ErrorKind::Custom(_) => (99, 0),
    };
    Er { lo: e.span.lo as u32, hi: e.span.hi as u32, kind, set }
}

/// A symbolic source of up to `N` bytes, each one of `alpha`.
#[inline(always)]
pub fn source<const N: usize>(alpha: &[u8], min: usize, buf: &mut [u8; N]) -> usize {
    let len = min + sym::pick((N - min + 1) as u8);
    sym::fill(&mut buf[..len]);
    for c in buf[..len].iter() {
        let mut ok = false;
        for a in alpha {
            ok |= c == a;
        }
        sym::assume(ok);
    }
    len
}

/// Walks a dump along its grammar: spans inside the parent's, in source order.
struct Walk<'a> {
    g: &'a G,
    d: &'a [u32],
    at: usize,
    len: u32,
    leaves: Vec<(u32, u32, u32)>,
    /// spans with the semantic types given to them
    tags: Vec<(u32, u32, u32)>,
    /// the leaves are not all the tokens (`Exists`, `String` hide theirs)
    hidden: bool,
    pub ok_order: bool,
    pub ok_nest: bool,
    pub ok_bounds: bool,
}
impl<'a> Walk<'a> {
    fn new(g: &'a G, d: &'a [u32], len: usize) -> Self {
        Walk {
            g,
            d,
            at: 0,
            len: len as u32,
            leaves: vec![],
            tags: vec![],
            hidden: false,
            ok_order: true,
            ok_nest: true,
            ok_bounds: true,
        }
    }
    fn get(&mut self) -> u32 {
        let v = self.d[self.at];
        self.at += 1;
        v
    }
    /// Child `i` of `p`, which is a struct or a union.
    fn field(&mut self, p: usize, i: usize, n: usize, lo: u32, hi: u32, from: &mut u32) {
        let (a, b) = self.child(n, lo, hi, from);
        let m = self.g.sems(p).map_or(0, |m| m[i]);
        if m != 0 {
            self.tags.push((a, b, m));
        }
    }
    fn child(&mut self, n: usize, lo: u32, hi: u32, from: &mut u32) -> (u32, u32) {
        let (a, b) = self.node(n);
        self.ok_nest &= lo <= a && b <= hi;
        self.ok_order &= *from <= a;
        *from = b;
        (a, b)
    }
    fn node(&mut self, n: usize) -> (u32, u32) {
        let g = self.g;
        let _kind = self.get();
        let (lo, hi) = (self.get(), self.get());
        self.ok_bounds &= lo <= hi && hi <= self.len;
        let mut from = lo;
        match &g.d[n] {
            D::Undefined => {}
            D::Tok { mask, .. } => {
                let ty = self.get();
                self.leaves.push((lo, hi, if ty == 1 { *mask } else { 0 }));
            }
            D::Seq(v) => v.iter().enumerate().for_each(|(i, x)| self.field(n, i, *x, lo, hi, &mut from)),
            D::Alt(v) => {
                let i = self.get() as usize;
                self.field(n, i, v[i], lo, hi, &mut from)
            }
            D::Opt(t) => {
                if _kind == K_SOME {
                    self.child(*t, lo, hi, &mut from);
                }
            }
            D::Exists(_) => {
                if self.get() != 0 {
                    self.hidden = true
                }
            }
            D::Plus(t) | D::Star(t) | D::Loop(t) => {
                for _ in 0..self.get() {
                    self.child(*t, lo, hi, &mut from);
                }
            }
            D::Split(t, s) | D::Punct(t, s) => {
                let k = self.get();
                let first = self.leaves.len();
                for _ in 0..k {
                    self.child(*t, lo, hi, &mut from);
                }
                from = lo;
                for _ in 0..self.get() {
                    self.child(*s, lo, hi, &mut from);
                }
                // elements and separators alternate in the source
                self.leaves[first..].sort();
            }
            D::Rec(t, r) => {
                let there = self.get();
                let (hlo, hhi) = (self.get(), self.get());
                self.ok_nest &= lo <= hlo && hhi <= hi && hlo <= hhi;
                if there != 0 {
                    self.child(*t, hlo, hhi, &mut from);
                }
                from = hhi;
                self.child(*r, lo, hi, &mut from);
            }
            D::Text(_) => {
                let k = self.get() as usize;
                self.at += k;
                self.hidden = true;
            }
        }
        (lo, hi)
    }
}

/// Parse up to `N` symbolic bytes of `alpha` as `R`.
#[inline(never)]
pub fn parse<R: Root + Ref, const N: usize>(g: &(G, usize), alpha: &[u8], asp: u32)
where
    R::Prod: Production<L = L0>,
{
    let _ = R::metadata();
    let mut buf = [0u8; N];
    let len = source::<N>(alpha, 0, &mut buf);
    let text = unsafe { std::str::from_utf8_unchecked(&buf[..len]) };
    on_text::<R>(g, text, asp);
}

pub fn on_text<R: Root + Ref>(g: &(G, usize), text: &str, asp: u32)
where
    R::Prod: Production<L = L0>,
{
    let (g, root) = (&g.0, g.1);
    let Ok(mut p) = Parser::<L0>::new(text) else { return };
    let mut rp = Rp::new(text.as_bytes(), g);
    let rounds = if asp & AGAIN != 0 { 2 } else { 1 };
    let mut tokens_before = 0;
    let mut errors_before = 0;
    for round in 0..rounds {
        let tree: Option<R> = match p.parse::<R>() {
            Ok(t) => t,
            Err(_) => {
                check(500, false); // the grammar of the harness is rejected
                return;
            }
        };
        let rtree = rp.parse(root);
        let errors: Vec<Er> = p.info().errors.iter().map(error_of).collect();
        let new_errors = errors.len() - errors_before.min(errors.len());
        let mut dump = Vec::new();
        if let Some(t) = &tree {
            t.dump(&mut dump);
        }
        sym::observe(tree.is_some() as u64);
        sym::observe(errors.len() as u64);
        for d in &dump {
            sym::observe(*d as u64);
        }
        let consumed: Vec<(u32, u32)> = p
            .info()
            .tokens
            .iter()
            .map(|c| (c.span.lo as u32, c.span.hi as u32))
            .collect();
        let clean = tree.is_some() && new_errors == 0;
        if asp & SOUND != 0 && round == 0 {
            sound(g, root, text, &dump, tree.is_some(), errors.len(), &consumed);
        }
        if asp & PREDICT != 0 && round == 0 {
            let ref_clean = rtree.is_some() && rp.errors.is_empty();
            check(505, clean == ref_clean); // error-free exactly when predictive parsing of the grammar is
            if clean && ref_clean {
                check(506, rtree.as_ref().map(|t| &t.dump) == Some(&dump)); // an error-free parse has the tree of the grammar
            }
        }
        if asp & EXPLAIN != 0 {
            check(700, tree.is_some() || new_errors > 0); // no tree, and no error says why
        }
        if asp & ERRORS != 0 {
            check(701, tree.is_some() == rtree.is_some()); // a tree is produced exactly when the rules produce one
            check(702, errors.len() == rp.errors.len()); // number of errors
            for (a, b) in errors.iter().zip(rp.errors.iter()) {
                check(703, a.kind == b.kind); // kind of error
                check(704, a.lo == b.lo && a.hi == b.hi); // span of error
                check(705, a.set == b.set); // what the error says is expected
            }
        }
        if asp & TREE != 0 {
            check(711, tree.is_some() == rtree.is_some()); // a tree is produced exactly when the rules produce one
            if let (Some(_), Some(r)) = (&tree, &rtree) {
                check(712, r.dump == dump); // the tree is the one of the rules
            }
        }
        if asp & SPANS != 0 && tree.is_some() {
            let mut w = Walk::new(g, &dump, text.len());
            let (lo, hi) = w.node(root);
            check(1001, w.ok_bounds); // every node's span is ordered and inside the source
            check(1002, w.ok_nest); // a child's span lies inside its parent's
            check(1003, w.ok_order); // siblings are in source order and do not overlap
            let span = tree.as_ref().map(|t| t.span()).unwrap_or(Span::new(0, 0));
            check(1004, span.lo as u32 == lo && span.hi as u32 == hi); // span of the root
            let mut real = true;
            for (a, b, _) in &w.leaves {
                if a < b {
                    real &= consumed.contains(&(*a, *b));
                }
            }
            check(1005, real); // a terminal with text is a token the parser consumed
        }
        if asp & TOKENS != 0 {
            let want: Vec<(u32, u32)> = rp.tokens.iter().map(|t| (t.lo, t.hi)).collect();
            check(801, consumed == want); // tokens consumed
            let mut types = true;
            for (c, t) in p.info().tokens.iter().zip(rp.tokens.iter()) {
                types &= c.ty == ty_of(t.atom);
            }
            check(802, types); // types of the tokens consumed
            let ex: Vec<(u32, u32)> = p
                .info()
                .extracted_tokens
                .iter()
                .map(|t| (t.span.lo as u32, t.span.hi as u32))
                .collect();
            check(803, ex == rp.extracted); // extracted tokens
            let inv: Vec<(u32, u32)> = p
                .info()
                .invalid_source
                .iter()
                .map(|t| (t.lo as u32, t.hi as u32))
                .collect();
            check(804, inv == rp.invalid); // invalid characters
        }
        if asp & SEMANTIC != 0 {
            let mut tags = Vec::new();
            for t in p.info().tokens.iter() {
                tags.push(t.semantic.contains(L0::Sem1) as u32 | (t.semantic.contains(L0::Sem2) as u32) << 1 | (t.semantic.contains(L0::Sem3) as u32) << 2);
                let mut other = t.semantic;
                other.remove(L0::Sem1);
                other.remove(L0::Sem2);
                other.remove(L0::Sem3);
                check(1703, other.is_empty()); // no token has a semantic type that no field gives
            }
            check(1701, tags == rp.tags); // semantic types of the tokens
            if clean && round == 0 {
                let mut w = Walk::new(g, &dump, text.len());
                w.node(root);
                let mut ok = true;
                for (i, (lo, hi)) in consumed.iter().enumerate() {
                    let mut m = 0;
                    for (a, b, x) in &w.tags {
                        if a <= lo && hi <= b {
                            m |= x;
                        }
                    }
                    ok &= tags[i] == m;
                }
                check(1702, ok); // a token of an error-free parse has exactly the semantic types of the fields and variants around it
            }
        }
        if asp & MESSAGE != 0 {
            for (e, r) in p.info().errors[errors_before..].iter().zip(&rp.errors[errors_before..]) {
                message(e, r, text);
            }
        }
        check(2401, consumed.len() >= tokens_before && errors.len() >= errors_before); // the record of a parse only grows
        tokens_before = consumed.len();
        errors_before = errors.len();
        if clean {
            sym::cover(1);
        } else if tree.is_some() {
            sym::cover(2);
        } else {
            sym::cover(3);
        }
    }
}

/// One parser, asked for one root, then another, then the first again.
pub fn turns<A: Root + Ref, B: Root + Ref, const N: usize>(a: &(G, usize), b: &(G, usize), alpha: &[u8])
where
    A::Prod: Production<L = L0>,
    B::Prod: Production<L = L0>,
{
    let _ = (A::metadata(), B::metadata());
    let mut buf = [0u8; N];
    let len = source::<N>(alpha, 0, &mut buf);
    let text = unsafe { std::str::from_utf8_unchecked(&buf[..len]) };
    let Ok(mut p) = Parser::<L0>::new(text) else { return };
    let mut rp = Rp::new(text.as_bytes(), &a.0);
    fn one<R: Root + Ref>(p: &mut Parser<'_, L0>) -> Option<Option<Vec<u32>>>
    where
        R::Prod: Production<L = L0>,
    {
        let t = p.parse::<R>().ok()?;
        Some(t.map(|t| {
            let mut o = vec![];
            t.dump(&mut o);
            o
        }))
    }
    let mut trees = 0;
    for round in 0..3 {
        let (got, g) = if round == 1 { (one::<B>(&mut p), b) } else { (one::<A>(&mut p), a) };
        let Some(got) = got else {
            check(500, false); // the grammar of the harness is rejected
            return;
        };
        rp.g = &g.0;
        let want = rp.parse(g.1).map(|t| t.dump);
        trees += got.is_some() as usize;
        check(2410, got == want); // another root, or the same again, goes on with its own rules where the parse before stopped
        let errors: Vec<Er> = p.info().errors.iter().map(error_of).collect();
        let same = errors.len() == rp.errors.len()
            && errors.iter().zip(rp.errors.iter()).all(|(x, y)| x.kind == y.kind && x.lo == y.lo && x.hi == y.hi && x.set == y.set);
        check(2411, same); // and reports what these rules report
        let mut tokens = p.info().tokens.len() == rp.tokens.len();
        for (x, y) in p.info().tokens.iter().zip(rp.tokens.iter()) {
            tokens &= (x.span.lo as u32, x.span.hi as u32) == (y.lo, y.hi);
        }
        check(2412, tokens); // and adds the tokens it consumes to those before
    }
    if trees == 3 {
        sym::cover(1);
        sym::cover(2);
    } else {
        sym::cover(3);
    }
}
#[macro_export]
macro_rules! turns_of {
    ($a:ty, $b:ty, $q:literal, $t:literal, $alpha:expr) => {{
        let (a, b) = ($crate::tree::G::of::<$a>(), $crate::tree::G::of::<$b>());
        if $crate::sym::tier() == 0 {
            $crate::run::turns::<$a, $b, $q>(&a, &b, $alpha)
        } else {
            $crate::run::turns::<$a, $b, $t>(&a, &b, $alpha)
        }
    }};
}

/// Every terminal as a message names it: a type, or a literal in quotes.
const NAMES: [(&str, u32); 9] = [
    ("Word", A_A | A_B | A_W),
    ("\"a\"", A_A),
    ("\"b\"", A_B),
    ("\"+\"", A_ADD),
    ("\"*\"", A_MUL),
    ("\"(\"", A_PO),
    ("\")\"", A_PC),
    ("Digit", A_NUM),
    ("\";\"", A_SEMI),
];
fn message(e: &syntax::Error<L0>, r: &Er, text: &str) {
    let m = e.message(text);
    if r.kind == crate::refp::E_EXPECT {
        for (name, mask) in NAMES {
            let whole = r.set & A_W != 0;
            let want = match mask {
                A_A | A_B => r.set & mask != 0 && !whole,
                _ => r.set & mask == mask,
            };
            check(2901, m.contains(name) == want); // the message names each terminal that is expected, and no other
        }
        sym::cover(4);
    } else if r.kind == crate::refp::E_CHARS || r.kind == crate::refp::E_TOKENS {
        let want = &text.as_bytes()[r.lo as usize..r.hi as usize];
        check(2902, m.len() >= want.len() && &m.as_bytes()[m.len() - want.len()..] == want); // the message quotes what is unexpected
        sym::cover(5);
    } else {
        check(2903, !m.is_empty()); // there is a message
    }
}

/// C05 against derivability alone. Every byte of the source is a token.
fn sound(
    g: &G,
    root: usize,
    text: &str,
    dump: &[u32],
    some: bool,
    errors: usize,
    consumed: &[(u32, u32)],
) {
    let src = text.as_bytes();
    let n = src.len();
    let hit = |i: usize, mask: u32| {
        let mut r = false;
        for (c, a) in BYTES {
            if a & mask != 0 {
                r |= src[i] == c;
            }
        }
        r
    };
    let ends = Derive::new(&g.cfg, n, &hit).ends(g.cfg_of[root], 0);
    let whole = ends >> n & 1 != 0;
    check(501, !whole | (some && errors == 0)); // a source the grammar derives parses without error
    check(502, !whole | (consumed.len() == n)); // and is consumed to its end
    if some && errors == 0 {
        check(503, consumed.len() <= n && ends >> consumed.len() & 1 != 0); // what an error-free parse consumes is derived by the grammar
        let mut w = Walk::new(g, dump, n);
        w.node(root);
        if !w.hidden {
            let spans: Vec<(u32, u32)> = w.leaves.iter().map(|l| (l.0, l.1)).collect();
            check(504, spans == consumed); // the leaves of the tree are the tokens consumed, in order
        }
        let mut fits = true;
        for (lo, hi, mask) in &w.leaves {
            fits &= *hi == *lo + 1 && hit(*lo as usize, *mask);
        }
        check(507, fits); // every terminal in the tree matches its token
    }
}

/// Declares a harness: `parse_of!(Root, quick length, thorough length, alphabet, aspects)`.
/// A long source: up to `P` characters, then up to `U` of them repeated `reps`
/// times, then up to `S`.
pub fn pump<R: Root + Ref, const P: usize, const U: usize, const S: usize>(g: &(G, usize), reps: usize, alpha: &[u8], asp: u32)
where
    R::Prod: Production<L = L0>,
{
    let _ = R::metadata();
    let mut first = [0u8; P];
    let mut unit = [0u8; U];
    let mut last = [0u8; S];
    let p = source::<P>(alpha, 0, &mut first);
    let u = source::<U>(alpha, 1, &mut unit);
    let s = source::<S>(alpha, 0, &mut last);
    let mut buf = Vec::with_capacity(p + reps * u + s);
    buf.extend_from_slice(&first[..p]);
    for _ in 0..reps {
        buf.extend_from_slice(&unit[..u]);
    }
    buf.extend_from_slice(&last[..s]);
    let text = unsafe { std::str::from_utf8_unchecked(&buf) };
    on_text::<R>(g, text, asp);
}
/// A nested source: one character `reps` times, up to `M` in the middle, then
/// another character as many times.
pub fn nest<R: Root + Ref, const M: usize>(g: &(G, usize), reps: usize, alpha: &[u8], asp: u32)
where
    R::Prod: Production<L = L0>,
{
    let _ = R::metadata();
    let (mut open, mut mid, mut close) = ([0u8; 1], [0u8; M], [0u8; 1]);
    source::<1>(alpha, 1, &mut open);
    let m = source::<M>(alpha, 0, &mut mid);
    source::<1>(alpha, 1, &mut close);
    let mut buf = Vec::with_capacity(2 * reps + m);
    for _ in 0..reps {
        buf.push(open[0]);
    }
    buf.extend_from_slice(&mid[..m]);
    for _ in 0..reps {
        buf.push(close[0]);
    }
    let text = unsafe { std::str::from_utf8_unchecked(&buf) };
    on_text::<R>(g, text, asp);
}
/// A source that starts far in: `gap` ignored characters, then up to `N`.
pub fn far<R: Root + Ref, const N: usize>(g: &(G, usize), gap: usize, alpha: &[u8], asp: u32)
where
    R::Prod: Production<L = L0>,
{
    let _ = R::metadata();
    let mut last = [0u8; N];
    let n = source::<N>(alpha, 1, &mut last);
    let mut buf = vec![b' '; gap];
    buf.extend_from_slice(&last[..n]);
    let text = unsafe { std::str::from_utf8_unchecked(&buf) };
    on_text::<R>(g, text, asp);
}
#[macro_export]
macro_rules! far_of {
    ($r:ty, $q:literal, $t:literal, $alpha:expr, $asp:expr) => {{
        let g = $crate::tree::G::of::<$r>();
        if $crate::sym::tier() == 0 {
            $crate::run::far::<$r, $q>(&g, 65_600, $alpha, $asp)
        } else {
            $crate::run::far::<$r, $t>(&g, 65_600, $alpha, $asp)
        }
    }};
}
#[macro_export]
macro_rules! nest_of {
    ($r:ty, $q:literal, $t:literal, $alpha:expr, $asp:expr) => {{
        let g = $crate::tree::G::of::<$r>();
        if $crate::sym::tier() == 0 {
            $crate::run::nest::<$r, 1>(&g, $q, $alpha, $asp)
        } else {
            $crate::run::nest::<$r, 2>(&g, $t, $alpha, $asp)
        }
    }};
}
#[macro_export]
macro_rules! pump_of {
    ($r:ty, $q:literal, $t:literal, $alpha:expr, $asp:expr) => {{
        let g = $crate::tree::G::of::<$r>();
        if $crate::sym::tier() == 0 {
            $crate::run::pump::<$r, 1, 2, 1>(&g, $q, $alpha, $asp)
        } else {
            $crate::run::pump::<$r, 1, 2, 2>(&g, $t, $alpha, $asp)
        }
    }};
}
#[macro_export]
macro_rules! parse_of {
    ($r:ty, $q:literal, $t:literal, $alpha:expr, $asp:expr) => {{
        let g = $crate::tree::G::of::<$r>();
        if $crate::sym::tier() == 0 {
            $crate::run::parse::<$r, $q>(&g, $alpha, $asp)
        } else {
            $crate::run::parse::<$r, $t>(&g, $alpha, $asp)
        }
    }};
}
