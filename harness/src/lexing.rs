//! Lexicons with longer tokens, and a reference lexer: at every position the
//! longest match of any rule; a literal before a pattern of the same length.
use crate::sym;
use crate::sym::check;
use teleparse::prelude::*;
use teleparse::Lexicon;

#[derive_lexicon]
#[teleparse(ignore(r"[ \t\n]+", r"/\*[a-z ]*\*/"))]
pub enum LA {
    /// no rules, in front of others
    Note,
    #[teleparse(regex(r"[a-z_][a-z0-9_]*"), terminal(Name, KwIf = "if", KwIn = "in"))]
    Word,
    #[teleparse(regex(r"[0-9]+", r"0x[0-9a-f]+"), terminal(Number))]
    Num,
    Tag,
    #[teleparse(terminal(OpEq = "=", OpEqEq = "==", OpArrow = "=>", OpLt = "<", OpShl = "<<"))]
    Op,
    #[teleparse(terminal(KwDo = "do", KwDone = "done"))]
    Do,
    #[teleparse(regex(r"//[^\n]*"))]
    Comment,
    #[teleparse(regex(r#""[^"\n]*""#), terminal(Text))]
    Str,
    #[teleparse(terminal(SymL = "λ", SymE = "€", SymC = "🦀"))]
    Sym,
}

/// Nothing is ignored.
#[derive_lexicon]
pub enum LB {
    #[teleparse(regex(r"[α-ω]"), terminal(Greek, GrA = "α"))]
    Greek,
    #[teleparse(terminal(Ab = "αβ"))]
    Pair,
    #[teleparse(regex(r"[0-9]+(\.[0-9]+)?"), terminal(Real))]
    Real,
    #[teleparse(terminal(Dot = ".", Dots = ".."))]
    Dot,
    #[teleparse(regex(r"[ \r\n]"))]
    Blank,
}

/// Many rules: several ignored, several patterns of one type, literals with
/// characters that mean something in patterns and strings.
#[derive_lexicon]
#[teleparse(ignore(r" +", r"--", r"~[a-z ]*~", r"\r?\n"))]
pub enum LC {
    #[teleparse(regex(r"[A-Z][a-z]*", r"&[0-9]", r"_"), terminal(Ident))]
    Id,
    #[teleparse(terminal(
        M0 = ".", M1 = "*", M2 = "+?", M3 = "(", M4 = "[^", M5 = "\\", M6 = "\\d", M7 = "\"", M8 = "'", M9 = "^", M10 = "$",
        M11 = "{1}", M12 = "|", M13 = "\t", M14 = "++", M15 = "+=", M16 = "...", M17 = r"\\\"
    ))]
    Meta,
    #[teleparse(regex(r"#[a-z]#", r"%%"))]
    Note,
    Sem,
    #[teleparse(regex(r"0|[1-9][0-9]*"), terminal(Nat, One = "1", Ten = "10"))]
    Nat,
    #[teleparse(regex(r"@[a-c]+@"))]
    More,
    #[teleparse(terminal(Select = "SEL", Sel = "SE"))]
    Sel,
}
pub const META: [&str; 18] =
    [".", "*", "+?", "(", "[^", "\\", "\\d", "\"", "'", "^", "$", "{1}", "|", "\t", "++", "+=", "...", "\\\\\\"];

/// Longest match of a rule at the start of `s`: its length, or 0.
type Rule = fn(&[u8]) -> usize;

fn lit(s: &[u8], l: &str) -> usize {
    if s.len() < l.len() {
        return 0;
    }
    for (a, b) in s.iter().zip(l.bytes()) {
        if sym::each((*a == b) as usize) == 0 {
            return 0;
        }
    }
    l.len()
}
fn lits(s: &[u8], ls: &[&str]) -> usize {
    let mut best = 0;
    for l in ls {
        let n = lit(s, l);
        if n > best {
            best = n;
        }
    }
    best
}
fn run(s: &[u8], ok: fn(u8) -> bool) -> usize {
    let mut n = 0;
    while n < s.len() && ok(s[n]) {
        n += 1;
    }
    n
}
fn low(c: u8) -> bool {
    c.is_ascii_lowercase() | (c == b'_')
}
fn name(s: &[u8]) -> usize {
    if s.is_empty() || !low(s[0]) {
        return 0;
    }
    run(s, |c| low(c) | c.is_ascii_digit())
}
fn number(s: &[u8]) -> usize {
    let d = run(s, |c| c.is_ascii_digit());
    if s.len() > 2 && s[0] == b'0' && s[1] == b'x' {
        let h = run(&s[2..], |c| c.is_ascii_digit() | (b'a' <= c && c <= b'f'));
        if h > 0 {
            return 2 + h;
        }
    }
    d
}
fn comment(s: &[u8]) -> usize {
    if lit(s, "//") == 0 {
        return 0;
    }
    2 + run(&s[2..], |c| c != b'\n')
}
fn quoted(s: &[u8]) -> usize {
    if s.is_empty() || s[0] != b'"' {
        return 0;
    }
    let n = 1 + run(&s[1..], |c| (c != b'"') & (c != b'\n'));
    if n < s.len() && s[n] == b'"' {
        n + 1
    } else {
        0
    }
}
fn blanks(s: &[u8]) -> usize {
    run(s, |c| (c == b' ') | (c == b'\t') | (c == b'\n'))
}
fn block(s: &[u8]) -> usize {
    if lit(s, "/*") == 0 {
        return 0;
    }
    let n = 2 + run(&s[2..], |c| c.is_ascii_lowercase() | (c == b' '));
    if lit(&s[n..], "*/") == 0 {
        0
    } else {
        n + 2
    }
}
fn greek(s: &[u8]) -> usize {
    if s.len() < 2 {
        return 0;
    }
    // U+03B1 to U+03C9
    let a = (s[0] == 0xce) & (0xb1 <= s[1]) & (s[1] <= 0xbf);
    let b = (s[0] == 0xcf) & (0x80 <= s[1]) & (s[1] <= 0x89);
    2 * (a | b) as usize
}
fn real(s: &[u8]) -> usize {
    let n = run(s, |c| c.is_ascii_digit());
    if n > 0 && n < s.len() && s[n] == b'.' {
        let m = run(&s[n + 1..], |c| c.is_ascii_digit());
        if m > 0 {
            return n + 1 + m;
        }
    }
    n
}

pub trait Lx: Lexicon {
    /// rules in order of preference for matches of equal length; None: ignored
    fn rules() -> Vec<(Option<Self>, Rule)>;
    fn extracted(&self) -> bool;
    /// Where no rule matches: how far rules could go on before all of them failed.
    fn tried(_s: &[u8]) -> usize {
        0
    }
}
impl Lx for LA {
    fn rules() -> Vec<(Option<Self>, Rule)> {
        vec![
            (Some(LA::Op), |s| lits(s, &["=", "==", "=>", "<", "<<"])),
            (Some(LA::Do), |s| lits(s, &["do", "done"])),
            (Some(LA::Sym), |s| lits(s, &["λ", "€", "🦀"])),
            (Some(LA::Word), name),
            (Some(LA::Num), number),
            (Some(LA::Comment), comment),
            (Some(LA::Str), quoted),
            (None, blanks),
            (None, block),
        ]
    }
    fn extracted(&self) -> bool {
        matches!(self, LA::Comment | LA::Note | LA::Tag)
    }
    fn tried(s: &[u8]) -> usize {
        if s[0] == b'"' {
            return 1 + run(&s[1..], |c| (c != b'"') & (c != b'\n'));
        }
        if lit(s, "/*") > 0 {
            let n = 2 + run(&s[2..], |c| c.is_ascii_lowercase() | (c == b' '));
            return n + (n < s.len() && s[n] == b'*') as usize;
        }
        0
    }
}
impl Lx for LB {
    fn rules() -> Vec<(Option<Self>, Rule)> {
        vec![
            (Some(LB::Dot), |s| lits(s, &[".", ".."])),
            (Some(LB::Greek), greek),
            (Some(LB::Pair), |s| lit(s, "αβ")),
            (Some(LB::Real), real),
            (Some(LB::Blank), |s| if s.is_empty() { 0 } else { (s[0] == b' ' || s[0] == b'\r' || s[0] == b'\n') as usize }),
        ]
    }
    fn extracted(&self) -> bool {
        matches!(self, LB::Blank)
    }
}

fn at(s: &[u8], i: usize, ok: fn(u8) -> bool) -> bool {
    i < s.len() && ok(s[i])
}
fn is(s: &[u8], i: usize, c: u8) -> bool {
    i < s.len() && s[i] == c
}
fn ident(s: &[u8]) -> usize {
    if at(s, 0, |c| c.is_ascii_uppercase()) {
        return 1 + run(&s[1..], |c| c.is_ascii_lowercase());
    }
    if is(s, 0, b'&') && at(s, 1, |c| c.is_ascii_digit()) {
        return 2;
    }
    is(s, 0, b'_') as usize
}
fn nat(s: &[u8]) -> usize {
    if is(s, 0, b'0') {
        return 1;
    }
    run(s, |c| c.is_ascii_digit())
}
fn tilde(s: &[u8]) -> usize {
    if !is(s, 0, b'~') {
        return 0;
    }
    let n = 1 + run(&s[1..], |c| c.is_ascii_lowercase() | (c == b' '));
    if is(s, n, b'~') { n + 1 } else { 0 }
}
fn newline(s: &[u8]) -> usize {
    if is(s, 0, b'\n') {
        1
    } else if is(s, 0, b'\r') && is(s, 1, b'\n') {
        2
    } else {
        0
    }
}
fn note(s: &[u8]) -> usize {
    if is(s, 0, b'#') && at(s, 1, |c| c.is_ascii_lowercase()) && is(s, 2, b'#') {
        return 3;
    }
    2 * (is(s, 0, b'%') && is(s, 1, b'%')) as usize
}
fn more(s: &[u8]) -> usize {
    if !is(s, 0, b'@') {
        return 0;
    }
    let n = 1 + run(&s[1..], |c| (b'a' <= c) & (c <= b'c'));
    if n > 1 && is(s, n, b'@') { n + 1 } else { 0 }
}
impl Lx for LC {
    fn rules() -> Vec<(Option<Self>, Rule)> {
        vec![
            (Some(LC::Meta), |s| lits(s, &META)),
            (Some(LC::Sel), |s| lits(s, &["SEL", "SE"])),
            (Some(LC::Id), ident),
            (Some(LC::Nat), nat),
            (Some(LC::Note), note),
            (Some(LC::More), more),
            (None, |s| run(s, |c| c == b' ')),
            (None, tilde),
            (None, newline),
            (None, |s| 2 * (is(s, 0, b'-') && is(s, 1, b'-')) as usize),
        ]
    }
    fn extracted(&self) -> bool {
        matches!(self, LC::Note | LC::More | LC::Sem)
    }
    fn tried(s: &[u8]) -> usize {
        match s[0] {
            b'~' => 1 + run(&s[1..], |c| c.is_ascii_lowercase() | (c == b' ')),
            b'@' => 1 + run(&s[1..], |c| (b'a' <= c) & (c <= b'c')),
            b'#' => 1 + at(s, 1, |c| c.is_ascii_lowercase()) as usize,
            _ => 0,
        }
    }
}

/// The bytes of the character at the start of `s`.
fn char_len(s: &[u8]) -> usize {
    match s[0] {
        0..=0x7f => 1,
        0..=0xdf => 2,
        0..=0xef => 3,
        _ => 4,
    }
}

/// What one call for the next token gives: the invalid run before it, and it.
#[derive(Clone, Copy, PartialEq)]
pub struct Step<L> {
    pub bad: Option<(usize, usize)>,
    pub tok: Option<(usize, usize, L)>,
}

pub fn reference<L: Lx>(src: &[u8]) -> Vec<Step<L>> {
    let rules = L::rules();
    let mut out = vec![];
    let mut at = 0;
    let mut bad: Option<(usize, usize)> = None;
    while at < src.len() {
        let mut best = 0;
        let mut who = None;
        for (k, r) in &rules {
            let n = sym::each(r(&src[at..]));
            if n > best {
                best = n;
                who = Some(*k);
            }
        }
        match who {
            None => {
                let n = sym::each(char_len(&src[at..]).max(L::tried(&src[at..])));
                bad = Some((bad.map_or(at, |b| b.0), at + n));
                at += n;
            }
            Some(None) => at += best,
            Some(Some(k)) => {
                out.push(Step { bad: bad.take(), tok: Some((at, at + best, k)) });
                at += best;
            }
        }
    }
    out.push(Step { bad, tok: None });
    out
}

/// Up to `n` characters of any kind, as UTF-8. `kinds`: 0 only ASCII, 1 any.
#[inline(always)]
pub fn text(buf: &mut [u8], n: usize) -> usize {
    let k = sym::pick(n as u8 + 1);
    let mut at = 0;
    for _ in 0..k {
        at += character(&mut buf[at..]);
    }
    at
}
fn cont(b: u8) -> bool {
    (b & 0xc0) == 0x80
}
/// One symbolic character.
pub fn character(b: &mut [u8]) -> usize {
    let k = 1 + sym::pick(4);
    sym::fill(&mut b[..k]);
    sym::assume(match k {
        1 => b[0] < 0x80,
        2 => (b[0] >= 0xc2) & (b[0] <= 0xdf) & cont(b[1]),
        3 => {
            (b[0] >= 0xe0) & (b[0] <= 0xef) & cont(b[1]) & cont(b[2])
                & ((b[0] != 0xe0) | (b[1] >= 0xa0))
                & ((b[0] != 0xed) | (b[1] <= 0x9f))
        }
        _ => {
            (b[0] >= 0xf0) & (b[0] <= 0xf4) & cont(b[1]) & cont(b[2]) & cont(b[3])
                & ((b[0] != 0xf0) | (b[1] >= 0x90))
                & ((b[0] != 0xf4) | (b[1] <= 0x8f))
        }
    });
    k
}
/// Up to `n` bytes of an alphabet.
#[inline(always)]
pub fn letters(buf: &mut [u8], n: usize, alpha: &[u8]) -> usize {
    let k = sym::pick(n as u8 + 1);
    sym::fill(&mut buf[..k]);
    for c in buf[..k].iter() {
        let mut ok = false;
        for a in alpha {
            ok |= c == a;
        }
        sym::assume(ok);
    }
    k
}

pub fn lex<L: Lx>(src: &[u8]) {
    let s = unsafe { std::str::from_utf8_unchecked(src) };
    let want = reference::<L>(src);
    let Ok(mut lexer) = L::lexer(s) else {
        check(900, false); // a lexer is made
        return;
    };
    let mut bads = false;
    let mut toks = false;
    let mut end = 0;
    for w in &want {
        let (bad, tok) = lexer.next();
        let bad = bad.map(|b| (b.lo, b.hi));
        sym::observe(bad.map_or(0, |b| (b.0 * 4096 + b.1) as u64));
        sym::observe(tok.map_or(0, |t| (t.span.lo * 4194304 + t.span.hi * 1024 + t.ty.id() + 1) as u64));
        check(901, tok.map(|t| (t.span.lo, t.span.hi)) == w.tok.map(|t| (t.0, t.1))); // each token is the longest match at its place
        check(902, tok.map(|t| t.ty) == w.tok.map(|t| t.2)); // and has the type of its rule
        check(903, bad == w.bad); // invalid characters before a token are reported as one span
        if let Some(t) = tok {
            check(904, t.ty.should_extract() == w.tok.map_or(true, |x| x.2.extracted())); // kinds without terminals are extracted
            check(905, t.span.lo >= end && t.span.lo < t.span.hi && t.span.hi <= src.len()); // tokens are in order and not empty
            check(906, s.is_char_boundary(t.span.lo) && s.is_char_boundary(t.span.hi)); // no token splits a character
            check(907, t.src(s).as_bytes() == &src[t.span.lo..t.span.hi]); // the text of a token is that of its span
            end = t.span.hi;
            toks = true;
        }
        if let Some((a, b)) = bad {
            check(908, s.is_char_boundary(a) && s.is_char_boundary(b)); // no invalid span splits a character
            bads = true;
        }
    }
    let (bad, tok) = lexer.next();
    check(909, bad.is_none() && tok.is_none()); // the end stays the end
    if bads {
        sym::cover(2);
    }
    if toks {
        sym::cover(1);
    }
}

/// A long text: up to `p` bytes, up to `u` bytes repeated, up to `p` bytes.
pub fn lex_long<L: Lx>(p: usize, u: usize, reps: usize, alpha: &[u8]) {
    let mut s = vec![];
    let some = |n: usize| {
        let mut b = [0u8; 4];
        let k = letters(&mut b, n, alpha);
        b[..k].to_vec()
    };
    s.extend(some(p));
    let unit = some(u);
    for _ in 0..reps {
        s.extend(&unit);
    }
    s.extend(some(p));
    lex::<L>(&s);
}

/// A text that starts far in: `gap` ignored characters, then up to `n` bytes.
pub fn lex_far<L: Lx>(n: usize, gap: usize, alpha: &[u8]) {
    let mut b = [0u8; 4];
    let k = letters(&mut b, n, alpha);
    let mut s = vec![b' '; gap];
    s.extend(&b[..k]);
    lex::<L>(&s);
}

/// `lex_of!(lexicon, quick, thorough)`: any text of that many characters
#[macro_export]
macro_rules! lex_of {
    ($l:ty, $q:literal, $t:literal) => {{
        let mut b = [0u8; 4 * $t];
        let n = $crate::lexing::text(&mut b, $crate::sym::bound($q, $t));
        $crate::lexing::lex::<$l>(&b[..n])
    }};
    ($l:ty, $q:literal, $t:literal, $a:expr) => {{
        let mut b = [0u8; $t];
        let n = $crate::lexing::letters(&mut b, $crate::sym::bound($q, $t), $a);
        $crate::lexing::lex::<$l>(&b[..n])
    }};
}
