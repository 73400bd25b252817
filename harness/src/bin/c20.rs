//! C20: sets of literals and terminals, FIRST and FOLLOW sets, and the jump table.
use hx::lang::L0;
use hx::sym;
use hx::sym::check;
use hx::*;
use std::collections::BTreeSet;
use teleparse::lex::TokenSrc;
use teleparse::syntax::{FirstSet, FollowSet, JumpTable, LitSet, TerminalSet};

const POOL: [&str; 4] = ["a", "", "ab", "b"];
const ANY: u32 = 0x1f; // bit 4: every other text

/// A text of 0 to 3 symbolic characters, and its bit.
#[inline(always)]
fn text<'a>(buf: &'a mut [u8; 3]) -> (&'a str, u32) {
    let n = sym::pick(4);
    sym::fill(buf);
    for b in buf.iter() {
        sym::assume(*b < 0x80);
    }
    let s = unsafe { std::str::from_utf8_unchecked(&buf[..n]) };
    let bit = match n {
        0 => 2,
        1 if s.as_bytes()[0] == b'a' => 1,
        1 if s.as_bytes()[0] == b'b' => 8,
        2 if s.as_bytes()[0] == b'a' && s.as_bytes()[1] == b'b' => 4,
        _ => 16,
    };
    (s, bit)
}

fn lits(state: usize) -> (LitSet, u32) {
    if state == 16 {
        return (LitSet::universe(), ANY);
    }
    let mut s = LitSet::new();
    for (i, l) in POOL.iter().enumerate() {
        if state >> i & 1 != 0 {
            s.insert(l);
        }
    }
    (s, state as u32)
}
/// The members of a set, seen through `contains` and `iter`.
fn same(s: &LitSet, m: u32) -> bool {
    let mut ok = s.is_universe() == (m == ANY) && s.is_empty() == (m == 0);
    for (i, l) in POOL.iter().enumerate() {
        ok &= s.contains(l) == (m >> i & 1 != 0);
    }
    ok &= s.contains("?") == (m == ANY);
    match s.iter() {
        None => ok && m == ANY,
        Some(it) => {
            let mut n = 0;
            for l in it {
                ok &= POOL.iter().enumerate().any(|(i, x)| x == l && m >> i & 1 != 0);
                n += 1;
            }
            ok && m != ANY && n == m.count_ones()
        }
    }
}
fn literals() {
    let ((a, x), (b, y)) = (lits(sym::pick(17)), lits(sym::pick(17)));
    check(2000, same(&a, x) && same(&b, y)); // literal sets: members
    let mut c = a.clone();
    let changed = c.union(&b);
    check(2001, same(&c, x | y) && changed == (x | y != x)); // literal sets: union, and whether it changed
    check(2002, a.intersects(&b) == (x & y != 0)); // literal sets: intersects
    check(2003, same(&a.intersection(&b), x & y)); // literal sets: intersection
    check(2004, (a == b) == (x == y)); // literal sets: equal
    let i = sym::pick(6);
    let mut c = a.clone();
    match i {
        0..=3 => {
            let changed = c.insert(POOL[i]);
            check(2005, same(&c, x | 1 << i) && changed == (x >> i & 1 == 0)); // literal sets: insert
        }
        4 => {
            let changed = c.union_universe();
            check(2006, same(&c, ANY) && changed == (x != ANY)); // literal sets: becoming universal
        }
        _ => {
            c.clear();
            check(2007, same(&c, 0)); // literal sets: clear
        }
    }
    sym::cover(1);
}
fn literal_lookup() {
    let (a, x) = lits(sym::pick(17));
    let mut buf = [0; 3];
    let (s, bit) = text(&mut buf);
    check(2010, a.contains(s) == (x & bit != 0)); // literal sets: contains exactly the texts put in
    sym::cover(1);
}

// Sets of terminals: texts "a", "b" of words, "+" of operators, everything of either, and the empty symbol.
const W_ANY: u32 = 7;
const O_ANY: u32 = 3 << 3;
const E: u32 = 1 << 5;
const NUM: u32 = 1 << 6; // another type, not used by `terms`
const ASK: [(L0, &str, u32); 6] = [
    (L0::Word, "a", 1),
    (L0::Word, "b", 2),
    (L0::Word, "c", 4),
    (L0::Op, "+", 8),
    (L0::Op, "*", 16),
    (L0::Digit, "1", NUM),
];
fn terms(state: usize) -> (TerminalSet<L0>, u32) {
    let mut s = TerminalSet::new();
    let mut m = 0;
    let w = state % 5;
    if w == 4 {
        s.insert(L0::Word, None);
        m |= W_ANY;
    } else {
        if w & 1 != 0 {
            s.insert(L0::Word, Some("a"));
        }
        if w & 2 != 0 {
            s.insert(L0::Word, Some("b"));
        }
        m |= w as u32;
    }
    match state / 5 % 3 {
        1 => {
            s.insert(L0::Op, Some("+"));
            m |= 8;
        }
        2 => {
            s.insert(L0::Op, None);
            m |= O_ANY;
        }
        _ => {}
    }
    if state / 15 == 1 {
        s.insert_e();
        m |= E;
    }
    (s, m)
}
fn mask(f: impl Fn(Option<TokenSrc<'_, L0>>) -> bool, e: bool) -> u32 {
    let mut m = if e { E } else { 0 };
    for (ty, s, b) in ASK {
        if f(Some((ty, s).into())) {
            m |= b;
        }
    }
    m
}
fn is(s: &TerminalSet<L0>, m: u32) -> bool {
    mask(|t| s.contains(t), s.contains_e()) == m && s.contains(None) == (m & E != 0) && repr(&s.to_repr(), m)
}
fn repr(r: &BTreeSet<String>, m: u32) -> bool {
    let mut n = 0;
    let mut ok = true;
    let mut has = |s: &str| {
        n += 1;
        ok &= r.contains(s);
    };
    if m & E != 0 {
        has("<empty>");
    }
    if m & W_ANY == W_ANY {
        has("Word");
    } else {
        if m & 1 != 0 {
            has("\"a\"");
        }
        if m & 2 != 0 {
            has("\"b\"");
        }
    }
    if m & O_ANY == O_ANY {
        has("Op");
    } else if m & 8 != 0 {
        has("\"+\"");
    }
    ok && r.len() == n
}
fn terminals() {
    let ((a, x), (b, y)) = (terms(sym::pick(30)), terms(sym::pick(30)));
    check(2020, is(&a, x) && is(&b, y)); // terminal sets: members
    for e in [false, true] {
        let z = if e { y } else { y & !E };
        let mut c = a.clone();
        let changed = c.union(&b, e);
        check(2021, is(&c, x | z) && changed == (x | z != x)); // terminal sets: union, and whether it changed
        check(2022, a.intersects(&b, e) == (x & z != 0)); // terminal sets: intersects
        check(2023, repr(&a.intersection_repr(&b, e), x & z)); // terminal sets: what is in both, by name
    }
    check(2024, (a == b) == (x == y)); // terminal sets: equal
    let (f, g) = (FirstSet::from(a.clone()), FirstSet::from(b.clone()));
    let p = FollowSet::from(a.clone());
    check(2025, f.contains_epsilon() == (x & E != 0) && p.contains_eof() == (x & E != 0)); // FIRST and FOLLOW sets: empty word, end of input
    let mut h = f.clone();
    let changed = h.union(&g);
    check(2026, mask(|t| h.contains(t), h.contains_epsilon()) == x | y && changed == (x | y != x)); // FIRST sets: union
    let mut h = f.clone();
    let z = y & !E;
    let changed = h.union_minus_epsilon(&g);
    check(2027, mask(|t| h.contains(t), h.contains_epsilon()) == x | z && changed == (x | z != x)); // FIRST sets: union without the empty word
    check(2028, f.intersects(&g) == (x & y != 0) && f.intersects_minus_epsilon(&g) == (x & z != 0)); // FIRST sets: intersects
    check(2029, repr(&f.intersection_repr(&g), x & y) && repr(&f.intersection_repr_minus_epsilon(&g), x & z)); // FIRST sets: what is in both, by name
    let mut q = p.clone();
    let changed = q.union_first(&g);
    check(2030, mask(|t| q.contains(t), q.contains_eof()) == x | z && changed == (x | z != x)); // FOLLOW sets: union with a FIRST set has no end of input from it
    let mut q = p.clone();
    let changed = q.union_follow(&FollowSet::from(b.clone()));
    check(2031, mask(|t| q.contains(t), q.contains_eof()) == x | y && changed == (x | y != x)); // FOLLOW sets: union
    check(2032, p.intersects_first(&g) == (x & z != 0) && repr(&p.intersection_repr_first(&g), x & z)); // FOLLOW sets: intersects
    sym::cover(1);
}
/// One operation on a set.
fn step(s: &mut TerminalSet<L0>, m: &mut u32) {
    let x = *m;
    let add = |y: u32| x | y;
    let (want, flag, changed) = match sym::pick(8) {
        0 => (add(1), s.insert(L0::Word, Some("a")), true),
        1 => (add(2), s.insert(L0::Word, Some("b")), true),
        2 => (add(W_ANY), s.insert(L0::Word, None), true),
        3 => (add(8), s.insert(L0::Op, Some("+")), true),
        4 => (add(O_ANY), s.insert(L0::Op, None), true),
        5 => (add(E), s.insert_e(), true),
        6 => (x & !E, s.remove_e(), true),
        _ => {
            s.clear();
            (0, false, false)
        }
    };
    check(2040, !changed || flag == (want != x)); // terminal sets: each operation tells whether it changed the set
    check(2041, is(s, want)); // terminal sets: insert, remove and clear change exactly what they say
    *m = want;
}
fn operations(n: usize) {
    let (mut a, mut x) = terms(sym::pick(30));
    for _ in 0..n {
        step(&mut a, &mut x);
    }
    sym::cover(1);
}
fn terminal_lookup() {
    let mut s = TerminalSet::<L0>::new();
    let mut m = 0;
    let state = sym::pick(17);
    if state == 16 {
        s.insert(L0::Word, None);
        m = ANY;
    } else {
        for (i, l) in POOL.iter().enumerate() {
            if state >> i & 1 != 0 {
                s.insert(L0::Word, Some(l));
                m |= 1 << i;
            }
        }
    }
    let mut buf = [0; 3];
    let (t, bit) = text(&mut buf);
    let f = FirstSet::from(s.clone());
    let g = FollowSet::from(s.clone());
    let want = m & bit != 0;
    check(2050, s.contains(Some(TokenSrc::new(L0::Word, t))) == want); // terminal sets: contains exactly the texts put in
    check(2051, f.contains(Some(TokenSrc::new(L0::Word, t))) == want && g.contains(Some(TokenSrc::new(L0::Word, t))) == want); // FIRST and FOLLOW sets: the same
    check(2052, !s.contains(Some(TokenSrc::new(L0::Op, t))) && !f.contains(Some(TokenSrc::new(L0::Digit, t)))); // a text of another type is not contained
    sym::cover(1);
}
/// The table of a union whose variants start with the given sets.
fn jump() {
    let mut t = JumpTable::<L0>::default();
    let mut want = [None; 5];
    let mut any = None;
    let mut eps = None;
    for v in 1..=3usize {
        match sym::pick(6) {
            0 => {}
            5 => {
                sym::assume(any.is_none());
                t.register(v, L0::Word);
                any = Some(v);
            }
            i => {
                sym::assume(want[i - 1].is_none());
                t.register_lit(v, L0::Word, POOL[i - 1]);
                want[i - 1] = Some(v);
            }
        }
        if eps.is_none() && sym::pick(2) == 1 {
            t.register_epsilon(v);
            eps = Some(v);
        }
    }
    let mut buf = [0; 3];
    let (s, bit) = text(&mut buf);
    let mut lit = None;
    for i in 0..4 {
        if bit == 1 << i {
            lit = want[i];
        }
    }
    check(2060, t.look_up_token(&TokenSrc::new(L0::Word, s)) == lit.or(any)); // jump table: the variant of the literal, or of the token type
    check(2061, t.look_up(Some(TokenSrc::new(L0::Word, s))) == lit.or(any).or(eps)); // jump table: otherwise the one that can be empty
    check(2062, t.look_up(Some(TokenSrc::new(L0::Op, s))) == eps && t.look_up(None) == eps); // jump table: for other types and the end the one that can be empty
    sym::cover(1);
}
harnesses! {
    h_literals => literals();
    h_literal_lookup => literal_lookup();
    h_terminals => terminals();
    h_terminal_lookup => terminal_lookup();
    h_operations => operations(sym::bound(2, 4));
    h_jump => jump();
}
