//! Symbolic grammars: what a production is made of is a symbolic byte, so one
//! run of the code covers every grammar of a shape. The code under test sees
//! only type ids; the reference is `gram.rs`.
use crate::gram::{Cfg, EPS, P};
use crate::lang::*;
use crate::run::set_mask;
use crate::sym;
use crate::sym::check;
use std::any::TypeId;
use teleparse::syntax::first::FirstBuilder;
use teleparse::syntax::follow::FollowBuilder;
use teleparse::syntax::{First, FirstRel, Follow, FollowSet, MetadataBuilder};
use teleparse::GrammarError;

pub const FIRST: u32 = 1;
pub const FOLLOW: u32 = 2;
pub const ACCEPT: u32 = 4;
pub const TABLE: u32 = 8;
pub const ORDER: u32 = 16;
/// with FIRST: also as the derived code builds it
pub const NAMED: u32 = 32;
/// FOLLOW with the rules added from the last to the first, so that it grows against their order
pub const BACK: u32 = 64;
/// only the last five places of a near grammar are replaced, with one of the last six non-terminals or a terminal
pub const TAIL: u32 = 128;

/// A terminal of the pool: token type, literal, atoms.
pub type T = (L0, Option<&'static str>, u32);
pub const TA: T = (L0::Word, Some("a"), A_A);
pub const TB: T = (L0::Word, Some("b"), A_B);
pub const TI: T = (L0::Word, None, A_A | A_B | A_W);
pub const TP: T = (L0::Op, Some("+"), A_ADD);
pub const TM: T = (L0::Op, Some("*"), A_MUL);
pub const TN: T = (L0::Digit, None, A_NUM);
pub const TO: T = (L0::Paren, Some("("), A_PO);
pub const TC: T = (L0::Paren, Some(")"), A_PC);
pub const TS: T = (L0::Delim, Some(";"), A_SEMI);

pub const ALL: [T; 8] = [TA, TB, TP, TM, TN, TS, TO, TC];

/// Some type id; only equality and order are ever looked at.
pub fn id(n: u64) -> TypeId {
    unsafe { std::mem::transmute::<[u64; 2], TypeId>([n, n.wrapping_mul(0x9e37)]) }
}

/// One path for every value of a symbolic byte below `n`.
#[inline(always)]
fn settle(b: u8, n: usize) -> usize {
    let mut i = 0;
    while i + 1 < n {
        if b as usize == i {
            return i;
        }
        i += 1;
    }
    i
}

/// A shape: for each non-terminal, whether it is a sequence and how many
/// symbols it has. The symbols are `0..k` for the non-terminals, then the
/// terminals, then epsilon (when `eps`).
pub struct Shape<'a> {
    pub nts: &'a [(bool, usize)],
    pub terms: &'a [T],
    pub eps: bool,
    /// may the root appear in a production?
    pub root_again: bool,
    /// how many orders of type ids to try (ORDER)
    pub asp: u32,
}

const NAMES: [&str; 61] = [
    "S", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "T", "U", "V", "W", "X", "Y", "Z", "a", "b", "c", "d", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "0", "1", "2", "3", "4", "5", "6", "7", "8", "e",
];
const FIRST_TERM: usize = 51;

struct Real {
    ids: Vec<TypeId>,
}

fn follow_mask(s: &FollowSet<L0>) -> u32 {
    let mut m = 0;
    for (i, t) in ATOM_TEXT.iter().enumerate() {
        if s.contains(Some((*t).into())) {
            m |= 1 << i;
        }
    }
    if s.contains_eof() {
        m |= EPS;
    }
    m
}

fn order(n: usize, how: usize) -> Real {
    let mut ids = vec![];
    let m = if n <= 13 { 13 } else if n <= 31 { 31 } else { 61 };
    for i in 0..n {
        let k = match how {
            0 => i,
            1 => n - 1 - i,
            2 => (i * 5 + 3) % m,
            _ => (i * 8 + 6) % m,
        };
        ids.push(id(k as u64 + 1));
    }
    Real { ids }
}

#[inline(never)]
pub fn run(sh: &Shape) {
    let n = sh.nts.len() + sh.terms.len() + sh.eps as usize;
    let min = if sh.root_again { 0 } else { 1 };
    let mut items: Vec<Vec<u8>> = vec![];
    for (_, len) in sh.nts {
        let mut v = vec![];
        for _ in 0..*len {
            let b = sym::below(n as u8);
            sym::assume(b as usize >= min);
            v.push(b);
        }
        items.push(v);
    }
    let k = sh.nts.len();
    // every non-terminal is used by one declared before it
    for x in 1..k {
        let mut used = false;
        for v in items.iter().take(x) {
            for b in v {
                used |= *b as usize == x;
            }
        }
        sym::assume(used);
    }
    decide(sh, items)
}
/// A known grammar with `changes` of its symbols replaced by any symbol.
///
/// A rule is `X=` and its symbols, with `|` between them when it is a union:
/// a letter is a non-terminal (the first rule's is the root), a digit is a
/// terminal, `e` is the empty symbol.
#[inline(never)]
pub fn near(rules: &str, terms: &[T], changes: usize, asp: u32) {
    let mut nts: Vec<(bool, usize)> = vec![];
    let mut items: Vec<Vec<u8>> = vec![];
    let rules: Vec<&[u8]> = rules.split(' ').map(|r| r.as_bytes()).collect();
    let k = rules.len();
    let mut at: Vec<(usize, usize)> = vec![];
    for r in &rules {
        let mut v = vec![];
        for c in &r[2..] {
            let x = match *c {
                b'|' => continue,
                b'e' => k + terms.len(),
                b'0'..=b'8' => k + (*c - b'0') as usize,
                c => match rules.iter().position(|r| r[0] == c) {
                    Some(i) => i,
                    None => panic!(),
                },
            };
            at.push((items.len(), v.len()));
            v.push(x as u8);
        }
        nts.push((!r.contains(&b'|'), v.len()));
        items.push(v);
    }
    let n = k + terms.len() + 1;
    let (mut from, low) = if asp & TAIL != 0 { (at.len() - 5, k - 6) } else { (0, 0) };
    for c in 0..changes {
        // one path for each place
        let left = at.len() - from - (changes - 1 - c);
        let p = from + sym::each(sym::below(left as u8) as usize);
        let (i, j) = at[p];
        items[i][j] = sym::below(n as u8);
        sym::assume(items[i][j] as usize >= low);
        from = p + 1;
    }
    decide(&Shape { nts: &nts, terms, eps: true, root_again: true, asp }, items)
}
fn decide(sh: &Shape, items: Vec<Vec<u8>>) {
    let k = sh.nts.len();
    let n = k + sh.terms.len() + sh.eps as usize;
    let r0 = order(n, 2);
    let wants_first = sh.asp & (FIRST | FOLLOW) != 0;
    let first = if wants_first { Some(real_first(sh, &items, &r0)) } else { None };
    let follow = match &first {
        Some(f) if sh.asp & FOLLOW != 0 => Some(real_follow(sh, &items, &r0, f)),
        _ => None,
    };
    let meta = if sh.asp & (ACCEPT | TABLE | ORDER) != 0 { Some(real_meta(sh, &items, &r0)) } else { None };

    // the reference
    let mut c = Cfg::default();
    let mut settled: Vec<Vec<usize>> = vec![];
    for v in &items {
        settled.push(v.iter().map(|b| settle(*b, n)).collect());
    }
    for (i, v) in settled.iter().enumerate() {
        c.add(if sh.nts[i].0 { P::Seq(v.clone()) } else { P::Alt(v.clone()) });
    }
    for t in sh.terms {
        c.add(P::Term(t.2));
    }
    if sh.eps {
        c.add(P::Eps);
    }
    c.solve(0);

    if let Some(f) = &first {
        if sh.asp & FIRST != 0 {
            let mut same = true;
            for i in 0..n {
                let m = set_mask(f.get(&r0.ids[i]));
                sym::observe(m as u64);
                same &= m == c.first[i];
            }
            check(101, same); // FIRST and nullability of every symbol
            if sh.asp & NAMED != 0 {
                if let Ok(m) = real_meta(sh, &items, &r0) {
                    let mut same = true;
                    for i in 0..n {
                        same &= set_mask(m.first.get(&r0.ids[i])) == c.first[i];
                    }
                    check(102, same); // the same for a grammar built as the derived code does, whatever its rules are called
                }
            }
            sym::cover(1);
        }
    }
    if let Some(f) = &follow {
        let mut same = true;
        for i in 0..n {
            let m = follow_mask(f.get(&r0.ids[i]));
            sym::observe(m as u64);
            same &= m == c.follow[i];
        }
        check(201, same); // FOLLOW of every symbol
        sym::cover(1);
    }
    let Some(meta) = meta else { return };
    let ll1 = c.is_ll1(0);
    sym::observe(meta.is_ok() as u64);
    if sh.asp & ACCEPT != 0 {
        check(301, meta.is_ok() == ll1); // a grammar is accepted exactly when it is LL(1)
    }
    match &meta {
        Ok(m) => {
            sym::cover(1);
            if sh.asp & ACCEPT != 0 {
                let mut same = true;
                for i in 0..n {
                    same &= set_mask(m.first.get(&r0.ids[i])) == c.first[i];
                    same &= follow_mask(m.follow.get(&r0.ids[i])) == c.follow[i];
                }
                check(302, same); // the sets of an accepted grammar
            }
            if sh.asp & TABLE != 0 {
                table(sh, &settled, &c, &r0, m);
            }
        }
        Err(e) => {
            sym::cover(2);
            if sh.asp & ACCEPT != 0 {
                genuine(sh, &settled, &c, e);
            }
        }
    }
    if sh.asp & ORDER != 0 {
        // type ids in another order, the alternatives of every union turned by
        // one or reversed, and the rules given from the last to the first
        for (how, turn, back) in [(1, 0, false), (0, 1, true), (3, 2, false), (0, 2, true)] {
            let r1 = order(n, how);
            let mut items = items.clone();
            for (v, (seq, _)) in items.iter_mut().zip(sh.nts) {
                match turn {
                    1 if !*seq => v.rotate_left(1),
                    2 if !*seq => v.reverse(),
                    _ => {}
                }
            }
            let other = real_meta_of(sh, &items, &r1, back);
            // where an alternative was
            let was = |x: usize, j: Option<usize>| {
                let len = sh.nts[x].1;
                j.map(|j| match turn {
                    1 => (j + 1) % len,
                    2 => len - 1 - j,
                    _ => j,
                })
            };
            match (&meta, &other) {
                (Ok(a), Ok(b)) => {
                    let mut same = true;
                    for i in 0..n {
                        let (x, y) = (r0.ids[i], r1.ids[i]);
                        same &= a.first.get(&x) == b.first.get(&y);
                        same &= a.follow.get(&x) == b.follow.get(&y);
                        if i < k && !sh.nts[i].0 {
                            for t in ATOM_TEXT {
                                same &= a.jump.look_up(&x, Some(t.into())) == was(i, b.jump.look_up(&y, Some(t.into())));
                            }
                            same &= a.jump.look_up(&x, None) == was(i, b.jump.look_up(&y, None));
                        }
                    }
                    check(2202, same); // sets and tables do not depend on the order of writing
                }
                (Err(a), Err(b)) => {
                    if turn == 0 {
                        check(2203, a == b); // nor does the error depend on the order of type ids
                    }
                }
                _ => check(2201, false), // nor does acceptance
            }
        }
    }
}

fn pick_ids(v: &[u8], r: &Real) -> Vec<TypeId> {
    v.iter().map(|b| r.ids[*b as usize]).collect()
}

fn real_first(sh: &Shape, items: &[Vec<u8>], r: &Real) -> First<L0> {
    let mut b = FirstBuilder::<L0>::new();
    for (i, v) in items.iter().enumerate() {
        let ids = pick_ids(v, r);
        if sh.nts[i].0 {
            b.build_sequence(r.ids[i], &ids)
        } else {
            b.build_union(r.ids[i], &ids)
        }
    }
    let k = items.len();
    for (i, t) in sh.terms.iter().enumerate() {
        b.add(FirstRel::insert_token(r.ids[k + i], t.0, t.1));
    }
    if sh.eps {
        b.add(FirstRel::insert_epsilon(r.ids[k + sh.terms.len()]));
    }
    b.build()
}

fn real_follow(sh: &Shape, items: &[Vec<u8>], r: &Real, first: &First<L0>) -> Follow<L0> {
    let mut b = FollowBuilder::new(first);
    for i in 0..items.len() {
        let i = if sh.asp & BACK != 0 { items.len() - 1 - i } else { i };
        let ids = pick_ids(&items[i], r);
        if sh.nts[i].0 {
            b.build_sequence(r.ids[i], &ids)
        } else {
            b.build_union(r.ids[i], &ids)
        }
    }
    b.build(r.ids[0])
}

fn real_meta(
    sh: &Shape,
    items: &[Vec<u8>],
    r: &Real,
) -> Result<teleparse::syntax::Metadata<L0>, GrammarError> {
    real_meta_of(sh, items, r, false)
}
fn real_meta_of(
    sh: &Shape,
    items: &[Vec<u8>],
    r: &Real,
    back: bool,
) -> Result<teleparse::syntax::Metadata<L0>, GrammarError> {
    let mut b = MetadataBuilder::<L0>::new();
    // names mean nothing but in messages: without those, all rules have the same
    let name = |i: usize| if sh.asp & ACCEPT != 0 { NAMES[i].to_string() } else { "S".to_string() };
    for i in 0..items.len() {
        let i = if back { items.len() - 1 - i } else { i };
        let v = &items[i];
        let ids = pick_ids(v, r);
        if !b.visit(r.ids[i], || name(i)) {
            continue;
        }
        if sh.nts[i].0 {
            b.add_sequence(r.ids[i], &ids)
        } else {
            b.add_union(r.ids[i], &ids)
        }
    }
    let k = items.len();
    for (i, t) in sh.terms.iter().enumerate() {
        if b.visit(r.ids[k + i], || NAMES[FIRST_TERM + i].to_string()) {
            b.add_terminal(r.ids[k + i], t.0, t.1);
        }
    }
    if sh.eps {
        let e = r.ids[k + sh.terms.len()];
        let _ = b.visit(e, || "e".to_string());
        b.add_epsilon(e);
    }
    b.build(r.ids[0])
}

fn table(
    sh: &Shape,
    items: &[Vec<usize>],
    c: &Cfg,
    r: &Real,
    m: &teleparse::syntax::Metadata<L0>,
) {
    let reach = c.reachable(0);
    for (i, v) in items.iter().enumerate() {
        if sh.nts[i].0 || !reach[i] {
            continue;
        }
        let t = &r.ids[i];
        let nullable = v.iter().position(|x| c.first[*x] & EPS != 0);
        let mut by_first = true;
        let mut by_follow = true;
        let mut none = true;
        for (a, text) in ATOM_TEXT.iter().enumerate() {
            let got = m.jump.look_up(t, Some((*text).into()));
            match v.iter().position(|x| c.first[*x] >> a & 1 != 0) {
                Some(j) => by_first &= got == Some(j),
                None => {
                    if c.follow[i] >> a & 1 != 0 && nullable.is_some() {
                        by_follow &= got == nullable;
                    }
                    if nullable.is_none() {
                        none &= got.is_none();
                    }
                }
            }
        }
        let got = m.jump.look_up(t, None);
        match nullable {
            Some(_) => by_follow &= got == nullable,
            None => none &= got.is_none(),
        }
        check(401, by_first); // a token selects the variant that starts with it
        check(402, by_follow); // what follows the union, or the end, selects the variant that can be empty
        check(403, none); // a token that starts no variant selects none
    }
}

fn nt_of(sh: &Shape, name: &str) -> Option<usize> {
    let n = sh.nts.len() + sh.terms.len();
    if name == "e" && sh.eps {
        return Some(n);
    }
    for i in 0..sh.nts.len() {
        if NAMES[i] == name {
            return Some(i);
        }
    }
    for i in 0..sh.terms.len() {
        if NAMES[FIRST_TERM + i] == name {
            return Some(sh.nts.len() + i);
        }
    }
    None
}

/// Does the list of the message name exactly these terminals?
fn lists(list: &str, a: u32, b: u32, eps: bool) -> bool {
    // a set that holds every word shows as `Word`
    let all = A_A | A_B | A_W;
    let mut want: Vec<String> = vec![];
    let both = a & b;
    for (m, s) in [(A_A, "\"a\""), (A_B, "\"b\""), (A_ADD, "\"+\""), (A_MUL, "\"*\""), (A_PO, "\"(\""), (A_PC, "\")\""), (A_SEMI, "\";\"")] {
        let word = m == A_A || m == A_B;
        if both & m != 0 && !(word && both & all == all) {
            want.push(s.to_string());
        }
    }
    if eps && both & EPS != 0 {
        want.push("<empty>".to_string());
    }
    if both & A_NUM != 0 {
        want.push("Digit".to_string());
    }
    if both & all == all {
        want.push("Word".to_string());
    }
    let mut got: Vec<&str> = list.split(", ").collect();
    got.sort();
    want.sort();
    got.len() == want.len() && got.iter().zip(want.iter()).all(|(x, y)| x == y)
}

fn genuine(sh: &Shape, items: &[Vec<usize>], c: &Cfg, e: &GrammarError) {
    match e {
        GrammarError::LeftRecursion(_) => {
            check(311, c.left_recursive(0)); // left recursion is reported of a left recursive grammar
        }
        GrammarError::FirstFirstConflict(x, a, b, list) => {
            let ok = match (nt_of(sh, x), nt_of(sh, a), nt_of(sh, b)) {
                (Some(x), Some(a), Some(b)) => {
                    x < items.len()
                        && !sh.nts[x].0
                        && items[x].contains(&a)
                        && items[x].contains(&b)
                        && c.first[a] & c.first[b] != 0
                        && lists(list, c.first[a], c.first[b], true)
                }
                _ => false,
            };
            check(312, ok); // the FIRST/FIRST conflict reported exists and lists its terminals
        }
        GrammarError::FirstFollowSeqConflict(x, a, b, list) => {
            let ok = match (nt_of(sh, x), nt_of(sh, a), nt_of(sh, b)) {
                (Some(x), Some(a), Some(b)) => {
                    let mut found = false;
                    if x < items.len() && sh.nts[x].0 {
                        let v = &items[x];
                        for i in 0..v.len() {
                            for j in i + 1..v.len() {
                                found |= v[i] == a
                                    && v[j] == b
                                    && v[i..j].iter().all(|y| c.first[*y] & EPS != 0);
                            }
                        }
                    }
                    found
                        && c.first[a] & c.first[b] & !EPS != 0
                        && lists(list, c.first[a], c.first[b], false)
                }
                _ => false,
            };
            check(313, ok); // the conflict reported in a sequence exists and lists its terminals
        }
        GrammarError::FirstFollowConflict(x, list) => {
            let ok = match nt_of(sh, x) {
                Some(x) => {
                    c.first[x] & EPS != 0
                        && c.first[x] & c.follow[x] & !EPS != 0
                        && lists(list, c.first[x], c.follow[x], false)
                }
                None => false,
            };
            check(314, ok); // the FIRST/FOLLOW conflict reported exists and lists its terminals
        }
    }
}


/// `near!(aspects; changes quick, thorough; rules)`
#[macro_export]
macro_rules! near {
    ($asp:expr; $q:literal, $t:literal; $rules:literal) => {
        $crate::sg::near($rules, &$crate::sg::ALL, $crate::sym::bound($q, $t), $asp)
    };
}
/// `shape!(aspects; terminals; eps, root again; S = seq 3, A = alt 2)`
#[macro_export]
macro_rules! shape {
    ($asp:expr; $terms:expr; $eps:expr, $again:expr; $( $k:ident $n:literal ),+) => {
        $crate::sg::run(&$crate::sg::Shape {
            nts: &[ $( (stringify!($k).len() == 3 && stringify!($k).as_bytes()[0] == b's', $n) ),+ ],
            terms: &$terms,
            eps: $eps,
            root_again: $again,
            asp: $asp,
        })
    };
}
