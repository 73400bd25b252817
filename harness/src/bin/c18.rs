//! C18: token queries by position. Every position is a symbolic 64-bit number.
use hx::lang::*;
use hx::sym;
use hx::sym::check;
use hx::*;
use teleparse::lex::{Cell, Set, TokenSlice, TokenVec};
use teleparse::prelude::*;

/// A symbolic position of 64 bits, or of 12.
#[inline(always)]
fn pos(wide: bool) -> usize {
    if wide {
        sym::u64s() as usize
    } else {
        let b = sym::bytes::<2>();
        (b[0] as usize) << 4 | (b[1] & 15) as usize
    }
}

struct T {
    v: TokenVec<L0>,
    at: Vec<(usize, usize)>,
    k: usize,
}

/// k tokens, in order, disjoint and not empty; some next to each other.
#[inline(always)]
fn tokens(k: usize, wide: bool) -> T {
    let mut v = TokenVec::new();
    let mut at = vec![];
    let mut from = 0usize;
    for _ in 0..k {
        let (lo, hi) = (pos(wide), pos(wide));
        sym::assume((from <= lo) & (lo < hi));
        v.push_unchecked(Token::new((lo, hi), L0::Word));
        at.push((lo, hi));
        from = hi;
    }
    T { v, at, k }
}

/// k tokens at fixed places, every other one next to the one before, for queries by symbolic positions.
fn many(k: usize) -> T {
    let mut v = TokenVec::new();
    let mut at = vec![];
    for i in 0..k {
        let (lo, hi) = (3 * i + 1 + i % 2, 3 * i + 4 - usize::from(i % 3 == 1));
        v.push_unchecked(Token::new((lo, hi), L0::Word));
        at.push((lo, hi));
    }
    T { v, at, k }
}

/// Which tokens a slice holds: a bit for each.
fn which(t: &T, s: &TokenSlice<L0>) -> u64 {
    let mut m = 0u64;
    let base = t.v.as_slice().as_ptr() as usize;
    let sz = std::mem::size_of::<Cell<L0>>();
    for c in s.iter() {
        m |= 1 << ((c as *const Cell<L0> as usize - base) / sz);
    }
    m
}
fn range(r: Option<(usize, usize)>) -> u64 {
    match r {
        None => 0,
        Some((a, b)) => {
            let mut m = 0;
            for i in a..b {
                m |= 1 << i;
            }
            m
        }
    }
}

/// Queries by symbolic positions of one byte, among many tokens.
fn long(t: T) {
    // one end anywhere, the other end at one of several distances, or none
    let lo = sym::byte() as usize;
    let hi = lo + [0, 1, 2, 3, 4, 8, 17, 40, 99, 300][sym::pick(sym::bound(9, 10) as u8)];
    let s = Span::new(lo, hi);
    let (mut overlap, mut inside) = (0u64, 0u64);
    for (i, (a, b)) in t.at.iter().enumerate() {
        overlap |= (((*a < hi) & (lo < *b) & (lo < hi)) as u64) << i;
        inside |= (((lo <= *a) & (*b <= hi)) as u64) << i;
    }
    match sym::pick(3) {
        0 => {
            let m = which(&t, t.v.overlap(s));
            check(1830, m == overlap); // among many tokens, overlap: those with text inside the span
            check(1831, range(t.v.overlap_bounds(s)) == overlap); // among many tokens: overlap_bounds
            sym::cover(1);
        }
        1 => {
            let m = which(&t, t.v.inside(s));
            check(1832, m == inside); // among many tokens, inside: those wholly inside the span
            check(1833, range(t.v.inside_bounds(s)) == inside); // among many tokens: inside_bounds
            sym::cover(2);
        }
        _ => {
            let one = t.v.at_span(s);
            let got = one.map_or(0, |c| which(&t, TokenSlice::from_slice(std::slice::from_ref(c))));
            let only = (inside & inside.wrapping_sub(1)) == 0;
            check(1834, got == if only { inside } else { 0 }); // among many tokens, at_span: the only one inside the span
            sym::cover(3);
        }
    }
}
fn queries(max: usize, wide: bool) {
    let t = tokens(sym::pick(max as u8 + 1), wide);
    let (lo, hi) = (pos(wide), pos(wide));
    let mut overlap = vec![];
    let mut inside = vec![];
    for (a, b) in &t.at {
        // text in common: the greater start is before the lesser end
        overlap.push((*a < *b) & (*a < hi) & (lo < *b) & (lo < hi));
        inside.push((lo <= *a) & (*b <= hi));
    }
    let s = Span::new(lo, hi);
    let same = |got: u64, want: &[bool]| {
        let mut ok = got >> want.len() == 0;
        for (i, w) in want.iter().enumerate() {
            ok &= (got >> i & 1 == 1) == *w;
        }
        ok
    };
    match sym::pick(4) {
        0 => {
            let m = which(&t, t.v.overlap(s));
            check(1800, same(m, &overlap)); // overlap: the tokens with text inside the span
            let r = t.v.overlap_bounds(s);
            check(1801, same(range(r), &overlap) && r.map_or(true, |x| x.0 < x.1)); // overlap_bounds: their range, or none
            if m != 0 {
                sym::cover(1);
            }
        }
        1 => {
            let m = which(&t, t.v.inside(s));
            check(1802, same(m, &inside)); // inside: the tokens wholly inside the span
            let r = t.v.inside_bounds(s);
            check(1803, same(range(r), &inside) && r.map_or(true, |x| x.0 < x.1)); // inside_bounds: their range, or none
            if m != 0 {
                sym::cover(2);
            }
        }
        2 => {
            let one = t.v.at_span(s);
            let got = one.map_or(0, |c| which(&t, TokenSlice::from_slice(std::slice::from_ref(c))));
            if got != 0 {
                check(1804, same(got, &inside)); // at_span: the only token inside the span
                sym::cover(3);
            } else {
                let (mut some, mut more) = (false, false);
                for w in &inside {
                    more |= some & *w;
                    some |= *w;
                }
                check(1809, !some | more); // at_span: none only when not exactly one token is inside
            }
            check(1805, t.v.is_empty() == (t.k == 0) && t.v.len() == t.k); // number of tokens
            for i in 0..max + 1 {
                check(1806, t.v.at(i).map(|c| (c.span.lo, c.span.hi)) == t.at.get(i).copied()); // at: the i-th token
            }
        }
        _ => {
            let split = |r: Result<usize, usize>, x: usize, end: bool| {
                let (i, exact) = match r {
                    Ok(i) => (i, true),
                    Err(i) => (i, false),
                };
                let mut ok = i <= t.k && (!exact || i < t.k);
                for (j, p) in t.at.iter().enumerate() {
                    let p = if end { p.1 } else { p.0 };
                    ok &= if j < i {
                        p < x
                    } else if j == i && exact {
                        p == x
                    } else {
                        p > x
                    };
                }
                ok
            };
            check(1807, split(t.v.search_lo(lo), lo, false)); // search_lo: the first token that starts at or after the position
            check(1808, split(t.v.search_hi(hi), hi, true)); // search_hi: the first token that ends at or after the position
        }
    }
}

/// Runs of tokens that match a predicate, from a position on or up to it.
fn runs(max: usize, wide: bool) {
    let t = tokens(sym::pick(max as u8 + 1), wide);
    let good = sym::byte() as u64;
    run(t, good, wide)
}
/// Many tokens, all of which match but for one, anywhere.
fn runs_long(k: usize) {
    let t = many(k);
    let i = sym::pick(k as u8);
    run(t, !(1 << i), false)
}
fn run(mut t: T, good: u64, wide: bool) {
    for i in 0..t.k {
        if good >> i & 1 == 1 {
            t.v[i].semantics_mut().insert(L0::Sem2);
        }
    }
    let at = pos(wide);
    let ok = |c: &Cell<L0>| c.semantics().contains(L0::Sem2);
    let (mut ends, mut begins) = (0u64, 0u64);
    for i in 0..t.k {
        if t.at[i].1 == at {
            let mut j = i + 1;
            while j > 0 && good >> (j - 1) & 1 == 1 {
                j -= 1;
                ends |= 1 << j;
            }
        }
        if t.at[i].0 == at {
            let mut j = i;
            while j < t.k && good >> j & 1 == 1 {
                begins |= 1 << j;
                j += 1;
            }
        }
    }
    let base = t.v.as_slice().as_ptr() as usize;
    let sz = std::mem::size_of::<Cell<L0>>();
    let of = |s: Option<&mut TokenSlice<L0>>| {
        let mut m = 0u64;
        if let Some(s) = s {
            for c in s.iter() {
                m |= 1 << ((c as *const Cell<L0> as usize - base) / sz);
            }
        }
        m
    };
    if sym::pick(2) == 0 {
        let s = t.v.ends_at_matches(at, ok);
        check(1810, s.is_some() == (ends != 0)); // ends_at_matches: none when no token ends there or it does not match
        check(1811, s.map_or(0, |s| which(&t, s)) == ends); // ends_at_matches: the longest run up to the position
        check(1812, range(t.v.ends_at_matches_bounds(at, ok)) == ends); // ends_at_matches_bounds
        check(1813, of(t.v.ends_at_matches_mut(at, ok)) == ends); // ends_at_matches_mut
        if ends != 0 {
            sym::cover(1);
        }
    } else {
        let s = t.v.begins_at_matches(at, ok);
        check(1814, s.is_some() == (begins != 0)); // begins_at_matches: none when no token begins there or it does not match
        check(1815, s.map_or(0, |s| which(&t, s)) == begins); // begins_at_matches: the longest run from the position
        check(1816, range(t.v.begins_at_matches_bounds(at, ok)) == begins); // begins_at_matches_bounds
        check(1817, of(t.v.begins_at_matches_mut(at, ok)) == begins); // begins_at_matches_mut
        if begins != 0 {
            sym::cover(2);
        }
    }
}

/// Semantic types are added to exactly the tokens asked for, twice in a row.
fn semantics(max: usize, wide: bool) {
    let mut t = tokens(1 + sym::pick(max as u8), wide);
    let how = sym::pick(3);
    let mut want = vec![0u16; t.k];
    let mut touched = false;
    for _ in 0..2 {
        let (lo, hi) = (pos(wide), pos(wide));
        let bits = (sym::byte() as u16) << 1;
        let set = Set::<L0>::from_bits(bits);
        for i in 0..t.k {
            let (a, b) = t.at[i];
            let hit = if how == 1 {
                let (from, to) = (if a < lo { lo } else { a }, if b < hi { b } else { hi });
                from < to
            } else {
                (lo <= a) & (b <= hi)
            };
            if hit {
                want[i] |= bits;
                touched = true;
            }
        }
        match how {
            0 => t.v.inside_mut((lo, hi)).apply_semantic(set),
            1 => t.v.overlap_mut((lo, hi)).apply_semantic(set),
            _ => {
                for c in t.v.inside_mut((lo, hi)).iter_mut() {
                    *c.semantics_mut() = c.semantics().union(set);
                }
            }
        }
    }
    for i in 0..t.k {
        let c = &t.v[i];
        check(1820, c.semantics().to_bits() == want[i]); // semantic types: those added, on those tokens only
        check(1821, c.types().to_bits() == want[i] | 1); // types: these and the token's own
        check(1822, (c.span.lo, c.span.hi) == t.at[i] && c.ty == L0::Word); // the token stays as it is
    }
    if touched {
        sym::cover(1);
    }
    sym::cover(2);
    sym::cover(3);
}

harnesses! {
    h_queries => queries(sym::bound(3, 5), false);
    h_queries_wide => queries(sym::bound(1, 2), true);
    h_runs => runs(sym::bound(4, 6), false);
    h_runs_wide => runs(sym::bound(2, 3), true);
    h_queries_long => long(many(sym::bound(20, 36)));
    h_runs_long => runs_long(sym::bound(40, 63));
    h_semantics => semantics(sym::bound(2, 3), false);
    h_semantics_wide => semantics(1, true);
}
