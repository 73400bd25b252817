//! C19: token types, sets of token types and maps over them, for lexicons of every size.
use hx::sym;
use hx::sym::check;
use hx::*;
use teleparse::lex::{Map, Set};
use teleparse::{token_set, Lexicon};

macro_rules! size {
    ($f:ident, $m:ident, $n:literal, $bit:ty) => {
        pub mod $f {
            use super::*;
            use hx::big::$m::L;
            const N: usize = $n;
            const ALL: u128 = if N == 128 { !0 } else { (1 << N) - 1 };
            #[inline(always)]
            fn ty() -> (L, usize) {
                let i = sym::pick(N as u8);
                (L::from_id_unchecked(i), i)
            }
            #[inline(always)]
            fn set() -> (Set<L>, u128) {
                let b = sym::u128s() & ALL;
                (Set::from_bits(b as $bit), b)
            }
            /// Names of the types.
            pub fn types() {
                let (t, i) = ty();
                check(1900, t.id() == i); // the id of a type is its position
                check(1901, t.to_bit() as u128 == 1 << i); // each type has its own bit
                check(1902, L::first().id() == 0); // the first type
                check(1903, t.next().map(|x| x.id()) == if i + 1 < N { Some(i + 1) } else { None }); // the next type
                check(1904, t.should_extract() == (N > 1 && i != 0 && i != N - 1)); // types without terminals are extracted
                let c = sym::byte();
                sym::assume(c < 0x80);
                let buf = [c];
                let src = unsafe { std::str::from_utf8_unchecked(&buf) };
                let got = L::lexer(src).ok().and_then(|mut l| teleparse::Lexer::next(&mut l).1).map(|t| t.ty.id());
                let want = if c == b'a' {
                    Some(0)
                } else if c == b'z' && N > 1 {
                    Some(N - 1)
                } else if c.is_ascii_digit() && N > 2 {
                    Some(N / 2)
                } else {
                    None
                };
                check(1905, got == want); // each rule gives its type
                sym::cover(1);
            }
            /// Operations on sets of any members.
            pub fn ops() {
                let ((a, x), (b, y)) = (set(), set());
                let (t, i) = ty();
                let bit = 1u128 << i;
                check(1910, a.to_bits() as u128 == x); // a set has the members it is given
                check(1911, a.contains(t) == (x & bit != 0)); // contains
                check(1912, a.union(b).to_bits() as u128 == x | y); // union
                check(1913, a.contains_all(b) == (y & !x == 0)); // contains_all
                check(1914, a.is_empty() == (x == 0)); // is_empty
                check(1915, (a == b) == (x == y)); // sets with the same members are equal
                let mut c = a;
                c.insert(t);
                check(1916, c.to_bits() as u128 == x | bit && c.contains(t)); // insert
                let mut c = a;
                c.remove(t);
                check(1917, c.to_bits() as u128 == x & !bit && !c.contains(t)); // remove
                check(1918, Set::<L>::new().is_empty() && Set::<L>::default() == token_set!(L)); // a new set is empty
                let e = Set::<L>::from_bits(t.to_bit());
                check(1919, e.contains(t) && !e.is_empty()); // the set of one type
                sym::cover(1);
            }
            /// Iterating a set gives its members, in order, once.
            pub fn members(few: usize) {
                let mut x = 0u128;
                if few == 0 {
                    x = sym::u128s() & ALL;
                } else {
                    // nothing, or one type and perhaps a second
                    if sym::pick(2) == 1 {
                        x |= 1u128 << sym::pick(N as u8);
                        let j = match few {
                            1 => [N, 0, N / 2, N - 1][sym::each(sym::pick(4))],
                            _ => sym::each(sym::pick(N as u8 + 1)),
                        };
                        if j < N {
                            x |= 1u128 << j;
                        }
                    }
                }
                let s = Set::<L>::from_bits(x as $bit);
                let mut got = 0u128;
                let mut above = 0;
                for t in s {
                    check(1920, t.id() >= above && t.id() < N); // members come in order, each once
                    above = t.id() + 1;
                    got |= 1 << t.id();
                }
                check(1921, got == x); // the members are those of the set
                sym::cover(1);
            }
            /// A map holds one item for each type.
            pub fn map() {
                let mut m: Map<L, u32> = Map::new();
                let (t, i) = ty();
                let (u, j) = ty();
                let (v, w) = (sym::byte() as u32 + 1, sym::byte() as u32 + 1);
                *m.get_mut(t) = v;
                *m.get_mut(u) = w;
                let mut n = 0;
                let mut ok = true;
                for (k, x) in m.iter_zip() {
                    let want = if k.id() == j {
                        w
                    } else if k.id() == i {
                        v
                    } else {
                        0
                    };
                    ok &= (k.id() == n) & (*x == want) & (*m.get(k) == want);
                    n += 1;
                }
                check(1930, ok && n == N && m.iter().count() == N); // each type has its own item
                let mut z = m.clone();
                check(1931, z == m); // a copy is equal
                for (k, x) in z.iter_zip_mut() {
                    if k == t {
                        *x = 1000;
                    }
                }
                check(1932, z != m && *z.get(t) == 1000 && (i == j || *z.get(u) == w)); // changing one item changes that one
                sym::cover(1);
            }
        }
    };
}
size!(s1, w1, 1, u8);
size!(s2, w2, 2, u8);
size!(s7, w7, 7, u8);
size!(s8, w8, 8, u8);
size!(s9, w9, 9, u16);
size!(s16, w16, 16, u16);
size!(s17, w17, 17, u32);
size!(s32, w32, 32, u32);
size!(s33, w33, 33, u64);
size!(s64, w64, 64, u64);
size!(s65, w65, 65, u128);
size!(s127, w127, 127, u128);
size!(s128, w128, 128, u128);

macro_rules! all {
    ($f:ident $(, $a:expr)?) => {{
        match sym::pick(13) {
            0 => s1::$f($($a)?),
            1 => s2::$f($($a)?),
            2 => s7::$f($($a)?),
            3 => s8::$f($($a)?),
            4 => s9::$f($($a)?),
            5 => s16::$f($($a)?),
            6 => s17::$f($($a)?),
            7 => s32::$f($($a)?),
            8 => s33::$f($($a)?),
            9 => s64::$f($($a)?),
            10 => s65::$f($($a)?),
            11 => s127::$f($($a)?),
            _ => s128::$f($($a)?),
        }
    }};
}
harnesses! {
    h_types => all!(types);
    h_ops => all!(ops);
    h_members_1 => s1::members(0);
    h_members_2 => s2::members(0);
    h_members_7 => s7::members(0);
    h_members_8 => s8::members(0);
    h_members_9 => s9::members(0);
    h_members_few => all!(members, sym::bound(1, 2));
    h_members_16 => s16::members(sym::bound(3, 0));
    t_members_17 => s17::members(0);
    h_map => all!(map);
}
