//! C17: tokens get exactly the semantic types that the tree gives them.
use hx::lang::*;
use hx::run::*;
use hx::*;
macro_rules! tagged {
    ($n:ident { $($body:tt)* }) => {
        pub mod $n {
            #[allow(unused_imports)]
            use hx::lang::*;
            #[allow(unused_imports)]
            use hx::{refenum, refstruct, semenum, semstruct};
            #[allow(unused_imports)]
            use teleparse::prelude::*;
            $($body)*
        }
    };
}
tagged! { m1 {
    semstruct! { #[teleparse(root, no_test)] S(0: tp::Option<A> [Sem1], 1: tp::Vec<X> [Sem2], 2: tp::Option<Semi> [Sem3]) }
    semstruct! { A(0: KwA [Sem2 Sem3], 1: Add) }
    semenum! { X { A((KwB, Id)) [Sem1], B((Num, Mul)) [Sem3], C(P) } }
    refstruct! { P(0: Po, 1: tp::Option<Id>, 2: Pc) }
} }
tagged! { m2 {
    semstruct! { #[teleparse(root, no_test)] E { list: tp::Split<F, Add> [Sem1], end: tp::Option<Semi> } }
    semenum! { F { N(Num) [Sem2], P(P) [Sem3], I(Id) } }
    semstruct! { P(0: Po, 1: Box<G> [Sem2], 2: Pc [Sem1 Sem2 Sem3]) }
    semstruct! { G { list: tp::Punct<F, Mul> [Sem3] } }
} }
tagged! { m3 {
    semstruct! { #[teleparse(root, no_test)] S(0: tp::Recover<(Po, Id), Semi> [Sem1], 1: tp::Vec<Y> [Sem2]) }
    semstruct! { Y(0: Num [Sem1], 1: Id [Sem3], 2: Mul) }
} }
tagged! { m4 {
    semstruct! { #[teleparse(root, no_test)] S { p: tp::Exists<(Po, Pc)> [Sem1], q: tp::Punct<Q, Add> [Sem2], r: tp::Option<tp::String<(Semi, Num)>> [Sem3] } }
    semstruct! { Q { i: Id [Sem3], n: tp::Option<Num> [Sem1] } }
} }
tagged! { m5 {
    semstruct! { #[teleparse(root, no_test)] S(0: tp::Loop<X> [Sem1]) }
    semenum! { X { A(A) [Sem2], B((KwB, Pc)) [Sem3], C(Num) } }
    semstruct! { A { a: KwA, b: tp::Option<Add>, c: tp::Option<Mul> [Sem3], d: tp::Option<Semi> } }
} }
tagged! { m6 {
    semstruct! { #[teleparse(root, no_test)] S { a: tp::Option<Po>, b: tp::Option<Pc> [Sem1], c: tp::Option<Add>, d: tp::Option<Mul> [Sem2], e: tp::Option<Num>, f: tp::Exists<Id> [Sem3], g: Semi [Sem1 Sem2], h: tp::Option<Po>, i: tp::Option<Add> [Sem3], j: tp::Vec<Num> [Sem1], k: tp::Option<Mul> [Sem2], l: tp::Option<W> [Sem3] } }
    semenum! { W { A(KwA) [Sem1], B(KwB), C((Pc, Id)) [Sem2], D(Po2) [Sem1 Sem2] } }
    refstruct! { Po2(0: Semi, 1: tp::Option<Po>) }
} }
tagged! { m7 {
    semstruct! { #[teleparse(root, no_test)] S(0: tp::Option<Po> [Sem1], 1: tp::Option<Pc>, 2: tp::Option<Add> [Sem2], 3: tp::Option<Mul>, 4: tp::Option<Num> [Sem3], 5: tp::Option<KwA>, 6: tp::Option<KwB> [Sem1 Sem3], 7: Semi, 8: tp::Option<Po> [Sem1], 9: tp::Vec<Num> [Sem2], 10: tp::Option<Add> [Sem3], 11: tp::Option<Id> [Sem1 Sem2 Sem3]) }
} }
harnesses! {
    h_m1 => parse_of!(m1::S, 5, 6, TOKENS_ONLY, SEMANTIC);
    h_m2 => parse_of!(m2::E, 5, 7, TOKENS_ONLY, SEMANTIC);
    h_m3 => parse_of!(m3::S, 5, 6, TOKENS_ONLY, SEMANTIC);
    h_m4 => parse_of!(m4::S, 5, 6, TOKENS_ONLY, SEMANTIC);
    h_m5 => parse_of!(m5::S, 4, 6, TOKENS_ONLY, SEMANTIC);
    h_l_m6 => pump_of!(m6::S, 260, 520, TOKENS_ONLY, SEMANTIC);
    h_l_m7 => pump_of!(m7::S, 260, 520, TOKENS_ONLY, SEMANTIC);
    h_f_m6 => far_of!(m6::S, 3, 4, TOKENS_ONLY, SEMANTIC);
    h_m6 => parse_of!(m6::S, 4, 5, TOKENS_ONLY, SEMANTIC);
    h_m7 => parse_of!(m7::S, 4, 5, TOKENS_ONLY, SEMANTIC);
    h_e_m1 => parse_of!(m1::S, 4, 5, EVERYTHING, SEMANTIC | AGAIN);
    h_e_m2 => parse_of!(m2::E, 4, 5, EVERYTHING, SEMANTIC | AGAIN);
    h_e_m3 => parse_of!(m3::S, 4, 5, EVERYTHING, SEMANTIC | AGAIN);
    h_e_m4 => parse_of!(m4::S, 4, 5, EVERYTHING, SEMANTIC | AGAIN);
    h_e_m5 => parse_of!(m5::S, 4, 5, EVERYTHING, SEMANTIC | AGAIN);
    h_p_m1 => pump_of!(m1::S, 33, 65, TOKENS_ONLY, SEMANTIC);
    h_p_m2 => pump_of!(m2::E, 33, 65, TOKENS_ONLY, SEMANTIC);
    h_p_m3 => pump_of!(m3::S, 33, 65, TOKENS_ONLY, SEMANTIC);
    h_p_m4 => pump_of!(m4::S, 33, 65, TOKENS_ONLY, SEMANTIC);
    h_p_m5 => pump_of!(m5::S, 33, 65, TOKENS_ONLY, SEMANTIC);
}
