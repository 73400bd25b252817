//! The grammars the parser harnesses use. Each is LL(1) by the reference
//! theory (`h_ll1_*` in c05 checks that it is), most are recursive or nullable
//! somewhere, and together they use every utility type.
#![allow(dead_code)]
macro_rules! grammar {
    ($(#[$m:meta])* $n:ident { $($body:tt)* }) => {
        $(#[$m])*
        pub mod $n {
            #[allow(unused_imports)]
            use crate::lang::*;
            #[allow(unused_imports)]
            use crate::{refenum, refstruct};
            #[allow(unused_imports)]
            use teleparse::prelude::*;
            $($body)*
        }
    };
}

grammar! {
/// expressions with precedence
g1 {
    refstruct! { #[teleparse(root, no_test)] E(0: tp::Split<T, Add>) }
    refstruct! { T(0: tp::Split<F, Mul>) }
    refenum! { F { Num(Num), Id(Id), Paren(P) } }
    refstruct! { P(0: Po, 1: Box<E>, 2: Pc) }
} }
grammar! {
/// the textbook's E, E', T, T', F
g2 {
    refstruct! { #[teleparse(root, no_test)] E { t: T, e: EP } }
    refstruct! { EP(0: tp::Option<EQ>) }
    refstruct! { EQ { op: Add, t: T, e: Box<EP> } }
    refstruct! { T { f: F, t: TP } }
    refstruct! { TP(0: tp::Option<TQ>) }
    refstruct! { TQ { op: Mul, f: F, t: Box<TP> } }
    refenum! { F { Id(Id), Paren(P) } }
    refstruct! { P(0: Po, 1: Box<E>, 2: Pc) }
} }
grammar! {
/// statements in a loop
g3 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Loop<St>) }
    refenum! { St { A(Asg), B(Blk) } }
    refstruct! { Asg(0: Id, 1: Add, 2: Num, 3: Semi) }
    refstruct! { Blk(0: Po, 1: tp::Vec<Asg>, 2: Pc) }
} }
grammar! {
/// runs of optional symbols
g4 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Option<KwA>, 1: tp::Option<KwB>, 2: tp::Option<Num>, 3: Add, 4: tp::Option<Mul>) }
} }
grammar! {
/// lists
g5 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Vec<Id>, 1: tp::Nev<Num>, 2: tp::VecDeque<Op>, 3: Semi) }
    refenum! { Op { Add(Add), Mul(Mul) } }
} }
grammar! {
/// list with a trailing separator allowed
g6 {
    refstruct! { #[teleparse(root, no_test)] S(0: Args, 1: Semi) }
    refstruct! { Args(0: Po, 1: tp::Option<tp::Punct<A, Add>>, 2: Pc) }
    refenum! { A { Id(Id), Sub(B) } }
    refstruct! { B(0: Num, 1: Mul, 2: Id) }
} }
grammar! {
/// synchronising on ";"
g7 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Vec<tp::Recover<St, Semi>>) }
    refstruct! { St(0: Id, 1: Add, 2: Num) }
} }
grammar! {
/// a nullable variant
g8 {
    refstruct! { #[teleparse(root, no_test)] S(0: Po, 1: X, 2: Pc, 3: X) }
    refenum! { X { A(tp::Vec<Id>), B((Num, Id)), C(Mul) } }
} }
grammar! {
/// nested tuples and boxes
g9 {
    refstruct! { #[teleparse(root, no_test)] S(0: (Po, (Id, Num), tp::Option<Box<M>>, Box<Pc>, tp::Option<Semi>)) }
    refstruct! { M(0: Add, 1: S) }
} }
grammar! {
/// presence flags
g10 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Exists<KwA>, 1: tp::Exists<(Add, Id)>, 2: tp::Exists<tp::Nev<Num>>, 3: Po) }
} }
grammar! {
/// a literal against any token of its type
g11 {
    refstruct! { #[teleparse(root, no_test)] S(0: KwA, 1: Id, 2: KwB, 3: tp::Option<Semi>) }
} }
grammar! {
/// options inside options' elements
g12 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Option<A>, 1: Semi) }
    refstruct! { A(0: Po, 1: tp::Option<B>, 2: Pc) }
    refstruct! { B(0: Id, 1: tp::Option<C>) }
    refstruct! { C(0: Add, 1: tp::Option<Num>, 2: Mul) }
} }
grammar! {
/// a list of possibly absent elements
g13 {
    refstruct! { #[teleparse(root, no_test)] S(0: Po, 1: tp::Split<tp::Option<Id>, Add>, 2: Pc) }
} }
grammar! {
/// lists of lists
g14 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Vec<X>) }
    refenum! { X { A((tp::Split<Id, Add>, Semi)), B((Num, tp::Vec<Num>, Semi)) } }
} }
grammar! {
/// loop of recovering statements
g15 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Loop<tp::Recover<tp::Split<X, Add>, Semi>>) }
    refenum! { X { Id(Id), Num(Num), P(P) } }
    refstruct! { P(0: Po, 1: Id, 2: Pc) }
} }
grammar! {
/// keywords and numbers
g16 {
    refstruct! { #[teleparse(root, no_test)] S(0: X, 1: tp::Vec<X>, 2: Semi) }
    refenum! { X { A(KwA), B(KwB), N((Num, Id)) } }
} }
grammar! {
/// separators that can be long, elements that can be long
g17 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Split<(Id, tp::Option<Num>), (Add, tp::Option<Mul>)>, 1: tp::Option<Semi>) }
} }
grammar! {
/// Punct at the end of a sequence, with something optional after it
g18 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Punct<(Po, Id, Pc), Add>, 1: tp::Option<(Semi, Id)>) }
} }
grammar! {
/// recovery with a tail that can be empty or long
g19 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Recover<(Po, tp::Vec<Id>, Pc), (Add, Num)>, 1: tp::Option<Semi>) }
} }
grammar! {
/// recovery inside recovery
g20 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Recover<X, Semi>) }
    refstruct! { X(0: Num, 1: tp::Recover<(Id, Add), Pc>, 2: Num) }
} }
grammar! {
/// mutual recursion through Box
g21 {
    refstruct! { #[teleparse(root, no_test)] S(0: A) }
    refenum! { A { Leaf(Num), Node(N) } }
    refstruct! { N { l: Po, b: tp::Option<Box<B>>, r: Pc } }
    refstruct! { B { a: Box<A>, rest: tp::Option<Box<C>> } }
    refstruct! { C { s: Add, b: Box<B> } }
} }
grammar! {
/// a wide union and a long sequence
g22 {
    refstruct! { #[teleparse(root, no_test)] S { a: X, b: tp::Option<Y>, c: X, d: tp::Option<Semi>, e: tp::Option<Num>, f: tp::Exists<Mul> } }
    refenum! { X { A(KwA), B(KwB), C(Add), D(Mul), E(Q) } }
    refstruct! { Y(0: Num, 1: Pc) }
    refstruct! { Q(0: Po, 1: tp::Option<Num>, 2: Pc) }
} }
grammar! {
/// text of nodes
g23 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::String<(Id, tp::Option<Num>)>, 1: tp::String<tp::Vec<Mul>>, 2: tp::Option<tp::String<(Po, Id, Pc)>>) }
} }
grammar! {
/// everything a root can be: only optional
g24 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Vec<X>, 1: tp::Exists<Semi>) }
    refstruct! { X(0: Id, 1: tp::Option<(Po, tp::Option<tp::Punct<Num, Add>>, Pc)>) }
} }

// Options
grammar! { o1 {
    refstruct! { #[teleparse(root, no_test)] S { a: tp::Option<A>, b: tp::Exists<B>, c: tp::Option<Semi> } }
    refstruct! { A(0: Po, 1: Id, 2: Pc) }
    refstruct! { B(0: Num, 1: tp::Option<Add>, 2: Mul) }
} }
grammar! { o2 {
    refstruct! { #[teleparse(root, no_test)] S(0: Po, 1: tp::Option<(Id, Add)>, 2: Pc, 3: tp::Exists<(Mul, Num)>) }
} }
grammar! { o3 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Option<X>, 1: tp::Option<(Semi, tp::Option<X>)>) }
    refenum! { X { A((KwA, Add)), B((KwB, Mul, tp::Option<Num>)), C((Po, Pc)) } }
} }
// Lists
grammar! { l1 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Nev<(Id, Add)>, 1: tp::Vec<(Num, Mul)>) }
} }
grammar! { l2 {
    refstruct! { #[teleparse(root, no_test)] S(0: Po, 1: tp::Vec<X>, 2: Pc, 3: tp::Option<Semi>) }
    refenum! { X { A((Id, tp::Option<Num>)), B((Add, tp::Vec<Mul>, Semi)) } }
} }
grammar! { l3 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::NevDeque<X>, 1: tp::Option<Pc>) }
    refstruct! { X(0: Po, 1: tp::Nev<Id>, 2: Semi) }
} }
// Separated lists
grammar! { s1 {
    refstruct! { #[teleparse(root, no_test)] S(0: Po, 1: tp::Split<(Id, Num), Add>, 2: Pc) }
} }
grammar! { s2 {
    refstruct! { #[teleparse(root, no_test)] S(0: Po, 1: tp::Punct<(Id, Num), Add>, 2: Pc) }
} }
grammar! { s3 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Punct<X, (Add, Mul)>, 1: tp::Option<Semi>) }
    refenum! { X { A(Id), B((Num, Pc)) } }
} }
grammar! { s4 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Split<X, (Add, Mul)>, 1: tp::Option<Semi>) }
    refenum! { X { A(Id), B((Num, Pc)) } }
} }
grammar! { s5 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Punct<tp::Split<X, Add>, Semi>, 1: tp::Exists<Pc>) }
    refenum! { X { A((Po, Id)), B(Num) } }
} }
// Recovery
grammar! { r1 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Recover<(Po, Id, Pc), Add>, 1: tp::Option<Num>) }
} }
grammar! { r2 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Recover<tp::Option<(Po, Id, Pc)>, Semi>, 1: Num) }
} }
grammar! { r3 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Recover<(Num, Id), tp::Option<Add>>, 1: tp::Option<Semi>) }
} }
grammar! { r4 {
    refstruct! { #[teleparse(root, no_test)] S(0: Po, 1: tp::Vec<tp::Recover<X, (Semi, tp::Option<Mul>)>>, 2: Pc) }
    refenum! { X { A((Id, Add)), B((Num, Num)) } }
} }
// Loops
grammar! { k1 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Loop<(Id, Add)>) }
} }
grammar! { k2 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Loop<X>) }
    refenum! { X { A((KwA, Num)), B((KwB, Semi)), C((Num, tp::Option<Add>)) } }
} }
grammar! { k3 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Loop<tp::Recover<(Id, Num), tp::Option<Semi>>>) }
} }
grammar! { k4 {
    refstruct! { #[teleparse(root, no_test)] S(0: Num, 1: tp::Loop<X>) }
    refstruct! { X(0: Po, 1: tp::Split<Id, Add>, 2: Pc) }
} }
// Utility types inside one another, where one recovers inside another
grammar! { m1 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Split<tp::Recover<(Id, Num), Semi>, Add>, 1: tp::Option<Mul>) }
} }
grammar! { m2 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Punct<tp::Recover<(Id, Num), Add>, Semi>, 1: tp::Option<Pc>) }
} }
grammar! { m3 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Vec<(Po, tp::Punct<Id, Semi>, Pc)>, 1: tp::Exists<Mul>) }
} }
grammar! { m4 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Recover<tp::Split<Id, Add>, Semi>, 1: tp::Recover<tp::Nev<Num>, Pc>) }
} }
grammar! { m5 {
    refstruct! { #[teleparse(root, no_test)] S(0: X, 1: tp::Option<Mul>) }
    refstruct! { X(0: tp::Recover<Y, Semi>) }
    refstruct! { Y(0: Po, 1: tp::Option<Box<X>>, 2: Pc) }
} }
grammar! { m6 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Loop<(tp::Punct<Id, Add>, Semi)>) }
} }
grammar! { m7 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Exists<tp::Recover<Num, Semi>>, 1: tp::Option<tp::Recover<(Po, Pc), Add>>, 2: tp::String<tp::Recover<Id, Semi>>) }
} }
grammar! { m8 {
    refenum! { #[teleparse(root, no_test)] S { A(tp::Split<Id, Add>), B(tp::Punct<Num, Semi>), C(tp::Recover<(Po, Pc), Mul>) } }
} }
grammar! { m9 {
    refstruct! { #[teleparse(root, no_test)] S(0: Po, 1: tp::Split<(Id, Semi), Add>, 2: Pc) }
} }
grammar! { m10 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Punct<(Num, Pc), Semi>, 1: tp::Option<Add>) }
} }
grammar! { m11 {
    refstruct! { #[teleparse(root, no_test)] S(0: A) }
    refstruct! { A { b: Box<B> } }
    refenum! { B { C(C), D(D) } }
    refstruct! { C(0: Id, 1: tp::Option<Box<A>>) }
    refstruct! { D(0: tp::Nev<(Num, Semi)>) }
} }
grammar! { m12 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Loop<tp::Recover<X, Semi>>) }
    refenum! { X { A(tp::Split<Id, Add>), B((Po, tp::Punct<Num, Mul>, Pc)) } }
} }
grammar! {
/// many fields
w1 {
    refstruct! { #[teleparse(root, no_test)] S { a: tp::Option<Po>, b: tp::Option<Pc>, c: tp::Option<Add>, d: tp::Option<Mul>, e: tp::Option<Num>, f: tp::Exists<Id>, g: Semi, h: tp::Option<Po>, i: tp::Option<Add>, j: tp::Vec<Num>, k: Pc, l: tp::Option<KwA>, m: tp::Exists<Mul>, n: tp::Option<Semi> } }
} }
grammar! {
/// many fields, many variants
w2 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Option<KwA>, 1: tp::Option<KwB>, 2: tp::Option<Num>, 3: tp::Option<Add>, 4: tp::Option<Mul>, 5: tp::Option<Semi>, 6: Po, 7: tp::Vec<W>, 8: Pc, 9: tp::Exists<KwA>, 10: tp::Option<Add>, 11: tp::Recover<Mul, Semi>, 12: tp::Option<KwB>) }
    refenum! { W { A(KwA), B(KwB), C(Num), D(Add), E(Mul), F(Semi), G(P) } }
    refstruct! { P(0: Po, 1: Box<W>, 2: Pc) }
} }
// rules with the same name, in different modules
grammar! { y1 {
    refstruct! { Item(0: Num, 1: Semi) }
    } }
grammar! { y2 {
    refstruct! { Item(0: Id) }
    refstruct! { Kind2(0: Mul, 1: tp::Option<Num>) }
} }
grammar! { y3 {
    refstruct! { #[teleparse(root, no_test)] S(0: tp::Vec<super::y1::Item>, 1: Add, 2: tp::Vec<Item>) }
    refenum! { Item { A(super::y2::Item), K(super::y2::Kind2) } }
} }
