//! The grammar and the shape of a syntax tree type, written down a second time
//! for the reference parser: `Ref` is implemented for the terminals, for every
//! utility type, and (through `refstruct!` / `refenum!`) for derived types.
use crate::gram::{Cfg, P};
use crate::lang::*;
use std::collections::VecDeque;
use teleparse::prelude::*;
use teleparse::{Produce, Production, Span, ToSpan};

#[derive(Clone, Debug)]
pub enum D {
    Undefined,
    /// any literal of the type when `lit` is false
    Tok { mask: u32, lit: bool },
    Seq(Vec<usize>),
    Alt(Vec<usize>),
    Opt(usize),
    Exists(usize),
    Plus(usize),
    Star(usize),
    Loop(usize),
    Split(usize, usize),
    Punct(usize, usize),
    Rec(usize, usize),
    /// text of the node (`tp::String`)
    Text(usize),
}

/// A grammar: nodes of syntax trees, each with its symbol in the plain grammar.
#[derive(Default)]
pub struct G {
    pub key: Vec<String>,
    pub d: Vec<D>,
    pub cfg_of: Vec<usize>,
    pub cfg: Cfg,
    /// semantic types given to the fields or variants of a node
    pub sem: Vec<(usize, Vec<u32>)>,
}

impl G {
    pub fn of<R: Ref>() -> (G, usize) {
        let mut g = G::default();
        let r = R::sym(&mut g);
        let root = g.cfg_of[r];
        g.cfg.solve(root);
        (g, r)
    }
    fn find(&self, key: &str) -> Option<usize> {
        self.key.iter().position(|k| k == key)
    }
    pub fn node(&mut self, key: String, d: D, cfg: usize) -> usize {
        if let Some(i) = self.find(&key) {
            return i;
        }
        self.key.push(key);
        self.d.push(d);
        self.cfg_of.push(cfg);
        self.d.len() - 1
    }
    /// For derived types, which can be recursive: reserve the node first.
    pub fn begin(&mut self, name: &str) -> Result<usize, usize> {
        if let Some(i) = self.find(name) {
            return Err(i);
        }
        let (c, _) = self.cfg.named(name);
        Ok(self.node(name.to_string(), D::Undefined, c))
    }
    pub fn sems(&self, i: usize) -> Option<&Vec<u32>> {
        self.sem.iter().find(|x| x.0 == i).map(|x| &x.1)
    }
    pub fn end(&mut self, i: usize, seq: bool, items: Vec<usize>) -> usize {
        let c: Vec<usize> = items.iter().map(|x| self.cfg_of[*x]).collect();
        let ci = self.cfg_of[i];
        if seq {
            self.cfg.prod[ci] = P::Seq(c);
            self.d[i] = D::Seq(items);
        } else {
            self.cfg.prod[ci] = P::Alt(c);
            self.d[i] = D::Alt(items);
        }
        i
    }
}

pub trait Ref: ToSpan {
    fn sym(g: &mut G) -> usize;
    /// A flat record of the tree: node kinds, spans and contents in order.
    fn dump(&self, o: &mut Vec<u32>);
}

pub const K_TOK: u32 = 1;
pub const K_SEQ: u32 = 2;
pub const K_ALT: u32 = 3;
pub const K_SOME: u32 = 4;
pub const K_NONE: u32 = 5;
pub const K_EXISTS: u32 = 6;
pub const K_LIST: u32 = 7;
pub const K_SPLIT: u32 = 8;
pub const K_PUNCT: u32 = 9;
pub const K_REC: u32 = 10;
pub const K_TEXT: u32 = 11;

pub fn put_span(o: &mut Vec<u32>, s: Span) {
    o.push(s.lo as u32);
    o.push(s.hi as u32);
}

macro_rules! terminal {
    ($($t:ident $name:literal $mask:expr, $lit:expr, $ty:ident;)*) => { $(
        impl Ref for $t {
            fn sym(g: &mut G) -> usize {
                let c = g.cfg.put($name, P::Term($mask));
                g.node($name.to_string(), D::Tok { mask: $mask, lit: $lit }, c)
            }
            fn dump(&self, o: &mut Vec<u32>) {
                o.push(K_TOK);
                put_span(o, self.span());
                o.push((self.0.ty == L0::$ty) as u32);
            }
        }
    )* };
}
terminal! {
    Id "Id" A_A | A_B | A_W, false, Word;
    KwA "KwA" A_A, true, Word;
    KwB "KwB" A_B, true, Word;
    Add "Add" A_ADD, true, Op;
    Mul "Mul" A_MUL, true, Op;
    Po "Po" A_PO, true, Paren;
    Pc "Pc" A_PC, true, Paren;
    Num "Num" A_NUM, false, Digit;
    Semi "Semi" A_SEMI, true, Delim;
}

impl<T: Ref> Ref for Box<T> {
    fn sym(g: &mut G) -> usize {
        T::sym(g)
    }
    fn dump(&self, o: &mut Vec<u32>) {
        (**self).dump(o)
    }
}

macro_rules! tuple {
    ($($t:ident $i:tt),*) => {
        impl<$($t: Ref),*> Ref for ($($t,)*) {
            fn sym(g: &mut G) -> usize {
                let items = vec![$($t::sym(g)),*];
                let c = items.iter().map(|x| g.cfg_of[*x]).collect();
                let c = g.cfg.seq(c);
                g.node(format!("seq{items:?}"), D::Seq(items), c)
            }
            fn dump(&self, o: &mut Vec<u32>) {
                o.push(K_SEQ);
                put_span(o, self.span());
                $( self.$i.dump(o); )*
            }
        }
    };
}
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);
tuple!(A 0, B 1, C 2, DD 3);
tuple!(A 0, B 1, C 2, DD 3, EE 4);

impl<T: Ref + Produce> Ref for tp::Option<T> {
    fn sym(g: &mut G) -> usize {
        let t = T::sym(g);
        let c = g.cfg.opt(g.cfg_of[t]);
        g.node(format!("opt{t}"), D::Opt(t), c)
    }
    fn dump(&self, o: &mut Vec<u32>) {
        o.push(if self.0.value.is_some() { K_SOME } else { K_NONE });
        put_span(o, self.span());
        if let Some(t) = &self.0.value {
            t.dump(o);
        }
    }
}
impl<T: Ref + Produce> Ref for tp::Exists<T> {
    fn sym(g: &mut G) -> usize {
        let t = T::sym(g);
        let c = g.cfg.opt(g.cfg_of[t]);
        g.node(format!("exists{t}"), D::Exists(t), c)
    }
    fn dump(&self, o: &mut Vec<u32>) {
        o.push(K_EXISTS);
        put_span(o, self.span());
        o.push(**self as u32);
    }
}
fn list<'a, T: Ref + 'a>(o: &mut Vec<u32>, s: Span, n: usize, it: impl Iterator<Item = &'a T>) {
    o.push(K_LIST);
    put_span(o, s);
    o.push(n as u32);
    it.for_each(|x| x.dump(o));
}
macro_rules! lists {
    ($($v:ident)*) => { $(
        impl<T: Ref + Produce> Ref for tp::Plus<$v<T>, T> {
            fn sym(g: &mut G) -> usize {
                let t = T::sym(g);
                let c = g.cfg.plus(g.cfg_of[t]);
                g.node(format!("plus{t}"), D::Plus(t), c)
            }
            fn dump(&self, o: &mut Vec<u32>) {
                list(o, self.span(), self.len(), self.iter())
            }
        }
        impl<T: Ref + Produce> Ref for tp::Star<$v<T>, T> {
            fn sym(g: &mut G) -> usize {
                let t = T::sym(g);
                let c = g.cfg.plus(g.cfg_of[t]);
                let c = g.cfg.opt(c);
                g.node(format!("star{t}"), D::Star(t), c)
            }
            fn dump(&self, o: &mut Vec<u32>) {
                list(o, self.span(), self.len(), self.iter())
            }
        }
    )* };
}
lists!(Vec VecDeque);
impl<T: Ref + Produce> Ref for tp::Loop<T> {
    fn sym(g: &mut G) -> usize {
        let t = T::sym(g);
        let c = g.cfg.plus(g.cfg_of[t]);
        g.node(format!("loop{t}"), D::Loop(t), c)
    }
    fn dump(&self, o: &mut Vec<u32>) {
        list(o, self.span(), self.len(), self.iter())
    }
}
impl<T: Ref + Produce, S: Ref + Produce> Ref for tp::Split<T, S>
where
    S::Prod: Production<L = <T::Prod as Production>::L>,
{
    fn sym(g: &mut G) -> usize {
        let (t, s) = (T::sym(g), S::sym(g));
        let (ct, cs) = (g.cfg_of[t], g.cfg_of[s]);
        let pair = g.cfg.seq(vec![cs, ct]);
        let more = g.cfg.plus(pair);
        let more = g.cfg.opt(more);
        let c = g.cfg.seq(vec![ct, more]);
        g.node(format!("split{t},{s}"), D::Split(t, s), c)
    }
    fn dump(&self, o: &mut Vec<u32>) {
        o.push(K_SPLIT);
        put_span(o, self.span());
        o.push(self.elems.len() as u32);
        self.elems.iter().for_each(|x| x.dump(o));
        o.push(self.puncts.len() as u32);
        self.puncts.iter().for_each(|x| x.dump(o));
    }
}
impl<T: Ref + Produce, S: Ref + Produce> Ref for tp::Punct<T, S>
where
    S::Prod: Production<L = <T::Prod as Production>::L>,
{
    fn sym(g: &mut G) -> usize {
        let (t, s) = (T::sym(g), S::sym(g));
        let c = g.cfg.punct(g.cfg_of[t], g.cfg_of[s]);
        g.node(format!("punct{t},{s}"), D::Punct(t, s), c)
    }
    fn dump(&self, o: &mut Vec<u32>) {
        o.push(K_PUNCT);
        put_span(o, self.span());
        o.push(self.elems.len() as u32);
        self.elems.iter().for_each(|x| x.dump(o));
        o.push(self.puncts.len() as u32);
        self.puncts.iter().for_each(|x| x.dump(o));
    }
}
impl<T: Ref + Produce, R: Ref + Produce> Ref for tp::Recover<T, R>
where
    R::Prod: Production<L = <T::Prod as Production>::L>,
{
    fn sym(g: &mut G) -> usize {
        let (t, r) = (T::sym(g), R::sym(g));
        let c = g.cfg.seq(vec![g.cfg_of[t], g.cfg_of[r]]);
        g.node(format!("rec{t},{r}"), D::Rec(t, r), c)
    }
    fn dump(&self, o: &mut Vec<u32>) {
        o.push(K_REC);
        put_span(o, self.span());
        o.push(self.head.value.is_some() as u32);
        put_span(o, self.head.span());
        if let Some(x) = &self.head.value {
            x.dump(o);
        }
        self.tail.dump(o);
    }
}
impl<T: Ref + Produce> Ref for tp::Quote<String, T> {
    fn sym(g: &mut G) -> usize {
        let t = T::sym(g);
        let c = g.cfg_of[t];
        g.node(format!("text{t}"), D::Text(t), c)
    }
    fn dump(&self, o: &mut Vec<u32>) {
        o.push(K_TEXT);
        put_span(o, self.span());
        o.push(self.len() as u32);
        o.extend(self.as_bytes().iter().map(|b| *b as u32));
    }
}

/// Declares a derived struct and its reference description.
#[macro_export]
macro_rules! refstruct {
    ($(#[$m:meta])* $name:ident ( $( $(#[$fm:meta])* $i:tt : $t:ty ),+ $(,)? )) => {
        #[teleparse::derive_syntax]
        $(#[$m])*
        pub struct $name($( $(#[$fm])* pub $t ),+);
        impl $crate::tree::Ref for $name {
            fn sym(g: &mut $crate::tree::G) -> usize {
                match g.begin(concat!(module_path!(), "::", stringify!($name))) {
                    Err(i) => i,
                    Ok(i) => {
                        let items = vec![$( <$t as $crate::tree::Ref>::sym(g) ),+];
                        g.end(i, true, items)
                    }
                }
            }
            fn dump(&self, o: &mut Vec<u32>) {
                o.push($crate::tree::K_SEQ);
                $crate::tree::put_span(o, teleparse::ToSpan::span(self));
                $( self.$i.dump(o); )+
            }
        }
    };
    ($(#[$m:meta])* $name:ident { $( $(#[$fm:meta])* $i:ident : $t:ty ),+ $(,)? }) => {
        #[teleparse::derive_syntax]
        $(#[$m])*
        pub struct $name { $( $(#[$fm])* pub $i: $t ),+ }
        impl $crate::tree::Ref for $name {
            fn sym(g: &mut $crate::tree::G) -> usize {
                match g.begin(concat!(module_path!(), "::", stringify!($name))) {
                    Err(i) => i,
                    Ok(i) => {
                        let items = vec![$( <$t as $crate::tree::Ref>::sym(g) ),+];
                        g.end(i, true, items)
                    }
                }
            }
            fn dump(&self, o: &mut Vec<u32>) {
                o.push($crate::tree::K_SEQ);
                $crate::tree::put_span(o, teleparse::ToSpan::span(self));
                $( self.$i.dump(o); )+
            }
        }
    };
}
/// Declares a derived enum and its reference description.
#[macro_export]
macro_rules! refenum {
    ($(#[$m:meta])* $name:ident { $( $(#[$fm:meta])* $v:ident ( $t:ty ) ),+ $(,)? }) => {
        #[teleparse::derive_syntax]
        $(#[$m])*
        pub enum $name { $( $(#[$fm])* $v($t) ),+ }
        impl $crate::tree::Ref for $name {
            fn sym(g: &mut $crate::tree::G) -> usize {
                match g.begin(concat!(module_path!(), "::", stringify!($name))) {
                    Err(i) => i,
                    Ok(i) => {
                        let items = vec![$( <$t as $crate::tree::Ref>::sym(g) ),+];
                        g.end(i, false, items)
                    }
                }
            }
            fn dump(&self, o: &mut Vec<u32>) {
                o.push($crate::tree::K_ALT);
                $crate::tree::put_span(o, teleparse::ToSpan::span(self));
                let mut _i = 0u32;
                $(
                    if let Self::$v(x) = self {
                        o.push(_i);
                        x.dump(o);
                    }
                    _i += 1;
                )+
            }
        }
    };
}

/// The bit of a semantic type.
#[macro_export]
macro_rules! sem_bit {
    (Sem1) => { 1u32 };
    (Sem2) => { 2u32 };
    (Sem3) => { 4u32 };
}
/// Like `refstruct!` (with named or unnamed fields) and `refenum!`, where a
/// field or variant can be given semantic types: `a: T [Sem1 Sem2]`.
#[macro_export]
macro_rules! semstruct {
    (@ref $name:ident; $($i:tt $t:ty, [$($s:ident)*];)+) => {
        impl $crate::tree::Ref for $name {
            fn sym(g: &mut $crate::tree::G) -> usize {
                match g.begin(concat!(module_path!(), "::", stringify!($name))) {
                    Err(i) => i,
                    Ok(i) => {
                        let items = vec![$( <$t as $crate::tree::Ref>::sym(g) ),+];
                        g.sem.push((i, vec![$( 0u32 $( | $crate::sem_bit!($s) )* ),+]));
                        g.end(i, true, items)
                    }
                }
            }
            fn dump(&self, o: &mut Vec<u32>) {
                o.push($crate::tree::K_SEQ);
                $crate::tree::put_span(o, teleparse::ToSpan::span(self));
                $( self.$i.dump(o); )+
            }
        }
    };
    ($(#[$m:meta])* $name:ident ( $( $i:tt : $t:ty $([$($s:ident)+])? ),+ $(,)? )) => {
        #[teleparse::derive_syntax]
        $(#[$m])*
        pub struct $name($( $(#[teleparse(semantic($($s),+))])? pub $t ),+);
        $crate::semstruct!(@ref $name; $($i $t, [$($($s)+)?];)+);
    };
    ($(#[$m:meta])* $name:ident { $( $i:ident : $t:ty $([$($s:ident)+])? ),+ $(,)? }) => {
        #[teleparse::derive_syntax]
        $(#[$m])*
        pub struct $name { $( $(#[teleparse(semantic($($s),+))])? pub $i: $t ),+ }
        $crate::semstruct!(@ref $name; $($i $t, [$($($s)+)?];)+);
    };
}
#[macro_export]
macro_rules! semenum {
    ($(#[$m:meta])* $name:ident { $( $v:ident ( $t:ty ) $([$($s:ident)+])? ),+ $(,)? }) => {
        #[teleparse::derive_syntax]
        $(#[$m])*
        pub enum $name { $( $(#[teleparse(semantic($($s),+))])? $v($t) ),+ }
        impl $crate::tree::Ref for $name {
            fn sym(g: &mut $crate::tree::G) -> usize {
                match g.begin(concat!(module_path!(), "::", stringify!($name))) {
                    Err(i) => i,
                    Ok(i) => {
                        let items = vec![$( <$t as $crate::tree::Ref>::sym(g) ),+];
                        g.sem.push((i, vec![$( 0u32 $( $( | $crate::sem_bit!($s) )+ )? ),+]));
                        g.end(i, false, items)
                    }
                }
            }
            fn dump(&self, o: &mut Vec<u32>) {
                o.push($crate::tree::K_ALT);
                $crate::tree::put_span(o, teleparse::ToSpan::span(self));
                let mut _i = 0u32;
                $(
                    if let Self::$v(x) = self {
                        o.push(_i);
                        x.dump(o);
                    }
                    _i += 1;
                )+
            }
        }
    };
}
