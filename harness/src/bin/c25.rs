//! C25: a tree can be compared, copied, shown and walked for what it is.
use hx::lang::*;
use hx::sym::check;
use hx::tree::Ref;
use hx::*;
use std::fmt::Debug;
use teleparse::prelude::*;
use teleparse::{Parser, Production, Root};

macro_rules! tree {
    ($n:ident { $($body:tt)* }) => {
        mod $n {
            #[allow(unused_imports)]
            use hx::{lang::*, refenum, refstruct};
            #[allow(unused_imports)]
            use teleparse::prelude::*;
            $($body)*
        }
    };
}
tree! { split {
    refstruct! { #[teleparse(root, no_test)] #[derive(Clone, PartialEq, Debug)] S(0: tp::Split<Num, Add>, 1: tp::Exists<Semi>) }
} }
tree! { punct {
    refstruct! { #[teleparse(root, no_test)] #[derive(Clone, PartialEq, Debug)] S(0: tp::Punct<Id, Semi>, 1: tp::Option<Num>) }
} }
tree! { lists {
    refstruct! { #[teleparse(root, no_test)] #[derive(Clone, PartialEq, Debug)] S { a: tp::Vec<Id>, b: tp::NevDeque<Num>, c: tp::Nev<Add>, d: tp::VecDeque<Mul> } }
} }
tree! { lp {
    refstruct! { #[teleparse(root, no_test)] #[derive(Clone, PartialEq, Debug)] S(0: tp::Loop<X>) }
    refenum! { #[derive(Clone, PartialEq, Debug)] X { A(KwA), B(KwB), P(P), N(Num) } }
    refstruct! { #[derive(Clone, PartialEq, Debug)] P(0: Po, 1: tp::Option<Box<X>>, 2: Pc) }
} }
tree! { rec {
    refstruct! { #[teleparse(root, no_test)] #[derive(Clone, PartialEq, Debug)] S(0: tp::Vec<R>) }
    refstruct! { #[derive(Clone, PartialEq, Debug)] R(0: tp::Recover<A, Semi>) }
    refstruct! { #[derive(Clone, PartialEq, Debug)] A { id: Id, op: tp::Exists<Add>, n: tp::Option<Num> } }
} }
tree! { text {
    refstruct! { #[teleparse(root, no_test)] #[derive(Clone, PartialEq, Debug)] S(0: tp::String<(Id, Num)>, 1: (tp::Option<Mul>, tp::String<Op>)) }
    refenum! { #[derive(Clone, PartialEq, Debug)] Op { A(Add), S(Semi) } }
} }

/// What the ways of looking at a node agree on, for the nodes of one tree.
trait Look: Sized {
    fn look(self) -> bool;
}
fn dumps<'a, T: Ref + 'a>(it: impl Iterator<Item = &'a T>) -> Vec<Vec<u32>> {
    it.map(dump).collect()
}
fn dump<T: Ref>(t: &T) -> Vec<u32> {
    let mut o = vec![];
    t.dump(&mut o);
    o
}
/// All ways to walk a `Split` or `Punct` give the elements in order.
macro_rules! sep {
    ($x:expr) => {{
        let mut x = $x;
        let e = dumps(x.elems.iter());
        let span = x.span();
        let mut ok = x.len() == e.len() && dumps(x.iter()) == e && dumps((&x).into_iter()) == e;
        ok &= (0..e.len()).all(|i| dump(&x[i]) == e[i]) && x.get(e.len()).is_none();
        ok &= dumps((&mut x).into_iter().map(|t| &*t)) == e;
        ok &= x.puncts.windows(2).all(|p| p[0].span().hi <= p[1].span().lo);
        // a change through a mutable view is seen by the others
        if e.len() > 1 {
            let n = e.len() - 1;
            (**x).swap(0, n);
            ok &= dump(&x[0]) == e[n] && dump(&x.elems[n]) == e[0];
            let first = x.elems[n].clone();
            if let Some(t) = (&mut x).into_iter().next() {
                *t = first;
            }
            ok &= dump(&x[0]) == e[0];
        }
        ok &= x.span() == span;
        let k = x.elems.len();
        ok & (x.into_iter().count() == k)
    }};
}
macro_rules! inner {
    ($x:expr) => {{
        let mut x = $x;
        let all = dumps(x.iter());
        let mut ok = x.len() == all.len() && (x.is_empty() == all.is_empty());
        ok &= dumps(x.iter_mut().map(|t| &*t)) == all;
        let v = x.into_inner();
        ok && dumps(v.iter()) == all
    }};
}
impl Look for split::S {
    fn look(self) -> bool {
        let b = *self.1;
        sep!(self.0) & (self.1.into_inner() == b)
    }
}
impl Look for punct::S {
    fn look(self) -> bool {
        let some = self.1.is_some();
        let d = self.1.as_ref().map(dump);
        let ok = self.1.into_inner().as_ref().map(dump) == d && some == d.is_some();
        ok & sep!(self.0)
    }
}
impl Look for lists::S {
    fn look(self) -> bool {
        inner!(self.a) & inner!(self.b) & inner!(self.c) & inner!(self.d)
    }
}
impl Look for lp::S {
    fn look(self) -> bool {
        inner!(self.0)
    }
}
impl Look for rec::S {
    fn look(self) -> bool {
        let mut ok = true;
        for r in self.0.iter() {
            let r = &r.0;
            ok &= r.head.value.as_ref().map(dump) == r.head.as_ref().map(dump) && r.head.is_some() == r.head.value.is_some();
            ok &= r.head.clone().into_inner().as_ref().map(dump) == r.head.as_ref().map(dump);
        }
        ok & inner!(self.0)
    }
}
impl Look for text::S {
    fn look(self) -> bool {
        let s = self.0.to_string();
        let mut t = self.0.clone();
        t.push('x');
        let differs = t != self.0;
        differs & (t.into_inner() == s.clone() + "x") & (self.0.into_inner() == s)
    }
}

const MAX: usize = 10;
fn pair<R: Root + Ref + Clone + PartialEq + Debug + Look>(n: usize, alpha: &[u8], edits: usize)
where
    R::Prod: Production<L = L0>,
{
    let _ = R::metadata();
    let one = || {
        let c = sym::byte();
        sym::assume(alpha.contains(&c));
        c
    };
    let len = sym::pick(n as u8 + 1);
    let mut a = [b' '; MAX];
    for c in &mut a[..len] {
        *c = one();
    }
    let a = &a[..len];
    let read = |b: &[u8]| R::parse(unsafe { std::str::from_utf8_unchecked(b) });
    let Ok(Some(x)) = read(a) else { return };
    let dx = dump(&x);
    sym::cover(1);
    let mut b = a.to_vec();
    for _ in 0..edits {
        match sym::pick(4) {
            0 => {}
            1 => {
                sym::assume(b.len() > 0);
                let i = sym::pick(b.len() as u8);
                b[i] = one();
            }
            2 => {
                let i = sym::pick(b.len() as u8 + 1);
                b.insert(i, one());
            }
            _ => {
                sym::assume(b.len() > 0);
                b.remove(sym::pick(b.len() as u8));
            }
        }
    }
    let text = unsafe { std::str::from_utf8_unchecked(a) };
    if let Ok(Some(y)) = read(&b) {
        let same = dx == dump(&y);
        check(2501, (x == y) == same && (y == x) == same); // trees are equal when and only when they have the same nodes, spans and text
        let shown = format!("{x:?}") == format!("{y:?}");
        check(2502, shown == same); // trees look alike in debug output when and only when they are equal
        sym::cover(if same { 2 } else { 3 });
    }
    let z = x.clone();
    check(2503, z == x && dump(&z) == dx); // a copy is the same tree
    let by_parser = match Parser::<L0>::new(text) {
        Ok(mut p) => matches!(p.parse::<R>(), Ok(Some(y)) if y == x),
        Err(_) => false,
    };
    check(2504, by_parser); // parsing with a parser gives the tree that parsing from the root type gives
    check(2505, z.look()); // every way to look at the content of a node gives the same content
}
harnesses! {
    h_split => pair::<split::S>(sym::bound(6, 8), b"01+; ", 1);
    t_split_two => pair::<split::S>(5, b"01+; ", 2);
    h_punct => pair::<punct::S>(sym::bound(6, 8), b"ab;1 ", 1);
    t_punct_two => pair::<punct::S>(5, b"ab;1 ", 2);
    h_lists => pair::<lists::S>(sym::bound(6, 8), b"ac1+*", 1);
    t_lists_two => pair::<lists::S>(5, b"ac1+*", 2);
    h_loop => pair::<lp::S>(sym::bound(4, 5), b"ab()1", 1);
    t_loop_two => pair::<lp::S>(3, b"ab()1", 2);
    h_rec => pair::<rec::S>(sym::bound(6, 8), b"ac+1;", 1);
    t_rec_two => pair::<rec::S>(5, b"ac+1;", 2);
    h_text => pair::<text::S>(sym::bound(7, 9), b"ac12*+; ", 1);
    t_text_two => pair::<text::S>(7, b"ac12*+; ", 2);
}
