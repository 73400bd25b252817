//! Reference theory of grammars: plain context-free grammars, nullable / FIRST /
//! FOLLOW as least fixpoints over bit masks, and the LL(1) condition. Written
//! from the textbook definitions, with no call into the code under test.
//!
//! A set is a mask of atoms. Bit 31 is epsilon in a FIRST set and the end of
//! the input in a FOLLOW set.
pub const EPS: u32 = 1 << 31;

#[derive(Clone, Debug)]
pub enum P {
    Undefined,
    Term(u32),
    Eps,
    Seq(Vec<usize>),
    Alt(Vec<usize>),
}

#[derive(Default)]
pub struct Cfg {
    pub name: Vec<String>,
    pub prod: Vec<P>,
    pub first: Vec<u32>,
    pub follow: Vec<u32>,
}

impl Cfg {
    /// The symbol with this name and whether it is new.
    pub fn named(&mut self, name: &str) -> (usize, bool) {
        for (i, n) in self.name.iter().enumerate() {
            if n == name {
                return (i, false);
            }
        }
        self.name.push(name.to_string());
        self.prod.push(P::Undefined);
        (self.name.len() - 1, true)
    }
    pub fn put(&mut self, name: &str, p: P) -> usize {
        let (i, new) = self.named(name);
        if new {
            self.prod[i] = p;
        }
        i
    }
    pub fn add(&mut self, p: P) -> usize {
        self.name.push(String::new());
        self.prod.push(p);
        self.prod.len() - 1
    }
    pub fn eps(&mut self) -> usize {
        self.put("e", P::Eps)
    }
    pub fn opt(&mut self, t: usize) -> usize {
        let e = self.eps();
        self.put(&format!("opt{t}"), P::Alt(vec![t, e]))
    }
    pub fn seq(&mut self, v: Vec<usize>) -> usize {
        let name = format!("seq{v:?}");
        self.put(&name, P::Seq(v))
    }
    /// T+ => T (T+)?
    pub fn plus(&mut self, t: usize) -> usize {
        let (i, new) = self.named(&format!("plus{t}"));
        if new {
            let o = self.opt(i);
            self.prod[i] = P::Seq(vec![t, o]);
        }
        i
    }
    /// Punct => T (P (Punct)?)?
    pub fn punct(&mut self, t: usize, p: usize) -> usize {
        let (i, new) = self.named(&format!("punct{t},{p}"));
        if new {
            let o = self.opt(i);
            let s = self.seq(vec![p, o]);
            let so = self.opt(s);
            self.prod[i] = P::Seq(vec![t, so]);
        }
        i
    }

    pub fn solve(&mut self, root: usize) {
        let n = self.prod.len();
        let mut first = vec![0u32; n];
        loop {
            let mut changed = false;
            for i in 0..n {
                let f = match &self.prod[i] {
                    P::Undefined => 0,
                    P::Term(m) => *m,
                    P::Eps => EPS,
                    P::Alt(v) => v.iter().fold(0, |a, j| a | first[*j]),
                    P::Seq(v) => first_of_seq(&first, v),
                };
                if f != first[i] {
                    first[i] = f;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        let mut follow = vec![0u32; n];
        follow[root] = EPS;
        loop {
            let mut changed = false;
            for i in 0..n {
                match &self.prod[i] {
                    P::Alt(v) => {
                        for j in v {
                            let f = follow[*j] | follow[i];
                            changed |= f != follow[*j];
                            follow[*j] = f;
                        }
                    }
                    P::Seq(v) => {
                        for (k, j) in v.iter().enumerate() {
                            let rest = first_of_seq(&first, &v[k + 1..]);
                            let mut f = follow[*j] | (rest & !EPS);
                            if rest & EPS != 0 {
                                f |= follow[i];
                            }
                            changed |= f != follow[*j];
                            follow[*j] = f;
                        }
                    }
                    _ => {}
                }
            }
            if !changed {
                break;
            }
        }
        self.first = first;
        self.follow = follow;
    }

    pub fn reachable(&self, root: usize) -> Vec<bool> {
        let mut seen = vec![false; self.prod.len()];
        let mut todo = vec![root];
        while let Some(i) = todo.pop() {
            if seen[i] {
                continue;
            }
            seen[i] = true;
            if let P::Alt(v) | P::Seq(v) = &self.prod[i] {
                todo.extend(v.iter().copied());
            }
        }
        seen
    }

    /// Two alternatives of a reachable union that one token of lookahead cannot tell apart?
    pub fn has_conflict(&self, root: usize) -> bool {
        let reach = self.reachable(root);
        for i in 0..self.prod.len() {
            if !reach[i] {
                continue;
            }
            if let P::Alt(v) = &self.prod[i] {
                for a in 0..v.len() {
                    for b in 0..v.len() {
                        if a == b {
                            continue;
                        }
                        let (fa, fb) = (self.first[v[a]], self.first[v[b]]);
                        if fa & fb != 0 {
                            return true;
                        }
                        if fa & EPS != 0 && fb & !EPS & self.follow[i] != 0 {
                            return true;
                        }
                    }
                }
            }
        }
        false
    }

    /// Can a reachable symbol derive a form that starts with itself?
    pub fn left_recursive(&self, root: usize) -> bool {
        let reach = self.reachable(root);
        let n = self.prod.len();
        // edge[i] = symbols that can be leftmost in i
        let mut edge = vec![vec![false; n]; n];
        for i in 0..n {
            if !reach[i] {
                continue;
            }
            match &self.prod[i] {
                P::Alt(v) => v.iter().for_each(|j| edge[i][*j] = true),
                P::Seq(v) => {
                    for j in v {
                        edge[i][*j] = true;
                        if self.first[*j] & EPS == 0 {
                            break;
                        }
                    }
                }
                _ => {}
            }
        }
        for k in 0..n {
            for i in 0..n {
                if edge[i][k] {
                    for j in 0..n {
                        if edge[k][j] {
                            edge[i][j] = true;
                        }
                    }
                }
            }
        }
        (0..n).any(|i| edge[i][i])
    }

    pub fn is_ll1(&self, root: usize) -> bool {
        !self.has_conflict(root) && !self.left_recursive(root)
    }
}

pub fn first_of_seq(first: &[u32], v: &[usize]) -> u32 {
    let mut f = 0;
    for j in v {
        f |= first[*j] & !EPS;
        if first[*j] & EPS == 0 {
            return f;
        }
    }
    f | EPS
}

/// Membership by exhaustive derivation (no prediction), over symbolic tokens:
/// bit k of `ends(sym, at)` is set when `sym` derives the tokens `at..k`. The
/// computation is branch-free in the tokens, so the result is one formula over
/// them. `sym` must not be left recursive.
pub struct Derive<'a> {
    pub g: &'a Cfg,
    pub n: usize,
    /// is token i in this set of atoms?
    pub hit: &'a dyn Fn(usize, u32) -> bool,
    /// fewest tokens a symbol derives
    min: Vec<usize>,
    memo: Vec<Option<u128>>,
}
impl<'a> Derive<'a> {
    pub fn new(g: &'a Cfg, n: usize, hit: &'a dyn Fn(usize, u32) -> bool) -> Self {
        let k = g.prod.len();
        let mut min = vec![1000usize; k];
        loop {
            let mut changed = false;
            for i in 0..k {
                let m = match &g.prod[i] {
                    P::Undefined => 1000,
                    P::Eps => 0,
                    P::Term(_) => 1,
                    P::Alt(v) => v.iter().map(|x| min[*x]).min().unwrap_or(1000),
                    P::Seq(v) => v.iter().map(|x| min[*x]).sum::<usize>().min(1000),
                };
                changed |= m < min[i];
                min[i] = m;
            }
            if !changed {
                break;
            }
        }
        Derive { g, n, hit, min, memo: vec![None; k * (n + 1)] }
    }
    pub fn ends(&mut self, sym: usize, at: usize) -> u128 {
        if at + self.min[sym] > self.n {
            return 0;
        }
        let key = sym * (self.n + 1) + at;
        if let Some(m) = self.memo[key] {
            return m;
        }
        let g = self.g;
        let r = match &g.prod[sym] {
            P::Undefined => 0,
            P::Eps => 1u128 << at,
            P::Term(m) => ((self.hit)(at, *m) as u128) << (at + 1),
            P::Alt(v) => v.iter().fold(0, |a, x| a | self.ends(*x, at)),
            P::Seq(v) => {
                let mut cur: u128 = 1 << at;
                let mut from = at;
                for x in v {
                    let mut next = 0;
                    for k in from..=self.n {
                        // long sentences have been decided token by token already
                        if self.n > 12 && cur >> k & 1 == 0 {
                            continue;
                        }
                        // all ones when k is an end of what precedes
                        let mask = (cur >> k & 1).wrapping_neg();
                        next |= self.ends(*x, k) & mask;
                    }
                    from += self.min[*x];
                    cur = next;
                }
                cur
            }
        };
        self.memo[key] = Some(r);
        r
    }
}
