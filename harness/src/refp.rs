//! Reference parser: an interpreter over a `G` that follows the documented
//! rules (the book's chapters on the utility types), not the code's types,
//! tables or control flow. It reads the same source bytes.
use crate::gram::EPS;
use crate::lang::{atom, A_A, A_B, A_W};
use crate::tree::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Tok {
    pub lo: u32,
    pub hi: u32,
    pub atom: u32,
}

/// Kinds of errors.
pub const E_CHARS: u32 = 0;
pub const E_TOKENS: u32 = 1;
pub const E_EXPECT: u32 = 2;
pub const E_EOF: u32 = 3;
pub const E_STUCK: u32 = 4;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Er {
    pub lo: u32,
    pub hi: u32,
    pub kind: u32,
    /// what is expected, for E_EXPECT
    pub set: u32,
}

pub struct Nd {
    pub lo: u32,
    pub hi: u32,
    pub dump: Vec<u32>,
}

type Out = Result<(Nd, Vec<Er>), Vec<Er>>;

pub struct Rp<'a> {
    src: &'a [u8],
    pos: usize,
    pub g: &'a G,
    next: Option<Tok>,
    pub tokens: Vec<Tok>,
    /// semantic types of each
    pub tags: Vec<u32>,
    /// extracted tokens and runs of invalid characters
    pub extracted: Vec<(u32, u32)>,
    pub invalid: Vec<(u32, u32)>,
    /// reported so far, over all parses
    pub errors: Vec<Er>,
}

/// A token (or the end of the input) against a FIRST or a FOLLOW set.
fn has(set: u32, t: Option<Tok>) -> bool {
    match t {
        Some(t) => set & t.atom != 0,
        None => set & EPS != 0,
    }
}

impl<'a> Rp<'a> {
    pub fn new(src: &'a [u8], g: &'a G) -> Self {
        Rp {
            src,
            pos: 0,
            g,
            next: None,
            tokens: Vec::new(),
            tags: Vec::new(),
            extracted: Vec::new(),
            invalid: Vec::new(),
            errors: Vec::new(),
        }
    }

    fn bad(&mut self, run: &mut Option<(u32, u32)>) {
        if let Some((lo, hi)) = run.take() {
            self.invalid.push((lo, hi));
            self.errors.push(Er { lo, hi, kind: E_CHARS, set: 0 });
        }
    }

    pub fn peek(&mut self) -> Option<Tok> {
        if self.next.is_some() {
            return self.next;
        }
        let mut run: Option<(u32, u32)> = None;
        while self.pos < self.src.len() {
            let c = self.src[self.pos];
            let lo = self.pos as u32;
            self.pos += 1;
            if c == b' ' {
                continue;
            }
            if c == b'#' {
                self.bad(&mut run);
                self.extracted.push((lo, lo + 1));
                continue;
            }
            let mut a = atom(c);
            if a != 0 {
                self.bad(&mut run);
                if a & (A_A | A_B | A_W) != 0 && self.src.get(self.pos) == Some(&b'\'') {
                    self.pos += 1;
                    a = A_W;
                }
                self.next = Some(Tok { lo, hi: self.pos as u32, atom: a });
                return self.next;
            }
            run = Some((run.map_or(lo, |r| r.0), lo + 1));
        }
        self.bad(&mut run);
        None
    }
    pub fn take(&mut self) {
        if let Some(t) = self.peek() {
            self.next = None;
            self.tokens.push(t);
            self.tags.push(0);
        }
    }
    /// span of the lookahead
    pub fn here(&mut self) -> (u32, u32) {
        match self.peek() {
            Some(t) => (t.lo, t.hi),
            None => (self.src.len() as u32, self.src.len() as u32),
        }
    }
    /// where nothing was found
    pub fn nowhere(&self) -> u32 {
        self.tokens.last().map_or(0, |t| t.hi)
    }
    fn expecting(&mut self, set: u32) -> Er {
        let (lo, hi) = self.here();
        Er { lo, hi, kind: E_EXPECT, set }
    }
    fn first(&self, n: usize) -> u32 {
        self.g.cfg.first[self.g.cfg_of[n]]
    }
    fn follow(&self, n: usize) -> u32 {
        self.g.cfg.follow[self.g.cfg_of[n]]
    }

    /// One call of `Parser::parse`.
    pub fn parse(&mut self, root: usize) -> Option<Nd> {
        match self.produce(root) {
            Ok((n, e)) => {
                self.errors.extend(e);
                Some(n)
            }
            Err(e) => {
                self.errors.extend(e);
                None
            }
        }
    }

    pub fn produce(&mut self, n: usize) -> Out {
        let g = self.g;
        match &g.d[n] {
            D::Undefined => unreachable!(),
            D::Tok { mask, lit } => self.terminal(n, *mask, *lit),
            D::Seq(v) => {
                let mut e = Vec::new();
                let mut kids = Vec::new();
                for x in v {
                    match self.produce(*x) {
                        Ok((k, ke)) => {
                            e.extend(ke);
                            kids.push(k);
                        }
                        Err(ke) => {
                            e.extend(ke);
                            return Err(e);
                        }
                    }
                }
                if let Some(m) = g.sems(n) {
                    for (k, m) in kids.iter().zip(m) {
                        self.tag(k.lo, k.hi, *m);
                    }
                }
                let (lo, hi) = (kids[0].lo, kids[kids.len() - 1].hi);
                let mut dump = vec![K_SEQ, lo, hi];
                kids.into_iter().for_each(|k| dump.extend(k.dump));
                Ok((Nd { lo, hi, dump }, e))
            }
            D::Alt(v) => {
                let t = self.peek();
                let mut chosen = None;
                if t.is_some() {
                    for (i, x) in v.iter().enumerate() {
                        if chosen.is_none() && has(self.first(*x) & !EPS, t) {
                            chosen = Some(i);
                        }
                    }
                }
                if chosen.is_none() {
                    chosen = v.iter().position(|x| self.first(*x) & EPS != 0);
                }
                let Some(i) = chosen else {
                    let set = self.first(n);
                    return Err(vec![self.expecting(set)]);
                };
                let (k, e) = self.produce(v[i])?;
                if let Some(m) = g.sems(n) {
                    self.tag(k.lo, k.hi, m[i]);
                }
                let mut dump = vec![K_ALT, k.lo, k.hi, i as u32];
                dump.extend(k.dump);
                Ok((Nd { lo: k.lo, hi: k.hi, dump }, e))
            }
            D::Opt(t) => {
                let (k, e) = self.optional(*t);
                Ok(match k {
                    Some(k) => {
                        let mut dump = vec![K_SOME, k.lo, k.hi];
                        dump.extend(k.dump);
                        (Nd { lo: k.lo, hi: k.hi, dump }, e)
                    }
                    None => {
                        let at = self.nowhere();
                        (Nd { lo: at, hi: at, dump: vec![K_NONE, at, at] }, e)
                    }
                })
            }
            D::Exists(t) => {
                let (k, e) = self.optional(*t);
                let (lo, hi, there) = match k {
                    Some(k) => (k.lo, k.hi, 1),
                    None => (self.nowhere(), self.nowhere(), 0),
                };
                Ok((Nd { lo, hi, dump: vec![K_EXISTS, lo, hi, there] }, e))
            }
            D::Plus(t) => self.plus(*t),
            D::Star(t) => {
                let look = self.peek();
                let there = look.is_some() && has(self.first(*t), look);
                let mut errors = Vec::new();
                if there {
                    match self.plus(*t) {
                        Ok(x) => return Ok(x),
                        Err(e) => errors = e,
                    }
                }
                let at = self.nowhere();
                Ok((Nd { lo: at, hi: at, dump: vec![K_LIST, at, at, 0] }, errors))
            }
            D::Loop(t) => self.repeat(*t),
            D::Split(t, s) => self.split(n, *t, *s),
            D::Punct(t, p) => self.punct(n, *t, *p),
            D::Rec(t, r) => self.recover(*t, *r),
            D::Text(t) => {
                let (k, e) = self.produce(*t)?;
                let (lo, hi) = (k.lo as usize, k.hi as usize);
                let mut dump = vec![K_TEXT, k.lo, k.hi, k.hi.saturating_sub(k.lo)];
                if lo < hi {
                    dump.extend(self.src[lo..hi].iter().map(|b| *b as u32));
                }
                Ok((Nd { lo: k.lo, hi: k.hi, dump }, e))
            }
        }
    }

    /// Every token of a node gets its semantic types.
    fn tag(&mut self, lo: u32, hi: u32, m: u32) {
        for (t, s) in self.tokens.iter().zip(self.tags.iter_mut()) {
            if lo <= t.lo && t.hi <= hi {
                *s |= m;
            }
        }
    }

    fn terminal(&mut self, n: usize, mask: u32, lit: bool) -> Out {
        let t = self.peek();
        if let Some(t) = t {
            if t.atom & mask != 0 {
                self.take();
                return Ok((Nd { lo: t.lo, hi: t.hi, dump: vec![K_TOK, t.lo, t.hi, 1] }, vec![]));
            }
        }
        if lit {
            // the token is made up when what follows it is there
            if has(self.follow(n), t) {
                let e = self.expecting(mask);
                let at = self.nowhere();
                return Ok((Nd { lo: at, hi: at, dump: vec![K_TOK, at, at, 1] }, vec![e]));
            }
            if t.is_none() {
                let (lo, hi) = self.here();
                return Err(vec![Er { lo, hi, kind: E_EOF, set: 0 }]);
            }
        }
        Err(vec![self.expecting(mask)])
    }

    fn optional(&mut self, t: usize) -> (Option<Nd>, Vec<Er>) {
        let look = self.peek();
        if look.is_none() || !has(self.first(t), look) {
            return (None, vec![]);
        }
        match self.produce(t) {
            Ok((k, e)) => (Some(k), e),
            Err(e) => (None, e),
        }
    }

    fn list(lo: u32, hi: u32, kids: Vec<Nd>) -> Nd {
        let mut dump = vec![K_LIST, lo, hi, kids.len() as u32];
        kids.into_iter().for_each(|k| dump.extend(k.dump));
        Nd { lo, hi, dump }
    }

    fn plus(&mut self, t: usize) -> Out {
        let (k, mut errors) = self.produce(t)?;
        let mut kids = vec![k];
        loop {
            let look = self.peek();
            if look.is_none() || !has(self.first(t), look) {
                break;
            }
            match self.produce(t) {
                Ok((k, e)) => {
                    kids.push(k);
                    errors.extend(e);
                }
                Err(e) => {
                    errors.extend(e);
                    break;
                }
            }
        }
        let (lo, hi) = (kids[0].lo, kids[kids.len() - 1].hi);
        Ok((Self::list(lo, hi, kids), errors))
    }

    fn repeat(&mut self, t: usize) -> Out {
        let mut errors = Vec::new();
        let mut kids = Vec::new();
        let first = self.first(t);
        while self.peek().is_some() {
            let mut skipped: Option<(u32, u32)> = None;
            while let Some(x) = self.peek() {
                if has(first, Some(x)) {
                    break;
                }
                skipped = Some((skipped.map_or(x.lo, |s| s.0), x.hi));
                self.take();
            }
            if let Some((lo, hi)) = skipped {
                errors.push(Er { lo, hi, kind: E_TOKENS, set: 0 });
            }
            if self.peek().is_none() {
                break;
            }
            let before = self.here();
            match self.produce(t) {
                Ok((k, e)) => {
                    kids.push(k);
                    errors.extend(e);
                }
                Err(e) => errors.extend(e),
            }
            let after = self.here();
            if before.0 == after.0 {
                errors.push(Er { lo: after.0, hi: after.1, kind: E_STUCK, set: 0 });
                break;
            }
        }
        let (lo, hi) = if kids.is_empty() {
            (self.nowhere(), self.nowhere())
        } else {
            (kids[0].lo, kids[kids.len() - 1].hi)
        };
        Ok((Self::list(lo, hi, kids), errors))
    }

    /// Extends the pending error over what is skipped, or starts it.
    fn widen(pending: &mut Option<Er>, e: Er) {
        match pending {
            Some(p) => p.hi = e.hi,
            None => *pending = Some(e),
        }
    }

    fn split(&mut self, n: usize, t: usize, s: usize) -> Out {
        let (k, mut errors) = self.produce(t)?;
        let mut elems = vec![k];
        let mut puncts: Vec<Nd> = Vec::new();
        let (ft, fs, after) = (self.first(t), self.first(s), self.follow(n));
        'pairs: loop {
            let look = self.peek();
            if look.is_none() || !has(fs, look) {
                break;
            }
            let sep = match self.produce(s) {
                Ok((k, e)) => {
                    errors.extend(e);
                    k
                }
                Err(e) => {
                    errors.extend(e);
                    break;
                }
            };
            // an element must follow: skip to one; give the pair up at the
            // next separator, at what follows the list, or at the end
            let mut pending: Option<Er> = None;
            loop {
                if has(ft, self.peek()) || ft & EPS != 0 {
                    match self.produce(t) {
                        Ok((k, e)) => {
                            elems.push(k);
                            puncts.push(sep);
                            errors.extend(e);
                            errors.extend(pending);
                            continue 'pairs;
                        }
                        Err(e) => {
                            if let Some(e) = e.last() {
                                Self::widen(&mut pending, *e);
                            }
                        }
                    }
                } else {
                    let e = self.expecting(ft);
                    Self::widen(&mut pending, e);
                }
                let look = self.peek();
                if look.is_some() && has(fs, look) {
                    errors.extend(pending);
                    continue 'pairs;
                }
                if look.is_none() || has(after, look) {
                    errors.extend(pending);
                    break 'pairs;
                }
                self.take();
            }
        }
        let (lo, hi) = (elems[0].lo, elems[elems.len() - 1].hi);
        Ok((Self::pairs(K_SPLIT, lo, hi, elems, puncts), errors))
    }

    fn pairs(kind: u32, lo: u32, hi: u32, elems: Vec<Nd>, puncts: Vec<Nd>) -> Nd {
        let mut dump = vec![kind, lo, hi, elems.len() as u32];
        elems.into_iter().for_each(|k| dump.extend(k.dump));
        dump.push(puncts.len() as u32);
        puncts.into_iter().for_each(|k| dump.extend(k.dump));
        Nd { lo, hi, dump }
    }

    fn punct(&mut self, n: usize, t: usize, p: usize) -> Out {
        let (k, mut errors) = self.produce(t)?;
        let mut elems = vec![k];
        let mut puncts: Vec<Nd> = Vec::new();
        let (ft, fp, after) = (self.first(t), self.first(p), self.follow(n));
        'items: loop {
            let look = self.peek();
            if look.is_none() || !has(fp, look) {
                break;
            }
            match self.produce(p) {
                Ok((k, e)) => {
                    errors.extend(e);
                    puncts.push(k);
                }
                Err(e) => {
                    errors.extend(e);
                    break;
                }
            }
            // an element or the end of the list
            let mut pending: Option<Er> = None;
            loop {
                let look = self.peek();
                if look.is_none() {
                    errors.extend(pending);
                    break 'items;
                }
                if has(ft, look) {
                    match self.produce(t) {
                        Ok((k, e)) => {
                            elems.push(k);
                            errors.extend(pending);
                            errors.extend(e);
                            continue 'items;
                        }
                        Err(e) => {
                            if let Some(e) = e.last() {
                                Self::widen(&mut pending, *e);
                            }
                        }
                    }
                } else {
                    if has(after, look) {
                        errors.extend(pending);
                        break 'items;
                    }
                    let e = self.expecting((after | ft) & !EPS);
                    Self::widen(&mut pending, e);
                }
                let look = self.peek();
                if look.is_some() && has(fp, look) {
                    errors.extend(pending);
                    continue 'items;
                }
                if look.is_none() || has(after, look) {
                    errors.extend(pending);
                    break 'items;
                }
                self.take();
            }
        }
        let lo = elems[0].lo;
        let mut hi = elems[elems.len() - 1].hi;
        if let Some(p) = puncts.last() {
            hi = hi.max(p.hi);
        }
        Ok((Self::pairs(K_PUNCT, lo, hi, elems, puncts), errors))
    }

    fn recover(&mut self, t: usize, r: usize) -> Out {
        let mut errors = Vec::new();
        let mut pending: Option<Er> = None;
        let (ft, fr) = (self.first(t), self.first(r));
        let mut head = None;
        if has(ft, self.peek()) || ft & EPS != 0 {
            match self.produce(t) {
                Ok((k, e)) => {
                    errors.extend(e);
                    head = Some(k);
                }
                Err(e) => pending = e.last().copied(),
            }
        } else {
            pending = Some(self.expecting(ft));
        }
        let at = self.nowhere();
        // the synchronisation point: the first place where the tail parses
        let mut tail = None;
        loop {
            let look = self.peek();
            if look.is_none() && fr & EPS == 0 {
                break;
            }
            if has(fr, look) || fr & EPS != 0 {
                match self.produce(r) {
                    Ok((k, e)) => {
                        errors.extend(e);
                        tail = Some(k);
                        break;
                    }
                    Err(e) => {
                        if let Some(e) = e.last() {
                            Self::widen(&mut pending, *e);
                        }
                    }
                }
            }
            if look.is_none() {
                break;
            }
            let e = self.expecting(fr);
            Self::widen(&mut pending, e);
            self.take();
        }
        if tail.is_none() && pending.is_none() {
            let (lo, hi) = self.here();
            pending = Some(Er { lo, hi, kind: E_EOF, set: 0 });
        }
        errors.extend(pending);
        let Some(tail) = tail else {
            return Err(errors);
        };
        let (lo, hi) = match &head {
            Some(h) => (h.lo, h.hi),
            None => (at, at),
        };
        let mut dump = vec![K_REC, lo, tail.hi, head.is_some() as u32, lo, hi];
        if let Some(h) = head {
            dump.extend(h.dump);
        }
        let end = tail.hi;
        dump.extend(tail.dump);
        Ok((Nd { lo, hi: end, dump }, errors))
    }
}
