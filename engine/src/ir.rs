//! Parser and decoder for textual LLVM IR (as emitted by rustc, opaque pointers).
use crate::expr;
use std::collections::HashMap;
use std::rc::Rc;

pub type R = u32;
pub const NOREG: R = u32::MAX;

#[derive(Clone, Debug)]
pub enum Val {
    /// concrete scalar, at most 64 bits wide, already masked
    C(u64),
    /// expression (may be a constant when wider than 64 bits)
    S(expr::E),
    /// struct / array / vector
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    FOther(u16),
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Named(Rc<str>),
    Meta,
    Func,
}

#[derive(Clone, Debug)]
pub enum O {
    R(R),
    V(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit,
    Float(u8),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Intrinsic(Rc<str>),
    Indirect(O),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: BinOp, w: u16, vec: bool, a: O, b: O, d: R },
    ICmp { p: Pred, w: u16, vec: bool, a: O, b: O, d: R },
    FCmp { p: Rc<str>, w: u16, a: O, b: O, d: R },
    Cast { k: Cast, from: Ty, to: Ty, a: O, d: R },
    Select { c: O, a: O, b: O, ptr: bool, vecc: bool, w: u16, d: R },
    Load { ty: Ty, p: O, d: R },
    Store { ty: Ty, v: O, p: O },
    Gep { base: O, off: u64, terms: Vec<(O, u64, u16)>, d: R },
    Alloca { size: u64, n: Option<O>, d: R },
    Call { callee: Callee, args: Vec<O>, tys: Vec<Ty>, ret: Ty, d: R, normal: u32 },
    ExtractValue { a: O, path: Vec<u32>, d: R },
    InsertValue { a: O, v: O, path: Vec<u32>, d: R },
    ExtractElem { a: O, i: O, d: R },
    InsertElem { a: O, v: O, i: O, d: R },
    Shuffle { a: O, b: O, mask: Vec<Option<u32>>, d: R },
    Mov { a: O, d: R },
    Rmw { op: Rc<str>, p: O, v: O, w: u16, d: R },
    CmpXchg { p: O, c: O, n: O, w: u16, d: R },
    Br(u32),
    CondBr(O, u32, u32),
    Switch { c: O, w: u16, cases: Vec<(u128, u32)>, def: u32 },
    Ret(Option<O>),
    Unreachable,
    Unsupported(Rc<str>),
}

#[derive(Debug)]
pub struct Phi {
    pub d: R,
    pub inc: Vec<(u32, O)>,
}
#[derive(Debug)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub code: Vec<I>,
}
#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub name: Rc<str>,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct FuncDecl {
    pub name: Rc<str>,
    /// byte range of the definition, or None for a declaration
    pub body: Option<(usize, usize)>,
    pub obj: u64,
    pub parsed: Option<Rc<Func>>,
}
pub struct Global {
    pub name: Rc<str>,
    pub obj: u64,
    pub constant: bool,
    pub external: bool,
    line: (usize, usize),
}

pub const OBJ_SHIFT: u32 = 24;

pub struct Module {
    pub text: Vec<u8>,
    pub types: HashMap<String, (usize, usize)>,
    pub tcache: std::cell::RefCell<HashMap<String, Ty>>,
    pub funcs: Vec<FuncDecl>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub aliases: HashMap<String, (usize, usize)>,
    pub first_free_obj: u64,
    /// (object, offset) -> full value of a truncated constant in the initializer of a global
    pub wide: std::cell::RefCell<HashMap<(u64, u64), u64>>,
    cur_obj: std::cell::Cell<u64>,
}

#[derive(Clone, Debug, PartialEq)]
enum T<'a> {
    W(&'a str),
    L(&'a str),
    G(&'a str),
    N(i128),
    F(f64),
    H(u64),
    Str(&'a [u8]),
    P(u8),
    Md,
    Attr,
}

fn s(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}
fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn lex(t: &[u8]) -> Vec<T<'_>> {
    let mut v = Vec::with_capacity(t.len() / 4);
    let mut i = 0;
    while i < t.len() {
        let c = t[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < t.len() && t[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                i += 1;
                let name;
                if i < t.len() && t[i] == b'"' {
                    let st = i + 1;
                    i = st;
                    while t[i] != b'"' {
                        i += 1;
                    }
                    name = s(&t[st..i]);
                    i += 1;
                } else {
                    let st = i;
                    while i < t.len() && is_word(t[i]) {
                        i += 1;
                    }
                    name = s(&t[st..i]);
                }
                v.push(if c == b'%' { T::L(name) } else { T::G(name) });
            }
            b'c' if i + 1 < t.len() && t[i + 1] == b'"' => {
                let st = i + 2;
                i = st;
                while t[i] != b'"' {
                    i += 1;
                }
                v.push(T::Str(&t[st..i]));
                i += 1;
            }
            b'"' => {
                let st = i + 1;
                i = st;
                while t[i] != b'"' {
                    i += 1;
                }
                v.push(T::Str(&t[st..i]));
                i += 1;
            }
            b'!' => {
                i += 1;
                while i < t.len() && is_word(t[i]) {
                    i += 1;
                }
                v.push(T::Md);
            }
            b'#' => {
                i += 1;
                while i < t.len() && is_word(t[i]) {
                    i += 1;
                }
                v.push(T::Attr);
            }
            _ if c.is_ascii_digit() || (c == b'-' && i + 1 < t.len() && t[i + 1].is_ascii_digit()) => {
                let st = i;
                i += 1;
                while i < t.len()
                    && (t[i].is_ascii_alphanumeric()
                        || t[i] == b'.'
                        || ((t[i] == b'+' || t[i] == b'-') && (t[i - 1] == b'e' || t[i - 1] == b'E')))
                {
                    i += 1;
                }
                let w = s(&t[st..i]);
                if let Ok(n) = w.parse::<i128>() {
                    v.push(T::N(n));
                } else if let Ok(n) = w.parse::<u128>() {
                    v.push(T::N(n as i128));
                } else if let Some(h) = w.strip_prefix("0x") {
                    v.push(T::H(u64::from_str_radix(h, 16).unwrap_or(0)));
                } else {
                    v.push(T::F(w.parse::<f64>().unwrap_or(0.0)));
                }
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let st = i;
                while i < t.len() && is_word(t[i]) {
                    i += 1;
                }
                v.push(T::W(s(&t[st..i])));
            }
            _ => {
                v.push(T::P(c));
                i += 1;
            }
        }
    }
    v
}

pub enum K {
    Int(u128),
    Agg(Vec<K>),
    Bytes(Vec<u8>),
    Zero,
}

fn unescape(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(u8::from_str_radix(s(&b[i + 1..i + 3]), 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

type PR<X> = Result<X, String>;

struct P<'m, 'a> {
    m: &'m Module,
    t: &'a [T<'a>],
    i: usize,
    regs: Option<&'m mut Regs>,
}
struct Regs {
    map: HashMap<String, R>,
}
impl Regs {
    fn get(&mut self, n: &str) -> R {
        if let Some(r) = self.map.get(n) {
            return *r;
        }
        let r = self.map.len() as R;
        self.map.insert(n.to_string(), r);
        r
    }
}

fn type_word(w: &str) -> bool {
    matches!(
        w,
        "void" | "ptr" | "float" | "double" | "half" | "bfloat" | "fp128" | "x86_fp80" | "label" | "metadata" | "token" | "opaque"
    ) || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
}
fn value_word(w: &str) -> bool {
    matches!(
        w,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat"
            | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "add" | "sub"
            | "xor" | "and" | "or" | "shl" | "mul" | "icmp" | "select" | "addrspacecast"
            | "blockaddress" | "dso_local_equivalent" | "no_cfi" | "asm" | "zext" | "sext"
    )
}

impl<'m, 'a> P<'m, 'a> {
    fn peek(&self) -> Option<&T<'a>> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> PR<T<'a>> {
        let t = self.t.get(self.i).cloned().ok_or("unexpected end")?;
        self.i += 1;
        Ok(t)
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Some(T::W(x)) if *x == w)
    }
    fn isp(&self, c: u8) -> bool {
        matches!(self.peek(), Some(T::P(x)) if *x == c)
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eatp(&mut self, c: u8) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: u8) -> PR<()> {
        if self.eatp(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} got {:?}", c as char, self.peek()))
        }
    }
    fn skip_bal(&mut self) -> PR<()> {
        // at an opening bracket
        let mut d = 0;
        loop {
            match self.next()? {
                T::P(b'(') | T::P(b'[') | T::P(b'{') | T::P(b'<') => d += 1,
                T::P(b')') | T::P(b']') | T::P(b'}') | T::P(b'>') => d -= 1,
                _ => {}
            }
            if d == 0 {
                return Ok(());
            }
        }
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(T::W(w)) => type_word(w),
            Some(T::P(b'[')) | Some(T::P(b'{')) | Some(T::P(b'<')) => true,
            Some(T::L(_)) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> PR<Ty> {
        let t = match self.next()? {
            T::W(w) => match w {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eatw("addrspace") {
                        self.skip_bal()?;
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "half" | "bfloat" => Ty::FOther(16),
                "fp128" => Ty::FOther(128),
                "x86_fp80" => Ty::FOther(80),
                "label" | "metadata" | "token" => Ty::Meta,
                "opaque" => Ty::Struct(Rc::new(vec![]), false),
                _ if type_word(w) => Ty::Int(w[1..].parse().map_err(|_| "int width")?),
                _ => return Err(format!("not a type: {w}")),
            },
            T::L(n) => Ty::Named(n.into()),
            T::P(b'[') => {
                let n = match self.next()? {
                    T::N(n) => n as u64,
                    x => return Err(format!("array len {x:?}")),
                };
                if !self.eatw("x") {
                    return Err("x".into());
                }
                let e = self.ty()?;
                self.exp(b']')?;
                Ty::Arr(n, Rc::new(e))
            }
            T::P(b'<') => {
                if self.eatp(b'{') {
                    let f = self.fields()?;
                    self.exp(b'>')?;
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = match self.next()? {
                        T::N(n) => n as u64,
                        x => return Err(format!("vec len {x:?}")),
                    };
                    if !self.eatw("x") {
                        return Err("x".into());
                    }
                    let e = self.ty()?;
                    self.exp(b'>')?;
                    Ty::Vec(n, Rc::new(e))
                }
            }
            T::P(b'{') => Ty::Struct(Rc::new(self.fields()?), false),
            x => return Err(format!("not a type: {x:?}")),
        };
        Ok(t)
    }
    fn fields(&mut self) -> PR<Vec<Ty>> {
        let mut f = vec![];
        if self.eatp(b'}') {
            return Ok(f);
        }
        loop {
            f.push(self.ty()?);
            if self.eatp(b'}') {
                return Ok(f);
            }
            self.exp(b',')?;
        }
    }
    fn typed_const(&mut self) -> PR<(Ty, K)> {
        let t = self.ty()?;
        while let Some(T::W(w)) = self.peek() {
            if value_word(w) {
                break;
            }
            self.i += 1;
            if self.isp(b'(') {
                self.skip_bal()?;
            }
        }
        let k = self.konst(&t)?;
        Ok((t, k))
    }
    fn konst(&mut self, ty: &Ty) -> PR<K> {
        let w = self.m.bits(ty);
        Ok(match self.next()? {
            T::N(n) => match ty {
                Ty::F32 => K::Int((n as f32).to_bits() as u128),
                Ty::F64 => K::Int((n as f64).to_bits() as u128),
                _ => K::Int(n as u128 & expr::mask(w)),
            },
            T::F(f) => match ty {
                Ty::F32 => K::Int((f as f32).to_bits() as u128),
                _ => K::Int(f.to_bits() as u128),
            },
            T::H(h) => match ty {
                Ty::F32 => K::Int((f64::from_bits(h) as f32).to_bits() as u128),
                _ => K::Int(h as u128),
            },
            T::G(n) => K::Int(self.m.addr_of(n)? as u128),
            T::Str(b) => K::Bytes(unescape(b)),
            T::P(b'[') => {
                let mut v = vec![];
                if !self.eatp(b']') {
                    loop {
                        v.push(self.typed_const()?.1);
                        if self.eatp(b']') {
                            break;
                        }
                        self.exp(b',')?;
                    }
                }
                K::Agg(v)
            }
            T::P(b'{') => {
                let mut v = vec![];
                if !self.eatp(b'}') {
                    loop {
                        v.push(self.typed_const()?.1);
                        if self.eatp(b'}') {
                            break;
                        }
                        self.exp(b',')?;
                    }
                }
                K::Agg(v)
            }
            T::P(b'<') => {
                let packed = self.eatp(b'{');
                let mut v = vec![];
                loop {
                    v.push(self.typed_const()?.1);
                    if packed && self.eatp(b'}') {
                        self.exp(b'>')?;
                        break;
                    }
                    if !packed && self.eatp(b'>') {
                        break;
                    }
                    self.exp(b',')?;
                }
                K::Agg(v)
            }
            T::W(w0) => match w0 {
                "true" => K::Int(1),
                "false" | "null" | "none" => K::Int(0),
                "undef" | "poison" | "zeroinitializer" => K::Zero,
                "splat" => {
                    self.exp(b'(')?;
                    let (_, k) = self.typed_const()?;
                    self.exp(b')')?;
                    let n = match self.m.resolve(ty) {
                        Ty::Vec(n, _) | Ty::Arr(n, _) => n,
                        _ => return Err("splat type".into()),
                    };
                    let x = match k {
                        K::Int(x) => x,
                        K::Zero => 0,
                        _ => return Err("splat value".into()),
                    };
                    K::Agg((0..n).map(|_| K::Int(x)).collect())
                }
                "dso_local_equivalent" | "no_cfi" => return self.konst(ty),
                "getelementptr" => {
                    while let Some(T::W(x)) = self.peek() {
                        let _ = x;
                        self.i += 1;
                        if self.isp(b'(') && self.t.get(self.i - 1) == Some(&T::W("inrange")) {
                            self.skip_bal()?;
                        }
                    }
                    self.exp(b'(')?;
                    let mut t = self.ty()?;
                    self.exp(b',')?;
                    let (_, b) = self.typed_const()?;
                    let mut a = kint(&b)? as u64;
                    let mut first = true;
                    while self.eatp(b',') {
                        let (it, ix) = self.typed_const()?;
                        let ix = expr::sext(kint(&ix)?, self.m.bits(&it)) as i64;
                        if first {
                            a = a.wrapping_add((ix as u64).wrapping_mul(self.m.size(&t)));
                            first = false;
                        } else {
                            let (off, nt) = self.m.step(&t, ix as u64)?;
                            a = a.wrapping_add(off);
                            t = nt;
                        }
                    }
                    self.exp(b')')?;
                    K::Int(a as u128)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "zext" | "sext" => {
                    while let Some(T::W(_)) = self.peek() {
                        self.i += 1;
                    }
                    self.exp(b'(')?;
                    let (ft, k) = self.typed_const()?;
                    if !self.eatw("to") {
                        return Err("to".into());
                    }
                    let t = self.ty()?;
                    self.exp(b')')?;
                    let v = kint(&k)?;
                    let v = if w0 == "sext" { expr::sext(v, self.m.bits(&ft)) as u128 } else { v };
                    // a truncated pointer difference stays whole here: global_bytes keeps the full value
                    // of what does not fit (relative tables), every other user masks it
                    if w0 == "trunc" {
                        K::Int(v)
                    } else {
                        K::Int(v & expr::mask(self.m.bits(&t)))
                    }
                }
                "add" | "sub" | "xor" | "and" | "or" | "mul" | "shl" => {
                    while let Some(T::W(_)) = self.peek() {
                        self.i += 1;
                    }
                    self.exp(b'(')?;
                    let (_, a) = self.typed_const()?;
                    self.exp(b',')?;
                    let (_, b) = self.typed_const()?;
                    self.exp(b')')?;
                    let (a, b) = (kint(&a)?, kint(&b)?);
                    let r = match w0 {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "xor" => a ^ b,
                        "and" => a & b,
                        "or" => a | b,
                        "mul" => a.wrapping_mul(b),
                        _ => a << b,
                    };
                    K::Int(r & expr::mask(w))
                }
                _ => return Err(format!("constant {w0}")),
            },
            x => return Err(format!("constant {x:?}")),
        })
    }
    fn operand(&mut self, ty: &Ty) -> PR<O> {
        if let Some(T::L(n)) = self.peek() {
            let n = *n;
            self.i += 1;
            let r = self.regs.as_mut().ok_or("register in constant")?.get(n);
            return Ok(O::R(r));
        }
        if matches!(ty, Ty::Meta) {
            return Err("metadata operand".into());
        }
        let k = self.konst(ty)?;
        Ok(O::V(self.m.kval(ty, &k)?))
    }
    fn typed_op(&mut self) -> PR<(Ty, O)> {
        let t = self.ty()?;
        let o = self.operand(&t)?;
        Ok((t, o))
    }
    fn skip_flags(&mut self) {
        // instruction flags before the type
        while let Some(T::W(w)) = self.peek() {
            if type_word(w) {
                break;
            }
            self.i += 1;
            if self.isp(b'(') {
                let _ = self.skip_bal();
            }
        }
    }
}

fn kint(k: &K) -> PR<u128> {
    match k {
        K::Int(x) => Ok(*x),
        K::Zero => Ok(0),
        _ => Err("expected scalar constant".into()),
    }
}

impl Module {
    pub fn load(path: &str) -> PR<Module> {
        let text = std::fs::read(path).map_err(|e| format!("{path}: {e}"))?;
        let mut m = Module {
            text,
            types: HashMap::new(),
            tcache: Default::default(),
            funcs: vec![],
            fmap: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            aliases: HashMap::new(),
            first_free_obj: 1,
            wide: Default::default(),
            cur_obj: Default::default(),
        };
        let text = std::mem::take(&mut m.text);
        let n = text.len();
        let mut i = 0;
        let mut obj = 1u64;
        while i < n {
            let mut e = i;
            while e < n && text[e] != b'\n' {
                e += 1;
            }
            let line = &text[i..e];
            if line.starts_with(b"define ") || line.starts_with(b"declare ") {
                let name = fname(line)?;
                let body = if line.starts_with(b"define ") {
                    let st = i;
                    // find "\n}" at column 0
                    let mut j = e;
                    loop {
                        if j + 1 >= n {
                            return Err("unterminated function".into());
                        }
                        if text[j] == b'\n' && text[j + 1] == b'}' {
                            break;
                        }
                        j += 1;
                    }
                    e = j + 2;
                    Some((st, j + 1))
                } else {
                    None
                };
                m.fmap.insert(name.to_string(), m.funcs.len() as u32);
                m.funcs.push(FuncDecl { name: name.into(), body, obj, parsed: None });
                obj += 1;
            } else if line.starts_with(b"@") {
                let toks_end = line.iter().position(|c| *c == b'=').ok_or("global")?;
                let nm = s(&line[1..toks_end]).trim();
                let nm = nm.trim_matches('"').to_string();
                // quoted names may contain '='
                let (nm, eqpos) = if line[1] == b'"' {
                    let q = line[2..].iter().position(|c| *c == b'"').unwrap() + 2;
                    (s(&line[2..q]).to_string(), q + 1 + line[q + 1..].iter().position(|c| *c == b'=').unwrap())
                } else {
                    (nm, toks_end)
                };
                let rest = (i + eqpos + 1, e);
                let rs = s(&text[rest.0..rest.1.min(rest.0 + 200)]);
                if rs.split_whitespace().take(6).any(|w| w == "alias") {
                    m.aliases.insert(nm, rest);
                } else {
                    let words: Vec<&str> = rs.split_whitespace().take(12).collect();
                    let mut constant = false;
                    let mut external = false;
                    for w in &words {
                        if *w == "constant" {
                            constant = true;
                            break;
                        }
                        if *w == "global" {
                            break;
                        }
                        if *w == "external" || *w == "extern_weak" {
                            external = true;
                        }
                    }
                    m.gmap.insert(nm.clone(), m.globals.len() as u32);
                    m.globals.push(Global { name: nm.as_str().into(), obj, constant, external, line: rest });
                    obj += 1;
                }
            } else if line.starts_with(b"%") {
                let (nm, eq) = if line[1] == b'"' {
                    let q = line[2..].iter().position(|c| *c == b'"').unwrap() + 2;
                    (s(&line[2..q]).to_string(), q + 1)
                } else {
                    let q = line.iter().position(|c| *c == b' ').ok_or("type")?;
                    (s(&line[1..q]).to_string(), q)
                };
                let tp = i + eq + 1;
                // " = type ..."
                let rest = s(&text[tp..e]);
                let off = rest.find("type ").ok_or("type def")? + 5;
                m.types.insert(nm, (tp + off, e));
            }
            i = e + 1;
        }
        m.text = text;
        m.first_free_obj = obj;
        Ok(m)
    }

    pub fn addr_of(&self, n: &str) -> PR<u64> {
        if let Some(g) = self.gmap.get(n) {
            return Ok(self.globals[*g as usize].obj << OBJ_SHIFT);
        }
        if let Some(f) = self.fmap.get(n) {
            return Ok(self.funcs[*f as usize].obj << OBJ_SHIFT);
        }
        if let Some(r) = self.aliases.get(n) {
            let tk = lex(&self.text[r.0..r.1]);
            // ... alias TY, ptr @target
            if let Some(T::G(t)) = tk.iter().find(|t| matches!(t, T::G(_))) {
                return self.addr_of(t);
            }
        }
        Err(format!("unknown global @{n}"))
    }

    pub fn resolve(&self, t: &Ty) -> Ty {
        match t {
            Ty::Named(n) => {
                if let Some(t) = self.tcache.borrow().get(&**n) {
                    return t.clone();
                }
                let r = self.types.get(&**n).unwrap_or_else(|| panic!("type {n}"));
                let tk = lex(&self.text[r.0..r.1]);
                let mut p = P { m: self, t: &tk, i: 0, regs: None };
                let ty = p.ty().unwrap();
                self.tcache.borrow_mut().insert(n.to_string(), ty.clone());
                ty
            }
            _ => t.clone(),
        }
    }
    pub fn bits(&self, t: &Ty) -> u16 {
        match t {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::F32 => 32,
            Ty::F64 => 64,
            Ty::FOther(w) => *w,
            _ => 0,
        }
    }
    pub fn align(&self, t: &Ty) -> u64 {
        match t {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::FOther(16) => 2,
            Ty::FOther(_) => 16,
            Ty::Arr(_, e) => self.align(e),
            Ty::Vec(..) => self.size(t).next_power_of_two(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|x| self.align(x)).max().unwrap_or(1)
                }
            }
            Ty::Named(_) => self.align(&self.resolve(t)),
            _ => 1,
        }
    }
    /// bytes touched by a load/store of this type
    pub fn store_size(&self, t: &Ty) -> u64 {
        match t {
            Ty::Int(w) => (*w as u64).div_ceil(8),
            _ => self.size(t),
        }
    }
    pub fn size(&self, t: &Ty) -> u64 {
        match t {
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8);
                b.next_multiple_of(self.align(t))
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::FOther(16) => 2,
            Ty::FOther(_) => 16,
            Ty::Arr(n, e) => n * self.size(e),
            Ty::Vec(n, e) => (n * self.bits(e) as u64).div_ceil(8).next_power_of_two(),
            Ty::Struct(f, p) => {
                let mut o = 0u64;
                for x in f.iter() {
                    if !*p {
                        o = o.next_multiple_of(self.align(x));
                    }
                    o += self.size(x);
                }
                if !*p {
                    o = o.next_multiple_of(self.align(t));
                }
                o
            }
            Ty::Named(_) => self.size(&self.resolve(t)),
            _ => 0,
        }
    }
    /// offset and type of a constant index step into an aggregate
    pub fn step(&self, t: &Ty, ix: u64) -> PR<(u64, Ty)> {
        match t {
            Ty::Named(_) => self.step(&self.resolve(t), ix),
            Ty::Arr(_, e) | Ty::Vec(_, e) => Ok((self.size(e).wrapping_mul(ix), (**e).clone())),
            Ty::Struct(f, p) => {
                let mut o = 0u64;
                for (i, x) in f.iter().enumerate() {
                    if !*p {
                        o = o.next_multiple_of(self.align(x));
                    }
                    if i as u64 == ix {
                        return Ok((o, x.clone()));
                    }
                    o += self.size(x);
                }
                Err("struct index".into())
            }
            _ => Err(format!("gep into {t:?}")),
        }
    }
    pub fn scalar(v: u128, w: u16) -> Val {
        if w <= 64 {
            Val::C((v & expr::mask(w)) as u64)
        } else {
            Val::S(expr::cst(v, w))
        }
    }
    pub fn zero(&self, t: &Ty) -> Val {
        match t {
            Ty::Named(_) => self.zero(&self.resolve(t)),
            Ty::Arr(n, e) | Ty::Vec(n, e) => Val::A(Rc::new((0..*n).map(|_| self.zero(e)).collect())),
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|x| self.zero(x)).collect())),
            _ => Self::scalar(0, self.bits(t).max(1)),
        }
    }
    fn kval(&self, t: &Ty, k: &K) -> PR<Val> {
        Ok(match (t, k) {
            (Ty::Named(_), _) => self.kval(&self.resolve(t), k)?,
            (_, K::Zero) => self.zero(t),
            (Ty::Arr(_, e), K::Agg(v)) | (Ty::Vec(_, e), K::Agg(v)) => {
                let mut o = vec![];
                for x in v {
                    o.push(self.kval(e, x)?);
                }
                Val::A(Rc::new(o))
            }
            (Ty::Arr(..), K::Bytes(b)) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u64)).collect())),
            (Ty::Struct(f, _), K::Agg(v)) => {
                let mut o = vec![];
                for (x, e) in v.iter().zip(f.iter()) {
                    o.push(self.kval(e, x)?);
                }
                Val::A(Rc::new(o))
            }
            (_, K::Int(x)) => Self::scalar(*x, self.bits(t)),
            _ => return Err("constant shape".into()),
        })
    }
    fn write_const(&self, buf: &mut [u8], off: u64, t: &Ty, k: &K) -> PR<()> {
        match (t, k) {
            (Ty::Named(_), _) => self.write_const(buf, off, &self.resolve(t), k)?,
            (_, K::Zero) => {}
            (Ty::Arr(_, e), K::Agg(v)) | (Ty::Vec(_, e), K::Agg(v)) => {
                let sz = self.size(e);
                for (i, x) in v.iter().enumerate() {
                    self.write_const(buf, off + i as u64 * sz, e, x)?;
                }
            }
            (Ty::Arr(..), K::Bytes(b)) => buf[off as usize..off as usize + b.len()].copy_from_slice(b),
            (Ty::Struct(..), K::Agg(v)) => {
                for (i, x) in v.iter().enumerate() {
                    let (o, e) = self.step(t, i as u64)?;
                    self.write_const(buf, off + o, &e, x)?;
                }
            }
            (_, K::Int(x)) => {
                let n = self.store_size(t) as usize;
                let b = x.to_le_bytes();
                if n == 4 && *x as u64 != *x as u32 as i32 as i64 as u64 {
                    self.wide.borrow_mut().insert((self.cur_obj.get(), off), *x as u64);
                }
                for i in 0..n {
                    buf[off as usize + i] = b.get(i).copied().unwrap_or(0);
                }
            }
            _ => return Err("constant shape".into()),
        }
        Ok(())
    }
    /// Initial bytes of a global.
    pub fn global_bytes(&self, g: usize) -> PR<Vec<u8>> {
        let gl = &self.globals[g];
        let tk = lex(&self.text[gl.line.0..gl.line.1]);
        let mut p = P { m: self, t: &tk, i: 0, regs: None };
        // skip linkage etc. up to `global` / `constant`
        loop {
            match p.next()? {
                T::W("global") | T::W("constant") => break,
                _ => {}
            }
        }
        let t = p.ty()?;
        let mut buf = vec![0u8; self.size(&t).max(1) as usize];
        let sz = self.size(&t) as usize;
        if !gl.external {
            let k = p.konst(&t)?;
            self.cur_obj.set(gl.obj);
            self.write_const(&mut buf, 0, &t, &k)?;
        }
        buf.truncate(sz);
        Ok(buf)
    }

    pub fn func(&mut self, id: u32) -> PR<Rc<Func>> {
        if let Some(f) = &self.funcs[id as usize].parsed {
            return Ok(f.clone());
        }
        let (a, b) = self.funcs[id as usize].body.ok_or_else(|| format!("no body for {}", self.funcs[id as usize].name))?;
        let f = Rc::new(self.parse_func(id, a, b)?);
        self.funcs[id as usize].parsed = Some(f.clone());
        Ok(f)
    }

    fn parse_func(&self, id: u32, a: usize, b: usize) -> PR<Func> {
        let text = &self.text[a..b];
        let mut regs = Regs { map: HashMap::new() };
        let hdr_end = text.iter().position(|c| *c == b'\n').unwrap();
        // parameters
        let hdr = lex(&text[..hdr_end]);
        let mut i = 0;
        while !matches!(hdr[i], T::G(_)) {
            i += 1;
        }
        i += 1;
        let mut p = P { m: self, t: &hdr, i, regs: None };
        p.exp(b'(')?;
        let mut nparams = 0u32;
        let mut unnamed = 0u32;
        if !p.eatp(b')') {
            loop {
                if p.eatp(b'.') {
                    // varargs
                    while !p.isp(b')') {
                        p.i += 1;
                    }
                    p.i += 1;
                    break;
                }
                if let Some(T::W("...")) = p.peek() {
                    p.i += 1;
                    p.exp(b')')?;
                    break;
                }
                p.ty()?;
                let mut name: Option<String> = None;
                loop {
                    match p.peek() {
                        Some(T::P(b',')) | Some(T::P(b')')) => break,
                        Some(T::P(b'(')) => p.skip_bal()?,
                        Some(T::L(n)) => {
                            name = Some(n.to_string());
                            p.i += 1;
                        }
                        None => return Err("params".into()),
                        _ => p.i += 1,
                    }
                }
                let name = name.unwrap_or_else(|| unnamed.to_string());
                if name.bytes().all(|c| c.is_ascii_digit()) {
                    unnamed += 1;
                }
                let r = regs.get(&name);
                if r != nparams {
                    return Err("param register".into());
                }
                nparams += 1;
                if p.eatp(b')') {
                    break;
                }
                p.exp(b',')?;
            }
        }
        // split the body into blocks of instruction texts
        let mut blocks: Vec<(String, Vec<(usize, usize)>)> = vec![];
        let mut pos = hdr_end + 1;
        while pos < text.len() {
            let mut e = pos;
            while e < text.len() && text[e] != b'\n' {
                e += 1;
            }
            let line = &text[pos..e];
            if line.is_empty() || line.iter().all(|c| *c == b' ') {
                pos = e + 1;
                continue;
            }
            if line[0] != b' ' {
                // label (or the closing brace / comment)
                if line[0] == b'}' {
                    break;
                }
                if line[0] == b';' {
                    pos = e + 1;
                    continue;
                }
                let name = if line[0] == b'"' {
                    let q = line[1..].iter().position(|c| *c == b'"').unwrap() + 1;
                    s(&line[1..q]).to_string()
                } else {
                    let q = line.iter().position(|c| *c == b':').ok_or("label")?;
                    s(&line[..q]).to_string()
                };
                blocks.push((name, vec![]));
            } else {
                if blocks.is_empty() {
                    blocks.push((unnamed.to_string(), vec![]));
                }
                let cont = line.len() < 3 || line[2] == b' ' || line[2] == b']';
                let v = &mut blocks.last_mut().unwrap().1;
                if cont && !v.is_empty() {
                    v.last_mut().unwrap().1 = e;
                } else if line[2] != b';' && line[2] != b'#' {
                    v.push((pos, e));
                }
            }
            pos = e + 1;
        }
        let bmap: HashMap<String, u32> = blocks.iter().enumerate().map(|(i, b)| (b.0.clone(), i as u32)).collect();
        let mut out = Vec::with_capacity(blocks.len());
        for (_, ins) in &blocks {
            let mut blk = Block { phis: vec![], code: vec![] };
            for (x, y) in ins {
                let tk = lex(&text[*x..*y]);
                // `regs` is handed to the parser for the duration of one instruction
                let mut p = P { m: self, t: &tk, i: 0, regs: Some(unsafe { &mut *(&mut regs as *mut Regs) }) };
                match p.inst(&bmap, &mut blk) {
                    Ok(()) => {}
                    Err(e) => {
                        let src = s(&text[*x..*y]).trim().chars().take(200).collect::<String>();
                        blk.code.push(I::Unsupported(format!("{e}: {src}").into()));
                    }
                }
            }
            out.push(blk);
        }
        Ok(Func { id, name: self.funcs[id as usize].name.clone(), nparams, nregs: regs.map.len() as u32, blocks: out })
    }
}

fn fname(line: &[u8]) -> PR<String> {
    // the function name is the first @ outside of attributes
    let i = line.iter().position(|c| *c == b'@').ok_or("no function name")?;
    if line[i + 1] == b'"' {
        let q = line[i + 2..].iter().position(|c| *c == b'"').unwrap() + i + 2;
        Ok(s(&line[i + 2..q]).to_string())
    } else {
        let mut j = i + 1;
        while is_word(line[j]) {
            j += 1;
        }
        Ok(s(&line[i + 1..j]).to_string())
    }
}

impl<'m, 'a> P<'m, 'a> {
    fn label(&mut self, bm: &HashMap<String, u32>) -> PR<u32> {
        // `label %x`
        if !self.eatw("label") {
            return Err("label".into());
        }
        match self.next()? {
            T::L(n) => bm.get(n).copied().ok_or_else(|| format!("label {n}")),
            x => Err(format!("label {x:?}")),
        }
    }
    fn inst(&mut self, bm: &HashMap<String, u32>, blk: &mut Block) -> PR<()> {
        let mut d = NOREG;
        if let Some(T::L(n)) = self.peek() {
            let n = *n;
            self.i += 1;
            self.exp(b'=')?;
            d = self.regs.as_mut().unwrap().get(n);
        }
        while self.isw("tail") || self.isw("musttail") || self.isw("notail") {
            self.i += 1;
        }
        let op = match self.next()? {
            T::W(w) => w,
            x => return Err(format!("opcode {x:?}")),
        };
        let bop = |w: &str| -> Option<BinOp> {
            Some(match w {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem,
                "srem" => BinOp::SRem,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                "fadd" => BinOp::FAdd,
                "fsub" => BinOp::FSub,
                "fmul" => BinOp::FMul,
                "fdiv" => BinOp::FDiv,
                "frem" => BinOp::FRem,
                _ => return None,
            })
        };
        if let Some(b) = bop(op) {
            self.skip_flags();
            let t = self.ty()?;
            let a = self.operand(&t)?;
            self.exp(b',')?;
            let c = self.operand(&t)?;
            let (w, vec) = match &t {
                Ty::Vec(_, e) => (self.m.bits(e), true),
                _ => (self.m.bits(&t), false),
            };
            blk.code.push(I::Bin { op: b, w, vec, a, b: c, d });
            return Ok(());
        }
        match op {
            "icmp" => {
                self.eatw("samesign");
                let p = match self.next()? {
                    T::W("eq") => Pred::Eq,
                    T::W("ne") => Pred::Ne,
                    T::W("ult") => Pred::Ult,
                    T::W("ule") => Pred::Ule,
                    T::W("ugt") => Pred::Ugt,
                    T::W("uge") => Pred::Uge,
                    T::W("slt") => Pred::Slt,
                    T::W("sle") => Pred::Sle,
                    T::W("sgt") => Pred::Sgt,
                    T::W("sge") => Pred::Sge,
                    x => return Err(format!("predicate {x:?}")),
                };
                let t = self.ty()?;
                let a = self.operand(&t)?;
                self.exp(b',')?;
                let b = self.operand(&t)?;
                let (w, vec) = match &t {
                    Ty::Vec(_, e) => (self.m.bits(e), true),
                    _ => (self.m.bits(&t), false),
                };
                blk.code.push(I::ICmp { p, w, vec, a, b, d });
            }
            "fcmp" => {
                let mut pred = "";
                while let Some(T::W(w)) = self.peek() {
                    let w = *w;
                    if type_word(w) {
                        break;
                    }
                    pred = w;
                    self.i += 1;
                }
                let t = self.ty()?;
                let a = self.operand(&t)?;
                self.exp(b',')?;
                let b = self.operand(&t)?;
                blk.code.push(I::FCmp { p: pred.into(), w: self.m.bits(&t), a, b, d });
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "fptrunc" | "fpext"
            | "fptoui" | "fptosi" | "uitofp" | "sitofp" => {
                self.skip_flags();
                let (from, a) = self.typed_op()?;
                if !self.eatw("to") {
                    return Err("to".into());
                }
                let to = self.ty()?;
                let sc = |t: &Ty| match t {
                    Ty::Vec(_, e) => self.m.bits(e),
                    _ => self.m.bits(t),
                };
                let k = match op {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "ptrtoint" | "inttoptr" => {
                        if sc(&to) < sc(&from) {
                            Cast::Trunc
                        } else if sc(&to) > sc(&from) {
                            Cast::ZExt
                        } else {
                            Cast::Bit
                        }
                    }
                    "bitcast" | "addrspacecast" => Cast::Bit,
                    "fptrunc" => Cast::Float(0),
                    "fpext" => Cast::Float(1),
                    "fptoui" => Cast::Float(2),
                    "fptosi" => Cast::Float(3),
                    "uitofp" => Cast::Float(4),
                    _ => Cast::Float(5),
                };
                blk.code.push(I::Cast { k, from, to, a, d });
            }
            "freeze" => {
                let (_, a) = self.typed_op()?;
                blk.code.push(I::Mov { a, d });
            }
            "fneg" => {
                self.skip_flags();
                let (t, a) = self.typed_op()?;
                let w = self.m.bits(&t);
                blk.code.push(I::Bin {
                    op: BinOp::Xor,
                    w,
                    vec: false,
                    a,
                    b: O::V(Module::scalar(1u128 << (w - 1), w)),
                    d,
                });
            }
            "select" => {
                self.skip_flags();
                let (ct, c) = self.typed_op()?;
                self.exp(b',')?;
                let (t, a) = self.typed_op()?;
                self.exp(b',')?;
                let (_, b) = self.typed_op()?;
                let w = match &t {
                    Ty::Vec(_, e) => self.m.bits(e),
                    _ => self.m.bits(&t),
                };
                blk.code.push(I::Select { c, a, b, ptr: t == Ty::Ptr, vecc: matches!(ct, Ty::Vec(..)), w, d });
            }
            "load" => {
                self.eatw("atomic");
                self.eatw("volatile");
                let ty = self.ty()?;
                self.exp(b',')?;
                let (_, p) = self.typed_op()?;
                blk.code.push(I::Load { ty, p, d });
            }
            "store" => {
                self.eatw("atomic");
                self.eatw("volatile");
                let (ty, v) = self.typed_op()?;
                self.exp(b',')?;
                let (_, p) = self.typed_op()?;
                blk.code.push(I::Store { ty, v, p });
            }
            "getelementptr" => {
                self.skip_flags2();
                let mut t = self.ty()?;
                self.exp(b',')?;
                let (bt, base) = self.typed_op()?;
                if matches!(bt, Ty::Vec(..)) {
                    return Err("vector gep".into());
                }
                let mut off = 0u64;
                let mut terms = vec![];
                let mut first = true;
                while self.eatp(b',') {
                    if matches!(self.peek(), Some(T::Md)) {
                        break;
                    }
                    let (it, ix) = self.typed_op()?;
                    let iw = self.m.bits(&it);
                    if first {
                        first = false;
                        let sz = self.m.size(&t);
                        match ix {
                            O::V(Val::C(c)) => off = off.wrapping_add((expr::sext(c as u128, iw) as u64).wrapping_mul(sz)),
                            _ => terms.push((ix, sz, iw)),
                        }
                    } else {
                        match ix {
                            O::V(Val::C(c)) => {
                                let (o, nt) = self.m.step(&t, expr::sext(c as u128, iw) as u64)?;
                                off = off.wrapping_add(o);
                                t = nt;
                            }
                            _ => {
                                let rt = self.m.resolve(&t);
                                let e = match &rt {
                                    Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(),
                                    _ => return Err("dynamic struct index".into()),
                                };
                                terms.push((ix, self.m.size(&e), iw));
                                t = e;
                            }
                        }
                    }
                }
                blk.code.push(I::Gep { base, off, terms, d });
            }
            "alloca" => {
                self.eatw("inalloca");
                let t = self.ty()?;
                let mut n = None;
                if self.eatp(b',') && self.is_type_start() {
                    let (_, o) = self.typed_op()?;
                    n = Some(o);
                }
                blk.code.push(I::Alloca { size: self.m.size(&t), n, d });
            }
            "phi" => {
                self.skip_flags();
                let t = self.ty()?;
                let mut inc = vec![];
                loop {
                    self.exp(b'[')?;
                    let o = self.operand(&t)?;
                    self.exp(b',')?;
                    let b = match self.next()? {
                        T::L(n) => *bm.get(n).ok_or_else(|| format!("phi label {n}"))?,
                        x => return Err(format!("phi label {x:?}")),
                    };
                    self.exp(b']')?;
                    inc.push((b, o));
                    if !self.isp(b',') || !matches!(self.t.get(self.i + 1), Some(T::P(b'['))) {
                        break;
                    }
                    self.i += 1;
                }
                blk.phis.push(Phi { d, inc });
            }
            "br" => {
                if self.isw("label") {
                    let l = self.label(bm)?;
                    blk.code.push(I::Br(l));
                } else {
                    let (_, c) = self.typed_op()?;
                    self.exp(b',')?;
                    let a = self.label(bm)?;
                    self.exp(b',')?;
                    let b = self.label(bm)?;
                    blk.code.push(I::CondBr(c, a, b));
                }
            }
            "switch" => {
                let (t, c) = self.typed_op()?;
                let w = self.m.bits(&t);
                self.exp(b',')?;
                let def = self.label(bm)?;
                self.exp(b'[')?;
                let mut cases = vec![];
                while !self.eatp(b']') {
                    let (_, k) = self.typed_const()?;
                    self.exp(b',')?;
                    let l = self.label(bm)?;
                    cases.push((kint(&k)? & expr::mask(w), l));
                }
                blk.code.push(I::Switch { c, w, cases, def });
            }
            "ret" => {
                if self.eatw("void") {
                    blk.code.push(I::Ret(None));
                } else {
                    let (_, o) = self.typed_op()?;
                    blk.code.push(I::Ret(Some(o)));
                }
            }
            "unreachable" => blk.code.push(I::Unreachable),
            "fence" => {}
            "landingpad" | "resume" => blk.code.push(I::Unsupported("unwinding".into())),
            "extractvalue" => {
                let (_, a) = self.typed_op()?;
                let path = self.idx_path()?;
                blk.code.push(I::ExtractValue { a, path, d });
            }
            "insertvalue" => {
                let (_, a) = self.typed_op()?;
                self.exp(b',')?;
                let (_, v) = self.typed_op()?;
                let path = self.idx_path()?;
                blk.code.push(I::InsertValue { a, v, path, d });
            }
            "extractelement" => {
                let (_, a) = self.typed_op()?;
                self.exp(b',')?;
                let (_, i) = self.typed_op()?;
                blk.code.push(I::ExtractElem { a, i, d });
            }
            "insertelement" => {
                let (_, a) = self.typed_op()?;
                self.exp(b',')?;
                let (_, v) = self.typed_op()?;
                self.exp(b',')?;
                let (_, i) = self.typed_op()?;
                blk.code.push(I::InsertElem { a, v, i, d });
            }
            "shufflevector" => {
                let (_, a) = self.typed_op()?;
                self.exp(b',')?;
                let (_, b) = self.typed_op()?;
                self.exp(b',')?;
                let mt = self.ty()?;
                let n = match mt {
                    Ty::Vec(n, _) => n,
                    _ => return Err("shuffle mask".into()),
                };
                let mask = match self.konst(&mt)? {
                    K::Zero => vec![Some(0); n as usize],
                    K::Agg(v) => v
                        .iter()
                        .map(|k| match k {
                            K::Int(x) => Some(*x as u32),
                            _ => None,
                        })
                        .collect(),
                    _ => return Err("shuffle mask".into()),
                };
                blk.code.push(I::Shuffle { a, b, mask, d });
            }
            "atomicrmw" => {
                self.eatw("volatile");
                let o = match self.next()? {
                    T::W(w) => w,
                    _ => return Err("rmw".into()),
                };
                let (_, p) = self.typed_op()?;
                self.exp(b',')?;
                let (t, v) = self.typed_op()?;
                blk.code.push(I::Rmw { op: o.into(), p, v, w: self.m.bits(&t), d });
            }
            "cmpxchg" => {
                self.eatw("weak");
                self.eatw("volatile");
                let (_, p) = self.typed_op()?;
                self.exp(b',')?;
                let (t, c) = self.typed_op()?;
                self.exp(b',')?;
                let (_, n) = self.typed_op()?;
                blk.code.push(I::CmpXchg { p, c, n, w: self.m.bits(&t), d });
            }
            "call" | "invoke" => {
                // return attributes
                loop {
                    if self.is_type_start() {
                        break;
                    }
                    self.i += 1;
                    if self.isp(b'(') {
                        self.skip_bal()?;
                    } else if let Some(T::N(_)) = self.peek() {
                        self.i += 1;
                    }
                    if self.i >= self.t.len() {
                        return Err("call".into());
                    }
                }
                let ret = self.ty()?;
                if self.isp(b'(') {
                    self.skip_bal()?;
                }
                let mut intr: Option<Rc<str>> = None;
                let callee = match self.next()? {
                    T::G(n) => {
                        if n.starts_with("llvm.") {
                            if n.starts_with("llvm.lifetime")
                                || n.starts_with("llvm.dbg")
                                || n.starts_with("llvm.assume")
                                || n.starts_with("llvm.experimental.noalias")
                                || n.starts_with("llvm.invariant")
                                || n.starts_with("llvm.x86.sse2.pause")
                                || n.starts_with("llvm.prefetch")
                            {
                                return Ok(());
                            }
                            intr = Some(n.into());
                            Callee::Intrinsic(n.into())
                        } else {
                            match self.m.fmap.get(n) {
                                Some(f) => Callee::Direct(*f),
                                None => Callee::Indirect(O::V(Val::C(self.m.addr_of(n)?))),
                            }
                        }
                    }
                    T::L(n) => Callee::Indirect(O::R(self.regs.as_mut().unwrap().get(n))),
                    T::W("asm") => {
                        // inline assembly: rustc only emits optimisation barriers / pause here
                        blk.code.push(I::Unsupported("inline asm".into()));
                        return Ok(());
                    }
                    x => return Err(format!("callee {x:?}")),
                };
                self.exp(b'(')?;
                let mut args = vec![];
                let mut tys = vec![];
                if !self.eatp(b')') {
                    loop {
                        if self.isw("metadata") {
                            // skip to , or )
                            while !self.isp(b',') && !self.isp(b')') {
                                if self.isp(b'(') {
                                    self.skip_bal()?;
                                } else {
                                    self.i += 1;
                                }
                            }
                        } else {
                            let t = self.ty()?;
                            loop {
                                match self.peek() {
                                    Some(T::W(w)) if !value_word(w) => {
                                        self.i += 1;
                                        if self.isp(b'(') {
                                            self.skip_bal()?;
                                        } else if let (Some(T::N(_)), Some(T::W("align"))) =
                                            (self.peek(), self.t.get(self.i - 1))
                                        {
                                            self.i += 1;
                                        }
                                    }
                                    _ => break,
                                }
                            }
                            args.push(self.operand(&t)?);
                            tys.push(t);
                        }
                        if self.eatp(b')') {
                            break;
                        }
                        self.exp(b',')?;
                    }
                }
                let _ = intr;
                let mut normal = NOREG;
                if op == "invoke" {
                    while !self.isw("to") {
                        self.i += 1;
                        if self.i >= self.t.len() {
                            return Err("invoke".into());
                        }
                    }
                    self.i += 1;
                    normal = self.label(bm)?;
                }
                blk.code.push(I::Call { callee, args, tys, ret, d, normal });
            }
            _ => return Err(format!("opcode {op}")),
        }
        Ok(())
    }
    fn skip_flags2(&mut self) {
        while let Some(T::W(w)) = self.peek() {
            if type_word(w) {
                break;
            }
            self.i += 1;
        }
    }
    fn idx_path(&mut self) -> PR<Vec<u32>> {
        let mut v = vec![];
        while self.eatp(b',') {
            match self.next()? {
                T::N(n) => v.push(n as u32),
                T::Md => break,
                x => return Err(format!("index {x:?}")),
            }
        }
        Ok(v)
    }
}
