//! Symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Res, Z3};
use std::collections::{HashMap, HashSet, VecDeque};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    blk: u32,
    ip: u32,
    regs: Vec<Val>,
    allocas: Vec<u32>,
    ret_reg: R,
    normal: u32,
}

#[derive(Clone)]
pub struct State {
    pub harness: u32,
    fr: Frame,
    stack: Vec<Rc<Frame>>,
    mem: Mem,
    pub pc: Vec<E>,
    dom: Vec<[u64; 4]>,
    multi: Sup,
    pub model: Vec<u8>,
    pub nvars: usize,
    pub obs: Vec<(E, u64)>,
    pub covers: Vec<u32>,
    pub steps: u64,
    pub forks: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Done,
    Assume,
    /// the path leaves the bounds or the engine's reach
    Lost(String),
    Panic(String),
    Assert(u32),
    Mem(String),
    Steps,
    Depth,
    HeapLimit,
}

enum Stop {
    End(End),
}
type X<T> = Result<T, Stop>;
fn lost<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::End(End::Lost(s.into())))
}
fn memerr<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::End(End::Mem(s.into())))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Hook {
    None,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    AlignedAlloc,
    Memcmp,
    Bcmp,
    Strlen,
    Getrandom,
    Panic,
    SymBytes,
    SymAssume,
    SymAssert,
    SymCover,
    SymObserve,
    SymTier,
    SymConc,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub assumed_away: u64,
    pub instrs: u64,
    pub z3_queries: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub z3_unknown: u64,
    pub z3_us: u64,
    pub z3_max_us: u64,
    pub cache_hits: u64,
    pub table_answers: u64,
    pub asserts_checked: u64,
    pub asserts_symbolic: u64,
    pub forks: u64,
}

pub struct Cfg {
    pub max_steps: u64,
    pub max_depth: usize,
    pub max_heap: u64,
    pub tier: u32,
    pub stop_after: usize,
}

pub struct Finding {
    pub harness: u32,
    pub end: End,
    pub input: Vec<u8>,
    pub at: String,
}
pub struct Sample {
    pub harness: u32,
    pub input: Vec<u8>,
    pub obs: Vec<u64>,
}

pub struct Exec {
    pub m: Module,
    z3: Z3,
    gcache: FxMap<u64, Rc<Obj>>,
    hooks: Vec<Hook>,
    fobj: FxMap<u64, u32>,
    gobj: FxMap<u64, u32>,
    pub work: VecDeque<State>,
    pub st: Stats,
    cache: HashMap<Box<[E]>, Option<Vec<(u8, u8)>>>,
    confirmed: HashSet<E>,
    addr_tab: FxMap<E, Rc<Vec<u64>>>,
    pub funcs_seen: Vec<bool>,
    pub cfg: Cfg,
    pub findings: Vec<Finding>,
    pub lost: HashMap<String, u64>,
    pub samples: Vec<Sample>,
    pub sample_cap: usize,
    pub covers: HashMap<(u32, u32), u64>,
    pub per_harness: HashMap<u32, u64>,
    pub smt_dump: Vec<(Vec<E>, bool)>,
    rng: u64,
    pub deadline: Option<std::time::Instant>,
    pub timed_out: bool,
}

fn classify(name: &str, has_body: bool) -> Hook {
    match name {
        "malloc" => return Hook::Malloc,
        "calloc" => return Hook::Calloc,
        "realloc" => return Hook::Realloc,
        "free" => return Hook::Free,
        "posix_memalign" => return Hook::PosixMemalign,
        "aligned_alloc" => return Hook::AlignedAlloc,
        "memcmp" => return Hook::Memcmp,
        "bcmp" => return Hook::Bcmp,
        "strlen" => return Hook::Strlen,
        "getrandom" => return Hook::Getrandom,
        "abort" | "__assert_fail" | "_exit" | "exit" => return Hook::Panic,
        "sym_bytes" => return Hook::SymBytes,
        "sym_assume" => return Hook::SymAssume,
        "sym_assert" => return Hook::SymAssert,
        "sym_cover" => return Hook::SymCover,
        "sym_observe" => return Hook::SymObserve,
        "sym_tier" => return Hook::SymTier,
        "sym_conc" => return Hook::SymConc,
        _ => {}
    }
    for p in [
        "panicking9panic_fmt",
        "panicking18panic_nounwind_fmt",
        "rust_begin_unwind",
        "rust_panic_with_hook",
        "begin_panic_handler",
        "handle_alloc_error",
        "rust_foreign_exception",
        "rust_drop_panic",
        "rt10abort_internal",
    ] {
        if name.contains(p) {
            return Hook::Panic;
        }
    }
    if !has_body {
        return Hook::Unknown;
    }
    Hook::None
}

#[inline]
fn norm(e: E) -> Val {
    let n = node(e);
    if n.op == Op::Const && n.w <= 64 {
        Val::C(n.k as u64)
    } else {
        Val::S(e)
    }
}
#[inline]
fn toe(v: &Val, w: u16) -> E {
    match v {
        Val::C(c) => cst(*c as u128, w),
        Val::S(e) => *e,
        Val::A(_) => panic!("aggregate as scalar"),
    }
}
fn m64(w: u16) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
fn sx(v: u64, w: u16) -> i64 {
    let s = 64 - w as u32;
    ((v << s) as i64) >> s
}

impl Exec {
    pub fn new(m: Module, cfg: Cfg) -> Exec {
        let hooks = m.funcs.iter().map(|f| classify(&f.name, f.body.is_some())).collect();
        let mut fobj = FxMap::default();
        for (i, f) in m.funcs.iter().enumerate() {
            fobj.insert(f.obj, i as u32);
        }
        let mut gobj = FxMap::default();
        for (i, g) in m.globals.iter().enumerate() {
            gobj.insert(g.obj, i as u32);
        }
        let n = m.funcs.len();
        Exec {
            m,
            z3: Z3::new(),
            gcache: FxMap::default(),
            hooks,
            fobj,
            gobj,
            work: VecDeque::new(),
            st: Stats::default(),
            cache: HashMap::new(),
            confirmed: HashSet::new(),
            addr_tab: FxMap::default(),
            funcs_seen: vec![false; n],
            cfg,
            findings: vec![],
            lost: HashMap::new(),
            samples: vec![],
            sample_cap: 40,
            covers: HashMap::new(),
            per_harness: HashMap::new(),
            smt_dump: vec![],
            rng: 0x9e3779b97f4a7c15,
            deadline: None,
            timed_out: false,
        }
    }

    pub fn start(&mut self, harness: u32, fname: &str) -> Result<State, String> {
        let id = *self.m.fmap.get(fname).ok_or_else(|| format!("no harness {fname}"))?;
        let f = self.m.func(id)?;
        self.funcs_seen[id as usize] = true;
        let fr = Frame {
            regs: vec![Val::C(0); f.nregs as usize],
            f,
            blk: 0,
            ip: 0,
            allocas: vec![],
            ret_reg: NOREG,
            normal: NOREG,
        };
        Ok(State {
            harness,
            fr,
            stack: vec![],
            mem: Mem::new(self.m.first_free_obj),
            pc: vec![],
            dom: vec![],
            multi: [0; 4],
            model: vec![],
            nvars: 0,
            obs: vec![],
            covers: vec![],
            steps: 0,
            forks: 0,
        })
    }

    // ---------------------------------------------------------------- constraints

    fn addc(&mut self, st: &mut State, e: E) {
        let n = node(e);
        if n.op == Op::Const {
            return;
        }
        if n.op == Op::And {
            self.addc(st, n.a);
            self.addc(st, n.b);
            return;
        }
        if st.pc.contains(&e) {
            return;
        }
        st.pc.push(e);
        if let Some(v) = single_var(e) {
            let t = self.table(e, v);
            for i in 0..4 {
                st.dom[v][i] &= t[i];
            }
        } else {
            let s = ar().sup[e as usize];
            for i in 0..4 {
                st.multi[i] |= s[i];
            }
        }
    }

    /// The values of byte v for which e holds. The solver confirms, once for every
    /// expression, that these are all: domains are intersections of such sets.
    fn table(&mut self, e: E, v: usize) -> [u64; 4] {
        let t = ar().table(e, v);
        if self.confirmed.insert(e) {
            let differs = bin(Op::Xor, e, in_set(v, &t, &[!0; 4]));
            if is_const(differs) != Some(0) {
                let mut sup = [0u64; 4];
                sup[v >> 6] |= 1 << (v & 63);
                match self.z3_check(&[differs], &sup, None) {
                    Res::Unsat => {}
                    r => {
                        eprintln!("irsym: internal error: the table of an expression is not what the solver says: {r:?}");
                        std::process::exit(70);
                    }
                }
            }
        }
        t
    }

    /// e with every input byte that the path condition pins to one value replaced by it
    /// (equivalent to e under the path condition).
    fn pinned(&mut self, st: &State, e: E) -> E {
        let s = ar().sup[e as usize];
        let mut pin = [0u64; 4];
        let mut any = false;
        for v in 0..st.nvars {
            if s[v >> 6] >> (v & 63) & 1 == 1 {
                let d = &st.dom[v];
                if d.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
                    pin[v >> 6] |= 1 << (v & 63);
                    any = true;
                }
            }
        }
        if !any {
            return e;
        }
        ar().subst(e, &pin, &st.model)
    }

    /// Model of pc ∧ e (where st.model ⊨ pc), or None.  Err on solver "unknown".
    fn sat(&mut self, st: &State, e: E) -> X<Option<Vec<u8>>> {
        if let Some(k) = is_const(e) {
            return Ok(if k != 0 { Some(st.model.clone()) } else { None });
        }
        if ar().eval(e, &st.model) != 0 {
            return Ok(Some(st.model.clone()));
        }
        let e = if single_var(e).is_some() { e } else { self.pinned(st, e) };
        if is_const(e).is_some() {
            return Ok(None);
        }
        self.sat_other(st, e)
    }
    fn sat_other(&mut self, st: &State, e: E) -> X<Option<Vec<u8>>> {
        if let Some(v) = single_var(e) {
            let t = self.table(e, v);
            let mut d = st.dom[v];
            for i in 0..4 {
                d[i] &= t[i];
            }
            if d == [0; 4] {
                self.st.table_answers += 1;
                return Ok(None);
            }
            if st.multi[v >> 6] >> (v & 63) & 1 == 0 {
                self.st.table_answers += 1;
                let mut m = st.model.clone();
                for i in 0..4 {
                    if d[i] != 0 {
                        m[v] = (i * 64) as u8 + d[i].trailing_zeros() as u8;
                        break;
                    }
                }
                return Ok(Some(m));
            }
        }
        // independence slice
        let mut sup = ar().sup[e as usize];
        let mut taken = vec![false; st.pc.len()];
        let mut cs: Vec<E> = vec![];
        loop {
            let mut ch = false;
            for (i, c) in st.pc.iter().enumerate() {
                if taken[i] {
                    continue;
                }
                let s = ar().sup[*c as usize];
                if (0..4).any(|j| s[j] & sup[j] != 0) {
                    taken[i] = true;
                    cs.push(*c);
                    for j in 0..4 {
                        if sup[j] | s[j] != sup[j] {
                            ch = true;
                            sup[j] |= s[j];
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        cs.sort_unstable();
        cs.push(e);
        let key: Box<[E]> = cs.into_boxed_slice();
        if let Some(r) = self.cache.get(&key) {
            self.st.cache_hits += 1;
            return Ok(r.as_ref().map(|kv| {
                let mut m = st.model.clone();
                for (k, v) in kv {
                    m[*k as usize] = *v;
                }
                m
            }));
        }
        let mut m = st.model.clone();
        let r = self.z3_check(&key, &sup, Some(&mut m));
        match r {
            Res::Sat => {
                let mut kv = vec![];
                for i in 0..st.nvars {
                    if sup[i >> 6] >> (i & 63) & 1 == 1 {
                        kv.push((i as u8, m[i]));
                    }
                }
                self.cache.insert(key, Some(kv));
                Ok(Some(m))
            }
            Res::Unsat => {
                self.cache.insert(key, None);
                Ok(None)
            }
            Res::Unknown => lost("solver answered unknown"),
        }
    }

    fn z3_check(&mut self, cs: &[E], sup: &Sup, m: Option<&mut Vec<u8>>) -> Res {
        let t = std::time::Instant::now();
        let r = self.z3.check(cs, sup, m);
        let us = t.elapsed().as_micros() as u64;
        self.st.z3_queries += 1;
        self.st.z3_us += us;
        self.st.z3_max_us = self.st.z3_max_us.max(us);
        match r {
            Res::Sat => self.st.z3_sat += 1,
            Res::Unsat => self.st.z3_unsat += 1,
            Res::Unknown => self.st.z3_unknown += 1,
        }
        // reservoir of queries for cross-checking with a second solver
        if r != Res::Unknown {
            let n = self.st.z3_queries;
            if self.smt_dump.len() < 12 {
                self.smt_dump.push((cs.to_vec(), r == Res::Sat));
            } else {
                let k = self.rand() % n;
                if k < 12 {
                    self.smt_dump[k as usize] = (cs.to_vec(), r == Res::Sat);
                }
            }
        }
        r
    }
    /// Past the deadline: what is left of the work is lost, and said to be.
    pub fn out_of_time(&mut self) -> bool {
        if self.deadline.map_or(false, |d| std::time::Instant::now() > d) {
            self.timed_out = true;
            *self.lost.entry("time budget".to_string()).or_default() += self.work.len() as u64 + 1;
            return true;
        }
        false
    }
    pub fn reseed(&mut self, k: u64) {
        self.rng = self.rng.wrapping_add(k.wrapping_mul(0xd1342543de82ef95)) | 1;
    }
    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    fn push_fork(&mut self, mut other: State) {
        self.st.forks += 1;
        other.forks += 1;
        self.work.push_back(other);
    }

    /// Decide a condition, forking if both outcomes are feasible.  The forked state re-executes
    /// the current instruction with the opposite outcome assumed.
    fn decide(&mut self, st: &mut State, c: E) -> X<bool> {
        if let Some(k) = is_const(c) {
            return Ok(k != 0);
        }
        let c = if single_var(c).is_some() { c } else { self.pinned(st, c) };
        if let Some(k) = is_const(c) {
            return Ok(k != 0);
        }
        let t = ar().eval(c, &st.model) != 0;
        let other = if t { not(c) } else { c };
        let this0 = if t { c } else { other_of(c) };
        if st.pc.contains(&this0) {
            return Ok(t);
        }
        if let Some(m) = self.sat_other(st, other)? {
            let mut o = st.clone();
            o.model = m;
            self.addc(&mut o, other);
            self.push_fork(o);
            let this = if t { c } else { not(c) };
            self.addc(st, this);
        }
        Ok(t)
    }
    /// Concretize an expression (all feasible values are explored through forks).
    fn conc(&mut self, st: &mut State, e: E) -> X<u128> {
        if let Some(k) = is_const(e) {
            return Ok(k);
        }
        let e = self.pinned(st, e);
        if let Some(k) = is_const(e) {
            return Ok(k);
        }
        let v = ar().eval(e, &st.model);
        let eq = bin(Op::Eq, e, cst(v, width(e)));
        let ne = not(eq);
        if let Some(m) = self.sat_other(st, ne)? {
            let mut o = st.clone();
            o.model = m;
            self.addc(&mut o, ne);
            self.push_fork(o);
            self.addc(st, eq);
        }
        Ok(v)
    }
    fn conc_op(&mut self, st: &mut State, o: &O, w: u16) -> X<u64> {
        let v = self.val(st, o);
        match v {
            Val::C(c) => Ok(c),
            Val::S(e) => {
                let k = self.conc(st, e)? as u64;
                if let O::R(r) = o {
                    st.fr.regs[*r as usize] = Val::C(k & m64(w));
                }
                Ok(k)
            }
            Val::A(_) => lost("aggregate concretized"),
        }
    }

    #[inline]
    fn val(&self, st: &State, o: &O) -> Val {
        match o {
            O::R(r) => st.fr.regs[*r as usize].clone(),
            O::V(v) => v.clone(),
        }
    }

    // ---------------------------------------------------------------- memory

    fn global(&mut self, id: u64) -> X<Rc<Obj>> {
        if let Some(o) = self.gcache.get(&id) {
            return Ok(o.clone());
        }
        let Some(g) = self.gobj.get(&id).copied() else {
            return memerr(format!("access to invalid object {id}"));
        };
        let data = match self.m.global_bytes(g as usize) {
            Ok(d) => d,
            Err(e) => return lost(format!("global {}: {e}", self.m.globals[g as usize].name)),
        };
        let kind = if self.m.globals[g as usize].constant { Kind::Const } else { Kind::Global };
        let o = Rc::new(Obj { kind, data, ov: None });
        self.gcache.insert(id, o.clone());
        Ok(o)
    }
    fn obj(&mut self, st: &State, addr: u64, n: u64) -> X<(Rc<Obj>, usize)> {
        let id = addr >> OBJ_SHIFT;
        let off = addr & ((1 << OBJ_SHIFT) - 1);
        let o = match st.mem.get(id) {
            Some(o) => o.clone(),
            None => {
                if id < self.m.first_free_obj {
                    self.global(id)?
                } else {
                    return memerr(format!("access to dead object at {addr:#x}"));
                }
            }
        };
        if off + n > o.data.len() as u64 {
            return memerr(format!("out-of-bounds access: offset {off} size {n} in object of {} bytes", o.data.len()));
        }
        Ok((o, off as usize))
    }
    fn obj_mut<'s>(&mut self, st: &'s mut State, addr: u64, n: u64) -> X<(&'s mut Obj, usize)> {
        let id = addr >> OBJ_SHIFT;
        let off = addr & ((1 << OBJ_SHIFT) - 1);
        if st.mem.get(id).is_none() {
            if id < self.m.first_free_obj {
                let o = self.global(id)?;
                st.mem.put(id, o);
            } else {
                return memerr(format!("write to dead object at {addr:#x}"));
            }
        }
        let o = st.mem.get_mut(id).unwrap();
        if off + n > o.data.len() as u64 {
            return memerr(format!("out-of-bounds write: offset {off} size {n} in object of {} bytes", o.data.len()));
        }
        if o.kind == Kind::Const {
            return memerr("write to constant");
        }
        Ok((o, off as usize))
    }
    fn read_scalar(&mut self, st: &State, addr: u64, n: usize, w: u16) -> X<Val> {
        let id = addr >> OBJ_SHIFT;
        let off = (addr & ((1 << OBJ_SHIFT) - 1)) as usize;
        // fast path without touching the reference count
        if let Some(o) = st.mem.get(id) {
            if off + n <= o.data.len() {
                return Ok(read_from(o, off, n, w));
            }
        }
        let (o, off) = self.obj(st, addr, n as u64)?;
        Ok(read_from(&o, off, n, w))
    }
    fn load(&mut self, st: &State, addr: u64, ty: &Ty) -> X<Val> {
        Ok(match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 | Ty::FOther(_) => {
                let w = self.m.bits(ty);
                let n = self.m.store_size(ty) as usize;
                self.read_scalar(st, addr, n, w)?
            }
            Ty::Named(_) => {
                let t = self.m.resolve(ty);
                self.load(st, addr, &t)?
            }
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let b = self.m.bits(e);
                if matches!(ty, Ty::Vec(..)) && b % 8 != 0 {
                    let tot = (*n as u16) * b;
                    let v = self.read_scalar(st, addr, (tot as usize).div_ceil(8), tot)?;
                    let x = toe(&v, tot);
                    return Ok(Val::A(Rc::new((0..*n as u16).map(|i| norm(extract(x, i * b, b))).collect())));
                }
                let sz = self.m.size(e);
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    v.push(self.load(st, addr + i * sz, e)?);
                }
                Val::A(Rc::new(v))
            }
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() {
                    let (o, t) = match self.m.step(ty, i as u64) {
                        Ok(x) => x,
                        Err(e) => return lost(e),
                    };
                    v.push(self.load(st, addr + o, &t)?);
                }
                Val::A(Rc::new(v))
            }
            _ => return lost(format!("load of {ty:?}")),
        })
    }
    fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> X<()> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 | Ty::FOther(_) => {
                let w = self.m.bits(ty);
                let n = self.m.store_size(ty) as usize;
                let (o, off) = self.obj_mut(st, addr, n as u64)?;
                write_to(o, off, n, w, v);
            }
            Ty::Named(_) => {
                let t = self.m.resolve(ty);
                self.store(st, addr, &t, v)?;
            }
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let Val::A(vs) = v else { return lost("store shape") };
                let b = self.m.bits(e);
                if matches!(ty, Ty::Vec(..)) && b % 8 != 0 {
                    let Some(x) = pack(vs, b) else { return lost("wide vector store") };
                    let tot = width(x);
                    let (o, off) = self.obj_mut(st, addr, (tot as u64).div_ceil(8))?;
                    write_to(o, off, (tot as usize).div_ceil(8), tot, &norm(x));
                    return Ok(());
                }
                let sz = self.m.size(e);
                for i in 0..*n {
                    self.store(st, addr + i * sz, e, &vs[i as usize])?;
                }
            }
            Ty::Struct(f, _) => {
                let Val::A(vs) = v else { return lost("store shape") };
                for i in 0..f.len() {
                    let (o, t) = match self.m.step(ty, i as u64) {
                        Ok(x) => x,
                        Err(e) => return lost(e),
                    };
                    self.store(st, addr + o, &t, &vs[i])?;
                }
            }
            _ => return lost(format!("store of {ty:?}")),
        }
        Ok(())
    }
    fn load_sym(&mut self, st: &mut State, a: E, ty: &Ty, p: &O) -> X<Val> {
        let a = self.pinned(st, a);
        if let Some(k) = is_const(a) {
            return self.load(st, k as u64, ty);
        }
        let scalar = matches!(ty, Ty::Int(_) | Ty::Ptr);
        if scalar {
            if let Some(v) = single_var(a) {
                let tab = match self.addr_tab.get(&a) {
                    Some(t) => t.clone(),
                    None => {
                        let mut t = Vec::with_capacity(256);
                        let mut m = vec![0u8; v + 1];
                        for i in 0..256 {
                            m[v] = i as u8;
                            t.push(ar().eval(a, &m) as u64);
                        }
                        let t = Rc::new(t);
                        self.addr_tab.insert(a, t.clone());
                        t
                    }
                };
                let d = st.dom[v];
                let w = self.m.bits(ty);
                // value -> set of byte values
                let mut groups: Vec<(E, [u64; 4])> = vec![];
                let mut seen: FxMap<u64, E> = FxMap::default();
                let mut bad = false;
                for i in 0..256usize {
                    if d[i >> 6] >> (i & 63) & 1 == 0 {
                        continue;
                    }
                    let x = match seen.get(&tab[i]) {
                        Some(x) => *x,
                        None => match self.load(st, tab[i], ty) {
                            Ok(v) => {
                                let x = toe(&v, w);
                                seen.insert(tab[i], x);
                                x
                            }
                            Err(_) => {
                                bad = true;
                                break;
                            }
                        },
                    };
                    match groups.iter_mut().find(|g| g.0 == x) {
                        Some(g) => g.1[i >> 6] |= 1 << (i & 63),
                        None => {
                            let mut s = [0; 4];
                            s[i >> 6] |= 1 << (i & 63);
                            groups.push((x, s));
                        }
                    }
                }
                if !bad && !groups.is_empty() {
                    // the largest group is the default
                    let big = (0..groups.len())
                        .max_by_key(|i| groups[*i].1.iter().map(|x| x.count_ones()).sum::<u32>())
                        .unwrap();
                    let mut r = groups[big].0;
                    for (i, g) in groups.iter().enumerate() {
                        if i != big {
                            // byte values outside the domain may be assigned to any group
                            r = ite(in_set(v, &g.1, &d), g.0, r);
                        }
                    }
                    return Ok(norm(r));
                }
            } else {
                // enumerate a few addresses
                let mut cands: Vec<u64> = vec![];
                let mut ex = cst(1, 1);
                let mut tmp = st.model.clone();
                let mut complete = false;
                for _ in 0..24 {
                    let v = ar().eval(a, &tmp) as u64;
                    cands.push(v);
                    ex = bin(Op::And, ex, not(bin(Op::Eq, a, cst(v as u128, 64))));
                    match self.sat_other(st, ex)? {
                        Some(m) => tmp = m,
                        None => {
                            complete = true;
                            break;
                        }
                    }
                }
                if complete {
                    let w = self.m.bits(ty);
                    let mut vals = vec![];
                    let mut ok = true;
                    for c in &cands {
                        match self.load(st, *c, ty) {
                            Ok(v) => vals.push(toe(&v, w)),
                            Err(_) => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if ok {
                        let mut r = *vals.last().unwrap();
                        for i in (0..cands.len() - 1).rev() {
                            r = ite(bin(Op::Eq, a, cst(cands[i] as u128, 64)), vals[i], r);
                        }
                        return Ok(norm(r));
                    }
                }
            }
        }
        let k = self.conc_op(st, p, 64)?;
        self.load(st, k, ty)
    }

    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (so, soff) = self.obj(st, s, n)?;
        let n = n as usize;
        let bytes = so.data[soff..soff + n].to_vec();
        let ov: Option<Vec<E>> = so.ov.as_ref().map(|o| o[soff..soff + n].to_vec());
        drop(so);
        let (o, off) = self.obj_mut(st, d, n as u64)?;
        o.data[off..off + n].copy_from_slice(&bytes);
        match ov {
            Some(v) if v.iter().any(|x| *x != 0) => {
                let len = o.data.len();
                let dst = o.ov.get_or_insert_with(|| vec![0; len].into_boxed_slice());
                dst[off..off + n].copy_from_slice(&v);
            }
            _ => {
                if let Some(dst) = &mut o.ov {
                    dst[off..off + n].iter_mut().for_each(|x| *x = 0);
                }
            }
        }
        Ok(())
    }

    // ---------------------------------------------------------------- running

    pub fn at(&self, st: &State) -> String {
        let mut v = vec![demangle(&st.fr.f.name)];
        for f in st.stack.iter().rev().take(6) {
            v.push(demangle(&f.f.name));
        }
        v.join(" < ")
    }

    /// Run one state to its end (forks go to the work list).
    pub fn run(&mut self, mut st: State) {
        let end = loop {
            match self.step(&mut st) {
                Ok(None) => {
                    if st.steps & 0xffff == 0 && self.deadline.map_or(false, |d| std::time::Instant::now() > d) {
                        self.timed_out = true;
                        break End::Lost("time budget".into());
                    }
                }
                Ok(Some(e)) => break e,
                Err(Stop::End(e)) => break e,
            }
        };
        self.finish(st, end);
    }

    /// Run until the state forks or ends; used to seed the frontier.
    pub fn run_seed(&mut self, mut st: State) {
        let before = self.work.len();
        let end = loop {
            match self.step(&mut st) {
                Ok(None) => {
                    if self.work.len() != before {
                        self.work.push_back(st);
                        return;
                    }
                }
                Ok(Some(e)) => break e,
                Err(Stop::End(e)) => break e,
            }
        };
        self.finish(st, end);
    }

    fn finish(&mut self, st: State, end: End) {
        for c in &st.covers {
            *self.covers.entry((st.harness, *c)).or_default() += 1;
        }
        match end {
            End::Assume => self.st.assumed_away += 1,
            End::Done => {
                self.st.paths += 1;
                *self.per_harness.entry(st.harness).or_default() += 1;
                self.sample(&st);
            }
            End::Lost(s) => {
                self.st.paths += 1;
                let at = self.at(&st);
                *self.lost.entry(format!("{s} @ {at}")).or_default() += 1;
            }
            e => {
                self.st.paths += 1;
                let at = self.at(&st);
                self.report(&st, e, st.model.clone(), at);
            }
        }
    }
    fn report(&mut self, st: &State, end: End, mut input: Vec<u8>, at: String) {
        input.truncate(st.nvars);
        let same = self.findings.iter().filter(|f| f.end == end && f.harness == st.harness).count();
        if same < 3 && self.findings.len() < 200 {
            self.findings.push(Finding { harness: st.harness, end, input, at });
        }
    }
    fn sample(&mut self, st: &State) {
        if self.sample_cap == 0 {
            return;
        }
        let n = self.st.paths;
        let slot = if self.samples.len() < self.sample_cap {
            self.samples.len()
        } else {
            let k = (self.rand() % n) as usize;
            if k >= self.sample_cap {
                return;
            }
            k
        };
        let obs = st
            .obs
            .iter()
            .map(|(e, c)| if *e == 0 { *c } else { ar().eval(*e, &st.model) as u64 })
            .collect();
        let mut input = st.model.clone();
        input.truncate(st.nvars);
        let s = Sample { harness: st.harness, input, obs };
        if slot == self.samples.len() {
            self.samples.push(s)
        } else {
            self.samples[slot] = s
        }
    }

    fn jump(&mut self, st: &mut State, t: u32) {
        let f = st.fr.f.clone();
        let b = &f.blocks[t as usize];
        let prev = st.fr.blk;
        match b.phis.len() {
            0 => {}
            1 => {
                let p = &b.phis[0];
                let o = &p.inc.iter().find(|x| x.0 == prev).expect("phi").1;
                st.fr.regs[p.d as usize] = self.val(st, o);
            }
            _ => {
                let mut vs = Vec::with_capacity(b.phis.len());
                // incoming lists of one block share their order
                let mut ix = usize::MAX;
                for p in &b.phis {
                    if ix >= p.inc.len() || p.inc[ix].0 != prev {
                        ix = p.inc.iter().position(|x| x.0 == prev).expect("phi");
                    }
                    vs.push(self.val(st, &p.inc[ix].1));
                }
                for (p, v) in b.phis.iter().zip(vs) {
                    st.fr.regs[p.d as usize] = v;
                }
            }
        }
        st.fr.blk = t;
        st.fr.ip = 0;
    }

    #[inline]
    fn set(&self, st: &mut State, d: R, v: Val) {
        if d != NOREG {
            st.fr.regs[d as usize] = v;
        }
    }

    fn binop(&mut self, st: &mut State, op: BinOp, w: u16, a: &Val, b: &Val) -> X<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let m = m64(w);
                return Ok(Val::C(match op {
                    BinOp::Add => x.wrapping_add(y) & m,
                    BinOp::Sub => x.wrapping_sub(y) & m,
                    BinOp::Mul => x.wrapping_mul(y) & m,
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    BinOp::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            (x << y) & m
                        }
                    }
                    BinOp::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    BinOp::AShr => {
                        if y >= w as u64 {
                            (sx(x, w) >> (w - 1).min(63)) as u64 & m
                        } else {
                            (sx(x, w) >> y) as u64 & m
                        }
                    }
                    BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                        if y == 0 {
                            return memerr("division by zero");
                        }
                        match op {
                            BinOp::UDiv => x / y,
                            BinOp::URem => x % y,
                            BinOp::SDiv => sx(x, w).wrapping_div(sx(y, w)) as u64 & m,
                            _ => sx(x, w).wrapping_rem(sx(y, w)) as u64 & m,
                        }
                    }
                    _ => return lost("floating point"),
                }));
            }
        }
        let (x, y) = (toe(a, w), toe(b, w));
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                if is_const(y).map_or(true, |k| k == 0) {
                    let z = bin(Op::Eq, y, cst(0, w));
                    if self.decide(st, z)? {
                        return memerr("division by zero");
                    }
                }
                match op {
                    BinOp::UDiv => Op::UDiv,
                    BinOp::URem => Op::URem,
                    BinOp::SDiv => Op::SDiv,
                    _ => Op::SRem,
                }
            }
            _ => return lost("floating point"),
        };
        Ok(norm(bin(o, x, y)))
    }
    fn icmp(&self, p: Pred, w: u16, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            return Val::C(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx(x, w) < sx(y, w),
                Pred::Sle => sx(x, w) <= sx(y, w),
                Pred::Sgt => sx(x, w) > sx(y, w),
                Pred::Sge => sx(x, w) >= sx(y, w),
            } as u64);
        }
        let (x, y) = (toe(a, w), toe(b, w));
        norm(match p {
            Pred::Eq => bin(Op::Eq, x, y),
            Pred::Ne => not(bin(Op::Eq, x, y)),
            Pred::Ult => bin(Op::Ult, x, y),
            Pred::Ule => bin(Op::Ule, x, y),
            Pred::Ugt => bin(Op::Ult, y, x),
            Pred::Uge => bin(Op::Ule, y, x),
            Pred::Slt => bin(Op::Slt, x, y),
            Pred::Sle => bin(Op::Sle, x, y),
            Pred::Sgt => bin(Op::Slt, y, x),
            Pred::Sge => bin(Op::Sle, y, x),
        })
    }

    fn cast(&self, k: Cast, from: &Ty, to: &Ty, v: Val) -> X<Val> {
        if let (Ty::Vec(_, fe), Ty::Vec(_, te), Val::A(vs)) = (from, to, &v) {
            if k != Cast::Bit || self.m.bits(fe) == self.m.bits(te) {
                let mut o = vec![];
                for x in vs.iter() {
                    o.push(self.cast(k, fe, te, x.clone())?);
                }
                return Ok(Val::A(Rc::new(o)));
            }
        }
        let (fw, tw) = (self.m.bits(from), self.m.bits(to));
        match k {
            Cast::Trunc => Ok(match v {
                Val::C(c) => Val::C(c & m64(tw)),
                Val::S(e) => norm(extract(e, 0, tw)),
                _ => return lost("trunc"),
            }),
            Cast::ZExt => Ok(match v {
                Val::C(c) if tw <= 64 => Val::C(c),
                v => norm(zext(toe(&v, fw), tw)),
            }),
            Cast::SExt => Ok(match v {
                Val::C(c) if tw <= 64 => Val::C(sx(c, fw) as u64 & m64(tw)),
                v => norm(sextend(toe(&v, fw), tw)),
            }),
            Cast::Bit => match (from, to, &v) {
                (Ty::Vec(n, fe), _, Val::A(vs)) => {
                    let fb = self.m.bits(fe);
                    match to {
                        Ty::Vec(tn, te) => {
                            let tb = self.m.bits(te);
                            // element-wise regrouping
                            let mut out = vec![];
                            if fb > tb && fb % tb == 0 {
                                for x in vs.iter() {
                                    let e = toe(x, fb);
                                    for j in 0..fb / tb {
                                        out.push(norm(extract(e, j * tb, tb)));
                                    }
                                }
                            } else if tb % fb == 0 {
                                let k = (tb / fb) as usize;
                                for c in vs.chunks(k) {
                                    match pack(c, fb) {
                                        Some(e) => out.push(norm(e)),
                                        None => return lost("wide bitcast"),
                                    }
                                }
                            } else {
                                return lost("vector bitcast");
                            }
                            let _ = (n, tn);
                            Ok(Val::A(Rc::new(out)))
                        }
                        _ => match pack(vs, fb) {
                            Some(e) => Ok(norm(e)),
                            None => lost("wide bitcast"),
                        },
                    }
                }
                (_, Ty::Vec(n, te), _) => {
                    let tb = self.m.bits(te);
                    let e = toe(&v, fw);
                    Ok(Val::A(Rc::new((0..*n as u16).map(|i| norm(extract(e, i * tb, tb))).collect())))
                }
                _ => Ok(v),
            },
            Cast::Float(_) => lost("floating point"),
        }
    }

    fn step(&mut self, st: &mut State) -> X<Option<End>> {
        st.steps += 1;
        self.st.instrs += 1;
        if st.steps > self.cfg.max_steps {
            return Ok(Some(End::Steps));
        }
        let blk = &st.fr.f.blocks[st.fr.blk as usize];
        // instructions live as long as the module, which is never dropped
        let ins: &'static I = unsafe { &*(&blk.code[st.fr.ip as usize] as *const I) };
        match ins {
            I::Bin { op, w, vec, a, b, d } => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let v = if *vec {
                    let (Val::A(p), Val::A(q)) = (&x, &y) else { return lost("vector op") };
                    let mut o = Vec::with_capacity(p.len());
                    for i in 0..p.len() {
                        o.push(self.binop(st, *op, *w, &p[i], &q[i])?);
                    }
                    Val::A(Rc::new(o))
                } else {
                    self.binop(st, *op, *w, &x, &y)?
                };
                self.set(st, *d, v);
            }
            I::ICmp { p, w, vec, a, b, d } => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let v = if *vec {
                    let (Val::A(l), Val::A(r)) = (&x, &y) else { return lost("vector cmp") };
                    Val::A(Rc::new((0..l.len()).map(|i| self.icmp(*p, *w, &l[i], &r[i])).collect()))
                } else {
                    self.icmp(*p, *w, &x, &y)
                };
                self.set(st, *d, v);
            }
            I::FCmp { .. } => return lost("floating point"),
            I::Cast { k, from, to, a, d } => {
                let v = self.val(st, a);
                let v = self.cast(*k, from, to, v)?;
                self.set(st, *d, v);
            }
            I::Select { c, a, b, ptr, vecc, w, d } => {
                let cv = self.val(st, c);
                let v = if *vecc {
                    let (Val::A(cs), Val::A(x), Val::A(y)) = (cv, self.val(st, a), self.val(st, b)) else {
                        return lost("vector select");
                    };
                    let mut o = vec![];
                    for i in 0..cs.len() {
                        o.push(match &cs[i] {
                            Val::C(k) => {
                                if *k != 0 {
                                    x[i].clone()
                                } else {
                                    y[i].clone()
                                }
                            }
                            Val::S(e) => {
                                let (p, q) = (toe(&x[i], *w), toe(&y[i], *w));
                                norm(ite(*e, p, q))
                            }
                            _ => return lost("vector select"),
                        });
                    }
                    Val::A(Rc::new(o))
                } else {
                    match cv {
                        Val::C(k) => self.val(st, if k != 0 { a } else { b }),
                        Val::S(e) => {
                            let (x, y) = (self.val(st, a), self.val(st, b));
                            match (&x, &y) {
                                (Val::C(p), Val::C(q)) if p == q => x,
                                (Val::A(_), _) => {
                                    let t = self.decide(st, e)?;
                                    if t {
                                        x
                                    } else {
                                        y
                                    }
                                }
                                _ if *ptr => {
                                    let t = self.decide(st, e)?;
                                    if t {
                                        x
                                    } else {
                                        y
                                    }
                                }
                                _ => {
                                    norm(ite(e, toe(&x, *w), toe(&y, *w)))
                                }
                            }
                        }
                        _ => return lost("select condition"),
                    }
                };
                self.set(st, *d, v);
            }
            I::Load { ty, p, d } => {
                let pv = self.val(st, p);
                let v = match pv {
                    Val::C(a) => self.load(st, a, ty)?,
                    Val::S(e) => self.load_sym(st, e, ty, p)?,
                    _ => return lost("load pointer"),
                };
                self.set(st, *d, v);
            }
            I::Store { ty, v, p } => {
                let a = self.conc_op(st, p, 64)?;
                let x = self.val(st, v);
                self.store(st, a, ty, &x)?;
            }
            I::Gep { base, off, terms, d } => {
                let bv = self.val(st, base);
                let mut c: Option<u64> = match &bv {
                    Val::C(x) => Some(x.wrapping_add(*off)),
                    _ => None,
                };
                if let Some(acc) = c {
                    let mut acc = acc;
                    let mut all = true;
                    for (o, sz, w) in terms {
                        match o {
                            O::R(r) => match &st.fr.regs[*r as usize] {
                                Val::C(k) => acc = acc.wrapping_add((sx(*k, *w) as u64).wrapping_mul(*sz)),
                                _ => {
                                    all = false;
                                    break;
                                }
                            },
                            O::V(Val::C(k)) => acc = acc.wrapping_add((sx(*k, *w) as u64).wrapping_mul(*sz)),
                            _ => {
                                all = false;
                                break;
                            }
                        }
                    }
                    c = if all { Some(acc) } else { None };
                }
                let v = match c {
                    Some(x) => Val::C(x),
                    None => {
                        if let Val::A(_) = bv {
                            return lost("vector gep");
                        }
                        let mut e = bin(Op::Add, toe(&bv, 64), cst(*off as u128, 64));
                        for (o, sz, w) in terms {
                            let x = self.val(st, o);
                            let mut t = toe(&x, *w);
                            t = if *w < 64 { sextend(t, 64) } else { extract(t, 0, 64) };
                            e = bin(Op::Add, e, bin(Op::Mul, t, cst(*sz as u128, 64)));
                        }
                        norm(e)
                    }
                };
                self.set(st, *d, v);
            }
            I::Alloca { size, n, d } => {
                let k = match n {
                    Some(o) => self.conc_op(st, o, 64)?,
                    None => 1,
                };
                let a = st.mem.alloc(size * k, Kind::Stack);
                st.fr.allocas.push((a >> OBJ_SHIFT) as u32);
                self.set(st, *d, Val::C(a));
            }
            I::ExtractValue { a, path, d } => {
                let mut v = self.val(st, a);
                for i in path {
                    let Val::A(x) = &v else { return lost("extractvalue") };
                    v = x[*i as usize].clone();
                }
                self.set(st, *d, v);
            }
            I::InsertValue { a, v, path, d } => {
                let x = self.val(st, v);
                let agg = self.val(st, a);
                let r = insert(agg, path, x);
                self.set(st, *d, r);
            }
            I::ExtractElem { a, i, d } => {
                let k = self.conc_op(st, i, 64)?;
                let Val::A(x) = self.val(st, a) else { return lost("extractelement") };
                let v = x[k as usize].clone();
                self.set(st, *d, v);
            }
            I::InsertElem { a, v, i, d } => {
                let k = self.conc_op(st, i, 64)?;
                let x = self.val(st, v);
                let agg = self.val(st, a);
                let r = insert(agg, &[k as u32], x);
                self.set(st, *d, r);
            }
            I::Shuffle { a, b, mask, d } => {
                let (Val::A(x), Val::A(y)) = (self.val(st, a), self.val(st, b)) else { return lost("shuffle") };
                let n = x.len();
                let v = mask
                    .iter()
                    .map(|k| match k {
                        Some(k) if (*k as usize) < n => x[*k as usize].clone(),
                        Some(k) => y[*k as usize - n].clone(),
                        None => x[0].clone(),
                    })
                    .collect();
                self.set(st, *d, Val::A(Rc::new(v)));
            }
            I::Mov { a, d } => {
                let v = self.val(st, a);
                self.set(st, *d, v);
            }
            I::Rmw { op, p, v, w, d } => {
                let a = self.conc_op(st, p, 64)?;
                let ty = Ty::Int(*w);
                let old = self.load(st, a, &ty)?;
                let x = self.val(st, v);
                let new = match &**op {
                    "add" => self.binop(st, BinOp::Add, *w, &old, &x)?,
                    "sub" => self.binop(st, BinOp::Sub, *w, &old, &x)?,
                    "and" => self.binop(st, BinOp::And, *w, &old, &x)?,
                    "or" => self.binop(st, BinOp::Or, *w, &old, &x)?,
                    "xor" => self.binop(st, BinOp::Xor, *w, &old, &x)?,
                    "xchg" => x,
                    o => return lost(format!("atomicrmw {o}")),
                };
                self.store(st, a, &ty, &new)?;
                self.set(st, *d, old);
            }
            I::CmpXchg { p, c, n, w, d } => {
                let a = self.conc_op(st, p, 64)?;
                let ty = Ty::Int(*w);
                let old = self.load(st, a, &ty)?;
                let cv = self.val(st, c);
                let eq = match self.icmp(Pred::Eq, *w, &old, &cv) {
                    Val::C(k) => k != 0,
                    Val::S(e) => self.decide(st, e)?,
                    _ => return lost("cmpxchg"),
                };
                if eq {
                    let nv = self.val(st, n);
                    self.store(st, a, &ty, &nv)?;
                }
                self.set(st, *d, Val::A(Rc::new(vec![old, Val::C(eq as u64)])));
            }
            I::Br(t) => {
                self.jump(st, *t);
                return Ok(None);
            }
            I::CondBr(c, a, b) => {
                let t = match self.val(st, c) {
                    Val::C(k) => k != 0,
                    Val::S(e) => self.decide(st, e)?,
                    _ => return lost("branch condition"),
                };
                self.jump(st, if t { *a } else { *b });
                return Ok(None);
            }
            I::Switch { c, w, cases, def } => {
                let t = match self.val(st, c) {
                    Val::C(k) => cases.iter().find(|x| x.0 == k as u128).map_or(*def, |x| x.1),
                    Val::S(e) => {
                        if let Some(k) = is_const(e) {
                            cases.iter().find(|x| x.0 == k).map_or(*def, |x| x.1)
                        } else {
                            self.switch(st, e, *w, cases, *def)?
                        }
                    }
                    _ => return lost("switch"),
                };
                self.jump(st, t);
                return Ok(None);
            }
            I::Ret(o) => {
                let v = o.as_ref().map(|o| self.val(st, o));
                for a in std::mem::take(&mut st.fr.allocas) {
                    st.mem.release(a as u64);
                }
                let Some(caller) = st.stack.pop() else {
                    return Ok(Some(End::Done));
                };
                let (rr, nm) = (st.fr.ret_reg, st.fr.normal);
                st.fr = Rc::try_unwrap(caller).unwrap_or_else(|r| (*r).clone());
                if let Some(v) = v {
                    self.set(st, rr, v);
                }
                if nm != NOREG {
                    self.jump(st, nm);
                } else {
                    st.fr.ip += 1;
                }
                return Ok(None);
            }
            I::Unreachable => return memerr("unreachable code reached"),
            I::Unsupported(s) => return lost(format!("unsupported: {s}")),
            I::Call { callee, args, tys, ret, d, normal } => {
                return self.call(st, callee, args, tys, ret, *d, *normal);
            }
        }
        st.fr.ip += 1;
        Ok(None)
    }

    fn switch(&mut self, st: &mut State, e: E, w: u16, cases: &[(u128, u32)], def: u32) -> X<u32> {
        let e = self.pinned(st, e);
        if let Some(k) = is_const(e) {
            return Ok(cases.iter().find(|x| x.0 == k).map_or(def, |x| x.1));
        }
        // merge the cases by target
        let mut conds: Vec<(u32, E)> = vec![];
        let mut none = cst(1, 1);
        let byt = single_var(e);
        if let Some(v) = byt {
            // exact sets over one byte
            let mut sets: Vec<(u32, [u64; 4])> = vec![];
            let d = st.dom[v];
            let mut m = vec![0u8; v + 1];
            for i in 0..256usize {
                if d[i >> 6] >> (i & 63) & 1 == 0 {
                    continue;
                }
                m[v] = i as u8;
                let k = ar().eval(e, &m);
                let t = cases.iter().find(|x| x.0 == k).map_or(def, |x| x.1);
                match sets.iter_mut().find(|s| s.0 == t) {
                    Some(s) => s.1[i >> 6] |= 1 << (i & 63),
                    None => {
                        let mut s = [0; 4];
                        s[i >> 6] |= 1 << (i & 63);
                        sets.push((t, s));
                    }
                }
            }
            if sets.len() == 1 {
                return Ok(sets[0].0);
            }
            for (t, s) in &sets {
                conds.push((*t, in_set(v, s, &d)));
            }
            let cur = st.model[v] as usize;
            let here = sets.iter().position(|s| s.1[cur >> 6] >> (cur & 63) & 1 == 1).unwrap();
            for (i, (_, c)) in conds.iter().enumerate() {
                if i != here {
                    if let Some(m) = self.sat_other(st, *c)? {
                        let mut o = st.clone();
                        o.model = m;
                        self.addc(&mut o, *c);
                        self.push_fork(o);
                    }
                }
            }
            let (t, c) = conds[here];
            self.addc(st, c);
            return Ok(t);
        }
        for (k, t) in cases {
            let c = bin(Op::Eq, e, cst(*k, w));
            none = bin(Op::And, none, not(c));
            match conds.iter_mut().find(|x| x.0 == *t) {
                Some(x) => x.1 = bin(Op::Or, x.1, c),
                None => conds.push((*t, c)),
            }
        }
        match conds.iter_mut().find(|x| x.0 == def) {
            Some(x) => x.1 = bin(Op::Or, x.1, none),
            None => conds.push((def, none)),
        }
        let here = conds.iter().position(|c| ar().eval(c.1, &st.model) != 0).unwrap();
        let mut forked = false;
        for (i, (_, c)) in conds.iter().enumerate() {
            if i != here && is_const(*c) != Some(0) {
                if let Some(m) = self.sat_other(st, *c)? {
                    let mut o = st.clone();
                    o.model = m;
                    self.addc(&mut o, *c);
                    self.push_fork(o);
                    forked = true;
                }
            }
        }
        let (t, c) = conds[here];
        if forked {
            self.addc(st, c);
        }
        Ok(t)
    }

    fn done_call(&mut self, st: &mut State, d: R, v: Option<Val>, normal: u32) -> X<Option<End>> {
        if let Some(v) = v {
            self.set(st, d, v);
        }
        if normal != NOREG {
            self.jump(st, normal);
        } else {
            st.fr.ip += 1;
        }
        Ok(None)
    }

    fn call(
        &mut self,
        st: &mut State,
        callee: &Callee,
        args: &[O],
        tys: &[Ty],
        ret: &Ty,
        d: R,
        normal: u32,
    ) -> X<Option<End>> {
        let fid = match callee {
            Callee::Intrinsic(n) => {
                let v = self.intrinsic(st, n, args, tys, ret)?;
                return self.done_call(st, d, v, normal);
            }
            Callee::Direct(f) => *f,
            Callee::Indirect(o) => {
                let a = self.conc_op(st, o, 64)?;
                match self.fobj.get(&(a >> OBJ_SHIFT)) {
                    Some(f) if a & ((1 << OBJ_SHIFT) - 1) == 0 => *f,
                    _ => return memerr(format!("call through invalid pointer {a:#x}")),
                }
            }
        };
        match self.hooks[fid as usize] {
            Hook::None => {
                let f = match self.m.func(fid) {
                    Ok(f) => f,
                    Err(e) => return lost(e),
                };
                if st.stack.len() >= self.cfg.max_depth {
                    return Ok(Some(End::Depth));
                }
                self.funcs_seen[fid as usize] = true;
                let mut regs = Vec::with_capacity(f.nregs as usize);
                for o in args {
                    regs.push(self.val(st, o));
                }
                if args.len() != f.nparams as usize {
                    return lost(format!("arity of {}", f.name));
                }
                regs.resize(f.nregs as usize, Val::C(0));
                let fr = Frame { f, blk: 0, ip: 0, regs, allocas: vec![], ret_reg: d, normal };
                let caller = std::mem::replace(&mut st.fr, fr);
                st.stack.push(Rc::new(caller));
                Ok(None)
            }
            Hook::Malloc => {
                let n = self.conc_op(st, &args[0], 64)?;
                let p = self.alloc(st, n)?;
                self.done_call(st, d, Some(Val::C(p)), normal)
            }
            Hook::Calloc => {
                let n = self.conc_op(st, &args[0], 64)?;
                let k = self.conc_op(st, &args[1], 64)?;
                let p = self.alloc(st, n.saturating_mul(k))?;
                self.done_call(st, d, Some(Val::C(p)), normal)
            }
            Hook::AlignedAlloc => {
                let n = self.conc_op(st, &args[1], 64)?;
                let p = self.alloc(st, n)?;
                self.done_call(st, d, Some(Val::C(p)), normal)
            }
            Hook::PosixMemalign => {
                let pp = self.conc_op(st, &args[0], 64)?;
                let n = self.conc_op(st, &args[2], 64)?;
                let p = self.alloc(st, n)?;
                self.store(st, pp, &Ty::Ptr, &Val::C(p))?;
                self.done_call(st, d, Some(Val::C(0)), normal)
            }
            Hook::Realloc => {
                let old = self.conc_op(st, &args[0], 64)?;
                let n = self.conc_op(st, &args[1], 64)?;
                let p = self.alloc(st, n)?;
                if old != 0 {
                    let (o, off) = self.obj(st, old, 0)?;
                    if off != 0 || o.kind != Kind::Heap {
                        return memerr("realloc of a non-heap pointer");
                    }
                    let k = (o.data.len() as u64).min(n);
                    self.copy(st, p, old, k)?;
                    st.mem.release(old >> OBJ_SHIFT);
                }
                self.done_call(st, d, Some(Val::C(p)), normal)
            }
            Hook::Free => {
                let p = self.conc_op(st, &args[0], 64)?;
                if p != 0 {
                    let (o, off) = self.obj(st, p, 0)?;
                    if off != 0 || o.kind != Kind::Heap {
                        return memerr("free of a non-heap pointer");
                    }
                    st.mem.release(p >> OBJ_SHIFT);
                }
                self.done_call(st, d, None, normal)
            }
            h @ (Hook::Memcmp | Hook::Bcmp) => {
                let a = self.conc_op(st, &args[0], 64)?;
                let b = self.conc_op(st, &args[1], 64)?;
                let n = self.conc_op(st, &args[2], 64)?;
                let v = self.memcmp(st, a, b, n, h == Hook::Bcmp)?;
                self.done_call(st, d, Some(v), normal)
            }
            Hook::Strlen => {
                let a = self.conc_op(st, &args[0], 64)?;
                let mut n = 0;
                loop {
                    match self.read_scalar(st, a + n, 1, 8)? {
                        Val::C(0) => break,
                        Val::C(_) => n += 1,
                        _ => return lost("strlen of symbolic bytes"),
                    }
                }
                self.done_call(st, d, Some(Val::C(n)), normal)
            }
            Hook::Getrandom => {
                // the seed of a hash map is fixed
                let p = self.conc_op(st, &args[0], 64)?;
                let n = self.conc_op(st, &args[1], 64)?;
                for i in 0..n {
                    self.store(st, p + i, &Ty::Int(8), &Val::C((i * 37 + 11) & 255))?;
                }
                self.done_call(st, d, Some(Val::C(n)), normal)
            }
            Hook::Panic => {
                let n = demangle(&self.m.funcs[fid as usize].name);
                Ok(Some(End::Panic(n)))
            }
            Hook::Unknown => lost(format!("external function {}", self.m.funcs[fid as usize].name)),
            Hook::SymBytes => {
                let p = self.conc_op(st, &args[0], 64)?;
                let n = self.conc_op(st, &args[1], 64)?;
                for i in 0..n {
                    let v = st.nvars;
                    st.nvars += 1;
                    st.dom.push([u64::MAX; 4]);
                    st.model.push(0);
                    let e = var(v);
                    self.store(st, p + i, &Ty::Int(8), &Val::S(e))?;
                }
                self.done_call(st, d, None, normal)
            }
            Hook::SymAssume => {
                match self.val(st, &args[0]) {
                    Val::C(k) => {
                        if k & 1 == 0 {
                            return Ok(Some(End::Assume));
                        }
                    }
                    Val::S(e) => {
                        let e = if width(e) > 1 { extract(e, 0, 1) } else { e };
                        match self.sat(st, e)? {
                            None => return Ok(Some(End::Assume)),
                            Some(m) => {
                                st.model = m;
                                self.addc(st, e);
                            }
                        }
                    }
                    _ => return lost("assume"),
                }
                self.done_call(st, d, None, normal)
            }
            Hook::SymAssert => {
                self.st.asserts_checked += 1;
                let id = self.conc_op(st, &args[1], 32)? as u32;
                match self.val(st, &args[0]) {
                    Val::C(k) => {
                        if k & 1 == 0 {
                            return Ok(Some(End::Assert(id)));
                        }
                    }
                    Val::S(e) => {
                        self.st.asserts_symbolic += 1;
                        let e = if width(e) > 1 { extract(e, 0, 1) } else { e };
                        let ne = not(e);
                        if let Some(m) = self.sat(st, ne)? {
                            let at = self.at(st);
                            self.report(st, End::Assert(id), m, at);
                            match self.sat(st, e)? {
                                None => return Ok(Some(End::Assume)),
                                Some(m) => {
                                    st.model = m;
                                    self.addc(st, e);
                                }
                            }
                        }
                    }
                    _ => return lost("assert"),
                }
                self.done_call(st, d, None, normal)
            }
            Hook::SymCover => {
                let id = self.conc_op(st, &args[0], 32)? as u32;
                if !st.covers.contains(&id) {
                    st.covers.push(id);
                }
                self.done_call(st, d, None, normal)
            }
            Hook::SymObserve => {
                match self.val(st, &args[0]) {
                    Val::C(k) => st.obs.push((0, k)),
                    Val::S(e) => st.obs.push((e, 0)),
                    _ => {}
                }
                self.done_call(st, d, None, normal)
            }
            Hook::SymConc => {
                let v = self.conc_op(st, &args[0], 64)?;
                self.done_call(st, d, Some(Val::C(v)), normal)
            }
            Hook::SymTier => {
                let t = self.cfg.tier as u64;
                self.done_call(st, d, Some(Val::C(t)), normal)
            }
        }
    }

    fn alloc(&mut self, st: &mut State, n: u64) -> X<u64> {
        if n >= (1 << OBJ_SHIFT) - 1 || st.mem.live + n > self.cfg.max_heap {
            return Err(Stop::End(End::HeapLimit));
        }
        Ok(st.mem.alloc(n, Kind::Heap))
    }

    fn memcmp(&mut self, st: &State, a: u64, b: u64, n: u64, eq_only: bool) -> X<Val> {
        if n == 0 {
            return Ok(Val::C(0));
        }
        let (x, xo) = self.obj(st, a, n)?;
        let (y, yo) = self.obj(st, b, n)?;
        let n = n as usize;
        let mut r: Option<E> = None;
        // from the end: result of the suffix
        for i in (0..n).rev() {
            let p = x.ov.as_ref().map_or(0, |o| o[xo + i]);
            let q = y.ov.as_ref().map_or(0, |o| o[yo + i]);
            if p == 0 && q == 0 {
                let (u, v) = (x.data[xo + i], y.data[yo + i]);
                if u != v {
                    let k = if eq_only {
                        1
                    } else if u < v {
                        u32::MAX as u128
                    } else {
                        1
                    };
                    r = Some(cst(k, 32));
                }
            } else {
                let u = if p == 0 { cst(x.data[xo + i] as u128, 8) } else { p };
                let v = if q == 0 { cst(y.data[yo + i] as u128, 8) } else { q };
                let eq = bin(Op::Eq, u, v);
                let rest = r.unwrap_or_else(|| cst(0, 32));
                let ne = if eq_only {
                    cst(1, 32)
                } else {
                    ite(bin(Op::Ult, u, v), cst(u32::MAX as u128, 32), cst(1, 32))
                };
                r = Some(ite(eq, rest, ne));
            }
        }
        Ok(r.map_or(Val::C(0), norm))
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, args: &[O], tys: &[Ty], ret: &Ty) -> X<Option<Val>> {
        let n = &n[5..];
        let is = |p: &str| n.starts_with(p);
        if is("memcpy") || is("memmove") {
            let d = self.conc_op(st, &args[0], 64)?;
            let s = self.conc_op(st, &args[1], 64)?;
            let k = self.conc_op(st, &args[2], 64)?;
            self.copy(st, d, s, k)?;
            return Ok(None);
        }
        if is("memset") {
            let d = self.conc_op(st, &args[0], 64)?;
            let k = self.conc_op(st, &args[2], 64)?;
            let v = self.val(st, &args[1]);
            if k > 0 {
                let (o, off) = self.obj_mut(st, d, k)?;
                for i in 0..k as usize {
                    write_to(o, off + i, 1, 8, &v);
                }
            }
            return Ok(None);
        }
        if is("trap") || is("ubsantrap") || is("debugtrap") {
            return Err(Stop::End(End::Panic("trap".into())));
        }
        if is("lifetime") || is("assume") || is("experimental.noalias") || is("dbg") || is("donothing") || is("prefetch") {
            return Ok(None);
        }
        if is("stacksave") {
            return Ok(Some(Val::C(0)));
        }
        if is("stackrestore") {
            return Ok(None);
        }
        if is("threadlocal.address") || is("expect") || is("launder") || is("strip") || is("ssa.copy") {
            return Ok(Some(self.val(st, &args[0])));
        }
        if is("is.constant") {
            return Ok(Some(Val::C(0)));
        }
        if is("objectsize") {
            return Ok(Some(Val::C(u64::MAX & m64(self.m.bits(ret)))));
        }
        if is("load.relative") {
            let p = self.conc_op(st, &args[0], 64)?;
            let o = self.conc_op(st, &args[1], 64)?;
            let v = self.load(st, p.wrapping_add(o), &Ty::Int(32))?;
            // relative tables hold (target - table), which in our address space may need more than
            // 32 bits: the module remembers the full value of such constants
            let Val::C(k) = v else { return lost("load.relative") };
            let q = p.wrapping_add(o);
            let full = self.m.wide.borrow().get(&(q >> OBJ_SHIFT, q & ((1 << OBJ_SHIFT) - 1))).copied();
            let t = p.wrapping_add(full.unwrap_or(sx(k, 32) as u64));
            return Ok(Some(Val::C(t)));
        }
        if is("ptrmask") {
            let a = self.val(st, &args[0]);
            let b = self.val(st, &args[1]);
            return Ok(Some(self.binop(st, BinOp::And, 64, &a, &b)?));
        }
        if is("vector.reduce.") {
            let Val::A(v) = self.val(st, &args[0]) else { return lost("reduce") };
            let w = match &tys[0] {
                Ty::Vec(_, e) => self.m.bits(e),
                _ => return lost("reduce"),
            };
            let k = &n["vector.reduce.".len()..];
            let mut acc = v[0].clone();
            for x in &v[1..] {
                acc = if k.starts_with("add") {
                    self.binop(st, BinOp::Add, w, &acc, x)?
                } else if k.starts_with("and") {
                    self.binop(st, BinOp::And, w, &acc, x)?
                } else if k.starts_with("or") {
                    self.binop(st, BinOp::Or, w, &acc, x)?
                } else if k.starts_with("xor") {
                    self.binop(st, BinOp::Xor, w, &acc, x)?
                } else if k.starts_with("mul") {
                    self.binop(st, BinOp::Mul, w, &acc, x)?
                } else {
                    minmax(k, w, &acc, x)
                };
            }
            return Ok(Some(acc));
        }
        // remaining ones are scalar (or element-wise vector) arithmetic
        let vals: Vec<Val> = args.iter().map(|o| self.val(st, o)).collect();
        if let (Some(Ty::Vec(cnt, e)), false) = (tys.first(), vals.is_empty()) {
            let w = self.m.bits(e);
            let mut out = vec![];
            for i in 0..*cnt as usize {
                let a: Vec<Val> = vals
                    .iter()
                    .map(|v| match v {
                        Val::A(x) => x[i].clone(),
                        v => v.clone(),
                    })
                    .collect();
                out.push(self.arith(st, n, &a, w)?);
            }
            return Ok(Some(Val::A(Rc::new(out))));
        }
        let w = tys.first().map_or(0, |t| self.m.bits(t));
        // shift amounts of funnel shifts must be concrete
        if is("fsh") {
            let k = self.conc_op(st, &args[2], w)?;
            let a = vec![vals[0].clone(), vals[1].clone(), Val::C(k)];
            return Ok(Some(self.arith(st, n, &a, w)?));
        }
        if is("ucmp") || is("scmp") {
            let rw = self.m.bits(ret);
            let s = is("scmp");
            let lt = self.icmp(if s { Pred::Slt } else { Pred::Ult }, w, &vals[0], &vals[1]);
            let eq = self.icmp(Pred::Eq, w, &vals[0], &vals[1]);
            let e = ite(toe(&lt, 1), cst(u128::MAX, rw), ite(toe(&eq, 1), cst(0, rw), cst(1, rw)));
            return Ok(Some(norm(e)));
        }
        Ok(Some(self.arith(st, n, &vals, w)?))
    }

    fn arith(&mut self, st: &mut State, n: &str, a: &[Val], w: u16) -> X<Val> {
        let is = |p: &str| n.starts_with(p);
        if is("umin") || is("umax") || is("smin") || is("smax") {
            return Ok(minmax(n, w, &a[0], &a[1]));
        }
        let conc = a.iter().all(|x| matches!(x, Val::C(_)));
        let c = |i: usize| match &a[i] {
            Val::C(k) => *k,
            _ => 0,
        };
        if is("ctpop") || is("ctlz") || is("cttz") {
            if conc && w <= 64 {
                let x = c(0);
                return Ok(Val::C(if is("ctpop") {
                    x.count_ones() as u64
                } else if is("ctlz") {
                    if x == 0 {
                        w as u64
                    } else {
                        (x.leading_zeros() - (64 - w as u32)) as u64
                    }
                } else if x == 0 {
                    w as u64
                } else {
                    x.trailing_zeros() as u64
                }));
            }
            let x = toe(&a[0], w);
            let bit = |i: u16| extract(x, i, 1);
            let r = if is("ctpop") {
                let mut s = cst(0, w);
                for i in 0..w {
                    s = bin(Op::Add, s, zext(bit(i), w.max(2)));
                }
                s
            } else if is("ctlz") {
                let mut r = cst(w as u128, w);
                for i in 0..w {
                    r = ite(bit(i), cst((w - 1 - i) as u128, w), r);
                }
                r
            } else {
                let mut r = cst(w as u128, w);
                for i in (0..w).rev() {
                    r = ite(bit(i), cst(i as u128, w), r);
                }
                r
            };
            return Ok(norm(r));
        }
        if is("abs") {
            let x = toe(&a[0], w);
            let neg = bin(Op::Slt, x, cst(0, w));
            return Ok(norm(ite(neg, bin(Op::Sub, cst(0, w), x), x)));
        }
        if is("bswap") {
            let x = toe(&a[0], w);
            let mut r = extract(x, 0, 8);
            for i in 1..w / 8 {
                r = concat(r, extract(x, i * 8, 8));
            }
            return Ok(norm(r));
        }
        if is("bitreverse") {
            let x = toe(&a[0], w);
            let mut r = extract(x, 0, 1);
            for i in 1..w {
                r = concat(r, extract(x, i, 1));
            }
            return Ok(norm(r));
        }
        if is("fshl") || is("fshr") {
            let k = (c(2) % w as u64) as u16;
            let (hi, lo) = (toe(&a[0], w), toe(&a[1], w));
            let r = if is("fshl") {
                if k == 0 {
                    hi
                } else {
                    concat(extract(hi, 0, w - k), extract(lo, w - k, k))
                }
            } else if k == 0 {
                lo
            } else {
                concat(extract(hi, 0, k), extract(lo, k, w - k))
            };
            return Ok(norm(r));
        }
        if is("uadd.sat") || is("usub.sat") {
            let (x, y) = (toe(&a[0], w), toe(&a[1], w));
            let r = if is("usub") {
                ite(bin(Op::Ult, x, y), cst(0, w), bin(Op::Sub, x, y))
            } else {
                let s = bin(Op::Add, x, y);
                ite(bin(Op::Ult, s, x), cst(u128::MAX, w), s)
            };
            return Ok(norm(r));
        }
        if n.contains(".with.overflow") {
            let (x, y) = (toe(&a[0], w), toe(&a[1], w));
            let (res, ov) = match &n[0..4] {
                "uadd" => {
                    let s = bin(Op::Add, x, y);
                    (s, bin(Op::Ult, s, x))
                }
                "usub" => (bin(Op::Sub, x, y), bin(Op::Ult, x, y)),
                k => {
                    if w > 64 {
                        if conc || (is_const(x).is_some() && is_const(y).is_some()) {
                            let (p, q) = (is_const(x).unwrap(), is_const(y).unwrap());
                            if k == "umul" && w == 128 {
                                let (r, o) = p.overflowing_mul(q);
                                return Ok(Val::A(Rc::new(vec![Module::scalar(r, w), Val::C(o as u64)])));
                            }
                        }
                        return lost(format!("wide {n}"));
                    }
                    let e = |v| if k.starts_with('u') { zext(v, 2 * w) } else { sextend(v, 2 * w) };
                    let o = match k {
                        "umul" | "smul" => Op::Mul,
                        "sadd" => Op::Add,
                        _ => Op::Sub,
                    };
                    let big = bin(o, e(x), e(y));
                    let r = extract(big, 0, w);
                    (r, not(bin(Op::Eq, big, e(r))))
                }
            };
            return Ok(Val::A(Rc::new(vec![norm(res), norm(ov)])));
        }
        let _ = st;
        lost(format!("intrinsic llvm.{n}"))
    }
}

fn other_of(c: E) -> E {
    not(c)
}

fn minmax(n: &str, w: u16, a: &Val, b: &Val) -> Val {
    let (x, y) = (toe(a, w), toe(b, w));
    let lt = if n.starts_with('u') { bin(Op::Ult, x, y) } else { bin(Op::Slt, x, y) };
    norm(if n[1..].starts_with("min") { ite(lt, x, y) } else { ite(lt, y, x) })
}

fn insert(agg: Val, path: &[u32], x: Val) -> Val {
    if path.is_empty() {
        return x;
    }
    let Val::A(mut v) = agg else { panic!("insert into scalar") };
    let m = Rc::make_mut(&mut v);
    let i = path[0] as usize;
    let old = std::mem::replace(&mut m[i], Val::C(0));
    m[i] = insert(old, &path[1..], x);
    Val::A(v)
}

fn pack(vs: &[Val], b: u16) -> Option<E> {
    if vs.len() as u64 * b as u64 > 128 {
        return None;
    }
    let mut r = toe(&vs[0], b);
    for x in &vs[1..] {
        r = concat(toe(x, b), r);
    }
    Some(r)
}

/// "byte v is in s", knowing that it is in d.
fn in_set(v: usize, s: &[u64; 4], d: &[u64; 4]) -> E {
    let x = var(v);
    let has = |t: &[u64; 4], i: usize| t[i >> 6] >> (i & 63) & 1 == 1;
    let mut r = cst(0, 1);
    let mut i = 0;
    while i < 256 {
        if !has(s, i) {
            i += 1;
            continue;
        }
        let lo = i;
        let mut hi = i;
        i += 1;
        // extend over members and over values outside the domain
        while i < 256 && (has(s, i) || !has(d, i)) {
            if has(s, i) {
                hi = i;
            }
            i += 1;
        }
        let c = if lo == hi {
            bin(Op::Eq, x, cst(lo as u128, 8))
        } else {
            bin(
                Op::And,
                bin(Op::Ule, cst(lo as u128, 8), x),
                bin(Op::Ule, x, cst(hi as u128, 8)),
            )
        };
        r = bin(Op::Or, r, c);
    }
    r
}

#[inline]
fn read_from(o: &Obj, off: usize, n: usize, w: u16) -> Val {
    if let Some(ov) = &o.ov {
        if ov[off..off + n].iter().any(|x| *x != 0) {
            let b = |i: usize| {
                if ov[off + i] != 0 {
                    ov[off + i]
                } else {
                    cst(o.data[off + i] as u128, 8)
                }
            };
            let mut e = b(0);
            for i in 1..n {
                e = concat(b(i), e);
            }
            if width(e) > w {
                e = extract(e, 0, w);
            }
            return norm(e);
        }
    }
    if n <= 8 {
        let mut k = 0u64;
        for i in 0..n {
            k |= (o.data[off + i] as u64) << (8 * i);
        }
        Val::C(k & m64(w))
    } else {
        let mut k = 0u128;
        for i in 0..n.min(16) {
            k |= (o.data[off + i] as u128) << (8 * i);
        }
        Module::scalar(k, w)
    }
}

fn write_to(o: &mut Obj, off: usize, n: usize, w: u16, v: &Val) {
    match v {
        Val::C(c) => {
            let b = c.to_le_bytes();
            for i in 0..n {
                o.data[off + i] = if i < 8 { b[i] } else { 0 };
            }
            if let Some(ov) = &mut o.ov {
                ov[off..off + n].iter_mut().for_each(|x| *x = 0);
            }
        }
        Val::S(e) => {
            let tot = (n * 8) as u16;
            let e = if w < tot { zext(*e, tot) } else { *e };
            let len = o.data.len();
            let ov = o.ov.get_or_insert_with(|| vec![0; len].into_boxed_slice());
            for i in 0..n {
                let x = extract(e, (i * 8) as u16, 8);
                match is_const(x) {
                    Some(k) => {
                        o.data[off + i] = k as u8;
                        ov[off + i] = 0;
                    }
                    None => ov[off + i] = x,
                }
            }
        }
        Val::A(_) => panic!("aggregate store"),
    }
}

/// Readable form of a legacy-mangled Rust symbol.
pub fn demangle(n: &str) -> String {
    let Some(r) = n.strip_prefix("_ZN") else { return n.to_string() };
    let b = r.as_bytes();
    let mut i = 0;
    let mut parts = vec![];
    while i < b.len() && b[i].is_ascii_digit() {
        let mut k = 0usize;
        while i < b.len() && b[i].is_ascii_digit() {
            k = k * 10 + (b[i] - b'0') as usize;
            i += 1;
        }
        if i + k > b.len() {
            return n.to_string();
        }
        parts.push(&r[i..i + k]);
        i += k;
    }
    if parts.last().map_or(false, |p| p.len() == 17 && p.starts_with('h')) {
        parts.pop();
    }
    let mut s = parts.join("::");
    for (a, c) in [
        ("$LT$", "<"),
        ("$GT$", ">"),
        ("$u20$", " "),
        ("$C$", ","),
        ("$RF$", "&"),
        ("$BP$", "*"),
        ("$LP$", "("),
        ("$RP$", ")"),
        ("$u7b$", "{"),
        ("$u7d$", "}"),
        ("$u27$", "'"),
        ("$u5b$", "["),
        ("$u5d$", "]"),
        ("$u3b$", ";"),
        ("$u2b$", "+"),
        ("$u22$", "\""),
        ("..", "::"),
    ] {
        s = s.replace(a, c);
    }
    s
}
