//! Minimal FFI to libz3 plus translation of our expressions to Z3 terms and to SMT-LIB text.
#![allow(non_camel_case_types)]
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;
type Sort = *mut c_void;
type Sym = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    fn Z3_mk_const(c: Ctx, s: Sym, t: Sort) -> Ast;
    fn Z3_mk_bv_sort(c: Ctx, n: c_uint) -> Sort;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Sort) -> Ast;
    fn Z3_mk_solver_for_logic(c: Ctx, l: Sym) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_reset(c: Ctx, s: Solver);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, t: Ast, comp: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, v: Ast, u: *mut u64) -> bool;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
}

extern "C" fn on_error(_: Ctx, code: c_int) {
    eprintln!("irsym: z3 error code {code}");
    std::process::exit(70);
}

pub struct Z3 {
    c: Ctx,
    s: Solver,
    bv: FxMap<E, Ast>,
    bo: FxMap<E, Ast>,
    n_since_reset: u32,
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

impl Z3 {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            // Z3_mk_context (not _rc): terms live as long as the context
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, c"QF_BV".as_ptr()));
            Z3_solver_inc_ref(c, s);
            Z3 { c, s, bv: FxMap::default(), bo: FxMap::default(), n_since_reset: 0 }
        }
    }
    fn sort(&self, w: u16) -> Sort {
        unsafe { Z3_mk_bv_sort(self.c, w as c_uint) }
    }
    fn num(&self, k: u128, w: u16) -> Ast {
        unsafe {
            if k <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, k as u64, self.sort(w))
            } else {
                let s = CString::new(k.to_string()).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), self.sort(w))
            }
        }
    }
    pub fn bool(&mut self, e: E) -> Ast {
        if let Some(a) = self.bo.get(&e) {
            return *a;
        }
        let n = node(e);
        assert_eq!(n.w, 1);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    let t = Z3_mk_true(c);
                    if n.k != 0 {
                        t
                    } else {
                        Z3_mk_not(c, t)
                    }
                }
                Op::Eq => {
                    if width(n.a) == 1 {
                        let (a, b) = (self.bool(n.a), self.bool(n.b));
                        Z3_mk_eq(c, a, b)
                    } else {
                        let (a, b) = (self.bv(n.a), self.bv(n.b));
                        Z3_mk_eq(c, a, b)
                    }
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (a, b) = (self.bv(n.a), self.bv(n.b));
                    match n.op {
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::And | Op::Or | Op::Xor => {
                    let v = [self.bool(n.a), self.bool(n.b)];
                    match n.op {
                        Op::And => Z3_mk_and(c, 2, v.as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, v.as_ptr()),
                        _ => {
                            if is_const(n.b) == Some(1) {
                                Z3_mk_not(c, v[0])
                            } else {
                                Z3_mk_xor(c, v[0], v[1])
                            }
                        }
                    }
                }
                Op::Ite => {
                    let (a, b, d) = (self.bool(n.a), self.bool(n.b), self.bool(n.c));
                    Z3_mk_ite(c, a, b, d)
                }
                _ => {
                    let a = self.bv(e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, a, one)
                }
            }
        };
        self.bo.insert(e, r);
        r
    }
    pub fn bv(&mut self, e: E) -> Ast {
        if let Some(a) = self.bv.get(&e) {
            return *a;
        }
        let n = node(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(n.k, n.w),
                Op::Var => {
                    let s = CString::new(format!("in{}", n.k)).unwrap();
                    let sy = Z3_mk_string_symbol(c, s.as_ptr());
                    Z3_mk_const(c, sy, self.sort(8))
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.bool(e);
                    let (o, z) = (self.num(1, 1), self.num(0, 1));
                    Z3_mk_ite(c, b, o, z)
                }
                Op::Ite => {
                    let k = self.bool(n.a);
                    let (a, b) = (self.bv(n.b), self.bv(n.c));
                    Z3_mk_ite(c, k, a, b)
                }
                Op::Extract => {
                    let a = self.bv(n.a);
                    Z3_mk_extract(c, n.k as c_uint + n.w as c_uint - 1, n.k as c_uint, a)
                }
                Op::ZExt => {
                    let a = self.bv(n.a);
                    Z3_mk_zero_ext(c, (n.w - width(n.a)) as c_uint, a)
                }
                Op::SExt => {
                    let a = self.bv(n.a);
                    Z3_mk_sign_ext(c, (n.w - width(n.a)) as c_uint, a)
                }
                _ => {
                    let (a, b) = (self.bv(n.a), self.bv(n.b));
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.bv.insert(e, r);
        r
    }
    /// Is the conjunction satisfiable?  On Sat, `m` is updated for the variables in `sup`.
    pub fn check(&mut self, cs: &[E], sup: &Sup, m: Option<&mut Vec<u8>>) -> Res {
        unsafe {
            self.n_since_reset += 1;
            if self.n_since_reset > 4000 {
                Z3_solver_reset(self.c, self.s);
                self.n_since_reset = 0;
            }
            Z3_solver_push(self.c, self.s);
            for e in cs {
                let a = self.bool(*e);
                Z3_solver_assert(self.c, self.s, a);
            }
            let r = Z3_solver_check(self.c, self.s);
            let res = match r {
                1 => Res::Sat,
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            if res == Res::Sat {
                if let Some(m) = m {
                    let md = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, md);
                    for i in 0..256 {
                        if sup[i >> 6] >> (i & 63) & 1 == 1 {
                            let v = self.bv(var(i));
                            let mut out: Ast = std::ptr::null_mut();
                            let mut u = 0u64;
                            if Z3_model_eval(self.c, md, v, true, &mut out)
                                && Z3_get_numeral_uint64(self.c, out, &mut u)
                            {
                                if m.len() <= i {
                                    m.resize(i + 1, 0);
                                }
                                m[i] = u as u8;
                            } else {
                                eprintln!("irsym: z3 model evaluation failed");
                                std::process::exit(70);
                            }
                        }
                    }
                    Z3_model_dec_ref(self.c, md);
                }
            }
            Z3_solver_pop(self.c, self.s, 1);
            res
        }
    }
}

/// Render a conjunction as an SMT-LIB 2 script (used for cross-checking with another solver).
pub fn to_smtlib(cs: &[E]) -> String {
    use std::fmt::Write;
    let mut out = String::from("(set-logic QF_BV)\n");
    let mut order = vec![];
    let mut seen = std::collections::HashSet::new();
    fn visit(e: E, seen: &mut std::collections::HashSet<E>, order: &mut Vec<E>) {
        if !seen.insert(e) {
            return;
        }
        let n = node(e);
        match n.op {
            Op::Const | Op::Var => {}
            Op::Ite => {
                visit(n.a, seen, order);
                visit(n.b, seen, order);
                visit(n.c, seen, order);
            }
            Op::Extract | Op::ZExt | Op::SExt => visit(n.a, seen, order),
            _ => {
                visit(n.a, seen, order);
                visit(n.b, seen, order);
            }
        }
        order.push(e);
    }
    for c in cs {
        visit(*c, &mut seen, &mut order);
    }
    for e in &order {
        let n = node(*e);
        let r = |x: E| format!("t{x}");
        let body = match n.op {
            Op::Const => {
                let mut s = String::from("#b");
                for i in (0..n.w).rev() {
                    s.push(if n.k >> i & 1 == 1 { '1' } else { '0' });
                }
                s
            }
            Op::Var => {
                let _ = writeln!(out, "(declare-const in{} (_ BitVec 8))", n.k);
                format!("in{}", n.k)
            }
            Op::Ite => format!("(ite (= {} #b1) {} {})", r(n.a), r(n.b), r(n.c)),
            Op::Extract => format!("((_ extract {} {}) {})", n.k as u16 + n.w - 1, n.k, r(n.a)),
            Op::ZExt => format!("((_ zero_extend {}) {})", n.w - width(n.a), r(n.a)),
            Op::SExt => format!("((_ sign_extend {}) {})", n.w - width(n.a), r(n.a)),
            Op::Eq => format!("(ite (= {} {}) #b1 #b0)", r(n.a), r(n.b)),
            Op::Ult => format!("(ite (bvult {} {}) #b1 #b0)", r(n.a), r(n.b)),
            Op::Ule => format!("(ite (bvule {} {}) #b1 #b0)", r(n.a), r(n.b)),
            Op::Slt => format!("(ite (bvslt {} {}) #b1 #b0)", r(n.a), r(n.b)),
            Op::Sle => format!("(ite (bvsle {} {}) #b1 #b0)", r(n.a), r(n.b)),
            _ => {
                let f = match n.op {
                    Op::Add => "bvadd",
                    Op::Sub => "bvsub",
                    Op::Mul => "bvmul",
                    Op::UDiv => "bvudiv",
                    Op::SDiv => "bvsdiv",
                    Op::URem => "bvurem",
                    Op::SRem => "bvsrem",
                    Op::And => "bvand",
                    Op::Or => "bvor",
                    Op::Xor => "bvxor",
                    Op::Shl => "bvshl",
                    Op::LShr => "bvlshr",
                    Op::AShr => "bvashr",
                    Op::Concat => "concat",
                    _ => unreachable!(),
                };
                format!("({f} {} {})", r(n.a), r(n.b))
            }
        };
        let _ = writeln!(out, "(define-fun t{e} () (_ BitVec {}) {body})", n.w);
    }
    for c in cs {
        let _ = writeln!(out, "(assert (= t{c} #b1))");
    }
    out.push_str("(check-sat)\n");
    out
}
