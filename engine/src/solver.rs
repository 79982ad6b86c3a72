//! Thin binding to the system libz3 plus slicing/caching of path-condition queries.
use crate::expr::*;
use crate::expr::HashMap;
use std::collections::HashSet;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_get_unsat_core(c: P, s: P) -> P;
    fn Z3_ast_vector_inc_ref(c: P, v: P);
    fn Z3_ast_vector_dec_ref(c: P, v: P);
    fn Z3_ast_vector_size(c: P, v: P) -> c_uint;
    fn Z3_ast_vector_get(c: P, v: P, i: c_uint) -> P;
    fn Z3_get_ast_id(c: P, a: P) -> c_uint;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_numeral_string(c: P, v: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("mksym: z3 error {}", e);
    std::process::abort();
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cached: u64,
    pub time: f64,
    pub max_time: f64,
    pub unknown: u64,
}

pub type Model = HashMap<u32, u128>;

#[derive(Clone)]
pub enum Res {
    Sat(Rc<Model>),
    Unsat,
    Unknown,
}

pub static RESET: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(8);
pub struct Solver {
    ctx: P,
    slv: P,
    bv: HashMap<Ref, P>,
    bo: HashMap<Ref, P>,
    proxies: HashMap<Ref, P>,
    sorts: HashMap<u16, P>,
    since: u32,
    nproxy: u32,
    cache: HashMap<Vec<Ref>, Res>,
    /// per condition: sets of constraints that contradict it, and models of it
    cores: HashMap<Ref, Vec<Vec<Ref>>>,
    models: HashMap<Ref, Vec<Rc<Model>>>,
    pub stats: Stats,
    pub timeout_ms: u32,
    pub dump: Option<(String, u32, u32)>, // dir prefix, remaining, stride
    ndump: u32,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        let mut s = Solver {
            ctx: std::ptr::null_mut(),
            slv: std::ptr::null_mut(),
            bv: HashMap::default(),
            bo: HashMap::default(),
            proxies: HashMap::default(),
            sorts: HashMap::default(),
            since: 0,
            nproxy: 0,
            cache: HashMap::default(),
            cores: HashMap::default(),
            models: HashMap::default(),
            stats: Stats::default(),
            timeout_ms,
            dump: None,
            ndump: 0,
        };
        s.reset();
        s
    }
    fn reset(&mut self) {
        unsafe {
            if !self.ctx.is_null() {
                Z3_del_context(self.ctx);
            }
            let cfg = Z3_mk_config();
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.ctx, on_err);
            let l = CString::new("QF_BV").unwrap();
            let sym = Z3_mk_string_symbol(self.ctx, l.as_ptr());
            self.slv = Z3_mk_solver_for_logic(self.ctx, sym);
            Z3_solver_inc_ref(self.ctx, self.slv);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, k.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.ctx, self.slv, p);
        }
        self.bv.clear();
        self.bo.clear();
        self.proxies.clear();
        self.sorts.clear();
        self.since = 0;
    }
    fn sort(&mut self, w: u16) -> P {
        let c = self.ctx;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w as c_uint) })
    }
    fn tr_bool(&mut self, ex: &Exprs, r: Ref) -> P {
        if let Some(p) = self.bo.get(&r) {
            return *p;
        }
        let n = ex.nodes[r as usize];
        debug_assert_eq!(n.w, 1);
        let c = self.ctx;
        let p = unsafe {
            match n.op {
                Op::Const => {
                    if n.k != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Eq => {
                    if ex.w(n.a) == 1 {
                        let (a, b) = (self.tr_bool(ex, n.a), self.tr_bool(ex, n.b));
                        Z3_mk_eq(c, a, b)
                    } else {
                        let (a, b) = (self.tr_bv(ex, n.a), self.tr_bv(ex, n.b));
                        Z3_mk_eq(c, a, b)
                    }
                }
                Op::Ult => {
                    let (a, b) = (self.tr_bv(ex, n.a), self.tr_bv(ex, n.b));
                    Z3_mk_bvult(c, a, b)
                }
                Op::Ule => {
                    let (a, b) = (self.tr_bv(ex, n.a), self.tr_bv(ex, n.b));
                    Z3_mk_bvule(c, a, b)
                }
                Op::Slt => {
                    let (a, b) = (self.tr_bv(ex, n.a), self.tr_bv(ex, n.b));
                    Z3_mk_bvslt(c, a, b)
                }
                Op::Sle => {
                    let (a, b) = (self.tr_bv(ex, n.a), self.tr_bv(ex, n.b));
                    Z3_mk_bvsle(c, a, b)
                }
                Op::And => {
                    let xs = [self.tr_bool(ex, n.a), self.tr_bool(ex, n.b)];
                    Z3_mk_and(c, 2, xs.as_ptr())
                }
                Op::Or => {
                    let xs = [self.tr_bool(ex, n.a), self.tr_bool(ex, n.b)];
                    Z3_mk_or(c, 2, xs.as_ptr())
                }
                Op::Xor => {
                    let (a, b) = (self.tr_bool(ex, n.a), self.tr_bool(ex, n.b));
                    Z3_mk_xor(c, a, b)
                }
                Op::Ite => {
                    let (a, b, d) = (self.tr_bool(ex, n.a), self.tr_bool(ex, n.b), self.tr_bool(ex, n.c));
                    Z3_mk_ite(c, a, b, d)
                }
                _ => {
                    let s = self.sort(1);
                    let one = Z3_mk_unsigned_int64(c, 1, s);
                    let a = self.tr_bv(ex, r);
                    Z3_mk_eq(c, a, one)
                }
            }
        };
        self.bo.insert(r, p);
        p
    }
    fn tr_bv(&mut self, ex: &Exprs, r: Ref) -> P {
        if let Some(p) = self.bv.get(&r) {
            return *p;
        }
        let n = ex.nodes[r as usize];
        let c = self.ctx;
        let w = n.w;
        let p = unsafe {
            match n.op {
                Op::Const => {
                    let s = self.sort(w);
                    if n.k <= u64::MAX as u128 {
                        Z3_mk_unsigned_int64(c, n.k as u64, s)
                    } else {
                        let st = CString::new(n.k.to_string()).unwrap();
                        Z3_mk_numeral(c, st.as_ptr(), s)
                    }
                }
                Op::Var => {
                    let s = self.sort(w);
                    Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), s)
                }
                Op::Concat => {
                    let (a, b) = (self.tr_bv(ex, n.a), self.tr_bv(ex, n.b));
                    Z3_mk_concat(c, a, b)
                }
                Op::Extract => {
                    let a = self.tr_bv(ex, n.a);
                    Z3_mk_extract(c, (n.k as u16 + w - 1) as c_uint, n.k as c_uint, a)
                }
                Op::ZExt => {
                    let a = self.tr_bv(ex, n.a);
                    Z3_mk_zero_ext(c, (w - ex.w(n.a)) as c_uint, a)
                }
                Op::SExt => {
                    let a = self.tr_bv(ex, n.a);
                    Z3_mk_sign_ext(c, (w - ex.w(n.a)) as c_uint, a)
                }
                Op::Ite if w > 1 => {
                    let (a, b, d) = (self.tr_bool(ex, n.a), self.tr_bv(ex, n.b), self.tr_bv(ex, n.c));
                    Z3_mk_ite(c, a, b, d)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::Ite => {
                    let b = self.tr_bool(ex, r);
                    let s = self.sort(1);
                    Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
                }
                op => {
                    let (a, b) = (self.tr_bv(ex, n.a), self.tr_bv(ex, n.b));
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.bv.insert(r, p);
        p
    }

    /// constraints of `pc` that (transitively) share variables with `cond`
    pub fn slice(ex: &mut Exprs, pc: &[Ref], cond: Ref) -> Vec<Ref> {
        let mut vars: HashSet<u32> = ex.vars(cond).iter().copied().collect();
        let pv: Vec<Rc<Vec<u32>>> = pc.iter().map(|r| ex.vars(*r)).collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if !used[i] && pv[i].iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    for v in pv[i].iter() {
                        ch |= vars.insert(*v);
                    }
                }
            }
            if !ch {
                break;
            }
        }
        (0..pc.len()).filter(|i| used[*i]).map(|i| pc[i]).collect()
    }

    /// is pc /\ cond satisfiable? Model covers the variables of the slice.
    pub fn check(&mut self, ex: &mut Exprs, pc: &[Ref], cond: Ref) -> Res {
        if let Some(k) = ex.as_const(cond) {
            if k == 0 {
                return Res::Unsat;
            }
            return Res::Sat(Rc::new(HashMap::default()));
        }
        let mut cs = Self::slice(ex, pc, cond);
        cs.push(cond);
        cs.sort_unstable();
        cs.dedup();
        if let Some(r) = self.cache.get(&cs) {
            self.stats.cached += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        if let Some(v) = self.cores.get(&cond) {
            for c in v.iter().rev() {
                if c.iter().all(|r| cs.binary_search(r).is_ok()) {
                    self.stats.cached += 1;
                    return Res::Unsat;
                }
            }
        }
        if let Some(v) = self.models.get(&cond) {
            'next: for m in v.iter().rev() {
                let mut memo = HashMap::default();
                for r in cs.iter().rev() {
                    if ex.vars(*r).iter().any(|x| !m.contains_key(x)) || ex.eval(*r, m, &mut memo) != 1 {
                        continue 'next;
                    }
                }
                self.stats.cached += 1;
                // only of the variables asked about: others belong to other constraints
                let mut mine = HashMap::default();
                for r in &cs {
                    for x in ex.vars(*r).iter() {
                        mine.insert(*x, m[x]);
                    }
                }
                return Res::Sat(Rc::new(mine));
            }
        }
        self.since += 1;
        if self.since > RESET.load(std::sync::atomic::Ordering::Relaxed) || self.bv.len() > 400_000 {
            self.reset();
        }
        let mut vars: HashSet<u32> = HashSet::new();
        let mut asm: Vec<P> = vec![];
        for r in &cs {
            for v in ex.vars(*r).iter() {
                vars.insert(*v);
            }
            let p = match self.proxies.get(r) {
                Some(p) => *p,
                None => unsafe {
                    let b = self.tr_bool(ex, *r);
                    self.nproxy += 1;
                    let nm = CString::new(format!("p{}", self.nproxy)).unwrap();
                    let p = Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, nm.as_ptr()), Z3_mk_bool_sort(self.ctx));
                    Z3_solver_assert(self.ctx, self.slv, Z3_mk_implies(self.ctx, p, b));
                    self.proxies.insert(*r, p);
                    p
                },
            };
            asm.push(p);
        }
        let _ = Z3_mk_not;
        let r = unsafe { Z3_solver_check_assumptions(self.ctx, self.slv, asm.len() as c_uint, asm.as_ptr()) };
        let res = match r {
            1 => {
                self.stats.sat += 1;
                let mut m = HashMap::default();
                unsafe {
                    let zm = Z3_solver_get_model(self.ctx, self.slv);
                    Z3_model_inc_ref(self.ctx, zm);
                    for v in vars {
                        let w = ex.var_w[v as usize];
                        let s = self.sort(w);
                        let a = Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, v as c_int), s);
                        let mut out: P = std::ptr::null_mut();
                        Z3_model_eval(self.ctx, zm, a, true, &mut out);
                        let val = if w <= 64 {
                            let mut u = 0u64;
                            Z3_get_numeral_uint64(self.ctx, out, &mut u);
                            u as u128
                        } else {
                            CStr::from_ptr(Z3_get_numeral_string(self.ctx, out)).to_str().unwrap().parse().unwrap()
                        };
                        m.insert(v, val);
                    }
                    Z3_model_dec_ref(self.ctx, zm);
                }
                // the solver's model must satisfy the query (guards the translation)
                let mut memo = HashMap::default();
                for r in &cs {
                    if ex.eval(*r, &m, &mut memo) != 1 {
                        eprintln!("mksym: solver model does not satisfy the query");
                        std::process::abort();
                    }
                }
                let m = Rc::new(m);
                let v = self.models.entry(cond).or_default();
                if v.len() >= 8 {
                    v.remove(0);
                }
                v.push(m.clone());
                Res::Sat(m)
            }
            -1 => {
                self.stats.unsat += 1;
                let mut core = vec![];
                unsafe {
                    let v = Z3_solver_get_unsat_core(self.ctx, self.slv);
                    Z3_ast_vector_inc_ref(self.ctx, v);
                    let ids: HashSet<c_uint> = (0..Z3_ast_vector_size(self.ctx, v)).map(|i| Z3_get_ast_id(self.ctx, Z3_ast_vector_get(self.ctx, v, i))).collect();
                    for (r, p) in cs.iter().zip(&asm) {
                        if ids.contains(&Z3_get_ast_id(self.ctx, *p)) {
                            core.push(*r);
                        }
                    }
                    Z3_ast_vector_dec_ref(self.ctx, v);
                }
                let v = self.cores.entry(cond).or_default();
                if v.len() >= 64 {
                    v.remove(0);
                }
                v.push(core);
                Res::Unsat
            }
            _ => {
                self.stats.unknown += 1;
                Res::Unknown
            }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.time += dt;
        if dt > self.stats.max_time {
            self.stats.max_time = dt;
        }
        if let Some((dir, left, stride)) = &mut self.dump {
            self.ndump += 1;
            if *left > 0 && self.ndump % *stride == 0 && !matches!(res, Res::Unknown) {
                *left -= 1;
                let verdict = if matches!(res, Res::Unsat) { "unsat" } else { "sat" };
                let f = format!("{}-{}.smt2", dir, self.ndump);
                let t = to_smt2(ex, &cs, verdict);
                let _ = std::fs::write(f, t);
            }
        }
        if !matches!(res, Res::Unknown) {
            if self.cache.len() > 200_000 {
                self.cache.clear();
            }
            self.cache.insert(cs, res.clone());
        }
        res
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.ctx) }
    }
}

/// SMT-LIB 2 text of a query, for cross-checking with a second solver.
pub fn to_smt2(ex: &Exprs, cs: &[Ref], verdict: &str) -> String {
    let mut o = String::new();
    o.push_str(&format!("(set-info :status {})\n(set-logic QF_BV)\n", verdict));
    let mut seen: HashSet<Ref> = HashSet::new();
    let mut order: Vec<Ref> = vec![];
    fn visit(ex: &Exprs, r: Ref, seen: &mut HashSet<Ref>, order: &mut Vec<Ref>) {
        if !seen.insert(r) {
            return;
        }
        let n = ex.nodes[r as usize];
        match n.op {
            Op::Const | Op::Var => {}
            Op::Extract | Op::ZExt | Op::SExt => visit(ex, n.a, seen, order),
            Op::Ite => {
                visit(ex, n.a, seen, order);
                visit(ex, n.b, seen, order);
                visit(ex, n.c, seen, order);
            }
            _ => {
                visit(ex, n.a, seen, order);
                visit(ex, n.b, seen, order);
            }
        }
        order.push(r);
    }
    for r in cs {
        visit(ex, *r, &mut seen, &mut order);
    }
    for r in &order {
        let n = ex.nodes[*r as usize];
        let t = match n.op {
            Op::Var => {
                o.push_str(&format!("(declare-const e{} (_ BitVec {}))\n", r, n.w));
                continue;
            }
            Op::Const => format!("(_ bv{} {})", n.k, n.w),
            Op::Concat => format!("(concat e{} e{})", n.a, n.b),
            Op::Extract => format!("((_ extract {} {}) e{})", n.k as u16 + n.w - 1, n.k, n.a),
            Op::ZExt => format!("((_ zero_extend {}) e{})", n.w - ex.w(n.a), n.a),
            Op::SExt => format!("((_ sign_extend {}) e{})", n.w - ex.w(n.a), n.a),
            Op::Ite => format!("(ite (= e{} #b1) e{} e{})", n.a, n.b, n.c),
            Op::Eq => format!("(ite (= e{} e{}) #b1 #b0)", n.a, n.b),
            Op::Ult => format!("(ite (bvult e{} e{}) #b1 #b0)", n.a, n.b),
            Op::Ule => format!("(ite (bvule e{} e{}) #b1 #b0)", n.a, n.b),
            Op::Slt => format!("(ite (bvslt e{} e{}) #b1 #b0)", n.a, n.b),
            Op::Sle => format!("(ite (bvsle e{} e{}) #b1 #b0)", n.a, n.b),
            op => {
                let s = match op {
                    Op::Add => "bvadd",
                    Op::Sub => "bvsub",
                    Op::Mul => "bvmul",
                    Op::UDiv => "bvudiv",
                    Op::URem => "bvurem",
                    Op::SDiv => "bvsdiv",
                    Op::SRem => "bvsrem",
                    Op::And => "bvand",
                    Op::Or => "bvor",
                    Op::Xor => "bvxor",
                    Op::Shl => "bvshl",
                    Op::LShr => "bvlshr",
                    _ => "bvashr",
                };
                format!("({} e{} e{})", s, n.a, n.b)
            }
        };
        o.push_str(&format!("(define-fun e{} () (_ BitVec {}) {})\n", r, n.w, t));
    }
    for r in cs {
        o.push_str(&format!("(assert (= e{} #b1))\n", r));
    }
    o.push_str("(check-sat)\n");
    o
}
