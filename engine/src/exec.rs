//! Path-exploring symbolic executor for the parsed IR.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use crate::expr::HashMap;
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(Ref),
    A(Rc<Vec<V>>),
    U,
}
const UNINIT: u32 = u32::MAX;
const HEAP_BASE: u64 = 0x1_0000_0000;
const STACK_BASE: u64 = 0x7000_0000_0000;
const ERRNO_ADDR: u64 = 0x0f00_0000;

#[derive(Clone)]
pub struct Obj {
    size: u64,
    bytes: Vec<u8>,
    sym: Option<Vec<u32>>,
    heap: bool,
    /// `size` is what is known to be allocated so far, this what was asked for
    asked: Option<Ref>,
}
impl Obj {
    fn uninit(size: u64, heap: bool) -> Obj {
        Obj { size, bytes: vec![0; size as usize], sym: Some(vec![UNINIT; size as usize]), heap, asked: None }
    }
    fn zeroed(size: u64, heap: bool) -> Obj {
        Obj { size, bytes: vec![0; size as usize], sym: None, heap, asked: None }
    }
}

#[derive(Clone)]
struct Frame {
    func: u32,
    block: u32,
    ip: u32,
    regs: Vec<V>,
    dst: Option<u32>,
    normal: Option<u32>,
    stack_mark: u64,
}

pub struct State {
    frames: Vec<Frame>,
    mem: BTreeMap<u64, Rc<Obj>>,
    heap_next: u64,
    stack_next: u64,
    pc: Vec<Ref>,
    model: Rc<Model>,
    memo: HashMap<Ref, u128>,
    pins: HashMap<Ref, u128>,
    inputs: Vec<(Ref, u16)>,
    obs: Vec<V>,
    steps: u64,
    expect_panic: bool,
    /// allocations of symbolic size are not split by size
    sym_alloc: bool,
    depth: u32,
    /// a range just created: variable, its id, bounds, and the path condition's length
    fresh: Option<(Ref, u32, u64, u64, usize)>,
}
impl State {
    fn fork(&self) -> State {
        State {
            frames: self.frames.clone(),
            mem: self.mem.clone(),
            heap_next: self.heap_next,
            stack_next: self.stack_next,
            pc: self.pc.clone(),
            model: self.model.clone(),
            memo: HashMap::default(),
            pins: self.pins.clone(),
            inputs: self.inputs.clone(),
            obs: self.obs.clone(),
            steps: self.steps,
            expect_panic: self.expect_panic,
            sym_alloc: self.sym_alloc,
            depth: self.depth + 1,
            fresh: None,
        }
    }
}

pub enum Stop {
    Done,
    Infeasible,
    ExpectedPanic,
    Violation { kind: &'static str, id: String, msg: String },
    /// harness asked to end the path
    Exit,
    Error(String),
}
type R<T> = Result<T, Stop>;
/// milliseconds after the start at which some job found a violation
static FIRST_VIOLATION: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum B {
    Defined,
    Panic,
    Unknown,
    Memcpy,
    Memset,
    Lane(L),
    Fp(&'static str),
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    LduDq,
    Zero64,
    Nop,
    Const0,
    Trap,
    Id,
    Assume,
    LoadRel,
    ReduceAdd,
    ReduceOr,
    ReduceAnd,
    ReduceXor,
    ReduceUMax,
    ReduceUMin,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    AlignedAlloc,
    Bcmp,
    Memcmp,
    Strlen,
    Abort,
    Errno,
    Getrandom,
    Syscall,
    Write,
    MkAny,
    MkAssume,
    MkAssert,
    MkReach,
    MkParam,
    MkExpectPanic,
    MkSymAlloc,
    MkObs,
    MkConcretize,
    MkExit,
    MkIsSym,
    MkRange,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum L {
    Ctlz,
    Cttz,
    Ctpop,
    Fshl,
    Fshr,
    UMin,
    UMax,
    SMin,
    SMax,
    Abs,
    Bswap,
    Bitrev,
    UAddSat,
    USubSat,
    UCmp,
    SCmp,
}

fn classify(f: &Func) -> B {
    let n = f.name.as_str();
    if let Some(p) = n.find("9panicking") {
        let r = n[p + 10..].trim_start_matches(|c: char| c.is_ascii_digit());
        if (r.starts_with("panic") && !r.starts_with("panic_count") && !r.starts_with("panicking")) || r.starts_with("begin_panic") || r.starts_with("assert_failed") {
            return B::Panic;
        }
    }
    if n.contains("17rust_begin_unwind") || n.contains("rust_alloc_error_handler") || n.contains("18handle_alloc_error") {
        return B::Panic;
    }
    if f.defined {
        return B::Defined;
    }
    if let Some(r) = n.strip_prefix("llvm.") {
        let p = |x: &str| r.starts_with(x);
        for o in ["fabs", "copysign", "ceil", "floor", "trunc", "roundeven", "round", "rint", "nearbyint", "sqrt", "minnum", "maxnum", "log2", "fptoui.sat", "fptosi.sat"] {
            if r.strip_prefix(o).map_or(false, |x| x.starts_with('.')) {
                return B::Fp(o);
            }
        }
        return if p("memcpy") || p("memmove") {
            B::Memcpy
        } else if p("memset") {
            B::Memset
        } else if p("ctlz") {
            B::Lane(L::Ctlz)
        } else if p("cttz.") {
            B::Lane(L::Cttz)
        } else if p("ctpop") {
            B::Lane(L::Ctpop)
        } else if p("fshl") {
            B::Lane(L::Fshl)
        } else if p("fshr") {
            B::Lane(L::Fshr)
        } else if p("umin") {
            B::Lane(L::UMin)
        } else if p("umax") {
            B::Lane(L::UMax)
        } else if p("smin") {
            B::Lane(L::SMin)
        } else if p("smax") {
            B::Lane(L::SMax)
        } else if p("abs") {
            B::Lane(L::Abs)
        } else if p("bswap") {
            B::Lane(L::Bswap)
        } else if p("bitreverse") {
            B::Lane(L::Bitrev)
        } else if p("uadd.sat") {
            B::Lane(L::UAddSat)
        } else if p("usub.sat") {
            B::Lane(L::USubSat)
        } else if p("ucmp") {
            B::Lane(L::UCmp)
        } else if p("scmp") {
            B::Lane(L::SCmp)
        } else if p("uadd.with.overflow") {
            B::UAddO
        } else if p("usub.with.overflow") {
            B::USubO
        } else if p("umul.with.overflow") {
            B::UMulO
        } else if p("sadd.with.overflow") {
            B::SAddO
        } else if p("ssub.with.overflow") {
            B::SSubO
        } else if p("smul.with.overflow") {
            B::SMulO
        } else if p("x86.sse3.ldu.dq") {
            B::LduDq
        } else if p("x86.xgetbv") {
            B::Zero64
        } else if p("x86.sse2.pause") || p("prefetch") || p("donothing") || p("stackrestore") {
            B::Nop
        } else if p("stacksave") {
            B::Zero64
        } else if p("is.constant") {
            B::Const0
        } else if p("trap") || p("ubsantrap") || p("debugtrap") {
            B::Trap
        } else if p("threadlocal.address") || p("expect") || p("launder") || p("strip.invariant") || p("ptr.annotation") || p("ssa.copy") {
            B::Id
        } else if p("assume") {
            B::Assume
        } else if p("load.relative") {
            B::LoadRel
        } else if p("vector.reduce.add") {
            B::ReduceAdd
        } else if p("vector.reduce.or") {
            B::ReduceOr
        } else if p("vector.reduce.and") {
            B::ReduceAnd
        } else if p("vector.reduce.xor") {
            B::ReduceXor
        } else if p("vector.reduce.umax") {
            B::ReduceUMax
        } else if p("vector.reduce.umin") {
            B::ReduceUMin
        } else {
            B::Unknown
        };
    }
    match n {
        "malloc" => B::Malloc,
        "calloc" => B::Calloc,
        "realloc" => B::Realloc,
        "free" => B::Free,
        "posix_memalign" => B::PosixMemalign,
        "aligned_alloc" => B::AlignedAlloc,
        "memcpy" | "memmove" => B::Memcpy,
        "memset" => B::Memset,
        "bcmp" => B::Bcmp,
        "memcmp" => B::Memcmp,
        "strlen" => B::Strlen,
        "abort" => B::Abort,
        "getenv" | "gettid" | "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_key_delete" | "pthread_setspecific" | "sched_yield" => B::Const0,
        "__errno_location" => B::Errno,
        "ceil" | "ceilf" => B::Fp("ceil"),
        "floor" | "floorf" => B::Fp("floor"),
        "trunc" | "truncf" => B::Fp("trunc"),
        "round" | "roundf" => B::Fp("round"),
        "log2" | "log2f" => B::Fp("log2"),
        "getrandom" => B::Getrandom,
        "syscall" => B::Syscall,
        "write" => B::Write,
        "mk_any" => B::MkAny,
        "mk_assume" => B::MkAssume,
        "mk_assert" => B::MkAssert,
        "mk_reach" => B::MkReach,
        "mk_param" => B::MkParam,
        "mk_expect_panic" => B::MkExpectPanic,
        "mk_sym_alloc" => B::MkSymAlloc,
        "mk_obs" => B::MkObs,
        "mk_concretize" => B::MkConcretize,
        "mk_exit" => B::MkExit,
        "mk_symbolic" => B::MkIsSym,
        "mk_range" => B::MkRange,
        _ => B::Unknown,
    }
}

pub struct Prog {
    pub m: Module,
    kinds: Vec<B>,
    ipdom: std::sync::Mutex<HashMap<u32, Arc<Vec<u32>>>>,
    dominating: std::sync::Mutex<HashMap<(u32, u32), Arc<Vec<bool>>>>,
}
const NONE: u32 = u32::MAX;
const RET: u32 = u32::MAX - 1;
impl Prog {
    pub fn new(m: Module) -> Prog {
        let kinds = m.funcs.iter().map(classify).collect();
        Prog { m, kinds, ipdom: Default::default(), dominating: Default::default() }
    }
    /// the registers defined in a block that every way to block j passes before
    fn dominating(&self, func: u32, j: u32) -> Arc<Vec<bool>> {
        if let Some(x) = self.dominating.lock().unwrap().get(&(func, j)) {
            return x.clone();
        }
        let f = &self.m.funcs[func as usize];
        let n = f.blocks.len();
        let succ = |b: usize| -> Vec<usize> {
            match f.blocks[b].insts.last() {
                Some(Inst::Br(t)) => vec![*t as usize],
                Some(Inst::CondBr(_, t, e)) => vec![*t as usize, *e as usize],
                Some(Inst::Switch { default, cases, .. }) => cases.iter().map(|(_, t)| *t as usize).chain([*default as usize]).collect(),
                Some(Inst::Call { normal: Some(t), .. }) => vec![*t as usize],
                _ => vec![],
            }
        };
        let mut r = vec![false; f.nregs as usize];
        for (_, p) in &f.params {
            r[*p as usize] = true;
        }
        for d in 0..n {
            if d == j as usize {
                continue;
            }
            // j out of reach without d
            let mut seen = vec![false; n];
            let mut todo = vec![];
            if d != 0 {
                seen[0] = true;
                todo.push(0);
            }
            while let Some(b) = todo.pop() {
                for t in succ(b) {
                    if t != d && !seen[t] {
                        seen[t] = true;
                        todo.push(t);
                    }
                }
            }
            if seen[j as usize] {
                continue;
            }
            for (x, _, _) in &f.blocks[d].phis {
                r[*x as usize] = true;
            }
            for i in &f.blocks[d].insts {
                if let Some(x) = i.dst() {
                    r[x as usize] = true;
                }
            }
        }
        let r = Arc::new(r);
        self.dominating.lock().unwrap().insert((func, j), r.clone());
        r
    }
    /// immediate postdominator of every block, over the paths that return; RET if only
    /// the return itself, NONE if the block never returns
    fn ipdom(&self, func: u32) -> Arc<Vec<u32>> {
        if let Some(x) = self.ipdom.lock().unwrap().get(&func) {
            return x.clone();
        }
        let f = &self.m.funcs[func as usize];
        let n = f.blocks.len();
        let exit = n; // virtual
        let mut succ: Vec<Vec<usize>> = vec![vec![]; n + 1];
        let mut pred: Vec<Vec<usize>> = vec![vec![]; n + 1];
        for (i, b) in f.blocks.iter().enumerate() {
            let mut out: Vec<usize> = vec![];
            match b.insts.last() {
                Some(Inst::Br(t)) => out.push(*t as usize),
                Some(Inst::CondBr(_, t, e)) => {
                    out.push(*t as usize);
                    out.push(*e as usize);
                }
                Some(Inst::Switch { default, cases, .. }) => {
                    out.push(*default as usize);
                    out.extend(cases.iter().map(|(_, t)| *t as usize));
                }
                Some(Inst::Ret(_)) => out.push(exit),
                Some(Inst::Call { normal: Some(t), .. }) => out.push(*t as usize),
                _ => {}
            }
            for t in &out {
                pred[*t].push(i);
            }
            succ[i] = out;
        }
        // postorder of the reversed graph from the exit
        let mut order: Vec<usize> = vec![];
        let mut num = vec![usize::MAX; n + 1];
        let mut seen = vec![false; n + 1];
        let mut stack = vec![(exit, 0usize)];
        seen[exit] = true;
        while let Some((b, k)) = stack.pop() {
            if k < pred[b].len() {
                stack.push((b, k + 1));
                let q = pred[b][k];
                if !seen[q] {
                    seen[q] = true;
                    stack.push((q, 0));
                }
            } else {
                num[b] = order.len();
                order.push(b);
            }
        }
        let mut idom = vec![usize::MAX; n + 1];
        idom[exit] = exit;
        let mut changed = true;
        while changed {
            changed = false;
            for b in order.iter().rev() {
                if *b == exit {
                    continue;
                }
                let mut new = usize::MAX;
                for s in &succ[*b] {
                    if idom[*s] == usize::MAX {
                        continue;
                    }
                    if new == usize::MAX {
                        new = *s;
                    } else {
                        let (mut x, mut y) = (*s, new);
                        while x != y {
                            while num[x] < num[y] {
                                x = idom[x];
                            }
                            while num[y] < num[x] {
                                y = idom[y];
                            }
                        }
                        new = x;
                    }
                }
                if new != idom[*b] {
                    idom[*b] = new;
                    changed = true;
                }
            }
        }
        let r: Vec<u32> = (0..n)
            .map(|i| match idom[i] {
                usize::MAX => NONE,
                x if x == exit => RET,
                x => x as u32,
            })
            .collect();
        let r = Arc::new(r);
        self.ipdom.lock().unwrap().insert(func, r.clone());
        r
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub id: String,
    pub msg: String,
    pub inputs: Vec<u128>,
    pub stack: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub paths: u64,
    pub infeasible: u64,
    pub expected_panics: u64,
    pub forks: u64,
    pub merges: u64,
    pub fork_sites: BTreeMap<String, u64>,
    pub query_sites: BTreeMap<String, u64>,
    pub instrs: u64,
    pub max_steps: u64,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub timed_out: bool,
    pub suspects: Vec<Vec<u128>>,
    pub reach: BTreeMap<u64, u64>,
    pub samples: Vec<(Vec<u128>, Vec<u128>)>,
    pub stats: Stats,
    pub asserts: BTreeMap<u64, u64>,
    pub asserts_symbolic: u64,
    pub secs: f64,
    pub exprs: u64,
    pub inputs_max: u64,
    pub blocks: HashSet<(u32, u32)>,
}

pub struct Opts {
    pub max_secs: f64,
    pub start: Instant,
    pub grace: u64,
    pub max_steps: u64,
    pub max_viol: usize,
    pub solver_ms: u32,
    pub dump: Option<(String, u32, u32)>,
    pub samples: usize,
    pub profile: bool,
}

pub struct Eng {
    p: &'static Prog,
    ex: Exprs,
    sol: Solver,
    work: Vec<State>,
    params: Vec<u64>,
    pub rep: Report,
    opts: Opts,
    t0: Instant,
    vkeys: HashMap<String, usize>,
    cov: Vec<Vec<bool>>,
    /// nesting of speculative execution; see try_merge
    spec: u32,
    spec_stores: Vec<(u64, u64)>,
    sites: HashMap<(u32, u32), (u32, u32)>,
}

fn veq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::C(x), V::C(y)) => x == y,
        (V::S(x), V::S(y)) => x == y,
        (V::U, V::U) => true,
        (V::A(x), V::A(y)) => Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(a, b)| veq(a, b))),
        _ => false,
    }
}

impl Eng {
    pub fn new(p: &'static Prog, params: Vec<u64>, opts: Opts) -> Eng {
        let cov = p.m.funcs.iter().map(|f| vec![false; f.blocks.len()]).collect();
        let mut sol = Solver::new(opts.solver_ms);
        sol.dump = opts.dump.clone();
        Eng { p, ex: Exprs::new(), sol, work: vec![], params, rep: Report::default(), opts, t0: Instant::now(), vkeys: HashMap::default(), cov, spec: 0, spec_stores: vec![], sites: HashMap::default() }
    }

    pub fn run(mut self, entry: &str) -> Report {
        let f = match self.p.m.fmap.get(entry) {
            Some(f) if self.p.m.funcs[*f as usize].defined => *f,
            _ => {
                self.rep.errors.push(format!("no function {}", entry));
                return self.rep;
            }
        };
        let mut st = State {
            frames: vec![],
            mem: BTreeMap::new(),
            heap_next: HEAP_BASE,
            stack_next: STACK_BASE,
            pc: vec![],
            model: Rc::new(HashMap::default()),
            memo: HashMap::default(),
            pins: HashMap::default(),
            inputs: vec![],
            obs: vec![],
            steps: 0,
            expect_panic: false,
            sym_alloc: false,
            depth: 0,
            fresh: None,
        };
        st.mem.insert(ERRNO_ADDR, Rc::new(Obj::zeroed(16, true)));
        self.push_frame(&mut st, f, vec![], None, None);
        self.work.push(st);
        'outer: while let Some(mut st) = self.work.pop() {
            let r = self.run_state(&mut st);
            self.rep.max_steps = self.rep.max_steps.max(st.steps);
            self.rep.inputs_max = self.rep.inputs_max.max(st.inputs.len() as u64);
            let r = match r {
                Stop::Error(e) => Stop::Error(e),
                Stop::Infeasible => Stop::Infeasible,
                r if self.satisfied(&st) => r,
                _ => Stop::Error("the path's model does not satisfy the path".into()),
            };
            match r {
                Stop::Done | Stop::Exit => {
                    self.rep.paths += 1;
                    self.sample(&mut st);
                }
                Stop::ExpectedPanic => {
                    self.rep.paths += 1;
                    self.rep.expected_panics += 1;
                    self.sample(&mut st);
                }
                Stop::Infeasible => self.rep.infeasible += 1,
                Stop::Violation { kind, id, msg } => {
                    self.rep.paths += 1;
                    let m = st.model.clone();
                    self.record(&mut st, kind, id, msg, &m);
                }
                Stop::Error(e) => {
                    let w = self.whereis(&st).join(" < ");
                    if w.is_empty() && e == "TIMEOUT" {
                    }
                    if e == "TIMEOUT" {
                        self.rep.timed_out = true;
                        let m = st.model.clone();
                        let i = self.inputs_of(&st, &m);
                        self.rep.suspects.push(i);
                        // the longest pending states are candidates for non-termination
                        let mut ix: Vec<usize> = (0..self.work.len()).collect();
                        ix.sort_by_key(|i| std::cmp::Reverse(self.work[*i].steps));
                        for k in ix.into_iter().take(3) {
                            let m = self.work[k].model.clone();
                            let s = std::mem::replace(&mut self.work[k].inputs, vec![]);
                            let mut v = vec![];
                            let mut memo = HashMap::default();
                            for (r, _) in s {
                                v.push(self.ex.eval(r, &m, &mut memo));
                            }
                            self.rep.suspects.push(v);
                        }
                        break 'outer;
                    }
                    self.rep.errors.push(format!("{} at {}", e, w));
                    if self.rep.errors.len() > 5 {
                        break;
                    }
                }
            }
            if self.rep.violations.len() >= self.opts.max_viol {
                break;
            }
        }
        self.rep.secs = self.t0.elapsed().as_secs_f64();
        self.rep.stats = self.sol.stats.clone();
        self.rep.exprs = self.ex.nodes.len() as u64;
        for (f, bs) in self.cov.iter().enumerate() {
            for (b, x) in bs.iter().enumerate() {
                if *x {
                    self.rep.blocks.insert((f as u32, b as u32));
                }
            }
        }
        self.rep
    }

    /// the values that guided a path are values of that path
    fn satisfied(&mut self, st: &State) -> bool {
        let mut memo = HashMap::default();
        st.pc.iter().all(|c| self.ex.eval(*c, &st.model, &mut memo) == 1)
    }
    fn fork_site(&mut self, st: &State) {
        if self.opts.profile {
            let w = self.whereis(st);
            let k = w.iter().take(3).map(|x| x.rsplit('/').next().unwrap_or("").to_string()).collect::<Vec<_>>().join(" < ");
            *self.rep.fork_sites.entry(k).or_insert(0) += 1;
        }
    }
    fn sample(&mut self, st: &mut State) {
        let n = self.rep.paths;
        // first few, then sparser and sparser
        let take = n <= 4 || n.is_power_of_two() || n % 509 == 0;
        if take && self.rep.samples.len() < self.opts.samples {
            let m = st.model.clone();
            let i = self.inputs_of(st, &m);
            let mut o = vec![];
            let mut memo = HashMap::default();
            for v in &st.obs {
                o.push(match v {
                    V::C(k) => *k,
                    V::S(r) => self.ex.eval(*r, &m, &mut memo),
                    _ => 0xdead_dead,
                });
            }
            self.rep.samples.push((i, o));
        }
    }

    fn inputs_of(&mut self, st: &State, m: &Model) -> Vec<u128> {
        let mut memo = HashMap::default();
        st.inputs.iter().map(|(r, _)| self.ex.eval(*r, m, &mut memo)).collect()
    }

    fn record(&mut self, st: &mut State, kind: &str, id: String, msg: String, m: &Model) {
        let stack = self.whereis(st);
        let key = format!("{}|{}|{}", kind, id, if kind == "panic" { msg.clone() } else { stack.first().cloned().unwrap_or_default() });
        let n = self.vkeys.entry(key).or_insert(0);
        *n += 1;
        if *n > 2 {
            return;
        }
        let inputs = self.inputs_of(st, m);
        let at = self.opts.start.elapsed().as_millis() as u64 + 1;
        let _ = FIRST_VIOLATION.compare_exchange(0, at, std::sync::atomic::Ordering::SeqCst, std::sync::atomic::Ordering::SeqCst);
        self.rep.violations.push(Violation { kind: kind.to_string(), id, msg, inputs, stack });
    }

    fn whereis(&self, st: &State) -> Vec<String> {
        let mut out = vec![];
        for f in st.frames.iter().rev() {
            let b = &self.p.m.funcs[f.func as usize].blocks[f.block as usize];
            let d = *b.dbg.get(f.ip as usize).unwrap_or(&0);
            let l = self.p.m.locate(d);
            if l.is_empty() {
                out.push(self.p.m.funcs[f.func as usize].name.chars().take(80).collect());
            }
            for (file, line, func) in l {
                out.push(format!("{}:{} {}", file, line, func));
            }
        }
        out.truncate(30);
        out
    }

    // ---------- values
    fn kv(&self, k: &K, ty: TyId) -> V {
        match k {
            K::I(v) => V::C(*v),
            K::Undef => {
                if self.p.m.is_agg(ty) {
                    let n = self.p.m.nfields(ty);
                    let v = (0..n).map(|i| self.kv(k, self.p.m.field_ty(ty, i))).collect();
                    V::A(Rc::new(v))
                } else {
                    V::U
                }
            }
            K::Zero => {
                if self.p.m.is_agg(ty) {
                    let n = self.p.m.nfields(ty);
                    let v = (0..n).map(|i| self.kv(k, self.p.m.field_ty(ty, i))).collect();
                    V::A(Rc::new(v))
                } else {
                    V::C(0)
                }
            }
            K::Agg(xs) => V::A(Rc::new(xs.iter().enumerate().map(|(i, x)| self.kv(x, self.p.m.field_ty(ty, i))).collect())),
            K::Splat(x) => {
                let n = self.p.m.nfields(ty);
                let e = self.kv(x, self.p.m.field_ty(ty, 0));
                V::A(Rc::new(vec![e; n]))
            }
            K::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect())),
        }
    }
    fn v(&self, st: &State, o: &Opnd, ty: TyId) -> V {
        match o {
            Opnd::R(r) => {
                let v = st.frames.last().unwrap().regs[*r as usize].clone();
                self.pin(st, v)
            }
            Opnd::K(k) => self.kv(k, ty),
        }
    }
    fn pin(&self, st: &State, v: V) -> V {
        if !st.pins.is_empty() {
            if let V::S(r) = v {
                if let Some(k) = st.pins.get(&r) {
                    return V::C(*k);
                }
            }
        }
        v
    }
    /// scalar or vector operand where only constants I/Undef/Zero/Agg/Splat are possible
    fn vs(&self, st: &State, o: &Opnd, lanes: u32) -> V {
        match o {
            Opnd::R(r) => {
                let v = st.frames.last().unwrap().regs[*r as usize].clone();
                self.pin(st, v)
            }
            Opnd::K(k) => match k {
                K::I(v) => V::C(*v),
                K::Undef if lanes == 0 => V::U,
                K::Zero if lanes == 0 => V::C(0),
                K::Undef => V::A(Rc::new(vec![V::U; lanes as usize])),
                K::Zero => V::A(Rc::new(vec![V::C(0); lanes as usize])),
                K::Splat(x) => {
                    let e = match &**x {
                        K::I(v) => V::C(*v),
                        _ => V::U,
                    };
                    V::A(Rc::new(vec![e; lanes as usize]))
                }
                K::Agg(xs) => V::A(Rc::new(
                    xs.iter()
                        .map(|x| match x {
                            K::I(v) => V::C(*v),
                            K::Zero => V::C(0),
                            _ => V::U,
                        })
                        .collect(),
                )),
                K::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect())),
            },
        }
    }
    fn to_ref(&mut self, v: &V, w: u16) -> Ref {
        match v {
            V::C(k) => self.ex.cst(w, *k),
            V::S(r) => {
                debug_assert_eq!(self.ex.w(*r), w);
                *r
            }
            V::U => self.ex.new_var(w).0,
            V::A(_) => panic!("aggregate where a scalar was expected"),
        }
    }
    fn from_ref(&self, r: Ref) -> V {
        match self.ex.as_const(r) {
            Some(k) => V::C(k),
            None => V::S(r),
        }
    }

    fn bin(&mut self, op: BinOp, w: u16, a: &V, b: &V) -> V {
        match (a, b) {
            (V::C(x), V::C(y)) => {
                let o = bop(op);
                if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) && *y == 0 {
                    return V::U;
                }
                V::C(eval_bin(o, w, *x, *y))
            }
            (V::U, V::C(0)) | (V::C(0), V::U) if op == BinOp::And => V::C(0),
            // bits inserted into an undefined word, or taken out of one: any word
            (V::U, V::C(_) | V::S(_)) if matches!(op, BinOp::And | BinOp::Or | BinOp::Shl | BinOp::LShr) => {
                let x = self.to_ref(a, w);
                let y = self.to_ref(b, w);
                let r = self.ex.bin(bop(op), x, y);
                self.from_ref(r)
            }
            (V::C(_) | V::S(_), V::U) if matches!(op, BinOp::And | BinOp::Or) => {
                let x = self.to_ref(a, w);
                let y = self.to_ref(b, w);
                let r = self.ex.bin(bop(op), x, y);
                self.from_ref(r)
            }
            (V::U, _) | (_, V::U) => V::U,
            _ => {
                let x = self.to_ref(a, w);
                let y = self.to_ref(b, w);
                let r = self.ex.bin(bop(op), x, y);
                self.from_ref(r)
            }
        }
    }
    /// floating point: comparisons and sign operations on the bits of symbolic operands,
    /// everything else on concrete ones
    fn fp(&mut self, st: &mut State, op: &str, w: u16, to: u16, a: &[V]) -> R<V> {
        if a.iter().any(|v| matches!(v, V::U)) {
            return Ok(V::U);
        }
        let m = crate::expr::mask(w);
        let sign = V::C(1u128 << (w - 1));
        let abs = V::C(m >> 1);
        match op {
            "fneg" => return Ok(self.bin(BinOp::Xor, w, &a[0], &sign)),
            "fabs" => return Ok(self.bin(BinOp::And, w, &a[0], &abs)),
            "copysign" => {
                let x = self.bin(BinOp::And, w, &a[0], &abs);
                let y = self.bin(BinOp::And, w, &a[1], &sign);
                return Ok(self.bin(BinOp::Or, w, &x, &y));
            }
            _ => {}
        }
        if let Some(p) = op.strip_prefix("fcmp.") {
            let inf = V::C(if w == 64 { 0x7ff0_0000_0000_0000 } else { 0x7f80_0000 });
            let (x, y) = (&a[0], &a[1]);
            let mut nan = V::C(0);
            for v in [x, y] {
                let t = self.bin(BinOp::And, w, v, &abs);
                let t = self.icmp(Pred::Ugt, w, &t, &inf);
                nan = self.bin(BinOp::Or, 1, &nan, &t);
            }
            let both = self.bin(BinOp::Or, w, x, y);
            let both = self.bin(BinOp::And, w, &both, &abs);
            let zeros = self.icmp(Pred::Eq, w, &both, &V::C(0));
            let same = self.icmp(Pred::Eq, w, x, y);
            let eq = self.bin(BinOp::Or, 1, &zeros, &same);
            let mut keys = vec![];
            for v in [x, y] {
                let t = self.bin(BinOp::AShr, w, v, &V::C(w as u128 - 1));
                let t = self.bin(BinOp::Or, w, &t, &sign);
                keys.push(self.bin(BinOp::Xor, w, v, &t));
            }
            let below = self.icmp(Pred::Ult, w, &keys[0], &keys[1]);
            let one = V::C(1);
            let ne = self.bin(BinOp::Xor, 1, &eq, &one);
            let lt = self.bin(BinOp::And, 1, &below, &ne);
            let ge = self.bin(BinOp::Xor, 1, &lt, &one);
            let gt = self.bin(BinOp::And, 1, &ge, &ne);
            let le = self.bin(BinOp::Xor, 1, &gt, &one);
            let r = match &p[p.len().min(1)..] {
                "eq" => eq,
                "ne" => ne,
                "lt" => lt,
                "le" => le,
                "gt" => gt,
                "ge" => ge,
                _ => match p {
                    "true" => return Ok(one),
                    "false" => return Ok(V::C(0)),
                    "uno" => return Ok(nan),
                    "ord" => return Ok(self.bin(BinOp::Xor, 1, &nan, &one)),
                    _ => return Err(Stop::Error(format!("fcmp {}", p))),
                },
            };
            return Ok(if p.starts_with('o') {
                let ord = self.bin(BinOp::Xor, 1, &nan, &one);
                self.bin(BinOp::And, 1, &ord, &r)
            } else {
                self.bin(BinOp::Or, 1, &nan, &r)
            });
        }
        let mut k = vec![];
        for v in a {
            k.push(self.conc(st, v)?);
        }
        let d = |i: usize| if w == 64 { f64::from_bits(k[i] as u64) } else { f32::from_bits(k[i] as u32) as f64 };
        // f32 operations: exact in f64 up to the one rounding for + - * /
        let out = |x: f64, w: u16| if w == 64 { x.to_bits() as u128 } else { (x as f32).to_bits() as u128 };
        let r = match op {
            "fadd" => out(d(0) + d(1), w),
            "fsub" => out(d(0) - d(1), w),
            "fmul" => out(d(0) * d(1), w),
            "fdiv" => out(d(0) / d(1), w),
            "frem" => out(d(0) % d(1), w),
            "uitofp" if to == 64 => (k[0] as f64).to_bits() as u128,
            "uitofp" => (k[0] as f32).to_bits() as u128,
            "sitofp" if to == 64 => (sext(k[0], w) as f64).to_bits() as u128,
            "sitofp" => (sext(k[0], w) as f32).to_bits() as u128,
            "fptrunc" | "fpext" => out(d(0), to),
            "fptoui" | "fptosi" | "fptoui.sat" | "fptosi.sat" => {
                let x = d(0).trunc();
                let signed = op.starts_with("fptosi");
                let (lo, hi) = if signed { (-(2f64.powi(to as i32 - 1)), 2f64.powi(to as i32 - 1)) } else { (0.0, 2f64.powi(to as i32)) };
                let m = crate::expr::mask(to);
                if x.is_nan() || x < lo || x >= hi {
                    if !op.ends_with("sat") {
                        return Ok(V::U);
                    }
                    if x.is_nan() {
                        0
                    } else if x < lo {
                        if signed { 1 << (to - 1) } else { 0 }
                    } else if signed {
                        m >> 1
                    } else {
                        m
                    }
                } else if signed {
                    (x as i128) as u128 & m
                } else {
                    x as u128 & m
                }
            }
            "ceil" => out(d(0).ceil(), w),
            "floor" => out(d(0).floor(), w),
            "trunc" => out(d(0).trunc(), w),
            "round" => out(d(0).round(), w),
            "roundeven" | "rint" | "nearbyint" => out(d(0).round_ties_even(), w),
            "sqrt" => out(d(0).sqrt(), w),
            "minnum" => out(d(0).min(d(1)), w),
            "maxnum" => out(d(0).max(d(1)), w),
            "log2" => out(d(0).log2(), w),
            _ => return Err(Stop::Error(format!("floating point: {}", op))),
        };
        Ok(V::C(r))
    }
    fn icmp(&mut self, p: Pred, w: u16, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sext(x, w) > sext(y, w),
                Pred::Sge => sext(x, w) >= sext(y, w),
                Pred::Slt => sext(x, w) < sext(y, w),
                Pred::Sle => sext(x, w) <= sext(y, w),
            };
            return V::C(r as u128);
        }
        if matches!(a, V::U) || matches!(b, V::U) {
            return V::U;
        }
        let x = self.to_ref(a, w);
        let y = self.to_ref(b, w);
        let e = &mut self.ex;
        let r = match p {
            Pred::Eq => e.bin(Op::Eq, x, y),
            Pred::Ne => {
                let t = e.bin(Op::Eq, x, y);
                e.not(t)
            }
            Pred::Ugt => e.bin(Op::Ult, y, x),
            Pred::Uge => e.bin(Op::Ule, y, x),
            Pred::Ult => e.bin(Op::Ult, x, y),
            Pred::Ule => e.bin(Op::Ule, x, y),
            Pred::Sgt => e.bin(Op::Slt, y, x),
            Pred::Sge => e.bin(Op::Sle, y, x),
            Pred::Slt => e.bin(Op::Slt, x, y),
            Pred::Sle => e.bin(Op::Sle, x, y),
        };
        self.from_ref(r)
    }
    fn cast(&mut self, op: CastOp, from: u16, to: u16, a: &V) -> V {
        match a {
            V::C(k) => V::C(match op {
                CastOp::Trunc => k & mask(to),
                CastOp::ZExt | CastOp::Same => *k,
                CastOp::SExt => (sext(*k, from) as u128) & mask(to),
            }),
            V::S(r) => {
                let x = match op {
                    CastOp::Trunc => self.ex.extract(*r, 0, to),
                    CastOp::ZExt => self.ex.zext(*r, to),
                    CastOp::SExt => self.ex.sext_to(*r, to),
                    CastOp::Same => *r,
                };
                self.from_ref(x)
            }
            V::U => V::U,
            V::A(_) => panic!("cast of aggregate"),
        }
    }
    fn ite(&mut self, c: Ref, a: &V, b: &V, w: impl Fn(usize) -> u16 + Copy, path: usize) -> V {
        match (a, b) {
            (V::U, x) => x.clone(),
            (x, V::U) => x.clone(),
            (V::A(x), V::A(y)) => {
                let v = (0..x.len()).map(|i| self.ite(c, &x[i], &y[i], w, i)).collect();
                V::A(Rc::new(v))
            }
            _ => {
                let ww = match (a, b) {
                    (V::S(r), _) => self.ex.w(*r),
                    (_, V::S(r)) => self.ex.w(*r),
                    _ => w(path),
                };
                let x = self.to_ref(a, ww);
                let y = self.to_ref(b, ww);
                let r = self.ex.ite(c, x, y);
                self.from_ref(r)
            }
        }
    }
    fn ite_ty(&mut self, c: Ref, a: &V, b: &V, ty: TyId) -> V {
        if self.p.m.is_agg(ty) {
            if let (V::A(x), V::A(y)) = (a, b) {
                let (x, y) = (x.clone(), y.clone());
                let p = self.p;
                let v = (0..x.len()).map(|i| self.ite_ty(c, &x[i], &y[i], p.m.field_ty(ty, i))).collect();
                return V::A(Rc::new(v));
            }
        }
        let w = if self.p.m.is_agg(ty) { 0 } else { self.p.m.width(ty) };
        self.ite(c, a, b, |_| w, 0)
    }

    // ---------- path condition
    fn eval(&mut self, st: &mut State, r: Ref) -> u128 {
        self.ex.eval(r, &st.model, &mut st.memo)
    }
    fn add(&mut self, st: &mut State, c: Ref) {
        if self.ex.as_const(c) == Some(1) {
            return;
        }
        // split conjunctions so slicing stays sharp
        let n = self.ex.nodes[c as usize];
        if n.op == Op::And && n.w == 1 {
            self.add(st, n.a);
            self.add(st, n.b);
            return;
        }
        if !st.pc.contains(&c) {
            st.pc.push(c);
        }
    }
    fn set_model(&mut self, st: &mut State, m: &Model) {
        if m.is_empty() {
            return;
        }
        let mut nm = (*st.model).clone();
        for (k, v) in m {
            nm.insert(*k, *v);
        }
        st.model = Rc::new(nm);
        st.memo.clear();
    }
    fn check(&mut self, st: &State, c: Ref) -> R<Option<Rc<Model>>> {
        if self.spec > 0 {
            return Err(Stop::Error("speculation".into()));
        }
        if self.late() {
            return Err(Stop::Error("TIMEOUT".into()));
        }
        if self.opts.profile {
            let w = self.whereis(st);
            let k = w.iter().take(3).map(|x| x.rsplit('/').next().unwrap_or("").to_string()).collect::<Vec<_>>().join(" < ");
            *self.rep.query_sites.entry(k).or_insert(0) += 1;
            if std::env::var("MK_SHOWQ").is_ok() {
                eprintln!("Q {} {}", w[0], self.ex.show(c, 9));
            }
        }
        match self.sol.check(&mut self.ex, &st.pc, c) {
            Res::Sat(m) => Ok(Some(m)),
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Error("solver gave up".into())),
        }
    }
    /// decide a condition, forking when both outcomes are feasible
    fn branch(&mut self, st: &mut State, c: &V) -> R<bool> {
        let r = match c {
            V::C(k) => return Ok(*k != 0),
            V::S(r) => *r,
            V::U => return Err(Stop::Violation { kind: "memory", id: "undefined".into(), msg: "branch on an undefined value".into() }),
            V::A(_) => return Err(Stop::Error("branch on aggregate".into())),
        };
        if st.pc.contains(&r) {
            return Ok(true);
        }
        let nr = self.ex.not(r);
        if st.pc.contains(&nr) {
            return Ok(false);
        }
        let side = self.eval(st, r) != 0;
        let (mine, other) = if side { (r, nr) } else { (nr, r) };
        if let Some(m) = self.check(st, other)? {
            let mut s2 = st.fork();
            self.add(&mut s2, other);
            self.set_model(&mut s2, &m);
            s2.pins_from(&self.ex, other);
            self.rep.forks += 1;
            self.fork_site(st);
            self.work.push(s2);
            self.add(st, mine);
            st.pins_from(&self.ex, mine);
        }
        Ok(side)
    }
    /// A branch on a symbolic condition whose two sides soon meet again, without
    /// allocating, asserting or asking the solver, is executed on both sides and the
    /// results are joined with if-then-else instead of forking. Sides that disagree on
    /// a concrete length, pointer or tag are not joined: those are better kept apart.
    fn try_merge(&mut self, st: &mut State, c: Ref, t: u32, e: u32) -> bool {
        if self.spec >= 3 {
            return false;
        }
        if st.pc.contains(&c) {
            return false;
        }
        let nc = self.ex.not(c);
        if st.pc.contains(&nc) {
            return false;
        }
        let (func, from) = {
            let f = st.frames.last().unwrap();
            (f.func, f.block)
        };
        let (ok, bad) = *self.sites.get(&(func, from)).unwrap_or(&(0, 0));
        if bad >= 4 && bad > 2 * ok {
            return false;
        }
        let j = self.p.ipdom(func)[from as usize];
        let depth = st.frames.len();
        if j == NONE || (j == RET && depth < 2) {
            return false;
        }
        self.spec += 1;
        let mark = self.spec_stores.len();
        let mut done = None;
        if let Some(a) = self.side(st, c, t, depth, j) {
            if let Some(b) = self.side(st, nc, e, depth, j) {
                done = self.join(st, c, a, b, depth, j, mark);
            }
        }
        self.spec -= 1;
        if self.spec == 0 {
            self.spec_stores.clear();
        } else if done.is_none() {
            self.spec_stores.truncate(mark);
        }
        let s = self.sites.entry((func, from)).or_insert((0, 0));
        match done {
            Some(n) => {
                s.0 += 1;
                self.rep.merges += 1;
                st.frames = n.frames;
                st.mem = n.mem;
                st.steps = n.steps;
                st.stack_next = n.stack_next;
                true
            }
            None => {
                s.1 += 1;
                false
            }
        }
    }
    fn side(&mut self, st: &State, c: Ref, to: u32, depth: usize, j: u32) -> Option<State> {
        let p = self.p;
        let mut s = st.fork();
        s.depth = st.depth;
        self.add(&mut s, c);
        s.pins_from(&self.ex, c);
        self.jump(&mut s, to);
        let end = s.steps + 300;
        loop {
            let (func, block, ip) = {
                let f = s.frames.last().unwrap();
                (f.func, f.block, f.ip)
            };
            if s.frames.len() == depth {
                if block == j && ip == 0 {
                    return Some(s);
                }
            } else if s.frames.len() < depth {
                return if j == RET { Some(s) } else { None };
            }
            if s.steps > end {
                return None;
            }
            let inst = p.m.funcs[func as usize].blocks[block as usize].insts.get(ip as usize)?;
            s.steps += 1;
            self.rep.instrs += 1;
            match self.step(&mut s, inst) {
                Ok(true) => s.frames.last_mut().unwrap().ip += 1,
                Ok(false) => {}
                Err(_) => return None,
            }
        }
    }
    /// whether two values may be joined: not if both are concrete and wider than a byte
    fn is_word(&self, ty: TyId) -> bool {
        let ty = self.p.m.resolve(ty);
        !self.p.m.is_agg(ty) && self.p.m.width(ty) == 64
    }
    fn joinable(&self, a: &V, b: &V, ty: TyId) -> bool {
        if veq(a, b) {
            return true;
        }
        match (a, b) {
            (V::C(_), V::C(_)) => {
                let ty = self.p.m.resolve(ty);
                !self.p.m.is_agg(ty) && self.p.m.width(ty) <= 8
            }
            (V::A(x), V::A(y)) => x.len() == y.len() && (0..x.len()).all(|i| self.joinable(&x[i], &y[i], self.p.m.field_ty(ty, i))),
            (V::A(_), _) | (_, V::A(_)) => false,
            _ => true,
        }
    }
    fn join(&mut self, st: &State, c: Ref, mut a: State, b: State, depth: usize, j: u32, mark: usize) -> Option<State> {
        let p = self.p;
        if a.stack_next != b.stack_next || a.heap_next != b.heap_next || a.frames.len() != b.frames.len() || a.mem.len() != b.mem.len() || a.expect_panic != b.expect_panic {
            return None;
        }
        // registers
        let top = a.frames.len() - 1;
        {
            let (fa, fb) = (&a.frames[top], &b.frames[top]);
            if fa.block != fb.block || fa.ip != fb.ip {
                return None;
            }
        }
        let mut live: Vec<(u32, TyId)> = vec![];
        let func = a.frames[top].func;
        if j == RET {
            let callee = &st.frames[depth - 1];
            if callee.normal.is_some() {
                return None;
            }
            if let Some(d) = callee.dst {
                live.push((d, p.m.funcs[callee.func as usize].ret));
            }
        } else {
            for (d, ty, _) in &p.m.funcs[func as usize].blocks[j as usize].phis {
                live.push((*d, *ty));
            }
        }
        for (d, ty) in &live {
            let (x, y) = (&a.frames[top].regs[*d as usize], &b.frames[top].regs[*d as usize]);
            if !self.joinable(x, y, p.m.resolve(*ty)) {
                return None;
            }
        }
        // memory
        let mut edits: Vec<(u64, usize, u32, u8)> = vec![];
        let mut ia = a.mem.iter();
        let mut ib = b.mem.iter();
        loop {
            let ((ka, oa), (kb, ob)) = match (ia.next(), ib.next()) {
                (Some(x), Some(y)) => (x, y),
                (None, None) => break,
                _ => return None,
            };
            if ka != kb || oa.size != ob.size || oa.asked != ob.asked {
                return None;
            }
            if Rc::ptr_eq(oa, ob) {
                continue;
            }
            let get = |o: &Obj, i: usize| (o.sym.as_ref().map_or(0, |s| s[i]), o.bytes[i]);
            let same = |i: usize| {
                let (x, y) = (get(oa, i), get(ob, i));
                x.0 == y.0 && (x.0 != 0 || x.1 == y.1)
            };
            let n = oa.size as usize;
            let mut i = 0;
            while i < n {
                if same(i) {
                    i += 1;
                    continue;
                }
                // the widest store covering the byte gives the unit to join
                let addr = ka + i as u64;
                let mut unit = (addr, 1u64);
                for (s, l) in &self.spec_stores[mark..] {
                    if *s <= addr && addr < s + l && *l > unit.1 {
                        unit = (*s, *l);
                    }
                }
                let (from, to) = ((unit.0 - ka) as usize, (unit.0 - ka + unit.1) as usize);
                if to > n || from < *edits.last().filter(|e| e.0 == *ka).map(|e| &e.1).unwrap_or(&0) {
                    return None;
                }
                let conc = |o: &Obj| (from..to).all(|k| get(o, k).0 == 0);
                if unit.1 > 1 && conc(oa) && conc(ob) {
                    return None;
                }
                let mut va: Option<Ref> = None;
                let mut vb: Option<Ref> = None;
                for k in from..to {
                    for (o, v) in [(oa, &mut va), (ob, &mut vb)] {
                        let (s, x) = get(o, k);
                        let r = if s == 0 {
                            self.ex.cst(8, x as u128)
                        } else if s == UNINIT {
                            self.ex.new_var(8).0
                        } else {
                            s
                        };
                        *v = Some(match *v {
                            None => r,
                            Some(lo) => self.ex.concat(r, lo),
                        });
                    }
                }
                let r = self.ex.ite(c, va.unwrap(), vb.unwrap());
                for k in from..to {
                    let x = self.ex.extract(r, (8 * (k - from)) as u16, 8);
                    match self.ex.as_const(x) {
                        Some(v) => edits.push((*ka, k, 0, v as u8)),
                        None => edits.push((*ka, k, x, 0)),
                    }
                }
                i = to.max(i + 1);
            }
        }
        // a side that went around an outer loop has computed values again that are still
        // used at the meeting point
        let mut again: Vec<(usize, V)> = vec![];
        if j != RET {
            let dom = self.p.dominating(func, j);
            for k in 0..a.frames[top].regs.len() {
                let (x, y) = (&a.frames[top].regs[k], &b.frames[top].regs[k]);
                if veq(x, y) || !dom[k] || live.iter().any(|(d, _)| *d as usize == k) {
                    continue;
                }
                match (x, y) {
                    (V::S(_), V::C(_) | V::S(_)) | (V::C(_), V::S(_)) => {
                        let (x, y) = (x.clone(), y.clone());
                        let v = self.ite(c, &x, &y, |_| 0, 0);
                        again.push((k, v));
                    }
                    _ => return None,
                }
            }
        }
        for (d, ty) in &live {
            let (x, y) = (a.frames[top].regs[*d as usize].clone(), b.frames[top].regs[*d as usize].clone());
            if !veq(&x, &y) {
                let v = self.ite_ty(c, &x, &y, p.m.resolve(*ty));
                a.frames[top].regs[*d as usize] = v;
            }
        }
        {
            let rb = &b.frames[top].regs;
            for (k, x) in a.frames[top].regs.iter_mut().enumerate() {
                if !live.iter().any(|(d, _)| *d as usize == k) && !veq(x, &rb[k]) {
                    *x = V::U;
                }
            }
            for (k, v) in again {
                a.frames[top].regs[k] = v;
            }
        }
        for (base, off, sym, byte) in edits {
            let o = Rc::make_mut(a.mem.get_mut(&base).unwrap());
            let size = o.size as usize;
            if sym != 0 {
                o.sym.get_or_insert_with(|| vec![0; size])[off] = sym;
            } else {
                if let Some(s) = &mut o.sym {
                    s[off] = 0;
                }
                o.bytes[off] = byte;
            }
        }
        a.steps = a.steps + b.steps - st.steps;
        Some(a)
    }
    /// pick one value of an expression; the other values are explored by forked states
    fn conc(&mut self, st: &mut State, v: &V) -> R<u128> {
        let r = match v {
            V::C(k) => return Ok(*k),
            V::S(r) => *r,
            V::U => return Err(Stop::Violation { kind: "memory", id: "undefined".into(), msg: "undefined value where a concrete one is needed".into() }),
            V::A(_) => return Err(Stop::Error("aggregate".into())),
        };
        if let Some(k) = st.pins.get(&r) {
            return Ok(*k);
        }
        let k = self.eval(st, r);
        let w = self.ex.w(r);
        let kc = self.ex.cst(w, k);
        let eq = self.ex.bin(Op::Eq, r, kc);
        let ne = self.ex.not(eq);
        if let Some(m) = self.check(st, ne)? {
            let mut s2 = st.fork();
            self.add(&mut s2, ne);
            self.set_model(&mut s2, &m);
            self.rep.forks += 1;
            self.fork_site(st);
            self.work.push(s2);
            self.add(st, eq);
        }
        st.pin_value(&self.ex, r, k);
        Ok(k)
    }

    // ---------- memory
    fn gfind(&self, addr: u64) -> Option<usize> {
        let g = &self.p.m.globals;
        let i = g.partition_point(|x| x.addr <= addr);
        if i == 0 {
            return None;
        }
        let i = i - 1;
        if addr <= g[i].addr + g[i].size {
            Some(i)
        } else {
            None
        }
    }
    /// base and size of the object containing [addr, addr+n)
    fn find(&self, st: &State, addr: u64, n: u64) -> Option<(u64, u64)> {
        if let Some((b, o)) = st.mem.range(..=addr).next_back() {
            if addr + n <= b + o.size {
                return Some((*b, o.size));
            }
        }
        if addr >= GL_BASE && addr < HEAP_BASE {
            if let Some(i) = self.gfind(addr) {
                let g = &self.p.m.globals[i];
                if addr + n <= g.addr + g.size {
                    return Some((g.addr, g.size));
                }
            }
        }
        None
    }
    /// as `find`, for objects of symbolic size too: what is accessed has to be allocated
    /// whatever the size is
    fn find_grow(&mut self, st: &mut State, addr: u64, n: u64) -> R<Option<(u64, u64)>> {
        if let Some(x) = self.find(st, addr, n) {
            return Ok(Some(x));
        }
        let (base, asked) = match st.mem.range(..=addr).next_back() {
            Some((b, o)) => match o.asked {
                Some(a) if addr + n - *b < 1 << 30 => (*b, a),
                _ => return Ok(None),
            },
            None => return Ok(None),
        };
        let need = addr + n - base;
        let k = self.ex.cst(64, need as u128);
        let less = self.ex.bin(Op::Ult, asked, k);
        if self.ex.as_const(less) == Some(1) {
            return Ok(None);
        }
        if self.ex.as_const(less) != Some(0) {
            if let Some(m) = self.check(st, less)? {
                self.add(st, less);
                self.set_model(st, &m);
                return Ok(None);
            }
        }
        let o = Rc::make_mut(st.mem.get_mut(&base).unwrap());
        let old = o.bytes.len();
        o.size = need;
        o.bytes.resize(need as usize, 0);
        if let Some(y) = &mut o.sym {
            y.resize(need as usize, UNINIT);
        } else {
            let mut y = vec![0; o.bytes.len()];
            y[old..].fill(UNINIT);
            o.sym = Some(y);
        }
        Ok(Some((base, need)))
    }
    /// the size of an allocation, if it is to stay symbolic
    fn sym_size(&mut self, st: &State, v: &V) -> Option<Ref> {
        match v {
            V::S(r) if st.sym_alloc && self.spec == 0 && !st.pins.contains_key(r) && self.ex.as_const(*r).is_none() => Some(*r),
            _ => None,
        }
    }
    fn alloc_sym(&mut self, st: &mut State, asked: Ref, align: u64) -> u64 {
        let a = self.alloc(st, 0, align, false);
        st.heap_next += 1 << 36;
        Rc::make_mut(st.mem.get_mut(&a).unwrap()).asked = Some(asked);
        a
    }
    fn memerr(&self, addr: u64, n: u64, what: &str) -> Stop {
        Stop::Violation { kind: "memory", id: what.to_string(), msg: format!("{} of {} bytes at {:#x} outside any live object", what, n, addr) }
    }
    fn with_obj<T>(&self, st: &State, base: u64, f: impl FnOnce(&[u8], Option<&[u32]>) -> T) -> T {
        if let Some(o) = st.mem.get(&base) {
            return f(&o.bytes, o.sym.as_deref());
        }
        let i = self.gfind(base).unwrap();
        f(&self.p.m.globals[i].bytes, None)
    }
    fn obj_mut<'a>(&self, st: &'a mut State, base: u64) -> R<&'a mut Obj> {
        if !st.mem.contains_key(&base) {
            let i = self.gfind(base).unwrap();
            let g = &self.p.m.globals[i];
            if g.constant {
                return Err(Stop::Violation { kind: "memory", id: "write".into(), msg: format!("write to constant {}", g.name) });
            }
            st.mem.insert(base, Rc::new(Obj { size: g.size, bytes: g.bytes.clone(), sym: None, heap: false, asked: None }));
        }
        Ok(Rc::make_mut(st.mem.get_mut(&base).unwrap()))
    }
    fn load_bits(&mut self, st: &mut State, addr: u64, w: u16) -> R<V> {
        let n = ((w as u64) + 7) / 8;
        let (base, _) = self.find_grow(st, addr, n)?.ok_or_else(|| self.memerr(addr, n, "read"))?;
        let off = (addr - base) as usize;
        let n = n as usize;
        enum G {
            C(u128),
            U,
            Mixed(Vec<(u32, u8)>),
        }
        let g = self.with_obj(st, base, |b, s| {
            let conc = || {
                let mut x = [0u8; 16];
                x[..n].copy_from_slice(&b[off..off + n]);
                u128::from_le_bytes(x)
            };
            match s {
                None => G::C(conc()),
                Some(s) => {
                    let ss = &s[off..off + n];
                    if ss.iter().all(|x| *x == 0) {
                        G::C(conc())
                    } else if ss.iter().all(|x| *x == UNINIT) {
                        G::U
                    } else {
                        G::Mixed((0..n).map(|i| (ss[i], b[off + i])).collect())
                    }
                }
            }
        });
        match g {
            G::C(k) => Ok(V::C(k & mask(w))),
            G::U => Ok(V::U),
            G::Mixed(bs) => {
                let mut acc: Option<Ref> = None;
                for i in 0..n {
                    let (s, b) = bs[i];
                    let r = if s == 0 {
                        self.ex.cst(8, b as u128)
                    } else if s == UNINIT {
                        let (v, _) = self.ex.new_var(8);
                        let o = self.obj_mut(st, base)?;
                        o.sym.as_mut().unwrap()[off + i] = v;
                        v
                    } else {
                        match st.pins.get(&s) {
                            Some(k) => {
                                let k = *k;
                                self.ex.cst(8, k)
                            }
                            None => s,
                        }
                    };
                    acc = Some(match acc {
                        None => r,
                        Some(lo) => self.ex.concat(r, lo),
                    });
                }
                let mut r = acc.unwrap();
                if w as usize != n * 8 {
                    r = self.ex.extract(r, 0, w);
                }
                Ok(self.pin(st, self.from_ref(r)))
            }
        }
    }
    fn store_bits(&mut self, st: &mut State, addr: u64, w: u16, v: &V) -> R<()> {
        let n = ((w as u64) + 7) / 8;
        let (base, size) = self.find_grow(st, addr, n)?.ok_or_else(|| self.memerr(addr, n, "write"))?;
        if self.spec > 0 && n > 1 {
            self.spec_stores.push((addr, n));
        }
        let off = (addr - base) as usize;
        let n = n as usize;
        match v {
            V::C(k) => {
                let o = self.obj_mut(st, base)?;
                o.bytes[off..off + n].copy_from_slice(&k.to_le_bytes()[..n]);
                if let Some(s) = &mut o.sym {
                    s[off..off + n].fill(0);
                }
            }
            V::U => {
                let o = self.obj_mut(st, base)?;
                let s = o.sym.get_or_insert_with(|| vec![0; size as usize]);
                s[off..off + n].fill(UNINIT);
            }
            V::S(r) => {
                let mut r = *r;
                if w as usize != n * 8 {
                    r = self.ex.zext(r, (n * 8) as u16);
                }
                let mut parts = vec![];
                for i in 0..n {
                    parts.push(self.ex.extract(r, (i * 8) as u16, 8));
                }
                let cs: Vec<Option<u128>> = parts.iter().map(|p| self.ex.as_const(*p)).collect();
                let o = self.obj_mut(st, base)?;
                let s = o.sym.get_or_insert_with(|| vec![0; size as usize]);
                for i in 0..n {
                    match cs[i] {
                        Some(k) => {
                            s[off + i] = 0;
                            o.bytes[off + i] = k as u8;
                        }
                        None => s[off + i] = parts[i],
                    }
                }
            }
            V::A(_) => return Err(Stop::Error("store aggregate as bits".into())),
        }
        Ok(())
    }
    fn load_ty(&mut self, st: &mut State, addr: u64, ty: TyId) -> R<V> {
        let ty = self.p.m.resolve(ty);
        if self.p.m.is_agg(ty) {
            let n = self.p.m.nfields(ty);
            let mut v = Vec::with_capacity(n);
            for i in 0..n {
                let (o, t) = (self.p.m.field_off(ty, i), self.p.m.field_ty(ty, i));
                v.push(self.load_ty(st, addr + o, t)?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        let w = self.p.m.width(ty);
        self.load_bits(st, addr, w)
    }
    fn store_ty(&mut self, st: &mut State, addr: u64, ty: TyId, v: &V) -> R<()> {
        let ty = self.p.m.resolve(ty);
        if self.p.m.is_agg(ty) {
            let xs = match v {
                V::A(xs) => xs.clone(),
                V::U => return Ok(()),
                _ => return Err(Stop::Error("store of scalar as aggregate".into())),
            };
            for i in 0..xs.len() {
                let (o, t) = (self.p.m.field_off(ty, i), self.p.m.field_ty(ty, i));
                self.store_ty(st, addr + o, t, &xs[i])?;
            }
            return Ok(());
        }
        let w = self.p.m.width(ty);
        self.store_bits(st, addr, w, v)
    }
    /// candidate concrete addresses for an access through a symbolic pointer
    fn targets(&mut self, st: &mut State, r: Ref, n: u64, what: &str) -> R<Vec<u64>> {
        let a0 = self.eval(st, r) as u64;
        let (base, size) = match self.find_grow(st, a0, n)? {
            Some(x) => x,
            None => {
                return Err(self.memerr(a0, n, what));
            }
        };
        let b = self.ex.cst(64, base as u128);
        let d = self.ex.bin(Op::Sub, r, b);
        let lim = self.ex.cst(64, (size - n) as u128);
        let inb = self.ex.bin(Op::Ule, d, lim);
        if self.ex.as_const(inb) != Some(1) && !st.pc.contains(&inb) {
            let out = self.ex.not(inb);
            if let Some(m) = self.check(st, out)? {
                let mut s2 = st.fork();
                self.add(&mut s2, out);
                self.set_model(&mut s2, &m);
                self.rep.forks += 1;
                self.fork_site(st);
            self.work.push(s2);
                self.add(st, inb);
            }
        }
        // enumerate feasible addresses
        let mut out = vec![a0];
        let mut block = {
            let k = self.ex.cst(64, a0 as u128);
            let e = self.ex.bin(Op::Eq, r, k);
            self.ex.not(e)
        };
        loop {
            match self.check(st, block)? {
                None => return Ok(out),
                Some(m) => {
                    let mut nm = (*st.model).clone();
                    for (k, v) in m.iter() {
                        nm.insert(*k, *v);
                    }
                    let mut memo = HashMap::default();
                    let a = self.ex.eval(r, &nm, &mut memo) as u64;
                    out.push(a);
                    if out.len() > 24 {
                        break;
                    }
                    let k = self.ex.cst(64, a as u128);
                    let e = self.ex.bin(Op::Eq, r, k);
                    let ne = self.ex.not(e);
                    block = self.ex.bin(Op::And, block, ne);
                }
            }
        }
        if size > 8192 {
            return Err(Stop::Error("symbolic index into a large object".into()));
        }
        // over-approximate: every offset compatible with the common stride
        let mut stride = 0u64;
        for a in &out {
            let dd = if *a > a0 { a - a0 } else { a0 - a };
            stride = gcd(stride, dd);
        }
        let stride = if stride == 0 { 1 } else { 1 << stride.trailing_zeros() };
        if stride > 1 {
            // prove the stride
            let k = self.ex.cst(64, (stride - 1) as u128);
            let lowr = self.ex.bin(Op::And, r, k);
            let k0 = self.ex.cst(64, (a0 & (stride - 1)) as u128);
            let e = self.ex.bin(Op::Eq, lowr, k0);
            let ne = self.ex.not(e);
            if self.check(st, ne)?.is_some() {
                return Ok((base..=base + size - n).collect());
            }
        }
        let first = base + ((a0 - base) % stride);
        let mut v = vec![];
        let mut a = first;
        while a + n <= base + size {
            v.push(a);
            a += stride;
        }
        Ok(v)
    }

    fn push_frame(&mut self, st: &mut State, f: u32, args: Vec<V>, dst: Option<u32>, normal: Option<u32>) {
        let fun = &self.p.m.funcs[f as usize];
        let mut regs = vec![V::U; fun.nregs as usize];
        for (i, (_, r)) in fun.params.iter().enumerate() {
            if i < args.len() {
                regs[*r as usize] = args[i].clone();
            }
        }
        self.cov[f as usize][0] = true;
        st.frames.push(Frame { func: f, block: 0, ip: 0, regs, dst, normal, stack_mark: st.stack_next });
    }

    fn set(&self, st: &mut State, r: u32, v: V) {
        st.frames.last_mut().unwrap().regs[r as usize] = v;
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let p = self.p;
        let (func, from) = {
            let f = st.frames.last().unwrap();
            (f.func, f.block)
        };
        let b = &p.m.funcs[func as usize].blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, ty, inc) in &b.phis {
                let o = inc.iter().find(|(x, _)| *x == from).map(|(_, o)| o);
                let v = match o {
                    Some(o) => self.v(st, o, *ty),
                    None => V::U,
                };
                vals.push((*d, v));
            }
            for (d, v) in vals {
                self.set(st, d, v);
            }
        }
        let f = st.frames.last_mut().unwrap();
        f.block = to;
        f.ip = 0;
        self.cov[func as usize][to as usize] = true;
    }

    /// the job's time is up, or that left to all jobs once one of them found a violation
    fn late(&self) -> bool {
        if self.t0.elapsed().as_secs_f64() > self.opts.max_secs {
            return true;
        }
        let at = FIRST_VIOLATION.load(std::sync::atomic::Ordering::Relaxed);
        self.opts.grace > 0 && at > 0 && self.opts.start.elapsed().as_millis() as u64 > at + self.opts.grace * 1000
    }

    fn run_state(&mut self, st: &mut State) -> Stop {
        let p = self.p;
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick & 0xfff == 0 && self.late() {
                return Stop::Error("TIMEOUT".into());
            }
            if st.steps > self.opts.max_steps {
                return Stop::Violation { kind: "hang", id: "steps".into(), msg: format!("no end of the path after {} instructions", st.steps) };
            }
            let (func, block, ip) = {
                let f = st.frames.last().unwrap();
                (f.func, f.block, f.ip)
            };
            let b = &p.m.funcs[func as usize].blocks[block as usize];
            let inst = match b.insts.get(ip as usize) {
                Some(i) => i,
                None => return Stop::Error("fell off a block".into()),
            };
            st.steps += 1;
            self.rep.instrs += 1;
            match self.step(st, inst) {
                Ok(true) => {
                    st.frames.last_mut().unwrap().ip += 1;
                }
                Ok(false) => {}
                Err(s) => return s,
            }
        }
    }

    /// Ok(true): advance; Ok(false): control already transferred
    fn step(&mut self, st: &mut State, inst: &Inst) -> R<bool> {
        match inst {
            Inst::Bin { op, w, lanes, dst, a, b } => {
                let x = self.vs(st, a, *lanes);
                let y = self.vs(st, b, *lanes);
                let r = if *lanes == 0 {
                    self.bin(*op, *w, &x, &y)
                } else {
                    let (xs, ys) = (self.lanes(&x, *lanes), self.lanes(&y, *lanes));
                    V::A(Rc::new((0..*lanes as usize).map(|i| self.bin(*op, *w, &xs[i], &ys[i])).collect()))
                };
                self.set(st, *dst, r);
            }
            Inst::ICmp { p, w, lanes, dst, a, b } => {
                let x = self.vs(st, a, *lanes);
                let y = self.vs(st, b, *lanes);
                let r = if *lanes == 0 {
                    self.icmp(*p, *w, &x, &y)
                } else {
                    let (xs, ys) = (self.lanes(&x, *lanes), self.lanes(&y, *lanes));
                    V::A(Rc::new((0..*lanes as usize).map(|i| self.icmp(*p, *w, &xs[i], &ys[i])).collect()))
                };
                self.set(st, *dst, r);
            }
            Inst::Cast { op, from, to, lanes, dst, a } => {
                let x = self.vs(st, a, *lanes);
                let r = if *lanes == 0 {
                    self.cast(*op, *from, *to, &x)
                } else {
                    let xs = self.lanes(&x, *lanes);
                    V::A(Rc::new((0..*lanes as usize).map(|i| self.cast(*op, *from, *to, &xs[i])).collect()))
                };
                self.set(st, *dst, r);
            }
            Inst::Fp { op, from, to, lanes, dst, a, b } => {
                let x = self.vs(st, a, *lanes);
                let y = b.as_ref().map(|b| self.vs(st, b, *lanes));
                let r = if *lanes == 0 {
                    let mut v = vec![x];
                    v.extend(y);
                    self.fp(st, op, *from, *to, &v)?
                } else {
                    let xs = self.lanes(&x, *lanes);
                    let ys = y.map(|y| self.lanes(&y, *lanes));
                    let mut out = vec![];
                    for i in 0..*lanes as usize {
                        let mut v = vec![xs[i].clone()];
                        v.extend(ys.as_ref().map(|y| y[i].clone()));
                        out.push(self.fp(st, op, *from, *to, &v)?);
                    }
                    V::A(Rc::new(out))
                };
                self.set(st, *dst, r);
            }
            Inst::BitcastVec { from, to, dst, a } => {
                let x = self.v(st, a, *from);
                let r = self.bitcast(&x, *from, *to);
                self.set(st, *dst, r);
            }
            Inst::Gep { dst, base, off, terms } => {
                let mut acc = self.vs(st, base, 0);
                if let (V::C(b), true) = (&acc, terms.is_empty()) {
                    let r = V::C((*b as u64).wrapping_add(*off) as u128);
                    self.set(st, *dst, r);
                    return Ok(true);
                }
                if *off != 0 {
                    acc = self.bin(BinOp::Add, 64, &acc, &V::C(*off as u128));
                }
                for (o, w, scale) in terms {
                    let i = self.vs(st, o, 0);
                    let i = if *w < 64 { self.cast(CastOp::SExt, *w, 64, &i) } else { i };
                    let s = self.bin(BinOp::Mul, 64, &i, &V::C(*scale as u128));
                    acc = self.bin(BinOp::Add, 64, &acc, &s);
                }
                self.set(st, *dst, acc);
            }
            Inst::Load { dst, ty, ptr } => {
                let p = self.vs(st, ptr, 0);
                let r = match p {
                    V::C(a) => self.load_ty(st, a as u64, *ty)?,
                    V::S(r) => {
                        let n = self.p.m.size_of(*ty);
                        let ts = self.targets(st, r, n.max(1), "read")?;
                        let mut acc: Option<V> = None;
                        for t in ts {
                            let v = self.load_ty(st, t, *ty)?;
                            acc = Some(match acc {
                                None => v,
                                Some(x) => {
                                    let k = self.ex.cst(64, t as u128);
                                    let c = self.ex.bin(Op::Eq, r, k);
                                    self.ite_ty(c, &v, &x, *ty)
                                }
                            });
                        }
                        acc.unwrap()
                    }
                    _ => return Err(Stop::Error("load through an undefined pointer".into())),
                };
                self.set(st, *dst, r);
            }
            Inst::Store { ty, val, ptr } => {
                let v = self.v(st, val, *ty);
                let p = self.vs(st, ptr, 0);
                match p {
                    V::C(a) => self.store_ty(st, a as u64, *ty, &v)?,
                    V::S(r) => {
                        let n = self.p.m.size_of(*ty);
                        let ts = self.targets(st, r, n.max(1), "write")?;
                        for t in ts {
                            let old = self.load_ty(st, t, *ty)?;
                            let k = self.ex.cst(64, t as u128);
                            let c = self.ex.bin(Op::Eq, r, k);
                            let nv = self.ite_ty(c, &v, &old, *ty);
                            self.store_ty(st, t, *ty, &nv)?;
                        }
                    }
                    _ => return Err(Stop::Error("store through an undefined pointer".into())),
                }
            }
            Inst::Alloca { dst, size, align, n } => {
                let mut sz = *size;
                if let Some(o) = n {
                    let v = self.vs(st, o, 0);
                    sz *= self.conc(st, &v)? as u64;
                }
                let a = (*align).max(16);
                let addr = (st.stack_next + a - 1) / a * a;
                st.stack_next = addr + sz + 32;
                st.mem.insert(addr, Rc::new(Obj::uninit(sz, false)));
                self.set(st, *dst, V::C(addr as u128));
            }
            Inst::Select { dst, ty, c, cvec, a, b } => {
                let lanes = if *cvec { self.p.m.nfields(*ty) as u32 } else { 0 };
                let cv = self.vs(st, c, lanes);
                let x = self.v(st, a, *ty);
                let y = self.v(st, b, *ty);
                // a choice between two concrete lengths or pointers is a branch in disguise:
                // lengths and pointers are better kept concrete
                let r = if !*cvec && self.spec == 0 && matches!(cv, V::S(_)) && self.is_word(*ty) && matches!((&x, &y), (V::C(p), V::C(q)) if p != q) {
                    if self.branch(st, &cv)? {
                        x
                    } else {
                        y
                    }
                } else if *cvec {
                    let cs = self.lanes(&cv, lanes);
                    let xs = self.lanes(&x, lanes);
                    let ys = self.lanes(&y, lanes);
                    let et = self.p.m.field_ty(*ty, 0);
                    V::A(Rc::new((0..lanes as usize).map(|i| self.select1(&cs[i], &xs[i], &ys[i], et)).collect()))
                } else {
                    self.select1(&cv, &x, &y, *ty)
                };
                self.set(st, *dst, r);
            }
            Inst::Br(t) => {
                self.jump(st, *t);
                return Ok(false);
            }
            Inst::CondBr(c, t, e) => {
                let v = self.vs(st, c, 0);
                if let V::S(r) = v {
                    if self.try_merge(st, r, *t, *e) {
                        return Ok(false);
                    }
                }
                let s = self.branch(st, &v)?;
                self.jump(st, if s { *t } else { *e });
                return Ok(false);
            }
            Inst::Switch { w, v, default, cases } => {
                let x = self.vs(st, v, 0);
                match x {
                    V::C(k) => {
                        let t = cases.iter().find(|(c, _)| *c == k).map(|(_, b)| *b).unwrap_or(*default);
                        self.jump(st, t);
                    }
                    V::S(r) => {
                        let k = self.eval(st, r);
                        let t = cases.iter().find(|(c, _)| *c == k).map(|(_, b)| *b).unwrap_or(*default);
                        let is_case = cases.iter().any(|(c, _)| *c == k);
                        // condition under which control goes to the same arm
                        let mut cond = if is_case { self.ex.cst(1, 0) } else { self.ex.cst(1, 1) };
                        for (c, b) in cases {
                            let kc = self.ex.cst(*w, *c);
                            let e = self.ex.bin(Op::Eq, r, kc);
                            if is_case {
                                if *b == t {
                                    cond = self.ex.bin(Op::Or, cond, e);
                                }
                            } else {
                                let ne = self.ex.not(e);
                                cond = self.ex.bin(Op::And, cond, ne);
                            }
                        }
                        let cv = self.from_ref(cond);
                        let s = self.branch(st, &cv)?;
                        debug_assert!(s);
                        if !s {
                            return Err(Stop::Error("switch".into()));
                        }
                        self.jump(st, t);
                    }
                    _ => return Err(Stop::Violation { kind: "memory", id: "undefined".into(), msg: "switch on an undefined value".into() }),
                }
                return Ok(false);
            }
            Inst::Ret(o) => {
                let v = match o {
                    Some((t, o)) => Some(self.v(st, o, *t)),
                    None => None,
                };
                let f = st.frames.pop().unwrap();
                // release the stack objects of the frame
                let dead: Vec<u64> = st.mem.range(f.stack_mark..).filter(|(_, o)| !o.heap).map(|(a, _)| *a).collect();
                for a in dead {
                    st.mem.remove(&a);
                }
                st.stack_next = f.stack_mark;
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                if let (Some(d), Some(v)) = (f.dst, v) {
                    self.set(st, d, v);
                }
                match f.normal {
                    Some(b) => {
                        self.jump(st, b);
                        return Ok(false);
                    }
                    None => return Ok(true),
                }
            }
            Inst::Unreachable => return Err(Stop::Violation { kind: "unreachable", id: "unreachable".into(), msg: "control reached an unreachable point".into() }),
            Inst::Resume => return Err(Stop::Error("unwinding".into())),
            Inst::ExtractValue { dst, ty, a, path } => {
                let mut x = self.v(st, a, *ty);
                for i in path {
                    x = match x {
                        V::A(xs) => xs[*i as usize].clone(),
                        _ => V::U,
                    };
                }
                let x = self.pin(st, x);
                self.set(st, *dst, x);
            }
            Inst::InsertValue { dst, ty, a, v, vty, path } => {
                let x = self.v(st, a, *ty);
                let nv = self.v(st, v, *vty);
                let r = self.insert(x, *ty, path, nv);
                self.set(st, *dst, r);
            }
            Inst::ExtractElement { dst, ty, a, i } => {
                let x = self.v(st, a, *ty);
                let i = self.vs(st, i, 0);
                let i = self.conc(st, &i)? as usize;
                let n = self.p.m.nfields(*ty) as u32;
                let xs = self.lanes(&x, n);
                self.set(st, *dst, xs[i].clone());
            }
            Inst::InsertElement { dst, ty, a, v, i } => {
                let x = self.v(st, a, *ty);
                let et = self.p.m.field_ty(*ty, 0);
                let nv = self.v(st, v, et);
                let i = self.vs(st, i, 0);
                let i = self.conc(st, &i)? as usize;
                let n = self.p.m.nfields(*ty) as u32;
                let mut xs = (*self.lanes(&x, n)).clone();
                xs[i] = nv;
                self.set(st, *dst, V::A(Rc::new(xs)));
            }
            Inst::Shuffle { dst, ty, a, b, m } => {
                let n = self.p.m.nfields(*ty) as u32;
                let x = self.v(st, a, *ty);
                let y = self.v(st, b, *ty);
                let xs = self.lanes(&x, n);
                let ys = self.lanes(&y, n);
                let r = m
                    .iter()
                    .map(|k| match k {
                        None => V::U,
                        Some(k) if *k < n => xs[*k as usize].clone(),
                        Some(k) => ys[(*k - n) as usize].clone(),
                    })
                    .collect();
                self.set(st, *dst, V::A(Rc::new(r)));
            }
            Inst::Rmw { dst, op, w, ptr, v, ty } => {
                let p = self.vs(st, ptr, 0);
                let a = self.conc(st, &p)? as u64;
                let old = self.load_ty(st, a, *ty)?;
                let x = self.vs(st, v, 0);
                let nv = match op.as_str() {
                    "xchg" => x,
                    "add" => self.bin(BinOp::Add, *w, &old, &x),
                    "sub" => self.bin(BinOp::Sub, *w, &old, &x),
                    "and" => self.bin(BinOp::And, *w, &old, &x),
                    "or" => self.bin(BinOp::Or, *w, &old, &x),
                    "xor" => self.bin(BinOp::Xor, *w, &old, &x),
                    "umax" | "umin" => {
                        let c = self.icmp(if op == "umax" { Pred::Ugt } else { Pred::Ult }, *w, &old, &x);
                        self.select1(&c, &old, &x, *ty)
                    }
                    _ => return Err(Stop::Error(format!("atomicrmw {}", op))),
                };
                self.store_ty(st, a, *ty, &nv)?;
                self.set(st, *dst, old);
            }
            Inst::CmpXchg { dst, w, ty, ptr, old, new } => {
                let p = self.vs(st, ptr, 0);
                let a = self.conc(st, &p)? as u64;
                let cur = self.load_ty(st, a, *ty)?;
                let o = self.vs(st, old, 0);
                let n = self.vs(st, new, 0);
                let c = self.icmp(Pred::Eq, *w, &cur, &o);
                let s = self.branch(st, &c)?;
                if s {
                    self.store_ty(st, a, *ty, &n)?;
                }
                self.set(st, *dst, V::A(Rc::new(vec![cur, V::C(s as u128)])));
            }
            Inst::Freeze { dst, ty, a } => {
                let x = self.v(st, a, *ty);
                let r = self.freeze(&x, *ty);
                self.set(st, *dst, r);
            }
            Inst::Nop => {}
            Inst::Unsupported(e) => return Err(Stop::Error(format!("unsupported instruction: {}", e))),
            Inst::Call { dst, callee, args, ret, normal } => {
                return self.call(st, *dst, callee, args, *ret, *normal);
            }
        }
        Ok(true)
    }

    fn freeze(&mut self, x: &V, ty: TyId) -> V {
        match x {
            V::U => {
                if self.p.m.is_agg(ty) {
                    let n = self.p.m.nfields(ty);
                    let p = self.p;
                    V::A(Rc::new((0..n).map(|i| self.freeze(&V::U, p.m.field_ty(ty, i))).collect()))
                } else {
                    let w = self.p.m.width(ty);
                    V::S(self.ex.new_var(w).0)
                }
            }
            V::A(xs) => {
                let p = self.p;
                V::A(Rc::new(xs.iter().enumerate().map(|(i, v)| self.freeze(v, p.m.field_ty(ty, i))).collect()))
            }
            v => v.clone(),
        }
    }
    fn select1(&mut self, c: &V, a: &V, b: &V, ty: TyId) -> V {
        match c {
            V::C(k) => {
                if *k != 0 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            V::S(r) => self.ite_ty(*r, a, b, ty),
            _ => V::U,
        }
    }
    fn lanes(&self, v: &V, n: u32) -> Rc<Vec<V>> {
        match v {
            V::A(x) => x.clone(),
            _ => Rc::new(vec![V::U; n as usize]),
        }
    }
    fn insert(&mut self, x: V, ty: TyId, path: &[u32], nv: V) -> V {
        if path.is_empty() {
            return nv;
        }
        let n = self.p.m.nfields(ty) as u32;
        let mut xs = (*self.lanes(&x, n)).clone();
        let i = path[0] as usize;
        let et = self.p.m.field_ty(ty, i);
        xs[i] = self.insert(xs[i].clone(), et, &path[1..], nv);
        V::A(Rc::new(xs))
    }
    fn bitcast(&mut self, x: &V, from: TyId, to: TyId) -> V {
        // little endian: flatten to bits, then regroup
        let (fw, fl) = self.p.m.wl(from);
        let (tw, tl) = self.p.m.wl(to);
        let flat: Vec<V> = if fl == 0 { vec![x.clone()] } else { (*self.lanes(x, fl)).clone() };
        if flat.iter().all(|v| matches!(v, V::U)) {
            return if tl == 0 { V::U } else { V::A(Rc::new(vec![V::U; tl as usize])) };
        }
        let mut acc: Option<Ref> = None;
        for v in &flat {
            let r = self.to_ref(v, fw);
            acc = Some(match acc {
                None => r,
                Some(lo) => self.ex.concat(r, lo),
            });
        }
        let all = acc.unwrap();
        if tl == 0 {
            return self.from_ref(all);
        }
        let v = (0..tl)
            .map(|i| {
                let r = self.ex.extract(all, i as u16 * tw, tw);
                self.from_ref(r)
            })
            .collect();
        V::A(Rc::new(v))
    }

    fn read_str(&mut self, st: &mut State, p: u64, n: u64) -> String {
        let mut v = vec![];
        for i in 0..n.min(200) {
            match self.load_bits(st, p + i, 8) {
                Ok(V::C(k)) => v.push(k as u8),
                _ => v.push(b'?'),
            }
        }
        String::from_utf8_lossy(&v).to_string()
    }

    fn panic_info(&mut self, st: &mut State, args: &[V]) -> String {
        // the last argument is usually &Location { ptr, len, line, col }
        for a in args.iter().rev() {
            if let V::C(p) = a {
                let p = *p as u64;
                if self.find(st, p, 24).is_none() {
                    continue;
                }
                if let (Ok(V::C(sp)), Ok(V::C(n)), Ok(V::C(line)), Ok(V::C(col))) =
                    (self.load_bits(st, p, 64), self.load_bits(st, p + 8, 64), self.load_bits(st, p + 16, 32), self.load_bits(st, p + 20, 32))
                {
                    if n > 3 && n < 400 && line > 0 && line < 1_000_000 && self.find(st, sp as u64, n as u64).is_some() {
                        let s = self.read_str(st, sp as u64, n as u64);
                        if s.contains(".rs") {
                            return format!("{}:{}:{}", s, line, col);
                        }
                    }
                }
            }
        }
        String::new()
    }

    fn alloc(&mut self, st: &mut State, size: u64, align: u64, zero: bool) -> u64 {
        let align = align.max(16);
        let addr = (st.heap_next + align - 1) / align * align;
        st.heap_next = addr + size + 16;
        let o = if zero { Obj::zeroed(size, true) } else { Obj::uninit(size, true) };
        st.mem.insert(addr, Rc::new(o));
        addr
    }

    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        let (sb, _) = self.find_grow(st, s, n)?.ok_or_else(|| self.memerr(s, n, "read"))?;
        let (db, dsize) = self.find_grow(st, d, n)?.ok_or_else(|| self.memerr(d, n, "write"))?;
        let so = (s - sb) as usize;
        let n = n as usize;
        let (b, sy) = self.with_obj(st, sb, |b, sy| {
            let y = sy.map(|y| &y[so..so + n]).filter(|y| y.iter().any(|x| *x != 0)).map(|y| y.to_vec());
            (b[so..so + n].to_vec(), y)
        });
        let doff = (d - db) as usize;
        let o = self.obj_mut(st, db)?;
        o.bytes[doff..doff + n].copy_from_slice(&b);
        match sy {
            Some(y) => {
                let t = o.sym.get_or_insert_with(|| vec![0; dsize as usize]);
                t[doff..doff + n].copy_from_slice(&y);
            }
            None => {
                if let Some(t) = &mut o.sym {
                    t[doff..doff + n].fill(0);
                }
            }
        }
        Ok(())
    }

    fn call(&mut self, st: &mut State, dst: Option<u32>, callee: &Callee, args: &[(TyId, Opnd)], ret: TyId, normal: Option<u32>) -> R<bool> {
        let f = match callee {
            Callee::Fn(f) => *f,
            Callee::Addr(o) => {
                let v = self.vs(st, o, 0);
                let a = self.conc(st, &v)? as u64;
                let i = a.wrapping_sub(FN_BASE);
                if a < FN_BASE || i % 16 != 0 || i / 16 >= self.p.m.funcs.len() as u64 {
                    return Err(Stop::Violation { kind: "memory", id: "call".into(), msg: format!("call through a bad function pointer {:#x}", a) });
                }
                (i / 16) as u32
            }
            Callee::Asm(s) => {
                if s.contains("cpuid") {
                    let leaf = args.get(0).map(|(t, o)| self.v(st, o, *t)).unwrap_or(V::C(0));
                    let leaf = self.conc(st, &leaf)?;
                    // { eax, ebx, ecx, edx } in the order of the outputs: eax, rbx, ecx, edx
                    let vals: [u128; 4] = match leaf {
                        0 => [1, 0x756e6547, 0x6c65746e, 0x49656e69],
                        1 => [0x000506e3, 0, 1 | (1 << 9) | (1 << 13) | (1 << 19) | (1 << 20) | (1 << 23), 0x0780_0000 | (1 << 15)],
                        _ => [0, 0, 0, 0],
                    };
                    let n = self.p.m.nfields(ret);
                    let r = V::A(Rc::new((0..n).map(|i| V::C(vals[i.min(3)])).collect()));
                    if let Some(d) = dst {
                        self.set(st, d, r);
                    }
                } else if s.is_empty() {
                    // compiler barrier / black box
                    if let Some(d) = dst {
                        if let Some((t, o)) = args.get(0) {
                            let v = self.v(st, o, *t);
                            self.set(st, d, v);
                        }
                    }
                } else {
                    return Err(Stop::Error(format!("inline asm {}", s)));
                }
                return self.after(st, normal);
            }
        };
        let kind = self.p.kinds[f as usize];
        let mut av: Vec<V> = Vec::with_capacity(args.len() + 4);
        for (t, o) in args {
            let v = self.v(st, o, *t);
            av.push(v);
        }
        let (f, kind) = match kind {
            // futex: to the model's scheduler
            B::Syscall if self.p.m.fmap.contains_key("mk_futex") && self.conc(st, &av[0])? == 202 => {
                av.remove(0);
                (self.p.m.fmap["mk_futex"], B::Defined)
            }
            k => (f, k),
        };
        match kind {
            B::Defined => {
                if st.frames.len() > 2000 {
                    return Err(Stop::Violation { kind: "hang", id: "recursion".into(), msg: "call depth over 2000".into() });
                }
                self.push_frame(st, f, av, dst, normal);
                return Ok(false);
            }
            B::Panic => {
                if st.expect_panic {
                    return Err(Stop::ExpectedPanic);
                }
                let msg = self.panic_info(st, &av);
                return Err(Stop::Violation { kind: "panic", id: "panic".into(), msg });
            }
            _ => {}
        }
        let r = self.builtin(st, kind, f, args, &av, ret)?;
        if let (Some(d), Some(v)) = (dst, r) {
            self.set(st, d, v);
        }
        self.after(st, normal)
    }
    fn after(&mut self, st: &mut State, normal: Option<u32>) -> R<bool> {
        match normal {
            Some(b) => {
                self.jump(st, b);
                Ok(false)
            }
            None => Ok(true),
        }
    }

    fn lane_op(&mut self, l: L, w: u16, a: &[V], rw: u16) -> V {
        use L::*;
        if a.iter().take(match l {
            Ctlz | Cttz | Abs | Ctpop | Bswap | Bitrev => 1,
            Fshl | Fshr => 3,
            _ => 2,
        }).any(|v| matches!(v, V::U)) {
            return V::U;
        }
        match l {
            UMin | UMax | SMin | SMax => {
                let p = match l {
                    UMin => Pred::Ult,
                    UMax => Pred::Ugt,
                    SMin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = self.icmp(p, w, &a[0], &a[1]);
                match c {
                    V::C(k) => {
                        if k != 0 {
                            a[0].clone()
                        } else {
                            a[1].clone()
                        }
                    }
                    V::S(r) => self.ite(r, &a[0], &a[1], |_| w, 0),
                    _ => V::U,
                }
            }
            Ctlz | Cttz => {
                if let V::C(k) = a[0] {
                    let n = if k == 0 {
                        w as u128
                    } else if l == Ctlz {
                        (k.leading_zeros() - (128 - w as u32)) as u128
                    } else {
                        k.trailing_zeros() as u128
                    };
                    return V::C(n);
                }
                let x = self.to_ref(&a[0], w);
                let mut acc = self.ex.cst(w, w as u128);
                // last applied wins: most significant (ctlz) / least significant (cttz) bit
                for i in 0..w {
                    let bit = if l == Ctlz { i } else { w - 1 - i };
                    let b = self.ex.extract(x, bit, 1);
                    let n = if l == Ctlz { w - 1 - bit } else { bit };
                    let k = self.ex.cst(w, n as u128);
                    acc = self.ex.ite(b, k, acc);
                }
                self.from_ref(acc)
            }
            Ctpop => {
                if let V::C(k) = a[0] {
                    return V::C(k.count_ones() as u128);
                }
                let x = self.to_ref(&a[0], w);
                let mut acc = self.ex.cst(w, 0);
                for i in 0..w {
                    let b = self.ex.extract(x, i, 1);
                    let z = self.ex.zext(b, w);
                    acc = self.ex.bin(Op::Add, acc, z);
                }
                self.from_ref(acc)
            }
            Fshl | Fshr => {
                let s = match &a[2] {
                    V::C(k) => *k % w as u128,
                    _ => {
                        // symbolic amount: (hi << s) | (lo >> (w - s)), s = amount mod w
                        let hi = self.to_ref(&a[0], w);
                        let lo = self.to_ref(&a[1], w);
                        let amt = self.to_ref(&a[2], w);
                        let wk = self.ex.cst(w, w as u128);
                        let s = self.ex.bin(Op::URem, amt, wk);
                        let inv = self.ex.bin(Op::Sub, wk, s);
                        let (x, y) = if l == Fshl {
                            (self.ex.bin(Op::Shl, hi, s), self.ex.bin(Op::LShr, lo, inv))
                        } else {
                            (self.ex.bin(Op::Shl, hi, inv), self.ex.bin(Op::LShr, lo, s))
                        };
                        let r = self.ex.bin(Op::Or, x, y);
                        return self.from_ref(r);
                    }
                };
                let s = s as u16;
                if s == 0 {
                    return if l == Fshl { a[0].clone() } else { a[1].clone() };
                }
                let hi = self.to_ref(&a[0], w);
                let lo = self.to_ref(&a[1], w);
                let r = if l == Fshl {
                    let x = self.ex.extract(hi, 0, w - s);
                    let y = self.ex.extract(lo, w - s, s);
                    self.ex.concat(x, y)
                } else {
                    let x = self.ex.extract(hi, 0, s);
                    let y = self.ex.extract(lo, s, w - s);
                    self.ex.concat(x, y)
                };
                self.from_ref(r)
            }
            Abs => {
                let c = self.icmp(Pred::Slt, w, &a[0], &V::C(0));
                let n = self.bin(BinOp::Sub, w, &V::C(0), &a[0]);
                match c {
                    V::C(k) => {
                        if k != 0 {
                            n
                        } else {
                            a[0].clone()
                        }
                    }
                    V::S(r) => self.ite(r, &n, &a[0], |_| w, 0),
                    _ => V::U,
                }
            }
            Bswap => {
                let x = self.to_ref(&a[0], w);
                let mut acc: Option<Ref> = None;
                for i in 0..w / 8 {
                    // byte i (low first) becomes the most significant so far
                    let b = self.ex.extract(x, i * 8, 8);
                    acc = Some(match acc {
                        None => b,
                        Some(h) => self.ex.concat(h, b),
                    });
                }
                self.from_ref(acc.unwrap())
            }
            Bitrev => {
                let x = self.to_ref(&a[0], w);
                let mut acc: Option<Ref> = None;
                for i in 0..w {
                    let b = self.ex.extract(x, i, 1);
                    acc = Some(match acc {
                        None => b,
                        Some(h) => self.ex.concat(h, b),
                    });
                }
                self.from_ref(acc.unwrap())
            }
            USubSat => {
                let c = self.icmp(Pred::Ult, w, &a[0], &a[1]);
                let d = self.bin(BinOp::Sub, w, &a[0], &a[1]);
                match c {
                    V::C(k) => {
                        if k != 0 {
                            V::C(0)
                        } else {
                            d
                        }
                    }
                    V::S(r) => self.ite(r, &V::C(0), &d, |_| w, 0),
                    _ => V::U,
                }
            }
            UAddSat => {
                let s = self.bin(BinOp::Add, w, &a[0], &a[1]);
                let c = self.icmp(Pred::Ult, w, &s, &a[0]);
                match c {
                    V::C(k) => {
                        if k != 0 {
                            V::C(mask(w))
                        } else {
                            s
                        }
                    }
                    V::S(r) => self.ite(r, &V::C(mask(w)), &s, |_| w, 0),
                    _ => V::U,
                }
            }
            UCmp | SCmp => {
                let lt = self.icmp(if l == UCmp { Pred::Ult } else { Pred::Slt }, w, &a[0], &a[1]);
                let gt = self.icmp(if l == UCmp { Pred::Ugt } else { Pred::Sgt }, w, &a[0], &a[1]);
                let g = self.to_ref(&gt, 1);
                let t = self.to_ref(&lt, 1);
                let one = self.ex.cst(rw, 1);
                let zero = self.ex.cst(rw, 0);
                let m1 = self.ex.cst(rw, mask(rw));
                let x = self.ex.ite(g, one, zero);
                let r = self.ex.ite(t, m1, x);
                self.from_ref(r)
            }
        }
    }

    fn overflow(&mut self, kind: B, w: u16, a: &V, b: &V) -> V {
        if matches!(a, V::U) || matches!(b, V::U) {
            return V::A(Rc::new(vec![V::U, V::U]));
        }
        let (x, y) = (self.to_ref(a, w), self.to_ref(b, w));
        let (op, signed) = match kind {
            B::UAddO => (Op::Add, false),
            B::USubO => (Op::Sub, false),
            B::UMulO => (Op::Mul, false),
            B::SAddO => (Op::Add, true),
            B::SSubO => (Op::Sub, true),
            _ => (Op::Mul, true),
        };
        let r = self.ex.bin(op, x, y);
        let o = match (op, signed) {
            (Op::Add, false) => self.ex.bin(Op::Ult, r, x),
            (Op::Sub, false) => self.ex.bin(Op::Ult, x, y),
            _ => {
                let w2 = if op == Op::Mul { w * 2 } else { w + 1 };
                if w2 > 128 {
                    return V::A(Rc::new(vec![self.from_ref(r), V::U]));
                }
                let (xe, ye) = if signed { (self.ex.sext_to(x, w2), self.ex.sext_to(y, w2)) } else { (self.ex.zext(x, w2), self.ex.zext(y, w2)) };
                let full = self.ex.bin(op, xe, ye);
                let back = if signed { self.ex.sext_to(r, w2) } else { self.ex.zext(r, w2) };
                let e = self.ex.bin(Op::Eq, full, back);
                self.ex.not(e)
            }
        };
        V::A(Rc::new(vec![self.from_ref(r), self.from_ref(o)]))
    }

    fn builtin(&mut self, st: &mut State, kind: B, f: u32, args: &[(TyId, Opnd)], a: &[V], ret: TyId) -> R<Option<V>> {
        let p = self.p;
        if self.spec > 0 {
            use B::*;
            match kind {
                Malloc | Calloc | Realloc | Free | PosixMemalign | AlignedAlloc | Abort | Getrandom | Syscall | Write | MkAny | MkAssume | MkAssert | MkReach | MkExpectPanic | MkSymAlloc | MkObs | MkConcretize | MkExit | MkRange => {
                    return Err(Stop::Error("speculation".into()))
                }
                _ => {}
            }
        }
        match kind {
            B::Unknown => return Err(Stop::Error(format!("call of unmodelled external function {}", p.m.funcs[f as usize].name))),
            B::Nop => return Ok(None),
            B::Zero64 | B::Const0 => return Ok(Some(V::C(0))),
            B::Id => return Ok(Some(a[0].clone())),
            B::Trap => return Err(Stop::Violation { kind: "trap", id: "trap".into(), msg: "trap instruction".into() }),
            B::Abort => {
                if st.expect_panic {
                    return Err(Stop::ExpectedPanic);
                }
                return Err(Stop::Violation { kind: "panic", id: "abort".into(), msg: "abort".into() });
            }
            B::Assume => return Ok(None),
            B::Memcpy => {
                let n = self.conc(st, &a[2])? as u64;
                if n > 0 {
                    let d = self.conc(st, &a[0])? as u64;
                    let s = self.conc(st, &a[1])? as u64;
                    self.copy(st, d, s, n)?;
                }
                return Ok(Some(a[0].clone()));
            }
            B::Memset => {
                let n = self.conc(st, &a[2])? as u64;
                if n == 0 {
                    return Ok(Some(a[0].clone()));
                }
                let d = self.conc(st, &a[0])? as u64;
                let (base, size) = self.find_grow(st, d, n)?.ok_or_else(|| self.memerr(d, n, "write"))?;
                let off = (d - base) as usize;
                let n = n as usize;
                let (c, s) = match &a[1] {
                    V::C(k) => (*k as u8, 0u32),
                    V::S(r) => {
                        let r = if self.ex.w(*r) > 8 { self.ex.extract(*r, 0, 8) } else { *r };
                        (0, r)
                    }
                    _ => (0, UNINIT),
                };
                let o = self.obj_mut(st, base)?;
                o.bytes[off..off + n].fill(c);
                if s != 0 {
                    o.sym.get_or_insert_with(|| vec![0; size as usize])[off..off + n].fill(s);
                } else if let Some(t) = &mut o.sym {
                    t[off..off + n].fill(0);
                }
                return Ok(Some(a[0].clone()));
            }
            B::Lane(l) => {
                let (w, lanes) = p.m.wl(args[0].0);
                if lanes == 0 {
                    let rw = p.m.width(ret);
                    return Ok(Some(self.lane_op(l, w, a, rw)));
                }
                let (rw, _) = p.m.wl(ret);
                let cols: Vec<Rc<Vec<V>>> = a.iter().zip(args).map(|(v, (t, _))| if p.m.is_agg(*t) { self.lanes(v, lanes) } else { Rc::new(vec![v.clone(); lanes as usize]) }).collect();
                let mut out = vec![];
                for i in 0..lanes as usize {
                    let row: Vec<V> = cols.iter().map(|c| c[i].clone()).collect();
                    out.push(self.lane_op(l, w, &row, rw));
                }
                return Ok(Some(V::A(Rc::new(out))));
            }
            B::Fp(op) => {
                let (w, lanes) = p.m.wl(args[0].0);
                let (to, _) = p.m.wl(ret);
                let n = if op == "copysign" || op == "minnum" || op == "maxnum" { 2 } else { 1 };
                if lanes == 0 {
                    return Ok(Some(self.fp(st, op, w, to, &a[..n])?));
                }
                let mut out = vec![];
                for i in 0..lanes as usize {
                    let row: Vec<V> = a[..n].iter().map(|v| self.lanes(v, lanes)[i].clone()).collect();
                    out.push(self.fp(st, op, w, to, &row)?);
                }
                return Ok(Some(V::A(Rc::new(out))));
            }
            B::UAddO | B::USubO | B::UMulO | B::SAddO | B::SSubO | B::SMulO => {
                let w = p.m.width(args[0].0);
                return Ok(Some(self.overflow(kind, w, &a[0], &a[1])));
            }
            B::LduDq => {
                let addr = self.conc(st, &a[0])? as u64;
                return Ok(Some(self.load_ty(st, addr, ret)?));
            }
            B::LoadRel => {
                let base = self.conc(st, &a[0])? as u64;
                let off = self.conc(st, &a[1])? as u64;
                let v = self.load_bits(st, base.wrapping_add(off), 32)?;
                let d = self.conc(st, &v)?;
                return Ok(Some(V::C(base.wrapping_add(sext(d, 32) as u64) as u128)));
            }
            B::ReduceAdd | B::ReduceOr | B::ReduceAnd | B::ReduceXor | B::ReduceUMax | B::ReduceUMin => {
                let (w, lanes) = p.m.wl(args[0].0);
                let xs = self.lanes(&a[0], lanes);
                let mut acc = xs[0].clone();
                for x in xs[1..].iter() {
                    acc = match kind {
                        B::ReduceAdd => self.bin(BinOp::Add, w, &acc, x),
                        B::ReduceOr => self.bin(BinOp::Or, w, &acc, x),
                        B::ReduceAnd => self.bin(BinOp::And, w, &acc, x),
                        B::ReduceXor => self.bin(BinOp::Xor, w, &acc, x),
                        B::ReduceUMax => self.lane_op(L::UMax, w, &[acc, x.clone()], w),
                        _ => self.lane_op(L::UMin, w, &[acc, x.clone()], w),
                    };
                }
                return Ok(Some(acc));
            }
            B::Malloc | B::Calloc | B::AlignedAlloc => {
                if kind == B::Malloc {
                    if let Some(r) = self.sym_size(st, &a[0]) {
                        let x = self.alloc_sym(st, r, 16);
                        return Ok(Some(V::C(x as u128)));
                    }
                }
                let (n, al) = match kind {
                    B::Malloc => (self.conc(st, &a[0])?, 16),
                    B::Calloc => (self.conc(st, &a[0])?.saturating_mul(self.conc(st, &a[1])?), 16),
                    _ => (self.conc(st, &a[1])?, self.conc(st, &a[0])? as u64),
                };
                if n > 1 << 28 {
                    return Ok(Some(V::C(0)));
                }
                let r = self.alloc(st, n as u64, al, kind == B::Calloc);
                return Ok(Some(V::C(r as u128)));
            }
            B::PosixMemalign => {
                let out = self.conc(st, &a[0])? as u64;
                let al = self.conc(st, &a[1])? as u64;
                let n = self.conc(st, &a[2])?;
                if n > 1 << 28 {
                    return Ok(Some(V::C(12)));
                }
                let r = self.alloc(st, n as u64, al, false);
                self.store_bits(st, out, 64, &V::C(r as u128))?;
                return Ok(Some(V::C(0)));
            }
            B::Realloc => {
                let old = self.conc(st, &a[0])? as u64;
                if let Some(r) = self.sym_size(st, &a[1]) {
                    let osz = match st.mem.get(&old) {
                        Some(o) if o.heap => o.size,
                        None if old == 0 => 0,
                        _ => return Err(self.memerr(old, 0, "realloc")),
                    };
                    let k = self.ex.cst(64, osz as u128);
                    let less = self.ex.bin(Op::Ult, r, k);
                    if self.check(st, less)?.is_none() {
                        let x = self.alloc_sym(st, r, 16);
                        self.copy(st, x, old, osz)?;
                        st.mem.remove(&old);
                        return Ok(Some(V::C(x as u128)));
                    }
                }
                let n = self.conc(st, &a[1])?;
                if n > 1 << 28 {
                    return Ok(Some(V::C(0)));
                }
                let n = n as u64;
                if old == 0 {
                    let r = self.alloc(st, n, 16, false);
                    return Ok(Some(V::C(r as u128)));
                }
                let osz = match st.mem.get(&old) {
                    Some(o) if o.heap => o.size,
                    _ => return Err(self.memerr(old, 0, "realloc")),
                };
                let r = self.alloc(st, n, 16, false);
                self.copy(st, r, old, osz.min(n))?;
                st.mem.remove(&old);
                return Ok(Some(V::C(r as u128)));
            }
            B::Free => {
                let old = self.conc(st, &a[0])? as u64;
                if old != 0 {
                    match st.mem.get(&old) {
                        Some(o) if o.heap => {}
                        _ => return Err(self.memerr(old, 0, "free")),
                    }
                    st.mem.remove(&old);
                }
                return Ok(None);
            }
            B::Bcmp | B::Memcmp => {
                let n = self.conc(st, &a[2])? as u64;
                if n == 0 {
                    return Ok(Some(V::C(0)));
                }
                let x = self.conc(st, &a[0])? as u64;
                let y = self.conc(st, &a[1])? as u64;
                let mut acc = self.ex.cst(32, 0);
                for i in (0..n).rev() {
                    let u = self.load_bits(st, x + i, 8)?;
                    let v = self.load_bits(st, y + i, 8)?;
                    let u = self.to_ref(&u, 8);
                    let v = self.to_ref(&v, 8);
                    let eq = self.ex.bin(Op::Eq, u, v);
                    let d = if kind == B::Bcmp {
                        self.ex.cst(32, 1)
                    } else {
                        let lt = self.ex.bin(Op::Ult, u, v);
                        let m1 = self.ex.cst(32, u32::MAX as u128);
                        let one = self.ex.cst(32, 1);
                        self.ex.ite(lt, m1, one)
                    };
                    acc = self.ex.ite(eq, acc, d);
                }
                return Ok(Some(self.from_ref(acc)));
            }
            B::Strlen => {
                let x = self.conc(st, &a[0])? as u64;
                let mut i = 0u64;
                loop {
                    let v = self.load_bits(st, x + i, 8)?;
                    let z = self.icmp(Pred::Eq, 8, &v, &V::C(0));
                    if self.branch(st, &z)? {
                        return Ok(Some(V::C(i as u128)));
                    }
                    i += 1;
                }
            }
            B::Errno => return Ok(Some(V::C(ERRNO_ADDR as u128))),
            B::Getrandom | B::Syscall => {
                let o = if kind == B::Syscall {
                    let nr = self.conc(st, &a[0])?;
                    if nr != 318 {
                        return Err(Stop::Error(format!("syscall {}", nr)));
                    }
                    1
                } else {
                    0
                };
                // hash seeds: one fixed value (outside the claim)
                let p = self.conc(st, &a[o])? as u64;
                let n = self.conc(st, &a[o + 1])? as u64;
                for i in 0..n {
                    self.store_bits(st, p + i, 8, &V::C(((i * 37 + 11) & 0xff) as u128))?;
                }
                return Ok(Some(V::C(n as u128)));
            }
            B::Write => {
                let fd = self.conc(st, &a[0])?;
                if fd == 1 || fd == 2 {
                    return Ok(Some(a[2].clone()));
                }
                return Err(Stop::Error(format!("write to descriptor {}", fd)));
            }
            B::MkAny => {
                let w = self.conc(st, &a[0])? as u16;
                let (r, _) = self.ex.new_var(w);
                st.inputs.push((r, w));
                let z = self.ex.zext(r, 64);
                return Ok(Some(V::S(z)));
            }
            B::MkRange => {
                // value in [lo, hi]; width chosen to fit
                let lo = self.conc(st, &a[0])? as u64;
                let hi = self.conc(st, &a[1])? as u64;
                if lo > hi {
                    return Err(Stop::Error("mk_range".into()));
                }
                let w = (64 - hi.leading_zeros()).max(1) as u16;
                let (r, id) = self.ex.new_var(w);
                st.inputs.push((r, w));
                let l = self.ex.cst(w, lo as u128);
                let h = self.ex.cst(w, hi as u128);
                let c1 = self.ex.bin(Op::Ule, l, r);
                let c2 = self.ex.bin(Op::Ule, r, h);
                self.add(st, c1);
                self.add(st, c2);
                let mut m = HashMap::default();
                m.insert(id, lo as u128);
                self.set_model(st, &m);
                if lo == hi {
                    return Ok(Some(V::C(lo as u128)));
                }
                st.fresh = Some((r, id, lo, hi, st.pc.len()));
                let z = self.ex.zext(r, 64);
                return Ok(Some(V::S(z)));
            }
            B::MkAssume => {
                let v = self.cast(CastOp::Trunc, 8, 1, &self.fix_bool(&a[0]));
                match v {
                    V::C(0) => return Err(Stop::Infeasible),
                    V::C(_) => {}
                    V::S(r) => {
                        if self.eval(st, r) != 0 {
                            self.add(st, r);
                        } else {
                            match self.check(st, r)? {
                                None => return Err(Stop::Infeasible),
                                Some(m) => {
                                    self.add(st, r);
                                    self.set_model(st, &m);
                                }
                            }
                        }
                    }
                    _ => return Err(Stop::Error("assume of an undefined value".into())),
                }
                return Ok(None);
            }
            B::MkAssert => {
                let id = self.conc(st, &a[1])? as u64;
                *self.rep.asserts.entry(id).or_insert(0) += 1;
                let v = self.fix_bool(&a[0]);
                match v {
                    V::C(0) => return Err(Stop::Violation { kind: "assert", id: id.to_string(), msg: format!("assertion {} is false", id) }),
                    V::C(_) => {}
                    V::S(r) => {
                        self.rep.asserts_symbolic += 1;
                        if st.pc.contains(&r) {
                            return Ok(None);
                        }
                        let nr = self.ex.not(r);
                        if let Some(m) = self.check(st, nr)? {
                            let mut nm = (*st.model).clone();
                            for (k, v) in m.iter() {
                                nm.insert(*k, *v);
                            }
                            self.record(st, "assert", id.to_string(), format!("assertion {} can be false", id), &nm);
                            match self.check(st, r)? {
                                None => return Err(Stop::Infeasible),
                                Some(m) => {
                                    self.add(st, r);
                                    self.set_model(st, &m);
                                }
                            }
                        }
                    }
                    _ => return Err(Stop::Violation { kind: "memory", id: "undefined".into(), msg: "assertion over an undefined value".into() }),
                }
                return Ok(None);
            }
            B::MkReach => {
                let id = self.conc(st, &a[0])? as u64;
                *self.rep.reach.entry(id).or_insert(0) += 1;
                return Ok(None);
            }
            B::MkParam => {
                let i = self.conc(st, &a[0])? as usize;
                match self.params.get(i) {
                    Some(v) => return Ok(Some(V::C(*v as u128))),
                    None => return Err(Stop::Error(format!("no parameter {}", i))),
                }
            }
            B::MkSymAlloc => {
                st.sym_alloc = self.conc(st, &a[0])? != 0;
                return Ok(None);
            }
            B::MkExpectPanic => {
                let k = self.conc(st, &a[0])?;
                st.expect_panic = k != 0;
                return Ok(None);
            }
            B::MkObs => {
                st.obs.push(a[0].clone());
                return Ok(None);
            }
            B::MkConcretize => {
                // nothing but its bounds is known of a new range: every value is feasible
                if let (V::S(z), Some((r, id, lo, hi, n))) = (&a[0], st.fresh.take()) {
                    let z = *z;
                    if n == st.pc.len() && hi - lo < 256 && self.ex.zext(r, 64) == z {
                        let w = self.ex.w(r);
                        for v in (lo..=hi).rev() {
                            let k = self.ex.cst(w, v as u128);
                            let eq = self.ex.bin(Op::Eq, r, k);
                            let mut m = HashMap::default();
                            m.insert(id, v as u128);
                            if v == lo {
                                self.add(st, eq);
                                self.set_model(st, &m);
                                st.pin_value(&self.ex, z, v as u128);
                            } else {
                                let mut s2 = st.fork();
                                self.add(&mut s2, eq);
                                self.set_model(&mut s2, &m);
                                s2.pin_value(&self.ex, z, v as u128);
                                self.rep.forks += 1;
                                self.fork_site(st);
                                self.work.push(s2);
                            }
                        }
                        return Ok(Some(V::C(lo as u128)));
                    }
                }
                let k = self.conc(st, &a[0])?;
                return Ok(Some(V::C(k)));
            }
            B::MkIsSym => return Ok(Some(V::C(1))),
            B::MkExit => return Err(Stop::Exit),
            B::Defined | B::Panic => unreachable!(),
        }
    }
    fn fix_bool(&self, v: &V) -> V {
        v.clone()
    }
}

impl State {
    fn pin_value(&mut self, ex: &Exprs, r: Ref, k: u128) {
        self.pins.insert(r, k);
        let n = ex.nodes[r as usize];
        match n.op {
            Op::ZExt => self.pin_value(ex, n.a, k),
            Op::Concat => {
                let lw = ex.w(n.b);
                if ex.nodes[n.b as usize].op != Op::Const {
                    self.pin_value(ex, n.b, k & mask(lw));
                }
                if ex.nodes[n.a as usize].op != Op::Const {
                    self.pin_value(ex, n.a, k >> lw);
                }
            }
            _ => {}
        }
    }
    /// an equality with a constant that has become part of the path condition fixes a value
    fn pins_from(&mut self, ex: &Exprs, c: Ref) {
        let n = ex.nodes[c as usize];
        if n.op == Op::Eq {
            if let Some(k) = ex.as_const(n.b) {
                self.pin_value(ex, n.a, k);
            }
        } else if n.op == Op::And && n.w == 1 {
            self.pins_from(ex, n.a);
            self.pins_from(ex, n.b);
        } else if n.w == 1 {
            self.pins.insert(c, 1);
            if n.op == Op::Xor && ex.as_const(n.b) == Some(1) {
                self.pins.insert(n.a, 0);
            }
        }
    }
}

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
fn bop(o: BinOp) -> Op {
    match o {
        BinOp::Add => Op::Add,
        BinOp::Sub => Op::Sub,
        BinOp::Mul => Op::Mul,
        BinOp::UDiv => Op::UDiv,
        BinOp::SDiv => Op::SDiv,
        BinOp::URem => Op::URem,
        BinOp::SRem => Op::SRem,
        BinOp::Shl => Op::Shl,
        BinOp::LShr => Op::LShr,
        BinOp::AShr => Op::AShr,
        BinOp::And => Op::And,
        BinOp::Or => Op::Or,
        BinOp::Xor => Op::Xor,
    }
}
