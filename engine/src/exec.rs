//! Path-wise symbolic execution.
use crate::expr::{Arena, Op as X, E};
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Answer, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dec {
    Br(bool),
    Forced(bool),
    Val(u64, bool),
    Choice(u64),
}

#[derive(Clone, Debug)]
pub enum InVal {
    Con(u64),
    Sym(E),
}

#[derive(Clone)]
pub struct Frame {
    f: &'static Function,
    bb: u32,
    ip: u32,
    regs: Vec<Val>,
    dst: u32,
    normal: Option<u32>,
    stack_mark: usize,
}

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub frames: Vec<Frame>,
    pub pc: Vec<E>,
    pub model: Rc<Vec<u64>>,
    pub inputs: Vec<(char, InVal)>,
    pub nvars: u64,
    pub trace: Vec<(Dec, u64)>,
    /// number of the current instruction
    pub step0: u64,
    pub replay: VecDeque<(Dec, u64)>,
    pub steps: u64,
    pub budget_end: u64,
    pub max_used: u64,
    pub call_start: u64,
    pub reached: Vec<u32>,
    /// Observations, compared with a native run of the same inputs
    pub obs: Vec<Val>,
    pub nchecks: u64,
}

pub struct Job {
    trace: Vec<(Dec, u64)>,
    model: Vec<u64>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub site: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(char, u64)>,
    pub signature: String,
    pub steps: u64,
    pub by_solver: bool,
}

#[derive(Default)]
pub struct Results {
    pub paths: u64,
    pub killed: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub max_budget_used: u64,
    pub checks: u64,
    pub checks_syntactic: u64,
    pub checks_solver: u64,
    pub branches: u64,
    pub forks: u64,
    pub queries: u64,
    pub cache_hits: u64,
    pub solver_time: f64,
    pub slowest: f64,
    pub unknown: u64,
    pub unsupported: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub known: BTreeMap<String, u64>,
    pub reached: BTreeMap<u32, u64>,
    pub cov: HashMap<u32, BTreeSet<u32>>,
    /// inputs of some completed paths, and the digest of their observations
    pub samples: Vec<(Vec<(char, u64)>, u64)>,
    pub max_vars: u64,
    pub max_pc: u64,
    pub remaining: u64,
    pub stop_depths: u64,
}

pub struct Shared {
    pub m: &'static Module,
    pub entry: u32,
    pub jobs: Mutex<Vec<Job>>,
    pub cv: Condvar,
    pub idle: AtomicUsize,
    pub queued: AtomicUsize,
    pub workers: usize,
    pub stop: AtomicBool,
    pub stop_at: Mutex<Option<Instant>>,
    pub results: Mutex<Results>,
    pub known: Vec<String>,
    pub params: Vec<u64>,
    pub exts: Vec<Ext>,
    pub default_budget: u64,
    pub query_timeout: u32,
    pub verbose: bool,
    pub total_steps: AtomicU64,
    pub done_paths: AtomicU64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ext {
    Unsupported,
    Nop,
    UsymVar(u8),
    UsymRange,
    UsymChoice,
    UsymAssume,
    UsymCheck,
    UsymReach,
    UsymTrace,
    UsymConcretize,
    UsymHeapLive,
    UsymHeapCount,
    UsymBudget,
    UsymPrint,
    UsymPrintU64,
    UsymParam,
    UsymAlloc,
    UsymAllocZeroed,
    UsymDealloc,
    UsymRealloc,
    UsymSteps,
    UsymBytes,
    UsymIte,
    Memcpy,
    Memset,
    Memcmp,
    Strlen,
    GetRandom,
    Syscall,
    Abort,
    Assume,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    UMin,
    UMax,
    SMin,
    SMax,
    Abs,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    Ucmp,
    Scmp,
    Sqrt,
    Round,
    Floor,
    Ceil,
    FTrunc,
    Fabs,
    FMax,
    FMin,
    FpToUiSat,
    FpToSiSat,
    IsConstant,
    Expect,
    ThreadLocal,
    Fma,
    Pow,
    Powi,
    Exp,
    Log,
    PtrMask,
}

pub fn classify(n: &str) -> Ext {
    let p = |s: &str| n.starts_with(s);
    match n {
        "usym_u8" => return Ext::UsymVar(8),
        "usym_u16" => return Ext::UsymVar(16),
        "usym_u32" => return Ext::UsymVar(32),
        "usym_u64" => return Ext::UsymVar(64),
        "usym_range" => return Ext::UsymRange,
        "usym_choice" => return Ext::UsymChoice,
        "usym_assume" => return Ext::UsymAssume,
        "usym_check" => return Ext::UsymCheck,
        "usym_reach" => return Ext::UsymReach,
        "usym_trace" => return Ext::UsymTrace,
        "usym_concretize" => return Ext::UsymConcretize,
        "usym_heap_live" => return Ext::UsymHeapLive,
        "usym_heap_count" => return Ext::UsymHeapCount,
        "usym_budget" => return Ext::UsymBudget,
        "usym_print" => return Ext::UsymPrint,
        "usym_print_u64" => return Ext::UsymPrintU64,
        "usym_param" => return Ext::UsymParam,
        "usym_alloc" => return Ext::UsymAlloc,
        "usym_alloc_zeroed" => return Ext::UsymAllocZeroed,
        "usym_dealloc" => return Ext::UsymDealloc,
        "usym_realloc" => return Ext::UsymRealloc,
        "usym_steps" => return Ext::UsymSteps,
        "usym_bytes" => return Ext::UsymBytes,
        "usym_ite" => return Ext::UsymIte,
        "memcpy" | "memmove" => return Ext::Memcpy,
        "memset" => return Ext::Memset,
        "bcmp" | "memcmp" => return Ext::Memcmp,
        "strlen" => return Ext::Strlen,
        "getrandom" => return Ext::GetRandom,
        "syscall" => return Ext::Syscall,
        "abort" => return Ext::Abort,
        "pow" => return Ext::Pow,
        "exp" => return Ext::Exp,
        "log" => return Ext::Log,
        _ => {}
    }
    if p("llvm.memcpy") || p("llvm.memmove") { Ext::Memcpy }
    else if p("llvm.memset") { Ext::Memset }
    else if p("llvm.lifetime") || p("llvm.dbg") || p("llvm.experimental.noalias") || p("llvm.prefetch") || p("llvm.x86.sse2.pause") || p("llvm.invariant") || p("llvm.donothing") { Ext::Nop }
    else if p("llvm.assume") { Ext::Assume }
    else if p("llvm.uadd.with") { Ext::UAddO }
    else if p("llvm.usub.with") { Ext::USubO }
    else if p("llvm.umul.with") { Ext::UMulO }
    else if p("llvm.sadd.with") { Ext::SAddO }
    else if p("llvm.ssub.with") { Ext::SSubO }
    else if p("llvm.smul.with") { Ext::SMulO }
    else if p("llvm.uadd.sat") { Ext::UAddSat }
    else if p("llvm.usub.sat") { Ext::USubSat }
    else if p("llvm.sadd.sat") { Ext::SAddSat }
    else if p("llvm.ssub.sat") { Ext::SSubSat }
    else if p("llvm.umin") { Ext::UMin }
    else if p("llvm.umax") { Ext::UMax }
    else if p("llvm.smin") { Ext::SMin }
    else if p("llvm.smax") { Ext::SMax }
    else if p("llvm.abs") { Ext::Abs }
    else if p("llvm.ctlz") { Ext::Ctlz }
    else if p("llvm.cttz") { Ext::Cttz }
    else if p("llvm.ctpop") { Ext::Ctpop }
    else if p("llvm.bswap") { Ext::Bswap }
    else if p("llvm.bitreverse") { Ext::Bitreverse }
    else if p("llvm.fshl") { Ext::Fshl }
    else if p("llvm.fshr") { Ext::Fshr }
    else if p("llvm.ucmp") { Ext::Ucmp }
    else if p("llvm.scmp") { Ext::Scmp }
    else if p("llvm.sqrt") { Ext::Sqrt }
    else if p("llvm.round.") { Ext::Round }
    else if p("llvm.floor") { Ext::Floor }
    else if p("llvm.ceil") { Ext::Ceil }
    else if p("llvm.trunc") { Ext::FTrunc }
    else if p("llvm.fabs") { Ext::Fabs }
    else if p("llvm.maxnum") || p("llvm.maximumnum") { Ext::FMax }
    else if p("llvm.minnum") || p("llvm.minimumnum") { Ext::FMin }
    else if p("llvm.fptoui.sat") { Ext::FpToUiSat }
    else if p("llvm.fptosi.sat") { Ext::FpToSiSat }
    else if p("llvm.is.constant") { Ext::IsConstant }
    else if p("llvm.expect") { Ext::Expect }
    else if p("llvm.threadlocal") { Ext::ThreadLocal }
    else if p("llvm.trap") || p("llvm.ubsantrap") { Ext::Abort }
    else if p("llvm.fma") || p("llvm.fmuladd") { Ext::Fma }
    else if p("llvm.powi") { Ext::Powi }
    else if p("llvm.pow") { Ext::Pow }
    else if p("llvm.exp") { Ext::Exp }
    else if p("llvm.log") { Ext::Log }
    else if p("llvm.ptrmask") { Ext::PtrMask }
    else { Ext::Unsupported }
}

enum Stop {
    Done,
    Kill,
    Violation { kind: &'static str, msg: String, model: Option<Rc<Vec<u64>>>, site: Option<String> },
    Unsupported(String),
    Abandon,
}
type R<T> = Result<T, Stop>;

struct QueryResult {
    sat: Option<bool>,
    model: Option<Rc<Vec<(u32, u64)>>>,
}

pub struct Worker<'s> {
    sh: &'s Shared,
    pub ar: Arena,
    z: Z3,
    cache: HashMap<Vec<E>, Rc<QueryResult>>,
    stack: Vec<State>,
    res: Results,
    cov: Vec<Option<Box<[u64]>>>,
    ret_scratch: Vec<u8>,
    site_cache: HashMap<u32, String>,
}

fn m64(w: u32) -> u64 {
    mask64(u64::MAX, w)
}
fn sx(v: u64, w: u32) -> i64 {
    ((v << (64 - w)) as i64) >> (64 - w)
}
fn un(s: impl Into<String>) -> Stop {
    Stop::Unsupported(s.into())
}
fn w_of(name_w: u32) -> u8 {
    name_w as u8
}

fn rc_val(c: &RConst) -> Val {
    match c {
        RConst::I(v) => Val::C(*v),
        RConst::W(v) => Val::W(Rc::new((Val::C(*v as u64), Val::C((*v >> 64) as u64)))),
        RConst::Agg(vs) => Val::Agg(Rc::new(vs.iter().map(rc_val).collect())),
    }
}

impl<'s> Worker<'s> {
    pub fn new(sh: &'s Shared) -> Self {
        Worker {
            sh,
            ar: Arena::new(),
            z: Z3::new(sh.query_timeout),
            cache: HashMap::new(),
            stack: vec![],
            res: Results::default(),
            cov: vec![],
            ret_scratch: vec![],
            site_cache: HashMap::new(),
        }
    }

    fn root(&self) -> State {
        let f = self.sh.m.func(self.sh.entry);
        State {
            mem: Mem::new(self.sh.m),
            frames: vec![Frame { f, bb: 0, ip: 0, regs: vec![Val::C(0); f.nregs as usize], dst: NOREG, normal: None, stack_mark: 0 }],
            pc: vec![],
            model: Rc::new(vec![]),
            inputs: vec![],
            nvars: 0,
            trace: vec![],
            step0: 0,
            replay: VecDeque::new(),
            steps: 0,
            budget_end: self.sh.default_budget,
            max_used: 0,
            call_start: 0,
            reached: vec![],
            obs: vec![],
            nchecks: 0,
        }
    }

    // ------------------------------------------------------------ solver interface

    fn query(&mut self, st: &State, cond: E) -> Rc<QueryResult> {
        // constraints connected with cond
        let mut sup = self.ar.support(cond);
        let mut picked = vec![false; st.pc.len()];
        let mut set: Vec<E> = vec![cond];
        loop {
            let mut changed = false;
            for (i, c) in st.pc.iter().enumerate() {
                if picked[i] {
                    continue;
                }
                let s = self.ar.support(*c);
                if s.iter().any(|v| sup.binary_search(v).is_ok()) {
                    picked[i] = true;
                    set.push(*c);
                    sup = crate::expr::merge_support(&sup, &s);
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        set.sort_unstable();
        set.dedup();
        if let Some(r) = self.cache.get(&set) {
            self.res.cache_hits += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        let answer = self.z.check(&mut self.ar, &set);
        if self.sh.verbose && t0.elapsed().as_secs_f64() > 2.0 {
            let (site, stack) = self.site(st);
            eprintln!("slow query ({:.1}s) at {} {:?}", t0.elapsed().as_secs_f64(), site, stack.iter().take(4).collect::<Vec<_>>());
            for c in &set {
                eprintln!("   {}", self.ar.show(*c, 10));
            }
        }
        let r = match answer {
            Answer::Sat(m) => {
                // The model must satisfy the constraints in our own evaluation as well
                let mut v = (*st.model).clone();
                apply(&mut v, &m);
                self.ar.begin_eval();
                let mut ok = true;
                for c in &set {
                    if self.ar.eval_rec(*c, &v) != 1 {
                        ok = false;
                        if self.sh.verbose {
                            eprintln!("model does not satisfy {}", self.ar.show(*c, 8));
                        }
                        break;
                    }
                }
                if ok {
                    QueryResult { sat: Some(true), model: Some(Rc::new(m)) }
                } else {
                    self.res.unsupported.entry("solver model fails evaluation".into()).and_modify(|x| *x += 1).or_insert(1);
                    QueryResult { sat: None, model: None }
                }
            }
            Answer::Unsat => QueryResult { sat: Some(false), model: None },
            Answer::Unknown => {
                self.res.unknown += 1;
                QueryResult { sat: None, model: None }
            }
        };
        let r = Rc::new(r);
        if self.cache.len() > 400_000 {
            self.cache.clear();
        }
        self.cache.insert(set, r.clone());
        r
    }

    fn extend_model(&mut self, st: &State, m: &[(u32, u64)]) -> Rc<Vec<u64>> {
        let mut v = (*st.model).clone();
        apply(&mut v, m);
        Rc::new(v)
    }

    fn add_pc(&mut self, st: &mut State, c: E) {
        if self.ar.cv(c).is_some() {
            return;
        }
        // split conjunctions
        let n = *self.ar.n(c);
        if n.op == X::And {
            self.add_pc(st, n.a);
            self.add_pc(st, n.b);
            return;
        }
        if n.op == X::Xor && self.ar.cv(n.b) == Some(1) {
            let i = *self.ar.n(n.a);
            if i.op == X::Or {
                let x = self.ar.not(i.a);
                let y = self.ar.not(i.b);
                self.add_pc(st, x);
                self.add_pc(st, y);
                return;
            }
        }
        if !st.pc.contains(&c) {
            st.pc.push(c);
        }
    }

    fn push_fork(&mut self, mut s: State) {
        // the instruction is executed again
        s.steps = s.step0 - 1;
        self.res.forks += 1;
        self.stack.push(s);
        if self.sh.idle.load(Ordering::Relaxed) > self.sh.queued.load(Ordering::Relaxed) && self.stack.len() > 1 {
            let s = self.stack.remove(0);
            self.donate(s);
        }
    }
    fn donate(&mut self, s: State) {
        let mut trace = s.trace;
        trace.extend(s.replay.iter().copied());
        let job = Job { trace, model: (*s.model).clone() };
        let mut q = self.sh.jobs.lock().unwrap();
        q.push(job);
        self.sh.queued.store(q.len(), Ordering::Relaxed);
        self.sh.cv.notify_one();
    }

    /// The recorded decision for the current step, if there is one
    fn recorded(st: &mut State) -> Option<Dec> {
        Self::skip_stale(st);
        match st.replay.front() {
            Some((d, n)) if *n == st.step0 => {
                let d = *d;
                st.replay.pop_front();
                Some(d)
            }
            _ => None,
        }
    }

    /// Forgets recorded decisions that were not needed here
    fn skip_stale(st: &mut State) {
        while st.replay.front().map_or(false, |(_, n)| *n < st.step0) {
            st.replay.pop_front();
        }
    }

    /// Decides a symbolic condition, forking if both outcomes are possible.
    fn branch(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(v) = self.ar.cv(c) {
            return Ok(v == 1);
        }
        let nc = self.ar.not(c);
        if st.pc.contains(&c) {
            return Ok(true);
        }
        if st.pc.contains(&nc) {
            return Ok(false);
        }
        self.res.branches += 1;
        Self::skip_stale(st);
        if !st.replay.is_empty() {
            // Another worker's terms may simplify differently: a condition it decided
            // syntactically is decided here by the model, which satisfies the whole prefix.
            let Some(d) = Self::recorded(st) else {
                let model = st.model.clone();
                let v = self.ar.eval(c, &model) == 1;
                st.trace.push((Dec::Forced(v), st.step0));
                self.add_pc(st, if v { c } else { nc });
                return Ok(v);
            };
            st.trace.push((d, st.step0));
            return match d {
                Dec::Br(b) => {
                    self.add_pc(st, if b { c } else { nc });
                    Ok(b)
                }
                Dec::Forced(b) => Ok(b),
                _ => Err(un("replay divergence (branch)")),
            };
        }
        let model = st.model.clone();
        let v = self.ar.eval(c, &model) == 1;
        let (here, other) = if v { (c, nc) } else { (nc, c) };
        let q = self.query(st, other);
        match q.sat {
            Some(false) => {
                st.trace.push((Dec::Forced(v), st.step0));
                Ok(v)
            }
            Some(true) => {
                let mut o = st.clone();
                o.model = self.extend_model(st, q.model.as_ref().unwrap());
                o.replay.push_back((Dec::Br(!v), st.step0));
                self.push_fork(o);
                st.trace.push((Dec::Br(v), st.step0));
                self.add_pc(st, here);
                Ok(v)
            }
            None => {
                // undecided: recorded as incomplete, continue on the side known to be feasible
                st.trace.push((Dec::Forced(v), st.step0));
                Ok(v)
            }
        }
    }

    /// Picks one concrete value for the expression, forking for the others.
    fn concretize(&mut self, st: &mut State, e: E) -> R<u64> {
        if let Some(v) = self.ar.cv(e) {
            return Ok(v);
        }
        let w = self.ar.w(e);
        loop {
            Self::skip_stale(st);
            if !st.replay.is_empty() {
                let Some(d) = Self::recorded(st) else {
                    let model = st.model.clone();
                    let v = self.ar.eval(e, &model);
                    let k = self.ar.c(v, w);
                    let eq = self.ar.eq(e, k);
                    self.add_pc(st, eq);
                    return Ok(v);
                };
                st.trace.push((d, st.step0));
                match d {
                    Dec::Val(v, b) => {
                        let k = self.ar.c(v, w);
                        let c = if b { self.ar.eq(e, k) } else { self.ar.ne(e, k) };
                        self.add_pc(st, c);
                        if b {
                            return Ok(v);
                        }
                        continue;
                    }
                    _ => return Err(un("replay divergence (value)")),
                }
            }
            let model = st.model.clone();
            let v = self.ar.eval(e, &model);
            let k = self.ar.c(v, w);
            let ne = self.ar.ne(e, k);
            let q = if self.ar.cv(ne) == Some(0) { Rc::new(QueryResult { sat: Some(false), model: None }) } else { self.query(st, ne) };
            if q.sat == Some(true) {
                let mut o = st.clone();
                o.model = self.extend_model(st, q.model.as_ref().unwrap());
                o.replay.push_back((Dec::Val(v, false), st.step0));
                self.push_fork(o);
            }
            let eq = self.ar.not(ne);
            st.trace.push((Dec::Val(v, true), st.step0));
            self.add_pc(st, eq);
            return Ok(v);
        }
    }

    fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::C(x) => Ok(*x),
            Val::S(e) => self.concretize(st, *e),
            _ => Err(un("concretize aggregate")),
        }
    }

    fn new_var(&mut self, st: &mut State, w: u8, init: u64) -> E {
        let n = st.nvars;
        st.nvars += 1;
        let e = self.ar.var(n, w);
        if st.model.len() <= n as usize {
            let mv = Rc::make_mut(&mut st.model);
            mv.resize(n as usize + 1, 0);
            mv[n as usize] = init;
        } 
        e
    }

    fn assume(&mut self, st: &mut State, c: E) -> R<()> {
        if let Some(v) = self.ar.cv(c) {
            return if v == 1 { Ok(()) } else { Err(Stop::Kill) };
        }
        let model = st.model.clone();
        Self::skip_stale(st);
        if self.ar.eval(c, &model) != 1 && st.replay.is_empty() {
            let q = self.query(st, c);
            match q.sat {
                Some(true) => st.model = self.extend_model(st, q.model.as_ref().unwrap()),
                Some(false) => return Err(Stop::Kill),
                None => return Err(Stop::Abandon),
            }
        }
        self.add_pc(st, c);
        Ok(())
    }

    // ------------------------------------------------------------ values

    #[inline]
    fn val(fr: &Frame, o: Opnd) -> Val {
        match o {
            Opnd::Reg(r) => fr.regs[r as usize].clone(),
            Opnd::Imm(v) => Val::C(v),
            Opnd::Const(i) => rc_val(&fr.f.consts[i as usize]),
        }
    }
    fn ex(&mut self, v: &Val, w: u32) -> R<E> {
        Ok(match v {
            Val::C(x) => self.ar.c(*x, w_of(w)),
            Val::S(e) => {
                debug_assert_eq!(self.ar.w(*e) as u32, w);
                *e
            }
            _ => return Err(un("aggregate as scalar")),
        })
    }
    fn wide(&self, v: &Val) -> R<(Val, Val)> {
        match v {
            Val::W(p) => Ok((p.0.clone(), p.1.clone())),
            Val::C(x) => Ok((Val::C(*x), Val::C(0))),
            _ => Err(un("wide value")),
        }
    }
    fn wide_c(&self, v: &Val) -> Option<u128> {
        match v {
            Val::W(p) => match (&p.0, &p.1) {
                (Val::C(a), Val::C(b)) => Some(*a as u128 | (*b as u128) << 64),
                _ => None,
            },
            Val::C(x) => Some(*x as u128),
            _ => None,
        }
    }
    fn mk_wide(&self, v: u128) -> Val {
        Val::W(Rc::new((Val::C(v as u64), Val::C((v >> 64) as u64))))
    }

    fn load_ty(&mut self, st: &mut State, t: &Type, addr: u64) -> R<Val> {
        let fault = |e: String| Stop::Violation { kind: "memory", msg: e, model: None, site: None };
        match t {
            Type::Int(w) if *w <= 64 => {
                let n = (*w + 7) / 8;
                let v = st.mem.load(&mut self.ar, addr, n).map_err(fault)?;
                if w % 8 == 0 {
                    return Ok(v);
                }
                Ok(match v {
                    Val::C(x) => Val::C(mask64(x, *w)),
                    Val::S(e) => {
                        let x = self.ar.extract(e, 0, *w as u8);
                        norm(&self.ar, x)
                    }
                    v => v,
                })
            }
            Type::Int(w) if *w <= 128 => {
                let lo = st.mem.load(&mut self.ar, addr, 8).map_err(fault)?;
                let n = (*w - 64 + 7) / 8;
                let hi = st.mem.load(&mut self.ar, addr + 8, n).map_err(fault)?;
                let hi = match hi {
                    Val::S(e) => {
                        let x = self.ar.zext(e, 64);
                        Val::S(x)
                    }
                    v => v,
                };
                Ok(Val::W(Rc::new((lo, hi))))
            }
            Type::Ptr | Type::Double => st.mem.load(&mut self.ar, addr, 8).map_err(fault),
            Type::Float => st.mem.load(&mut self.ar, addr, 4).map_err(fault),
            Type::Vector(n, e) => {
                if e.bits() % 8 != 0 {
                    return Err(un("vector of odd width"));
                }
                let s = (e.bits() / 8) as u64;
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_ty(st, e, addr + i * s)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            Type::Struct(..) | Type::Array(..) => {
                let mut v = vec![];
                for i in 0..t.field_count() {
                    v.push(self.load_ty(st, t.field_type(i), addr + t.field_offset(i))?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            t => Err(un(format!("load {:?}", t))),
        }
    }
    fn store_ty(&mut self, st: &mut State, t: &Type, addr: u64, v: &Val) -> R<()> {
        let fault = |e: String| Stop::Violation { kind: "memory", msg: e, model: None, site: None };
        match t {
            Type::Int(w) if *w <= 64 => {
                let n = (*w + 7) / 8;
                let v = match v {
                    Val::S(e) => {
                        let x = self.ar.zext(*e, (n * 8) as u8);
                        Val::S(x)
                    }
                    v => v.clone(),
                };
                st.mem.store(addr, n, &v).map_err(fault)
            }
            Type::Int(w) if *w <= 128 => {
                let (lo, hi) = self.wide(v)?;
                st.mem.store(addr, 8, &lo).map_err(fault)?;
                let n = (*w - 64 + 7) / 8;
                let hi = match hi {
                    Val::S(e) => Val::S(self.ar.extract(e, 0, (n * 8) as u8)),
                    v => v,
                };
                st.mem.store(addr + 8, n, &hi).map_err(fault)
            }
            Type::Ptr | Type::Double => st.mem.store(addr, 8, v).map_err(fault),
            Type::Float => st.mem.store(addr, 4, v).map_err(fault),
            Type::Vector(n, e) => {
                if e.bits() % 8 != 0 {
                    return Err(un("vector of odd width"));
                }
                let s = (e.bits() / 8) as u64;
                if let Val::Agg(vs) = v {
                    for i in 0..*n {
                        self.store_ty(st, e, addr + i * s, &vs[i as usize])?;
                    }
                    return Ok(());
                }
                Err(un("vector store"))
            }
            Type::Struct(..) | Type::Array(..) => {
                if let Val::Agg(vs) = v {
                    for i in 0..t.field_count() {
                        self.store_ty(st, t.field_type(i), addr + t.field_offset(i), &vs[i])?;
                    }
                    return Ok(());
                }
                Err(un("aggregate store"))
            }
            t => Err(un(format!("store {:?}", t))),
        }
    }

    /// Load through a symbolic address.
    fn load_sym(&mut self, st: &mut State, t: &Type, e: E) -> R<Val> {
        let n = *self.ar.n(e);
        let w = t.bits();
        if n.lo >> 32 == n.hi >> 32 && !t.is_agg() && w <= 64 && w % 8 == 0 {
            let base = n.lo >> 32 << 32;
            let size = (w / 8) as u64;
            let info = st.mem.get(base).map(|o| (o.kind, o.size));
            if let Some((Kind::Const, osz)) = info {
                let off = self.ar.extract(e, 0, 32);
                let no = *self.ar.n(off);
                // stride from the known low bits
                let tz = (no.kz | no.ko).trailing_ones().min(31);
                let low = no.ko & mask64(u64::MAX, tz);
                let hi = no.hi.min(osz.saturating_sub(1));
                let count = (hi >> tz) + 1;
                if count <= 4096 {
                    // in bounds?
                    if osz < size {
                        return Err(un("table read"));
                    }
                    let lim = self.ar.c(osz - size + 1, 32);
                    let inb = self.ar.ult(off, lim);
                    if !self.branch(st, inb)? {
                        return Err(Stop::Violation { kind: "memory", msg: format!("read out of bounds of a {}-byte constant", osz), model: None, site: None });
                    }
                    let idx = self.ar.extract(off, tz as u8, 32 - tz as u8);
                    let idx = {
                        let mut b = 1;
                        while (1u64 << b) < count {
                            b += 1;
                        }
                        let c = self.ar.c(0, 1);
                        let _ = c;
                        if b < 32 - tz as u8 { self.ar.extract(idx, 0, b) } else { idx }
                    };
                    let mut tab = Vec::with_capacity(count as usize);
                    for i in 0..count {
                        let p = (i << tz) + low;
                        let v = if p + size <= osz {
                            match st.mem.load(&mut self.ar, base + p, size as u32) {
                                Ok(Val::C(v)) => v,
                                _ => return Err(un("symbolic constant table")),
                            }
                        } else {
                            0
                        };
                        tab.push(v);
                    }
                    let key = (base, low << 16 | tz as u64, size as u32, count as u32);
                    let t = self.ar.table(key, || tab);
                    let r = self.ar.lookup(t, idx, w as u8);
                    return Ok(norm(&self.ar, r));
                }
            }
        }
        let a = self.concretize(st, e)?;
        self.load_ty(st, t, a)
    }

    // ------------------------------------------------------------ locations

    fn site(&mut self, st: &State) -> (String, Vec<String>) {
        let mut out = vec![];
        for fr in st.frames.iter().rev().take(12) {
            let insts = &fr.f.blocks[fr.bb as usize].insts;
            let ip = (fr.ip as usize).min(insts.len().saturating_sub(1));
            // callers have already advanced
            let dbg = insts.get(ip).map(|i| i.dbg).unwrap_or(0);
            for l in crate::dbg::chain(self.sh.m, dbg) {
                out.push(l);
            }
            if dbg == 0 {
                out.push(format!("in {}", short_name(&fr.f.name)));
            }
        }
        let site = out.iter().find(|x| x.contains("/repo/src")).cloned().unwrap_or_else(|| out.first().cloned().unwrap_or_default());
        (site, out)
    }

    fn read_str(&self, st: &State, p: u64, n: u64) -> String {
        let mut b = vec![];
        let mut s = None;
        if n < 4096 && st.mem.read_bytes(p, n as usize, &mut b, &mut s).is_ok() {
            String::from_utf8_lossy(&b).into_owned()
        } else {
            "?".into()
        }
    }

    fn panic_info(&mut self, st: &State, f: &Function, args: &[Val]) -> (String, Option<String>) {
        let mut loc = None;
        for a in args.iter().rev() {
            if let Val::C(p) = a {
                if let Some(o) = st.mem.get(*p) {
                    if o.kind == Kind::Const && o.size == 24 {
                        let mut b = vec![];
                        let mut s = None;
                        if st.mem.read_bytes(*p, 24, &mut b, &mut s).is_ok() {
                            let fp = u64::from_le_bytes(b[0..8].try_into().unwrap());
                            let fl = u64::from_le_bytes(b[8..16].try_into().unwrap());
                            let line = u32::from_le_bytes(b[16..20].try_into().unwrap());
                            let file = self.read_str(st, fp, fl);
                            loc = Some(format!("{}:{}", file, line));
                            break;
                        }
                    }
                }
            }
        }
        let mut msg = short_name(&f.name);
        if let (Some(Val::C(p)), Some(Val::C(n))) = (args.first(), args.get(1)) {
            if let Some(o) = st.mem.get(*p) {
                if o.kind == Kind::Const && *n <= o.size {
                    msg = format!("{}: {}", msg, self.read_str(st, *p, *n));
                }
            }
        }
        (msg, loc)
    }

    fn inputs_of(&mut self, st: &State, model: &[u64]) -> Vec<(char, u64)> {
        let ins = st.inputs.clone();
        ins.iter()
            .map(|(k, v)| {
                (*k, match v {
                    InVal::Con(c) => *c,
                    InVal::Sym(e) => self.ar.eval(*e, model),
                })
            })
            .collect()
    }

    fn report(&mut self, st: &State, kind: &str, msg: String, model: Option<Rc<Vec<u64>>>, site: Option<String>) {
        let (s, stack) = self.site(st);
        let site = site.unwrap_or(s);
        let by_solver = model.is_some();
        let m = model.unwrap_or_else(|| st.model.clone());
        let inputs = self.inputs_of(st, &m);
        let func = stack.iter().find(|x| x.contains("/repo/src")).map(|x| x.split(" (").next().unwrap_or("").to_string()).unwrap_or_default();
        let signature = if kind == "check" { format!("check|{}", msg) } else { format!("{}|{}|{}", kind, func, msg) };
        if self.sh.known.iter().any(|k| *k == signature) {
            *self.res.known.entry(signature).or_insert(0) += 1;
            return;
        }
        let v = Violation { kind: kind.into(), msg, site, stack, inputs, signature: signature.clone(), steps: st.steps, by_solver };
        let mut r = self.sh.results.lock().unwrap();
        if !r.violations.iter().any(|x| x.signature == signature) {
            if self.sh.verbose {
                eprintln!("violation: {} {} at {}", v.kind, v.msg, v.site);
                for s in &v.stack {
                    eprintln!("    {}", s);
                }
            }
            r.violations.push(v);
            let mut sa = self.sh.stop_at.lock().unwrap();
            let lim = Instant::now() + std::time::Duration::from_secs(10);
            if sa.map(|x| x > lim).unwrap_or(true) {
                *sa = Some(lim);
            }
        }
    }

    // ------------------------------------------------------------ running

    pub fn run(mut self, first: bool) {
        if first {
            let s = self.root();
            self.stack.push(s);
        }
        loop {
            while let Some(mut st) = self.stack.pop() {
                if self.sh.stop.load(Ordering::Relaxed) {
                    self.res.remaining += 1 + self.stack.len() as u64;
                    self.stack.clear();
                    break;
                }
                self.run_path(&mut st);
                // share
                if self.sh.idle.load(Ordering::Relaxed) > self.sh.queued.load(Ordering::Relaxed) && self.stack.len() > 1 {
                    let s = self.stack.remove(0);
                    self.donate(s);
                }
            }
            // get work
            let mut q = self.sh.jobs.lock().unwrap();
            if let Some(j) = q.pop() {
                self.sh.queued.store(q.len(), Ordering::Relaxed);
                drop(q);
                let mut s = self.root();
                s.model = Rc::new(j.model);
                s.replay = j.trace.into();
                self.stack.push(s);
                continue;
            }
            let idle = self.sh.idle.fetch_add(1, Ordering::SeqCst) + 1;
            if idle == self.sh.workers {
                self.sh.cv.notify_all();
                break;
            }
            let mut done = false;
            loop {
                if self.sh.stop.load(Ordering::Relaxed) || self.sh.idle.load(Ordering::SeqCst) == self.sh.workers {
                    done = true;
                    break;
                }
                if !q.is_empty() {
                    self.sh.idle.fetch_sub(1, Ordering::SeqCst);
                    break;
                }
                let (qq, _) = self.sh.cv.wait_timeout(q, std::time::Duration::from_millis(100)).unwrap();
                q = qq;
            }
            if done {
                let r = q.len() as u64;
                q.clear();
                self.res.remaining += r;
                self.sh.cv.notify_all();
                break;
            }
        }
        self.finish();
    }

    fn finish(&mut self) {
        self.res.queries = self.z.queries;
        self.res.solver_time = self.z.time;
        self.res.slowest = self.z.slow;
        for (f, c) in self.cov.iter().enumerate() {
            if let Some(c) = c {
                let e = self.res.cov.entry(f as u32).or_default();
                for (i, w) in c.iter().enumerate() {
                    for b in 0..64 {
                        if w >> b & 1 == 1 {
                            e.insert((i * 64 + b) as u32);
                        }
                    }
                }
            }
        }
        let mut r = self.sh.results.lock().unwrap();
        let s = &mut self.res;
        r.paths += s.paths;
        r.killed += s.killed;
        r.steps += s.steps;
        r.max_steps = r.max_steps.max(s.max_steps);
        r.max_budget_used = r.max_budget_used.max(s.max_budget_used);
        r.checks += s.checks;
        r.checks_syntactic += s.checks_syntactic;
        r.checks_solver += s.checks_solver;
        r.branches += s.branches;
        r.forks += s.forks;
        r.queries += s.queries;
        r.cache_hits += s.cache_hits;
        r.solver_time += s.solver_time;
        r.slowest = r.slowest.max(s.slowest);
        r.unknown += s.unknown;
        r.remaining += s.remaining;
        r.max_vars = r.max_vars.max(s.max_vars);
        r.max_pc = r.max_pc.max(s.max_pc);
        for (k, v) in &s.unsupported {
            *r.unsupported.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &s.known {
            *r.known.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &s.reached {
            *r.reached.entry(*k).or_insert(0) += v;
        }
        for (k, v) in &s.cov {
            r.cov.entry(*k).or_default().extend(v.iter());
        }
        for x in s.samples.drain(..) {
            if r.samples.len() < 12 {
                r.samples.push(x);
            }
        }
    }

    fn run_path(&mut self, st: &mut State) {
        let steps0 = st.steps;
        let stop = loop {
            match self.run_some(st) {
                Ok(()) => {
                    if self.sh.stop.load(Ordering::Relaxed) {
                        break Stop::Abandon;
                    }
                }
                Err(s) => break s,
            }
        };
        self.res.steps += st.steps - steps0.min(st.steps);
        self.sh.total_steps.fetch_add(st.steps - steps0.min(st.steps), Ordering::Relaxed);
        self.res.max_steps = self.res.max_steps.max(st.steps);
        self.res.max_vars = self.res.max_vars.max(st.nvars);
        self.res.max_pc = self.res.max_pc.max(st.pc.len() as u64);
        for r in &st.reached {
            *self.res.reached.entry(*r).or_insert(0) += 1;
        }
        match stop {
            Stop::Done => {
                self.res.paths += 1;
                self.sh.done_paths.fetch_add(1, Ordering::Relaxed);
                self.res.max_budget_used = self.res.max_budget_used.max(st.max_used);
                if self.res.samples.len() < 3 || (self.res.paths.is_power_of_two() && self.res.samples.len() < 6) {
                    let m = st.model.clone();
                    let i = self.inputs_of(st, &m);
                    let mut h = 0u64;
                    let obs = std::mem::take(&mut st.obs);
                    for v in obs.iter().chain(std::iter::once(&Val::C(st.nchecks))) {
                        let x = match v {
                            Val::C(x) => *x,
                            v => match self.ex(v, 64) {
                                Ok(e) => self.ar.eval(e, &m),
                                Err(_) => 0,
                            },
                        };
                        h = (h.rotate_left(5) ^ x).wrapping_mul(0x9E3779B97F4A7C15);
                    }
                    self.res.samples.push((i, h));
                }
            }
            Stop::Kill => {
                self.res.killed += 1;
            }
            Stop::Violation { kind, msg, model, site } => {
                self.res.paths += 1;
                self.report(st, kind, msg, model, site);
            }
            Stop::Unsupported(s) => {
                if self.sh.verbose {
                    let (_, stack) = self.site(st);
                    eprintln!("unsupported: {}", s);
                    for x in stack {
                        eprintln!("    {}", x);
                    }
                }
                *self.res.unsupported.entry(s).or_insert(0) += 1;
            }
            Stop::Abandon => {
                self.res.remaining += 1;
            }
        }
    }

    fn mark(&mut self, f: u32, bb: u32, n: usize) {
        if self.cov.len() <= f as usize {
            self.cov.resize(f as usize + 1, None);
        }
        let c = self.cov[f as usize].get_or_insert_with(|| vec![0u64; n / 64 + 1].into_boxed_slice());
        c[bb as usize / 64] |= 1 << (bb % 64);
    }

    fn jump(&mut self, st: &mut State, target: u32) -> R<()> {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.bb;
        let b = &fr.f.blocks[target as usize];
        match b.phis.len() {
            0 => {}
            1 => {
                let (d, ins) = &b.phis[0];
                match ins.iter().find(|x| x.0 == from) {
                    Some((_, o)) => {
                        let v = Self::val(fr, *o);
                        fr.regs[*d as usize] = v;
                    }
                    None => return Err(un("phi")),
                }
            }
            _ => {
                let mut vals: Vec<Val> = Vec::with_capacity(b.phis.len());
                // all phis of a block list predecessors in the same order in practice, but not by rule
                for (_, ins) in &b.phis {
                    match ins.iter().find(|x| x.0 == from) {
                        Some((_, o)) => vals.push(Self::val(fr, *o)),
                        None => return Err(un("phi")),
                    }
                }
                for ((d, _), v) in b.phis.iter().zip(vals) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.bb = target;
        fr.ip = 0;
        let (id, n) = (fr.f.id, fr.f.blocks.len());
        self.mark(id, target, n);
        Ok(())
    }

    fn enter(&mut self, st: &mut State, fid: u32, args: Vec<Val>, dst: u32, normal: Option<u32>) -> R<()> {
        let f: &'static Function = self.sh.m.func(fid);
        if f.is_panic {
            let (msg, loc) = self.panic_info(st, f, &args);
            return Err(Stop::Violation { kind: "panic", msg, model: None, site: loc });
        }
        if st.frames.len() > 400 {
            return Err(Stop::Violation { kind: "stack", msg: "recursion deeper than 400 frames".into(), model: None, site: None });
        }
        let mut regs = vec![Val::C(0); f.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            if i < f.nparams {
                regs[i] = a;
            }
        }
        let stack_mark = st.mem.stack.len();
        st.frames.last_mut().unwrap().ip += 1;
        st.frames.push(Frame { f, bb: 0, ip: 0, regs, dst, normal, stack_mark });
        self.mark(fid, 0, f.blocks.len());
        Ok(())
    }

    /// Executes up to a few thousand instructions.
    fn run_some(&mut self, st: &mut State) -> R<()> {
        for _ in 0..20_000 {
            let fi = st.frames.len() - 1;
            let fr = &mut st.frames[fi];
            let f: &'static Function = fr.f;
            let inst = &f.blocks[fr.bb as usize].insts[fr.ip as usize];
            st.steps += 1;
            st.step0 = st.steps;
            if st.steps > st.budget_end {
                return Err(Stop::Violation { kind: "hang", msg: "work bound exceeded".into(), model: None, site: None });
            }
            macro_rules! set {
                ($v:expr) => {{
                    let v = $v;
                    let fr = &mut st.frames[fi];
                    if inst.dst != NOREG {
                        fr.regs[inst.dst as usize] = v;
                    }
                    fr.ip += 1;
                }};
            }
            match &inst.op {
                Op::Bin(op, w, a, b) => {
                    let a = Self::val(fr, *a);
                    let b = Self::val(fr, *b);
                    let v = self.bin(*op, *w, &a, &b)?;
                    set!(v)
                }
                Op::ICmp(c, w, a, b) => {
                    let a = Self::val(fr, *a);
                    let b = Self::val(fr, *b);
                    let v = self.icmp(*c, *w, &a, &b)?;
                    set!(v)
                }
                Op::Br(t) => {
                    let t = *t;
                    self.jump(st, t)?;
                }
                Op::CondBr(c, a, b) => {
                    let v = match Self::val(fr, *c) {
                        Val::C(x) => x == 1,
                        Val::S(e) => self.branch(st, e)?,
                        _ => return Err(un("branch on aggregate")),
                    };
                    self.jump(st, if v { *a } else { *b })?;
                }
                Op::Load(t, a) => {
                    let v = match Self::val(fr, *a) {
                        Val::C(p) => {
                            // fast path for whole-byte scalars
                            match t {
                                Type::Int(w) if *w <= 64 && w % 8 == 0 => match st.mem.load(&mut self.ar, p, w / 8) {
                                    Ok(v) => v,
                                    Err(e) => return Err(Stop::Violation { kind: "memory", msg: e, model: None, site: None }),
                                },
                                t => self.load_ty(st, t, p)?,
                            }
                        }
                        Val::S(e) => self.load_sym(st, t, e)?,
                        _ => return Err(un("load address")),
                    };
                    set!(v)
                }
                Op::Store(t, v, a) => {
                    let v = Self::val(fr, *v);
                    let p = Self::val(fr, *a);
                    let p = self.conc(st, &p)?;
                    self.store_ty(st, t, p, &v)?;
                    set!(Val::C(0))
                }
                Op::Gep(base, off, idx) => {
                    let b = Self::val(fr, *base);
                    let mut allc = matches!(b, Val::C(_));
                    for (o, _, _) in idx {
                        if let Opnd::Reg(r) = o {
                            if !matches!(fr.regs[*r as usize], Val::C(_)) {
                                allc = false;
                            }
                        }
                    }
                    let v = if allc {
                        let mut p = match b { Val::C(p) => p, _ => 0 }.wrapping_add(*off as u64);
                        for (o, s, w) in idx {
                            if let Val::C(k) = Self::val(fr, *o) {
                                p = p.wrapping_add((sx(k, *w)).wrapping_mul(*s) as u64);
                            }
                        }
                        Val::C(p)
                    } else {
                        let vals: Vec<Val> = idx.iter().map(|x| Self::val(fr, x.0)).collect();
                        let mut p = self.ex(&b, 64)?;
                        let k = self.ar.c(*off as u64, 64);
                        p = self.ar.add(p, k);
                        for (v, (_, s, w)) in vals.iter().zip(idx) {
                            let x = self.ex(v, *w)?;
                            let x = self.ar.sext(x, 64);
                            let s = self.ar.c(*s as u64, 64);
                            let y = self.ar.mul(x, s);
                            p = self.ar.add(p, y);
                        }
                        norm(&self.ar, p)
                    };
                    set!(v)
                }
                Op::Select(c, a, b, w) => {
                    let v = match Self::val(fr, *c) {
                        Val::C(1) => Self::val(fr, *a),
                        Val::C(_) => Self::val(fr, *b),
                        Val::S(e) => {
                            let x = Self::val(fr, *a);
                            let y = Self::val(fr, *b);
                            if *w == 0 || *w > 64 {
                                if self.branch(st, e)? { x } else { y }
                            } else {
                                let x = self.ex(&x, *w)?;
                                let y = self.ex(&y, *w)?;
                                let r = self.ar.ite(e, x, y);
                                norm(&self.ar, r)
                            }
                        }
                        _ => return Err(un("select")),
                    };
                    set!(v)
                }
                Op::Cast(k, st_, a, dt) => {
                    let v = Self::val(fr, *a);
                    let v = self.cast(*k, st_, &v, dt)?;
                    set!(v)
                }
                Op::Call(callee, args, rt, normal) => {
                    let vals: Vec<Val> = args.iter().map(|o| Self::val(fr, *o)).collect();
                    let target = match callee {
                        Callee::Func(f) => Ok(*f),
                        Callee::Extern(e) => Err(*e),
                        Callee::Indirect(o) => {
                            let p = Self::val(fr, *o);
                            let p = self.conc(st, &p)?;
                            let id = p >> 32;
                            if id >= EXT_BASE && id < STACK_BASE && p as u32 == 0 {
                                Err((id - EXT_BASE) as u32)
                            } else if id >= FUNC_BASE && id < EXT_BASE && p as u32 == 0 {
                                Ok((id - FUNC_BASE) as u32)
                            } else {
                                return Err(Stop::Violation { kind: "memory", msg: format!("call of invalid address {:#x}", p), model: None, site: None });
                            }
                        }
                    };
                    match target {
                        Ok(f) => self.enter(st, f, vals, inst.dst, *normal)?,
                        Err(e) => {
                            let v = self.ext(st, e, vals, rt, args)?;
                            if inst.dst != NOREG {
                                st.frames[fi].regs[inst.dst as usize] = v;
                            }
                            match normal {
                                Some(b) => self.jump(st, *b)?,
                                None => st.frames[fi].ip += 1,
                            }
                        }
                    }
                }
                Op::Ret(v) => {
                    let v = v.map(|o| Self::val(fr, o));
                    let fr = st.frames.pop().unwrap();
                    st.mem.stack.truncate(fr.stack_mark);
                    if st.frames.is_empty() {
                        return Err(Stop::Done);
                    }
                    if fr.dst != NOREG {
                        if let Some(v) = v {
                            st.frames[fi - 1].regs[fr.dst as usize] = v;
                        }
                    }
                    if let Some(b) = fr.normal {
                        // the caller advanced past the invoke; control goes to its normal destination
                        self.jump(st, b)?;
                    }
                }
                Op::Alloca(size, align, n) => {
                    let n = match n {
                        None => 1,
                        Some(o) => {
                            let v = Self::val(fr, *o);
                            self.conc(st, &v)?
                        }
                    };
                    let p = st.mem.alloca(size * n, *align);
                    set!(Val::C(p))
                }
                Op::ExtractValue(a, idx) => {
                    let mut v = Self::val(fr, *a);
                    for i in idx {
                        v = match v {
                            Val::Agg(vs) => vs[*i as usize].clone(),
                            _ => return Err(un("extractvalue")),
                        };
                    }
                    set!(v)
                }
                Op::InsertValue(a, b, idx) => {
                    let mut v = Self::val(fr, *a);
                    let b = Self::val(fr, *b);
                    fn ins(v: &mut Val, idx: &[u32], b: Val) -> bool {
                        if idx.is_empty() {
                            *v = b;
                            return true;
                        }
                        match v {
                            Val::Agg(vs) => ins(&mut Rc::make_mut(vs)[idx[0] as usize], &idx[1..], b),
                            _ => false,
                        }
                    }
                    if !ins(&mut v, idx, b) {
                        return Err(un("insertvalue"));
                    }
                    set!(v)
                }
                Op::Switch(w, v, d, cases) => {
                    let t = match Self::val(fr, *v) {
                        Val::C(x) => cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*d),
                        Val::S(e) => {
                            let mut t = *d;
                            for (k, b) in cases {
                                let k = self.ar.c(*k, *w as u8);
                                let c = self.ar.eq(e, k);
                                if self.branch(st, c)? {
                                    t = *b;
                                    break;
                                }
                            }
                            t
                        }
                        _ => return Err(un("switch")),
                    };
                    self.jump(st, t)?;
                }
                Op::Freeze(a) => {
                    let v = Self::val(fr, *a);
                    set!(v)
                }
                Op::FCmp(c, w, a, b) => {
                    let a = Self::val(fr, *a);
                    let b = Self::val(fr, *b);
                    let v = self.fcmp(*c, *w, &a, &b)?;
                    set!(v)
                }
                Op::FNeg(w, a) => {
                    let v = match Self::val(fr, *a) {
                        Val::C(x) => Val::C(x ^ 1u64 << (w - 1)),
                        Val::S(e) => {
                            let k = self.ar.c(1u64 << (w - 1), *w as u8);
                            Val::S(self.ar.xor(e, k))
                        }
                        _ => return Err(un("fneg")),
                    };
                    set!(v)
                }
                Op::Unreachable => {
                    return Err(Stop::Violation { kind: "unreachable", msg: "code assumed unreachable was reached".into(), model: None, site: None });
                }
                Op::Fence => set!(Val::C(0)),
                Op::Rmw(op, w, a, v) => {
                    let p = Self::val(fr, *a);
                    let v = Self::val(fr, *v);
                    let p = self.conc(st, &p)?;
                    let t = Type::Int(*w);
                    let old = self.load_ty(st, &t, p)?;
                    let new = match op {
                        RmwOp::Xchg => v,
                        RmwOp::Add => self.bin(BinOp::Add, *w, &old, &v)?,
                        RmwOp::Sub => self.bin(BinOp::Sub, *w, &old, &v)?,
                        RmwOp::And => self.bin(BinOp::And, *w, &old, &v)?,
                        RmwOp::Or => self.bin(BinOp::Or, *w, &old, &v)?,
                        RmwOp::Xor => self.bin(BinOp::Xor, *w, &old, &v)?,
                        _ => return Err(un("atomicrmw")),
                    };
                    self.store_ty(st, &t, p, &new)?;
                    set!(old)
                }
                Op::CmpXchg(w, a, c, n) => {
                    let p = Self::val(fr, *a);
                    let c = Self::val(fr, *c);
                    let n = Self::val(fr, *n);
                    let p = self.conc(st, &p)?;
                    let t = Type::Int(*w);
                    let old = self.load_ty(st, &t, p)?;
                    let eq = self.icmp(ICmp::Eq, *w, &old, &c)?;
                    let eq = match eq {
                        Val::C(x) => x == 1,
                        Val::S(e) => self.branch(st, e)?,
                        _ => false,
                    };
                    if eq {
                        self.store_ty(st, &t, p, &n)?;
                    }
                    set!(Val::Agg(Rc::new(vec![old, Val::C(eq as u64)])))
                }
                Op::VBin(op, w, a, b) => {
                    let (a, b) = (Self::val(fr, *a), Self::val(fr, *b));
                    match (a, b) {
                        (Val::Agg(x), Val::Agg(y)) => {
                            let mut r = vec![];
                            for (p, q) in x.iter().zip(y.iter()) {
                                r.push(self.bin(*op, *w, p, q)?);
                            }
                            set!(Val::Agg(Rc::new(r)))
                        }
                        _ => return Err(un("vector op")),
                    }
                }
                Op::VICmp(c, w, a, b) => {
                    let (a, b) = (Self::val(fr, *a), Self::val(fr, *b));
                    match (a, b) {
                        (Val::Agg(x), Val::Agg(y)) => {
                            let mut r = vec![];
                            for (p, q) in x.iter().zip(y.iter()) {
                                r.push(self.icmp(*c, *w, p, q)?);
                            }
                            set!(Val::Agg(Rc::new(r)))
                        }
                        _ => return Err(un("vector icmp")),
                    }
                }
                Op::ExtractElement(a, i) => {
                    let v = Self::val(fr, *a);
                    let i = Self::val(fr, *i);
                    let i = self.conc(st, &i)?;
                    match v {
                        Val::Agg(vs) => set!(vs[i as usize].clone()),
                        _ => return Err(un("extractelement")),
                    }
                }
                Op::InsertElement(a, b, i) => {
                    let v = Self::val(fr, *a);
                    let b = Self::val(fr, *b);
                    let i = Self::val(fr, *i);
                    let i = self.conc(st, &i)?;
                    match v {
                        Val::Agg(mut vs) => {
                            Rc::make_mut(&mut vs)[i as usize] = b;
                            set!(Val::Agg(vs))
                        }
                        _ => return Err(un("insertelement")),
                    }
                }
                Op::Shuffle(a, b, mask, n) => {
                    let (a, b) = (Self::val(fr, *a), Self::val(fr, *b));
                    match (a, b) {
                        (Val::Agg(x), Val::Agg(y)) => {
                            let r = mask.iter().map(|k| if (*k as usize) < *n { x[*k as usize].clone() } else { y[*k as usize - n].clone() }).collect();
                            set!(Val::Agg(Rc::new(r)))
                        }
                        _ => return Err(un("shuffle")),
                    }
                }
                Op::Unsupported(s) => return Err(un(format!("instruction: {}", s))),
            }
        }
        Ok(())
    }

    #[inline]
    fn bin(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if w > 64 {
            return self.bin_wide(op, w, a, b);
        }
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = m64(w);
            let ub = || Stop::Violation { kind: "unreachable", msg: "division by zero".into(), model: None, site: None };
            let r = match op {
                BinOp::Add => x.wrapping_add(y) & m,
                BinOp::Sub => x.wrapping_sub(y) & m,
                BinOp::Mul => x.wrapping_mul(y) & m,
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => if y >= w as u64 { 0 } else { x << y & m },
                BinOp::LShr => if y >= w as u64 { 0 } else { x >> y },
                BinOp::AShr => (sx(x, w) >> y.min(w as u64 - 1)) as u64 & m,
                BinOp::UDiv => if y == 0 { return Err(ub()) } else { x / y },
                BinOp::URem => if y == 0 { return Err(ub()) } else { x % y },
                BinOp::SDiv => if y == 0 { return Err(ub()) } else { sx(x, w).wrapping_div(sx(y, w)) as u64 & m },
                BinOp::SRem => if y == 0 { return Err(ub()) } else { sx(x, w).wrapping_rem(sx(y, w)) as u64 & m },
                BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem => {
                    if w == 64 {
                        let (p, q) = (f64::from_bits(x), f64::from_bits(y));
                        match op {
                            BinOp::FAdd => p + q,
                            BinOp::FSub => p - q,
                            BinOp::FMul => p * q,
                            BinOp::FDiv => p / q,
                            _ => p % q,
                        }
                        .to_bits()
                    } else {
                        let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        match op {
                            BinOp::FAdd => p + q,
                            BinOp::FSub => p - q,
                            BinOp::FMul => p * q,
                            BinOp::FDiv => p / q,
                            _ => p % q,
                        }
                        .to_bits() as u64
                    }
                }
            };
            return Ok(Val::C(r));
        }
        let x = self.ex(a, w)?;
        let y = self.ex(b, w)?;
        let ar = &mut self.ar;
        let r = match op {
            BinOp::Add => ar.add(x, y),
            BinOp::Sub => ar.sub(x, y),
            BinOp::Mul => ar.mul(x, y),
            BinOp::And => ar.and(x, y),
            BinOp::Or => ar.or(x, y),
            BinOp::Xor => ar.xor(x, y),
            BinOp::Shl => ar.shl(x, y),
            BinOp::LShr => ar.lshr(x, y),
            BinOp::AShr => ar.ashr(x, y),
            BinOp::UDiv => ar.udiv(x, y),
            BinOp::URem => ar.urem(x, y),
            BinOp::SDiv => ar.sdiv(x, y),
            BinOp::SRem => ar.srem(x, y),
            BinOp::FAdd if w == 64 => ar.fbin(X::FAdd, x, y),
            BinOp::FSub if w == 64 => ar.fbin(X::FSub, x, y),
            BinOp::FMul if w == 64 => ar.fbin(X::FMul, x, y),
            BinOp::FDiv if w == 64 => ar.fbin(X::FDiv, x, y),
            _ => return Err(un("symbolic f32/frem")),
        };
        Ok(norm(&self.ar, r))
    }

    fn bin_wide(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Some(x), Some(y)) = (self.wide_c(a), self.wide_c(b)) {
            let r = match op {
                BinOp::Add => x.wrapping_add(y),
                BinOp::Sub => x.wrapping_sub(y),
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => if y >= w as u128 { 0 } else { x << y },
                BinOp::LShr => if y >= w as u128 { 0 } else { x >> y },
                BinOp::UDiv if y != 0 => x / y,
                BinOp::URem if y != 0 => x % y,
                _ => return Err(un("128-bit op")),
            };
            return Ok(self.mk_wide(mask128(r, w)));
        }
        let (al, ah) = self.wide(a)?;
        match op {
            BinOp::And | BinOp::Or | BinOp::Xor => {
                let (bl, bh) = self.wide(b)?;
                let l = self.bin(op, 64, &al, &bl)?;
                let h = self.bin(op, 64, &ah, &bh)?;
                Ok(Val::W(Rc::new((l, h))))
            }
            BinOp::LShr | BinOp::Shl => {
                let s = match self.wide_c(b) {
                    Some(s) if s < 128 => s as u64,
                    _ => return Err(un("128-bit shift")),
                };
                let z = Val::C(0);
                let k = |x: u64| Val::C(x);
                let (l, h) = if op == BinOp::LShr {
                    if s >= 64 {
                        (self.bin(BinOp::LShr, 64, &ah, &k(s - 64))?, z)
                    } else if s == 0 {
                        (al, ah)
                    } else {
                        let p = self.bin(BinOp::LShr, 64, &al, &k(s))?;
                        let q = self.bin(BinOp::Shl, 64, &ah, &k(64 - s))?;
                        (self.bin(BinOp::Or, 64, &p, &q)?, self.bin(BinOp::LShr, 64, &ah, &k(s))?)
                    }
                } else if s >= 64 {
                    (z, self.bin(BinOp::Shl, 64, &al, &k(s - 64))?)
                } else if s == 0 {
                    (al, ah)
                } else {
                    let p = self.bin(BinOp::Shl, 64, &ah, &k(s))?;
                    let q = self.bin(BinOp::LShr, 64, &al, &k(64 - s))?;
                    (self.bin(BinOp::Shl, 64, &al, &k(s))?, self.bin(BinOp::Or, 64, &p, &q)?)
                };
                let h = if w < 128 { self.bin(BinOp::And, 64, &h, &k(m64(w - 64)))? } else { h };
                Ok(Val::W(Rc::new((l, h))))
            }
            BinOp::Add => {
                let (bl, bh) = self.wide(b)?;
                let l = self.bin(BinOp::Add, 64, &al, &bl)?;
                let c = self.icmp(ICmp::Ult, 64, &l, &al)?;
                let c = self.cast(Cast::ZExt, &Type::Int(1), &c, &Type::Int(64))?;
                let h = self.bin(BinOp::Add, 64, &ah, &bh)?;
                let h = self.bin(BinOp::Add, 64, &h, &c)?;
                Ok(Val::W(Rc::new((l, h))))
            }
            BinOp::Mul => {
                // only when the product provably fits 64 bits
                let (bl, bh) = self.wide(b)?;
                if let (Val::C(0), Val::C(0)) = (&ah, &bh) {
                    let x = self.ex(&al, 64)?;
                    let y = self.ex(&bl, 64)?;
                    let p = self.ar.n(x).hi as u128 * self.ar.n(y).hi as u128;
                    if p <= u64::MAX as u128 {
                        let l = self.bin(BinOp::Mul, 64, &al, &bl)?;
                        return Ok(Val::W(Rc::new((l, Val::C(0)))));
                    }
                }
                Err(un("symbolic 128-bit mul"))
            }
            _ => Err(un("symbolic 128-bit op")),
        }
    }

    #[inline]
    fn icmp(&mut self, c: ICmp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match c {
                ICmp::Eq => x == y,
                ICmp::Ne => x != y,
                ICmp::Ult => x < y,
                ICmp::Ule => x <= y,
                ICmp::Ugt => x > y,
                ICmp::Uge => x >= y,
                ICmp::Slt => sx(x, w) < sx(y, w),
                ICmp::Sle => sx(x, w) <= sx(y, w),
                ICmp::Sgt => sx(x, w) > sx(y, w),
                ICmp::Sge => sx(x, w) >= sx(y, w),
            };
            return Ok(Val::C(r as u64));
        }
        if w > 64 {
            if let (Some(x), Some(y)) = (self.wide_c(a), self.wide_c(b)) {
                let r = match c {
                    ICmp::Eq => x == y,
                    ICmp::Ne => x != y,
                    ICmp::Ult => x < y,
                    ICmp::Ule => x <= y,
                    ICmp::Ugt => x > y,
                    ICmp::Uge => x >= y,
                    _ => return Err(un("signed 128-bit compare")),
                };
                return Ok(Val::C(r as u64));
            }
            let (al, ah) = self.wide(a)?;
            let (bl, bh) = self.wide(b)?;
            let (al, ah, bl, bh) = (self.ex(&al, 64)?, self.ex(&ah, 64)?, self.ex(&bl, 64)?, self.ex(&bh, 64)?);
            let ar = &mut self.ar;
            let eh = ar.eq(ah, bh);
            let r = match c {
                ICmp::Eq | ICmp::Ne => {
                    let el = ar.eq(al, bl);
                    let e = ar.and(eh, el);
                    if c == ICmp::Eq { e } else { ar.not(e) }
                }
                ICmp::Ult | ICmp::Uge => {
                    let h = ar.ult(ah, bh);
                    let l = ar.ult(al, bl);
                    let x = ar.and(eh, l);
                    let r = ar.or(h, x);
                    if c == ICmp::Ult { r } else { ar.not(r) }
                }
                ICmp::Ugt | ICmp::Ule => {
                    let h = ar.ult(bh, ah);
                    let l = ar.ult(bl, al);
                    let x = ar.and(eh, l);
                    let r = ar.or(h, x);
                    if c == ICmp::Ugt { r } else { ar.not(r) }
                }
                _ => return Err(un("signed 128-bit compare")),
            };
            return Ok(norm(&self.ar, r));
        }
        let x = self.ex(a, w)?;
        let y = self.ex(b, w)?;
        let ar = &mut self.ar;
        let r = match c {
            ICmp::Eq => ar.eq(x, y),
            ICmp::Ne => ar.ne(x, y),
            ICmp::Ult => ar.ult(x, y),
            ICmp::Ule => ar.ule(x, y),
            ICmp::Ugt => ar.ult(y, x),
            ICmp::Uge => ar.ule(y, x),
            ICmp::Slt => ar.slt(x, y),
            ICmp::Sgt => ar.slt(y, x),
            ICmp::Sle => {
                let t = ar.slt(y, x);
                ar.not(t)
            }
            ICmp::Sge => {
                let t = ar.slt(x, y);
                ar.not(t)
            }
        };
        Ok(norm(&self.ar, r))
    }

    fn fcmp(&mut self, c: FCmp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = if w == 64 { (f64::from_bits(*x), f64::from_bits(*y)) } else { (f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64) };
            let u = x.is_nan() || y.is_nan();
            let r = match c {
                FCmp::False => false,
                FCmp::True => true,
                FCmp::Oeq => x == y,
                FCmp::Ogt => x > y,
                FCmp::Oge => x >= y,
                FCmp::Olt => x < y,
                FCmp::Ole => x <= y,
                FCmp::One => !u && x != y,
                FCmp::Ord => !u,
                FCmp::Uno => u,
                FCmp::Ueq => u || x == y,
                FCmp::Ugt => u || x > y,
                FCmp::Uge => u || x >= y,
                FCmp::Ult => u || x < y,
                FCmp::Ule => u || x <= y,
                FCmp::Une => u || x != y,
            };
            return Ok(Val::C(r as u64));
        }
        if w != 64 {
            return Err(un("symbolic f32"));
        }
        let x = self.ex(a, 64)?;
        let y = self.ex(b, 64)?;
        let ar = &mut self.ar;
        let r = match c {
            FCmp::Oeq => ar.fcmp(X::FEq, x, y),
            FCmp::Une => {
                let t = ar.fcmp(X::FEq, x, y);
                ar.not(t)
            }
            FCmp::Olt => ar.fcmp(X::FLt, x, y),
            FCmp::Ole => ar.fcmp(X::FLe, x, y),
            FCmp::Ogt => ar.fcmp(X::FLt, y, x),
            FCmp::Oge => ar.fcmp(X::FLe, y, x),
            FCmp::Ult => {
                let t = ar.fcmp(X::FLe, y, x);
                ar.not(t)
            }
            FCmp::Ule => {
                let t = ar.fcmp(X::FLt, y, x);
                ar.not(t)
            }
            FCmp::Ugt => {
                let t = ar.fcmp(X::FLe, x, y);
                ar.not(t)
            }
            FCmp::Uge => {
                let t = ar.fcmp(X::FLt, x, y);
                ar.not(t)
            }
            FCmp::Ord | FCmp::Uno => {
                let p = ar.fcmp(X::FEq, x, x);
                let q = ar.fcmp(X::FEq, y, y);
                let o = ar.and(p, q);
                if c == FCmp::Ord { o } else { ar.not(o) }
            }
            FCmp::One => {
                let p = ar.fcmp(X::FLt, x, y);
                let q = ar.fcmp(X::FLt, y, x);
                ar.or(p, q)
            }
            FCmp::Ueq => {
                let p = ar.fcmp(X::FLt, x, y);
                let q = ar.fcmp(X::FLt, y, x);
                let r = ar.or(p, q);
                ar.not(r)
            }
            FCmp::False => ar.f,
            FCmp::True => ar.t,
        };
        Ok(norm(&self.ar, r))
    }

    fn cast(&mut self, k: Cast, stype: &Type, v: &Val, dt: &Type) -> R<Val> {
        if stype.is_agg() || dt.is_agg() {
            return self.cast_vec(k, stype, v, dt);
        }
        let (sw, dw) = (stype.bits(), dt.bits());
        if sw > 64 || dw > 64 {
            return Ok(match k {
                Cast::ZExt => {
                    if sw <= 64 {
                        let lo = match v {
                            Val::S(e) => Val::S(self.ar.zext(*e, 64)),
                            v => v.clone(),
                        };
                        Val::W(Rc::new((lo, Val::C(0))))
                    } else {
                        v.clone()
                    }
                }
                Cast::Trunc => {
                    let (lo, hi) = self.wide(v)?;
                    if dw <= 64 {
                        match lo {
                            Val::C(x) => Val::C(mask64(x, dw)),
                            Val::S(e) => {
                                let x = self.ar.extract(e, 0, dw as u8);
                                norm(&self.ar, x)
                            }
                            v => v,
                        }
                    } else {
                        let k = Val::C(m64(dw - 64));
                        let hi = self.bin(BinOp::And, 64, &hi, &k)?;
                        Val::W(Rc::new((lo, hi)))
                    }
                }
                Cast::UIToFP => match self.wide_c(v) {
                    Some(x) => Val::C((x as f64).to_bits()),
                    None => {
                        let (lo, hi) = self.wide(v)?;
                        match hi {
                            Val::C(0) => return self.cast(k, &Type::Int(64), &lo, dt),
                            _ => return Err(un("128-bit to float")),
                        }
                    }
                },
                Cast::Bitcast => v.clone(),
                _ => return Err(un("128-bit cast")),
            });
        }
        if let Val::C(x) = v {
            let x = *x;
            let f = || if sw == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
            let out = |r: f64| if dw == 64 { r.to_bits() } else { (r as f32).to_bits() as u64 };
            return Ok(Val::C(match k {
                Cast::Trunc => mask64(x, dw),
                Cast::ZExt | Cast::Bitcast => x,
                Cast::PtrToInt | Cast::IntToPtr => mask64(x, dw),
                Cast::SExt => sx(x, sw) as u64 & m64(dw),
                Cast::UIToFP => if dw == 64 { (x as f64).to_bits() } else { (x as f32).to_bits() as u64 },
                Cast::SIToFP => if dw == 64 { (sx(x, sw) as f64).to_bits() } else { (sx(x, sw) as f32).to_bits() as u64 },
                Cast::FPToUI => crate::expr::f64_to_u64_sat(f(), dw as u8),
                Cast::FPToSI => crate::expr::f64_to_i64_sat(f(), dw as u8),
                Cast::FPExt | Cast::FPTrunc => out(f()),
            }));
        }
        let e = self.ex(v, sw)?;
        let ar = &mut self.ar;
        let r = match k {
            Cast::Trunc => ar.extract(e, 0, dw as u8),
            Cast::ZExt => ar.zext(e, dw as u8),
            Cast::PtrToInt | Cast::IntToPtr => {
                if dw < sw { ar.extract(e, 0, dw as u8) } else { ar.zext(e, dw as u8) }
            }
            Cast::Bitcast => e,
            Cast::SExt => ar.sext(e, dw as u8),
            Cast::UIToFP if dw == 64 => ar.fun(X::UIToFP, e, 64),
            Cast::SIToFP if dw == 64 => {
                if ar.n(e).kz >> (sw - 1) & 1 == 1 { ar.fun(X::UIToFP, e, 64) } else { ar.fun(X::SIToFP, e, 64) }
            }
            Cast::FPToUI if sw == 64 => ar.fun(X::FPToUISat, e, dw as u8),
            Cast::FPToSI if sw == 64 => ar.fun(X::FPToSISat, e, dw as u8),
            _ => return Err(un("symbolic float cast")),
        };
        Ok(norm(&self.ar, r))
    }

    fn cast_vec(&mut self, k: Cast, stype: &Type, v: &Val, dt: &Type) -> R<Val> {
        match (k, stype, dt) {
            (Cast::Bitcast, Type::Vector(n, e), _) if !dt.is_agg() => {
                let ew = e.bits();
                if let Val::Agg(vs) = v {
                    if n * ew as u64 <= 64 {
                        let mut r: Option<E> = None;
                        for x in vs.iter() {
                            let x = self.ex(x, ew)?;
                            r = Some(match r {
                                None => x,
                                Some(l) => self.ar.concat(x, l),
                            });
                        }
                        return Ok(norm(&self.ar, r.unwrap()));
                    }
                }
                Err(un("vector bitcast"))
            }
            (Cast::Bitcast, _, Type::Vector(n, e)) if !stype.is_agg() => {
                let ew = e.bits();
                let x = self.ex(v, stype.bits())?;
                let mut out = vec![];
                for i in 0..*n {
                    let y = self.ar.extract(x, (i as u32 * ew) as u8, ew as u8);
                    out.push(norm(&self.ar, y));
                }
                Ok(Val::Agg(Rc::new(out)))
            }
            (_, Type::Vector(_, se), Type::Vector(_, de)) => {
                if let Val::Agg(vs) = v {
                    if k == Cast::Bitcast && se.bits() != de.bits() {
                        return Err(un("vector bitcast"));
                    }
                    let mut out = vec![];
                    for x in vs.iter() {
                        out.push(self.cast(k, se, x, de)?);
                    }
                    return Ok(Val::Agg(Rc::new(out)));
                }
                Err(un("vector cast"))
            }
            _ => Err(un("vector cast")),
        }
    }

    // ------------------------------------------------------------ externals and intrinsics

    fn ext(&mut self, st: &mut State, id: u32, a: Vec<Val>, rt: &Type, _ops: &[Opnd]) -> R<Val> {
        let x = self.sh.exts[id as usize];
        let name: &'static str = &self.sh.m.externs[id as usize];
        let fault = |e: String| Stop::Violation { kind: "memory", msg: e, model: None, site: None };
        // operand width of an overloaded intrinsic: llvm.name.iN
        let iw = || -> u32 { name.rsplit('.').find_map(|p| if p.starts_with('i') { p[1..].parse::<u32>().ok() } else { None }).unwrap_or(64) };
        let ok = |v: u64| Ok(Val::C(v));
        match x {
            Ext::Nop | Ext::Assume => ok(0),
            Ext::UsymVar(w) => {
                let e = self.new_var(st, w, 0);
                let k = match w {
                    8 => 'b',
                    16 => 'h',
                    32 => 'w',
                    _ => 'q',
                };
                st.inputs.push((k, InVal::Sym(e)));
                Ok(Val::S(e))
            }
            Ext::UsymBytes => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                for i in 0..n {
                    let e = self.new_var(st, 8, 0);
                    st.inputs.push(('b', InVal::Sym(e)));
                    st.mem.store(p + i, 1, &Val::S(e)).map_err(fault)?;
                }
                ok(0)
            }
            Ext::UsymRange => {
                let lo = self.conc(st, &a[0])?;
                let hi = self.conc(st, &a[1])?;
                if lo > hi {
                    return Err(Stop::Kill);
                }
                if lo == hi {
                    st.inputs.push(('r', InVal::Con(lo)));
                    return ok(lo);
                }
                let d = hi - lo;
                let w = (64 - d.leading_zeros()) as u8;
                let e = self.new_var(st, w, 0);
                if d != m64(w as u32) {
                    let k = self.ar.c(d, w);
                    let c = self.ar.ule(e, k);
                    self.add_pc(st, c);
                }
                let z = self.ar.zext(e, 64);
                let l = self.ar.c(lo, 64);
                let v = self.ar.add(z, l);
                st.inputs.push(('r', InVal::Sym(v)));
                Ok(norm(&self.ar, v))
            }
            Ext::UsymChoice => {
                let n = self.conc(st, &a[0])?;
                if n == 0 {
                    return Err(Stop::Kill);
                }
                let v = if let Some(d) = Self::recorded(st) {
                    st.trace.push((d, st.step0));
                    match d {
                        Dec::Choice(v) => v,
                        _ => return Err(un("replay divergence (choice)")),
                    }
                } else if !st.replay.is_empty() {
                    return Err(un("replay divergence (choice)"));
                } else {
                    for k in (1..n).rev() {
                        let mut o = st.clone();
                        o.replay.push_back((Dec::Choice(k), st.step0));
                        self.push_fork(o);
                    }
                    st.trace.push((Dec::Choice(0), st.step0));
                    0
                };
                st.inputs.push(('c', InVal::Con(v)));
                ok(v)
            }
            Ext::UsymAssume => {
                let c = self.ex(&a[0], 1)?;
                self.assume(st, c)?;
                ok(0)
            }
            Ext::UsymCheck => {
                self.res.checks += 1;
                st.nchecks += 1;
                match &a[0] {
                    Val::C(1) => {
                        self.res.checks_syntactic += 1;
                        ok(0)
                    }
                    v => {
                        let c = self.ex(v, 1)?;
                        let (p, n) = (self.conc(st, &a[1])?, self.conc(st, &a[2])?);
                        let msg = self.read_str(st, p, n);
                        if self.ar.cv(c) == Some(0) {
                            return Err(Stop::Violation { kind: "check", msg, model: None, site: None });
                        }
                        Self::skip_stale(st);
                        if !st.replay.is_empty() {
                            self.add_pc(st, c);
                            return ok(0);
                        }
                        let model = st.model.clone();
                        if self.ar.eval(c, &model) != 1 {
                            self.report(st, "check", msg, Some(model), None);
                            self.assume(st, c)?;
                            return ok(0);
                        }
                        self.res.checks_solver += 1;
                        let nc = self.ar.not(c);
                        let q = self.query(st, nc);
                        match q.sat {
                            Some(false) => {}
                            Some(true) => {
                                let m = self.extend_model(st, q.model.as_ref().unwrap());
                                self.report(st, "check", msg, Some(m), None);
                                self.add_pc(st, c);
                            }
                            None => {}
                        }
                        ok(0)
                    }
                }
            }
            Ext::UsymReach => {
                let v = self.conc(st, &a[0])? as u32;
                st.obs.push(Val::C(v as u64 | 1 << 63));
                if !st.reached.contains(&v) {
                    st.reached.push(v);
                }
                ok(0)
            }
            Ext::UsymTrace => {
                st.obs.push(a[0].clone());
                ok(0)
            }
            Ext::UsymConcretize => {
                let v = self.conc(st, &a[0])?;
                ok(v)
            }
            Ext::UsymIte => {
                let c = self.ex(&a[0], 1)?;
                let x = self.ex(&a[1], 64)?;
                let y = self.ex(&a[2], 64)?;
                let r = self.ar.ite(c, x, y);
                Ok(norm(&self.ar, r))
            }
            Ext::UsymHeapLive => ok(st.mem.heap_bytes),
            Ext::UsymHeapCount => ok(st.mem.heap_count),
            Ext::UsymSteps => ok(st.steps),
            Ext::UsymBudget => {
                let n = self.conc(st, &a[0])?;
                let used = st.steps - st.call_start;
                if st.budget_end != self.sh.default_budget {
                    st.max_used = st.max_used.max(used);
                }
                st.call_start = st.steps;
                st.budget_end = if n == 0 { st.steps + self.sh.default_budget } else { st.steps + n };
                ok(0)
            }
            Ext::UsymPrint => {
                if self.sh.verbose {
                    let (p, n) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                    let s = self.read_str(st, p, n);
                    eprint!("{}", s);
                }
                ok(0)
            }
            Ext::UsymPrintU64 => {
                if self.sh.verbose {
                    match &a[0] {
                        Val::C(v) => eprintln!(" {} ({:#x})", v, v),
                        Val::S(e) => eprintln!(" {}", self.ar.show(*e, 6)),
                        _ => {}
                    }
                }
                ok(0)
            }
            Ext::UsymParam => {
                let i = self.conc(st, &a[0])? as usize;
                ok(self.sh.params.get(i).copied().unwrap_or(0))
            }
            Ext::UsymAlloc | Ext::UsymAllocZeroed => {
                let n = self.conc(st, &a[0])?;
                let al = self.conc(st, &a[1])?;
                if n > 1 << 31 {
                    return Err(Stop::Violation { kind: "memory", msg: format!("allocation of {} bytes", n), model: None, site: None });
                }
                ok(st.mem.alloc_heap(n, al))
            }
            Ext::UsymDealloc => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let al = self.conc(st, &a[2])?;
                st.mem.free_heap(p, n, al).map_err(|e| Stop::Violation { kind: "heap", msg: strip_numbers(&e), model: None, site: None })?;
                ok(0)
            }
            Ext::UsymRealloc => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let al = self.conc(st, &a[2])?;
                let new = self.conc(st, &a[3])?;
                if new > 1 << 31 {
                    return Err(Stop::Violation { kind: "memory", msg: format!("allocation of {} bytes", new), model: None, site: None });
                }
                let mut b = std::mem::take(&mut self.ret_scratch);
                let mut s = None;
                st.mem.read_bytes(p, n.min(new) as usize, &mut b, &mut s).map_err(fault)?;
                st.mem.free_heap(p, n, al).map_err(|e| Stop::Violation { kind: "heap", msg: strip_numbers(&e), model: None, site: None })?;
                let q = st.mem.alloc_heap(new, al);
                st.mem.write_bytes(q, &b, &s).map_err(fault)?;
                self.ret_scratch = b;
                ok(q)
            }
            Ext::Memcpy => {
                let d = self.conc(st, &a[0])?;
                let s = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])?;
                if n > 0 {
                    let mut b = std::mem::take(&mut self.ret_scratch);
                    let mut sy = None;
                    st.mem.read_bytes(s, n as usize, &mut b, &mut sy).map_err(fault)?;
                    st.mem.write_bytes(d, &b, &sy).map_err(fault)?;
                    self.ret_scratch = b;
                    st.steps += n / 16;
                }
                ok(d)
            }
            Ext::Memset => {
                let d = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[2])? as usize;
                if n > 0 {
                    match &a[1] {
                        Val::C(v) => {
                            let b = vec![*v as u8; n];
                            st.mem.write_bytes(d, &b, &None).map_err(fault)?;
                        }
                        Val::S(e) => {
                            let e = self.ar.extract(*e, 0, 8);
                            let b = vec![0u8; n];
                            st.mem.write_bytes(d, &b, &Some(vec![SB { e, k: 0 }; n])).map_err(fault)?;
                        }
                        _ => return Err(un("memset")),
                    }
                    st.steps += n as u64 / 16;
                }
                ok(d)
            }
            Ext::Memcmp => {
                let p = self.conc(st, &a[0])?;
                let q = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])? as usize;
                if n == 0 {
                    return ok(0);
                }
                let (mut b1, mut b2) = (vec![], vec![]);
                let (mut s1, mut s2) = (None, None);
                st.mem.read_bytes(p, n, &mut b1, &mut s1).map_err(fault)?;
                st.mem.read_bytes(q, n, &mut b2, &mut s2).map_err(fault)?;
                st.steps += n as u64 / 16;
                if s1.is_none() && s2.is_none() {
                    let r: i32 = match b1.cmp(&b2) {
                        std::cmp::Ordering::Less => -1,
                        std::cmp::Ordering::Equal => 0,
                        _ => 1,
                    };
                    return ok(r as u32 as u64);
                }
                let get = |s: &Option<Vec<SB>>, i: usize| s.as_ref().map(|v| v[i]).unwrap_or_default();
                let mut r = self.ar.c(0, 32);
                let one = self.ar.c(1, 32);
                let neg = self.ar.c(u64::MAX, 32);
                let mut i = n;
                let only_eq = name == "bcmp";
                let mut alleq = self.ar.t;
                while i > 0 {
                    i -= 1;
                    let (x, y) = (get(&s1, i), get(&s2, i));
                    if x.e == 0 && y.e == 0 && b1[i] == b2[i] {
                        continue;
                    }
                    let x = byte_expr(&mut self.ar, b1[i], x);
                    let y = byte_expr(&mut self.ar, b2[i], y);
                    let e = self.ar.eq(x, y);
                    if only_eq {
                        alleq = self.ar.and(alleq, e);
                    } else {
                        let l = self.ar.ult(x, y);
                        let d = self.ar.ite(l, neg, one);
                        r = self.ar.ite(e, r, d);
                    }
                }
                if only_eq {
                    let z = self.ar.c(0, 32);
                    r = self.ar.ite(alleq, z, one);
                }
                Ok(norm(&self.ar, r))
            }
            Ext::Strlen => {
                let mut p = self.conc(st, &a[0])?;
                let mut n = 0;
                loop {
                    match st.mem.load(&mut self.ar, p, 1).map_err(fault)? {
                        Val::C(0) => return ok(n),
                        Val::C(_) => {}
                        _ => return Err(un("strlen")),
                    }
                    n += 1;
                    p += 1;
                }
            }
            Ext::GetRandom => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let b: Vec<u8> = (0..n).map(|i| (i * 37 + 11) as u8).collect();
                st.mem.write_bytes(p, &b, &None).map_err(fault)?;
                ok(n)
            }
            Ext::Syscall => {
                let nr = self.conc(st, &a[0])?;
                if nr == 318 {
                    let p = self.conc(st, &a[1])?;
                    let n = self.conc(st, &a[2])?;
                    let b: Vec<u8> = (0..n).map(|i| (i * 37 + 11) as u8).collect();
                    st.mem.write_bytes(p, &b, &None).map_err(fault)?;
                    return ok(n);
                }
                Err(un(format!("syscall {}", nr)))
            }
            Ext::Abort => Err(Stop::Violation { kind: "panic", msg: "abort".into(), model: None, site: None }),
            Ext::UAddO | Ext::USubO | Ext::UMulO | Ext::SAddO | Ext::SSubO | Ext::SMulO => {
                let w = iw();
                let (r, o) = self.overflow_op(x, w, &a[0], &a[1])?;
                Ok(Val::Agg(Rc::new(vec![r, o])))
            }
            Ext::UAddSat => {
                let w = iw();
                let (r, o) = self.overflow_op(Ext::UAddO, w, &a[0], &a[1])?;
                self.sel(&o, &Val::C(m64(w)), &r, w)
            }
            Ext::USubSat => {
                let w = iw();
                let (r, o) = self.overflow_op(Ext::USubO, w, &a[0], &a[1])?;
                self.sel(&o, &Val::C(0), &r, w)
            }
            Ext::SAddSat | Ext::SSubSat => {
                let w = iw();
                let op = if x == Ext::SAddSat { Ext::SAddO } else { Ext::SSubO };
                let (r, o) = self.overflow_op(op, w, &a[0], &a[1])?;
                // both operations overflow towards the sign of the first operand
                let neg = self.icmp(ICmp::Slt, w, &a[0], &Val::C(0))?;
                let (min, max) = (1u64 << (w - 1), (1u64 << (w - 1)) - 1);
                let lim = self.sel(&neg, &Val::C(min), &Val::C(max), w)?;
                self.sel(&o, &lim, &r, w)
            }
            Ext::UMin | Ext::UMax | Ext::SMin | Ext::SMax => {
                let w = iw();
                if w > 64 {
                    if let (Some(p), Some(q)) = (self.wide_c(&a[0]), self.wide_c(&a[1])) {
                        return Ok(self.mk_wide(if x == Ext::UMin { p.min(q) } else { p.max(q) }));
                    }
                    return Err(un("128-bit min/max"));
                }
                let c = match x {
                    Ext::UMin | Ext::UMax => ICmp::Ult,
                    _ => ICmp::Slt,
                };
                let lt = self.icmp(c, w, &a[0], &a[1])?;
                if matches!(x, Ext::UMin | Ext::SMin) { self.sel(&lt, &a[0], &a[1], w) } else { self.sel(&lt, &a[1], &a[0], w) }
            }
            Ext::Abs => {
                let w = iw();
                let neg = self.icmp(ICmp::Slt, w, &a[0], &Val::C(0))?;
                let n = self.bin(BinOp::Sub, w, &Val::C(0), &a[0])?;
                self.sel(&neg, &n, &a[0], w)
            }
            Ext::Ctlz | Ext::Ctpop => {
                let w = iw();
                let e = self.ex(&a[0], w)?;
                let r = self.ar.fun(if x == Ext::Ctlz { X::Ctlz } else { X::Ctpop }, e, w as u8);
                Ok(norm(&self.ar, r))
            }
            Ext::Cttz => {
                let w = iw();
                let e = self.ex(&a[0], w)?;
                if let Some(v) = self.ar.cv(e) {
                    return ok(if v == 0 { w as u64 } else { v.trailing_zeros() as u64 });
                }
                let mut r = self.ar.c(w as u64, w as u8);
                for i in (0..w).rev() {
                    let b = self.ar.extract(e, i as u8, 1);
                    let k = self.ar.c(i as u64, w as u8);
                    r = self.ar.ite(b, k, r);
                }
                Ok(norm(&self.ar, r))
            }
            Ext::Bswap | Ext::Bitreverse => {
                let w = iw();
                let e = self.ex(&a[0], w)?;
                let unit = if x == Ext::Bswap { 8 } else { 1 };
                let mut r: Option<E> = None;
                for i in 0..w / unit {
                    let b = self.ar.extract(e, (i * unit) as u8, unit as u8);
                    r = Some(match r {
                        None => b,
                        Some(h) => self.ar.concat(h, b),
                    });
                }
                Ok(norm(&self.ar, r.unwrap()))
            }
            Ext::Fshl | Ext::Fshr => {
                let w = iw();
                let s = match &a[2] {
                    Val::C(s) => (*s % w as u64) as u32,
                    _ => return Err(un("symbolic funnel shift")),
                };
                let s = if x == Ext::Fshl { s } else { (w - s) % w };
                let base_fshr0 = x == Ext::Fshr && s == 0;
                if s == 0 {
                    return Ok(if base_fshr0 { a[1].clone() } else { a[0].clone() });
                }
                let h = self.bin(BinOp::Shl, w, &a[0], &Val::C(s as u64))?;
                let l = self.bin(BinOp::LShr, w, &a[1], &Val::C((w - s) as u64))?;
                self.bin(BinOp::Or, w, &h, &l)
            }
            Ext::Ucmp | Ext::Scmp => {
                let w = iw();
                let rw = rt.bits();
                let c = if x == Ext::Ucmp { ICmp::Ult } else { ICmp::Slt };
                let lt = self.icmp(c, w, &a[0], &a[1])?;
                let gt = self.icmp(c, w, &a[1], &a[0])?;
                let r = self.sel(&gt, &Val::C(1), &Val::C(0), rw)?;
                self.sel(&lt, &Val::C(m64(rw)), &r, rw)
            }
            Ext::Sqrt | Ext::Round | Ext::Floor | Ext::Ceil | Ext::FTrunc | Ext::Fabs | Ext::Exp | Ext::Log => match &a[0] {
                Val::C(v) if rt.bits() == 64 => {
                    let f = f64::from_bits(*v);
                    ok(match x {
                        Ext::Sqrt => f.sqrt(),
                        Ext::Round => f.round(),
                        Ext::Floor => f.floor(),
                        Ext::Ceil => f.ceil(),
                        Ext::FTrunc => f.trunc(),
                        Ext::Exp => f.exp(),
                        Ext::Log => f.ln(),
                        _ => f.abs(),
                    }
                    .to_bits())
                }
                Val::S(e) if rt.bits() == 64 && matches!(x, Ext::Sqrt | Ext::Round | Ext::Floor | Ext::Ceil | Ext::FTrunc) => {
                    let op = match x {
                        Ext::Sqrt => X::FSqrt,
                        Ext::Round => X::FRound,
                        Ext::Floor => X::FFloor,
                        Ext::Ceil => X::FCeil,
                        _ => X::FTrunc,
                    };
                    let r = self.ar.fun(op, *e, 64);
                    Ok(norm(&self.ar, r))
                }
                _ => Err(un(format!("symbolic {}", name))),
            },
            Ext::FMax | Ext::FMin => {
                let nan = self.fcmp(FCmp::Uno, 64, &a[0], &a[0])?;
                let lt = self.fcmp(FCmp::Olt, 64, &a[0], &a[1])?;
                let (p, q) = if x == Ext::FMax { (a[1].clone(), a[0].clone()) } else { (a[0].clone(), a[1].clone()) };
                let nanb = self.fcmp(FCmp::Uno, 64, &a[1], &a[1])?;
                // lt ? p : q, except for NaN operands
                let r = self.sel(&lt, &p, &q, 64)?;
                let r = self.sel(&nan, &a[1], &r, 64)?;
                self.sel(&nanb, &a[0], &r, 64)
            }
            Ext::FpToUiSat | Ext::FpToSiSat => {
                let w = rt.bits();
                match &a[0] {
                    Val::C(v) => {
                        let f = if name.ends_with("f32") { f32::from_bits(*v as u32) as f64 } else { f64::from_bits(*v) };
                        ok(if x == Ext::FpToUiSat { crate::expr::f64_to_u64_sat(f, w as u8) } else { crate::expr::f64_to_i64_sat(f, w as u8) })
                    }
                    Val::S(e) => {
                        let r = self.ar.fun(if x == Ext::FpToUiSat { X::FPToUISat } else { X::FPToSISat }, *e, w as u8);
                        Ok(norm(&self.ar, r))
                    }
                    _ => Err(un("float cast")),
                }
            }
            Ext::Fma => match (&a[0], &a[1], &a[2]) {
                (Val::C(p), Val::C(q), Val::C(r)) => {
                    let (p, q, r) = (f64::from_bits(*p), f64::from_bits(*q), f64::from_bits(*r));
                    ok(p.mul_add(q, r).to_bits())
                }
                _ => Err(un("fma")),
            },
            Ext::Pow => match (&a[0], &a[1]) {
                (Val::C(p), Val::C(q)) => ok(f64::from_bits(*p).powf(f64::from_bits(*q)).to_bits()),
                _ => Err(un("pow")),
            },
            Ext::Powi => match (&a[0], &a[1]) {
                (Val::C(p), Val::C(q)) => ok(f64::from_bits(*p).powi(*q as i32).to_bits()),
                _ => Err(un("powi")),
            },
            Ext::IsConstant => ok(0),
            Ext::Expect | Ext::ThreadLocal => Ok(a[0].clone()),
            Ext::PtrMask => self.bin(BinOp::And, 64, &a[0], &a[1]),
            Ext::Unsupported => Err(un(format!("external function {}", name))),
        }
    }

    fn sel(&mut self, c: &Val, a: &Val, b: &Val, w: u32) -> R<Val> {
        match c {
            Val::C(1) => Ok(a.clone()),
            Val::C(_) => Ok(b.clone()),
            Val::S(e) => {
                let x = self.ex(a, w)?;
                let y = self.ex(b, w)?;
                let r = self.ar.ite(*e, x, y);
                Ok(norm(&self.ar, r))
            }
            _ => Err(un("select")),
        }
    }

    fn overflow_op(&mut self, x: Ext, w: u32, a: &Val, b: &Val) -> R<(Val, Val)> {
        if let (Val::C(p), Val::C(q)) = (a, b) {
            let m = m64(w);
            let (r, o) = match x {
                Ext::UAddO => {
                    let s = *p as u128 + *q as u128;
                    (s as u64 & m, s > m as u128)
                }
                Ext::USubO => (p.wrapping_sub(*q) & m, p < q),
                Ext::UMulO => {
                    let s = *p as u128 * *q as u128;
                    (s as u64 & m, s > m as u128)
                }
                _ => {
                    let (p, q) = (sx(*p, w) as i128, sx(*q, w) as i128);
                    let s = match x {
                        Ext::SAddO => p + q,
                        Ext::SSubO => p - q,
                        _ => p * q,
                    };
                    let lim = 1i128 << (w - 1);
                    (s as u64 & m, s < -lim || s >= lim)
                }
            };
            return Ok((Val::C(r), Val::C(o as u64)));
        }
        let (p, q) = (self.ex(a, w)?, self.ex(b, w)?);
        let ar = &mut self.ar;
        let w8 = w as u8;
        let (r, o) = match x {
            Ext::UAddO => {
                let s = ar.add(p, q);
                let no = ar.n(p).hi as u128 + ar.n(q).hi as u128 <= m64(w) as u128;
                let o = if no { ar.f } else { ar.ult(s, p) };
                (s, o)
            }
            Ext::USubO => {
                let s = ar.sub(p, q);
                let o = ar.ult(p, q);
                (s, o)
            }
            Ext::UMulO => {
                let s = ar.mul(p, q);
                let mx = ar.n(p).hi as u128 * ar.n(q).hi as u128;
                let o = if mx <= m64(w) as u128 {
                    ar.f
                } else if w <= 32 {
                    let x = ar.zext(p, 64);
                    let y = ar.zext(q, 64);
                    let z = ar.mul(x, y);
                    let lim = ar.c(m64(w), 64);
                    ar.ult(lim, z)
                } else if let Some(k) = ar.cv(q).or(ar.cv(p)) {
                    let v = if ar.cv(q).is_some() { p } else { q };
                    if k == 0 {
                        ar.f
                    } else {
                        let lim = ar.c(m64(w) / k, w8);
                        ar.ult(lim, v)
                    }
                } else {
                    let full = ar.c(u64::MAX, w8);
                    let d = ar.udiv(full, q);
                    let z = ar.c(0, w8);
                    let nz = ar.ne(q, z);
                    let l = ar.ult(d, p);
                    ar.and(nz, l)
                };
                (s, o)
            }
            Ext::SAddO | Ext::SSubO => {
                let s = if x == Ext::SAddO { ar.add(p, q) } else { ar.sub(p, q) };
                let sp = ar.extract(p, w8 - 1, 1);
                let sq = ar.extract(q, w8 - 1, 1);
                let ss = ar.extract(s, w8 - 1, 1);
                let same = ar.eq(sp, sq);
                let same = if x == Ext::SAddO { same } else { ar.not(same) };
                let diff = ar.ne(sp, ss);
                let o = ar.and(same, diff);
                (s, o)
            }
            _ => {
                if w > 32 {
                    return Err(un("symbolic smul.with.overflow.i64"));
                }
                let s = ar.mul(p, q);
                let x = ar.sext(p, 64);
                let y = ar.sext(q, 64);
                let z = ar.mul(x, y);
                let t = ar.sext(s, 64);
                let o = ar.ne(z, t);
                (s, o)
            }
        };
        Ok((norm(&self.ar, r), norm(&self.ar, o)))
    }
}

fn strip_numbers(s: &str) -> String {
    // keep signatures independent of object numbers
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '0' && it.peek() == Some(&'x') {
            out.push_str("0x..");
            it.next();
            while it.peek().map(|c| c.is_ascii_hexdigit()).unwrap_or(false) {
                it.next();
            }
        } else {
            out.push(c);
        }
    }
    out
}

fn apply(v: &mut Vec<u64>, m: &[(u32, u64)]) {
    for (k, x) in m {
        if v.len() <= *k as usize {
            v.resize(*k as usize + 1, 0);
        }
        v[*k as usize] = *x;
    }
}

/// Identifiers of a v0-mangled name, for display.
pub fn short_name(n: &str) -> String {
    let b = n.as_bytes();
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || b[i - 1] != b'_' || true) {
            let mut j = i;
            let mut l = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                l = l * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if l > 0 && j + l <= b.len() && b[j..j + l].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') {
                out.push(n[j..j + l].to_string());
                i = j + l;
                continue;
            }
        } else if b[i] == b's' || b[i] == b'B' {
            // disambiguator or back reference: skip to '_'
            let mut j = i + 1;
            while j < b.len() && b[j] != b'_' && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        i += 1;
    }
    if out.is_empty() { n.to_string() } else { out.join("::") }
}
