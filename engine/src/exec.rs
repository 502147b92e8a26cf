//! Path-wise symbolic execution of the IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::{Byte, Mem};
use crate::smt::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(Eid),
    Agg(Rc<Vec<Val>>),
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    regs: Vec<Val>,
    blk: u32,
    ip: usize,
    allocas: Vec<u64>,
    ret: Option<u32>,
    normal: Option<u32>,
}

pub struct Model {
    pub vals: HashMap<u32, u128>,
    memo: RefCell<HashMap<Eid, u128>>,
}

impl Model {
    pub fn new(vals: HashMap<u32, u128>) -> Rc<Self> {
        Rc::new(Model { vals, memo: RefCell::new(HashMap::new()) })
    }
    fn eval(&self, ar: &Arena, e: Eid) -> Option<u128> {
        let f = |i: usize| match self.vals.get(&(i as u32)) {
            Some(v) => *v,
            None => ar.default_of(i),
        };
        ar.eval(e, &f, &mut self.memo.borrow_mut())
    }
}

#[derive(Clone)]
pub enum Input {
    Sym(Eid),
    Choice(u64),
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    mem: Mem,
    cons: Vec<Eid>,
    known: HashMap<Eid, bool>,
    subst: HashMap<Eid, u128>,
    model: Option<Rc<Model>>,
    inputs: Vec<Input>,
    names: HashMap<String, u32>,
    no_panic: u32,
    tls: HashMap<u64, u128>,
    depth: u32,
    /// cover points passed, with their conditions
    marks: Vec<(Rc<str>, Val)>,
}

pub enum End {
    Done,
    Panic(String),
    Infeasible,
    Forked,
}

#[derive(Debug)]
pub enum Stop {
    Err(String),
}

pub struct Violation {
    pub id: String,
    pub inputs: Vec<(String, u128)>,
    pub trace: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Hook {
    None,
    Panic,
    FmtOk,
    FormatInner,
    Malloc,
    Calloc,
    Realloc,
    PosixMemalign,
    Free,
    RustAlloc,
    RustAllocZeroed,
    RustRealloc,
    RustDealloc,
    Memcpy,
    Memset,
    GetRandom,
    Bcmp,
    Memcmp,
    Strlen,
    Nop,
    NopZero,
    Sym,
    SymBytes,
    Choice,
    Assume,
    Assert,
    Cover,
    NoPanic,
    Concrete,
    IsSym,
    Stop,
    Llvm,
    Errno,
    PthKeyCreate,
    PthGet,
    PthSet,
    Trap,
    TryUnwind,
    FindPda,
}

pub struct Opts {
    pub mode: Enc,
    pub branch_ms: u64,
    /// explore the outcomes of conditional values separately
    pub split: bool,
    pub assert_ms: u64,
    pub max_steps: u64,
    pub deadline: Instant,
    pub stop_first: bool,
    pub verbose: bool,
    pub pda_stub: bool,
}

#[derive(Default)]
pub struct Counts {
    pub paths: u64,
    pub done: u64,
    pub panics: u64,
    pub infeasible: u64,
    pub steps: u64,
    pub forks: u64,
    pub conc: u64,
    pub assert_q: u64,
    pub assert_trivial: u64,
    pub branch_q: u64,
    pub unknown_branch: u64,
    pub max_depth: u64,
}

pub struct Ex<'m> {
    pub m: &'m Module,
    pub ar: Arena,
    pub smt: Smt,
    pub o: Opts,
    pub work: Vec<State>,
    pub n: Counts,
    pub covers: BTreeMap<String, u64>,
    pub witness: BTreeMap<String, Vec<(String, u128)>>,
    pub asserts: BTreeMap<String, (u64, u64)>,
    pub panics: BTreeMap<String, u64>,
    pub funcs: HashMap<Rc<str>, u64>,
    pub violations: Vec<Violation>,
    hung: bool,
    pub unknowns: Vec<String>,
    pub errors: Vec<String>,
    hooks: HashMap<Rc<str>, Hook>,
    var_ids: HashMap<(String, u32, u128, u128, bool), Eid>,
    vcache: HashMap<Eid, Rc<Vec<u32>>>,
    qcache: HashMap<Vec<Eid>, Option<Option<Rc<HashMap<u32, u128>>>>>,
    pub par: Option<Par>,
    pub last_split: Instant,
    pub slow: Vec<(f64, String)>,
    /// one concrete run per distinct outcome, to be compared with a native run
    pub samples: BTreeMap<String, Vec<(String, u128)>>,
}

type X<T> = Result<T, Stop>;
fn er<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::Err(s.into()))
}

macro_rules! trye {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(m) => return Err(Stop::Err(m.to_string())),
        }
    };
}

enum Next {
    Fall,
    Jump,
    End(End),
}

pub fn demangle(s: &str) -> String {
    if !s.starts_with("_ZN") {
        return s.to_string();
    }
    let b = s.as_bytes();
    let mut i = 3;
    let mut parts = vec![];
    while i < b.len() && b[i].is_ascii_digit() {
        let mut n = 0usize;
        while i < b.len() && b[i].is_ascii_digit() {
            n = n * 10 + (b[i] - b'0') as usize;
            i += 1;
        }
        if i + n > b.len() {
            break;
        }
        let p = &s[i..i + n];
        i += n;
        if p.len() == 17 && p.starts_with('h') {
            continue;
        }
        let p = p
            .replace("$LT$", "<")
            .replace("$GT$", ">")
            .replace("$RF$", "&")
            .replace("$LP$", "(")
            .replace("$RP$", ")")
            .replace("$C$", ",")
            .replace("$u20$", " ")
            .replace("$u27$", "'")
            .replace("$u5b$", "[")
            .replace("$u5d$", "]")
            .replace("$u7b$", "{")
            .replace("$u7d$", "}")
            .replace("..", "::");
        parts.push(p.trim_start_matches('_').to_string());
    }
    parts.join("::")
}

fn classify(name: &str, defined: bool) -> Hook {
    if name.starts_with("llvm.") {
        return Hook::Llvm;
    }
    match name {
        "malloc" => return Hook::Malloc,
        "calloc" => return Hook::Calloc,
        "realloc" => return Hook::Realloc,
        "posix_memalign" => return Hook::PosixMemalign,
        "free" => return Hook::Free,
        "memcpy" | "memmove" => return Hook::Memcpy,
        "memset" => return Hook::Memset,
        "getrandom" => return Hook::GetRandom,
        "bcmp" => return Hook::Bcmp,
        "memcmp" => return Hook::Memcmp,
        "strlen" => return Hook::Strlen,
        "abort" | "exit" | "_exit" => return Hook::Panic,
        "syscall" | "write" | "sched_yield" => return Hook::NopZero,
        "__errno_location" => return Hook::Errno,
        "pthread_key_create" => return Hook::PthKeyCreate,
        "pthread_getspecific" => return Hook::PthGet,
        "pthread_setspecific" => return Hook::PthSet,
        "__cxa_thread_atexit_impl" => return Hook::NopZero,
        "obs_sym" => return Hook::Sym,
        "obs_sym_bytes" => return Hook::SymBytes,
        "obs_choice" => return Hook::Choice,
        "obs_assume" => return Hook::Assume,
        "obs_assert" => return Hook::Assert,
        "obs_cover" => return Hook::Cover,
        "obs_no_panic" => return Hook::NoPanic,
        "obs_concrete" => return Hook::Concrete,
        "obs_is_sym" => return Hook::IsSym,
        "obs_stop" => return Hook::Stop,
        "obs_try_unwind" => return Hook::TryUnwind,
        "__rust_alloc" | "__rg_alloc" | "__rdl_alloc" => return Hook::RustAlloc,
        "__rust_alloc_zeroed" | "__rg_alloc_zeroed" | "__rdl_alloc_zeroed" => return Hook::RustAllocZeroed,
        "__rust_realloc" | "__rg_realloc" | "__rdl_realloc" => return Hook::RustRealloc,
        "__rust_dealloc" | "__rg_dealloc" | "__rdl_dealloc" => return Hook::RustDealloc,
        "rust_begin_unwind" | "rust_panic" | "__rust_start_panic" | "rust_oom" | "__rg_oom" | "__rust_alloc_error_handler"
        | "rust_panic_without_hook" => return Hook::Panic,
        _ => {}
    }
    let d = demangle(name);
    let last = d.rsplit("::").next().unwrap_or("");
    if d.contains("find_program_address") || d.contains("try_find_program_address") {
        return Hook::FindPda;
    }
    if d.starts_with("core::panicking::")
        || d.starts_with("std::panicking::begin_panic")
        || d.starts_with("std::panicking::rust_panic")
        || d.contains("begin_panic_handler")
        || d == "core::option::expect_failed"
        || d == "core::result::unwrap_failed"
        || d.starts_with("core::slice::index::slice_")
        || d.starts_with("core::str::slice_error_fail")
        || d.contains("handle_alloc_error")
        || d.contains("capacity_overflow")
        || d.contains("len_mismatch_fail")
        || d.contains("core::cell::panic_already")
        || d == "std::process::abort"
        || d == "std::process::exit"
        || d.ends_with("::assert_failed")
    {
        return Hook::Panic;
    }
    if d == "core::fmt::write" || d.starts_with("core::fmt::Formatter::") || d.starts_with("core::fmt::builders::") {
        return Hook::FmtOk;
    }
    if d == "alloc::fmt::format::format_inner" || d == "alloc::fmt::format" {
        return Hook::FormatInner;
    }
    if last == "fmt" && (d.contains("as core::fmt::") || d.contains("core::fmt::num::") || d.contains("core::fmt::Display") || d.contains("core::fmt::Debug")) {
        return Hook::FmtOk;
    }
    if d == "solana_program::pubkey::Pubkey::log" || d.starts_with("std::io::stdio::_print") || d.starts_with("std::io::stdio::_eprint") {
        return Hook::Nop;
    }
    let _ = defined;
    Hook::None
}

impl<'m> Ex<'m> {
    pub fn new(m: &'m Module, o: Opts) -> Self {
        Ex {
            m,
            ar: Arena::new(),
            smt: Smt::new(),
            o,
            work: vec![],
            n: Counts::default(),
            covers: BTreeMap::new(),
            witness: BTreeMap::new(),
            asserts: BTreeMap::new(),
            panics: BTreeMap::new(),
            funcs: HashMap::new(),
            violations: vec![],
            hung: false,
            unknowns: vec![],
            errors: vec![],
            hooks: HashMap::new(),
            var_ids: HashMap::new(),
            vcache: HashMap::new(),
            qcache: HashMap::new(),
            par: None,
            last_split: Instant::now(),
            slow: vec![],
            samples: BTreeMap::new(),
        }
    }

    fn store_cst(mem: &mut Mem, addr: u64, ty: &Ty, c: &Cst) -> Result<(), String> {
        match c {
            Cst::Zero | Cst::Undef => Ok(()),
            Cst::Int(v) => mem.store_c(addr, ty.size().min(16), *v),
            Cst::Agg(cs) => {
                for (i, x) in cs.iter().enumerate() {
                    let t = ty.elem(i);
                    Self::store_cst(mem, addr + ty.field_offset(i), &t, x)?;
                }
                Ok(())
            }
        }
    }

    pub fn start(&mut self, entry: &str) -> X<()> {
        let mut mem = Mem::new();
        for (i, g) in self.m.globals.iter().enumerate() {
            let a = trye!(mem.alloc(g.ty.size()));
            assert_eq!(a, global_addr(i));
            if let Some(c) = &g.init {
                if let Err(e) = Self::store_cst(&mut mem, a, &g.ty, c) {
                    return er(format!("{} initialising {} {:?}", e, g.name, g.ty));
                }
            }
        }
        for (i, g) in self.m.globals.iter().enumerate() {
            if g.constant {
                mem.set_const(global_addr(i));
            }
        }
        let f = trye!(self.m.func(entry));
        let fr = Frame { regs: vec![Val::C(0); f.nregs as usize], f, blk: 0, ip: 0, allocas: vec![], ret: None, normal: None };
        let st = State {
            frames: vec![Rc::new(fr)],
            mem,
            cons: vec![],
            known: HashMap::new(),
            subst: HashMap::new(),
            model: Some(Model::new(HashMap::new())),
            inputs: vec![],
            names: HashMap::new(),
            no_panic: 0,
            tls: HashMap::new(),
            depth: 0,
            marks: vec![],
        };
        self.work.push(st);
        Ok(())
    }

    /// Hand half of the pending states to a new process when a core is idle
    fn split(&mut self) {
        let Some(p) = &self.par else { return };
        if self.work.len() < 2 || self.last_split.elapsed() < Duration::from_millis(30) || p.running() >= p.jobs {
            return;
        }
        if !p.claim() {
            return;
        }
        self.last_split = Instant::now();
        let pid = unsafe { fork() };
        let mut keep = 0;
        let me = pid == 0;
        // the oldest states are the largest subtrees: deal them out alternately
        self.work.retain(|_| {
            keep += 1;
            (keep % 2 == 0) == me
        });
        if pid == 0 {
            self.smt.after_fork();
            let d = self.smt.dump.take();
            self.smt = crate::smt::Smt::new();
            self.smt.dump = d;
            self.n = Counts::default();
            self.covers.clear();
            self.asserts.clear();
            self.panics.clear();
            self.funcs.clear();
            self.slow.clear();
            self.samples.clear();
            self.violations.clear();
            self.unknowns.clear();
            self.errors.clear();
            let p = self.par.as_mut().unwrap();
            p.child = true;
            p.kids.clear();
        } else if pid < 0 {
            p.release();
            self.errors.push("fork failed".into());
        } else {
            self.par.as_mut().unwrap().kids.push(pid);
        }
    }

    /// run until the work list is empty; a process split off returns from here as well
    pub fn run(&mut self) {
        while !self.work.is_empty() {
            self.split();
            if let Some(p) = &self.par {
                if p.stopped() {
                    return;
                }
            }
            let mut st = self.work.pop().unwrap();
            if Instant::now() > self.o.deadline {
                self.errors.push(format!("time budget exhausted with {} pending states", self.work.len() + 1));
                return;
            }
            match self.path(&mut st) {
                Ok(End::Done) => {
                    self.n.paths += 1;
                    self.n.done += 1;
                    self.n.max_depth = self.n.max_depth.max(st.depth as u64);
                    self.sample(&st, "done");
                }
                Ok(End::Panic(w)) => {
                    self.n.paths += 1;
                    self.n.panics += 1;
                    *self.panics.entry(w).or_insert(0) += 1;
                    self.sample(&st, "panic");
                }
                Ok(End::Infeasible) => {
                    self.n.infeasible += 1;
                }
                Ok(End::Forked) => {}
                Err(Stop::Err(e)) => {
                    let tr = self.trace(&st);
                    self.errors.push(format!("{} at {}", e, tr.join(" < ")));
                    if self.errors.len() > 5 {
                        return;
                    }
                }
            }
            if self.hung || self.o.stop_first && !self.violations.is_empty() {
                if let Some(p) = &self.par {
                    p.stop();
                }
                return;
            }
            if self.o.verbose && (self.n.paths + self.n.infeasible) % 50 == 0 {
                eprintln!(
                    "paths {} done {} panics {} pending {} steps {} queries {} nodes {} solver {:.1}s",
                    self.n.paths,
                    self.n.done,
                    self.n.panics,
                    self.work.len(),
                    self.n.steps,
                    self.smt.stats.queries,
                    self.ar.nodes.len(),
                    self.smt.stats.time
                );
            }
        }
    }

    fn sample(&mut self, st: &State, end: &str) {
        if self.samples.len() >= 12 {
            return;
        }
        if let Some(m) = st.model.clone() {
            let mut sig = String::from(end);
            for (id, c) in &st.marks {
                let hit = match c {
                    Val::C(k) => *k & 1 == 1,
                    Val::S(e) => match m.eval(&self.ar, *e) {
                        Some(k) => k & 1 == 1,
                        None => return,
                    },
                    _ => return,
                };
                if hit {
                    sig.push(' ');
                    sig.push_str(id);
                }
            }
            if !self.samples.contains_key(&sig) {
                let v = self.input_values(st, &m);
                self.samples.insert(sig, v);
            }
        }
    }

    fn trace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| format!("{}:b{}:{}", demangle(&f.f.name), f.blk, f.ip)).collect()
    }

    // ---------------------------------------------------------------- values
    fn mk(&self, st: &State, e: Eid) -> Val {
        if let Some(v) = self.ar.cval(e) {
            return Val::C(v);
        }
        if !st.subst.is_empty() {
            if let Some(v) = st.subst.get(&e) {
                return Val::C(*v);
            }
        }
        if self.ar.w(e) == 1 {
            if let Some(b) = st.known.get(&e) {
                return Val::C(*b as u128);
            }
        }
        Val::S(e)
    }
    fn eid(&mut self, v: &Val, w: u32) -> Eid {
        match v {
            Val::C(c) => self.ar.c(w, *c),
            Val::S(e) => *e,
            Val::Agg(_) => panic!("aggregate as scalar"),
        }
    }
    fn zero(ty: &Ty) -> Val {
        match ty {
            Ty::Struct(f, _) => Val::Agg(Rc::new(f.iter().map(Self::zero).collect())),
            Ty::Array(t, n) | Ty::Vector(t, n) => Val::Agg(Rc::new((0..*n).map(|_| Self::zero(t)).collect())),
            _ => Val::C(0),
        }
    }
    fn cst(ty: &Ty, c: &Cst) -> Val {
        match c {
            Cst::Int(v) => Val::C(*v),
            Cst::Zero | Cst::Undef => Self::zero(ty),
            Cst::Agg(v) => Val::Agg(Rc::new(v.iter().enumerate().map(|(i, x)| Self::cst(&ty.elem(i), x)).collect())),
        }
    }
    fn get(&self, fr: &Frame, ty: &Ty, o: &Opd) -> Val {
        match o {
            Opd::Reg(r) => fr.regs[*r as usize].clone(),
            Opd::C(Cst::Int(v)) => Val::C(*v),
            Opd::C(c) => Self::cst(ty, c),
        }
    }

    fn load(&mut self, st: &State, ty: &Ty, addr: u64) -> X<Val> {
        match ty {
            Ty::Int(_) | Ty::Float | Ty::Double | Ty::Ptr => {
                let w = ty.bits();
                let n = (w as u64 + 7) / 8;
                if n > 16 {
                    return er(format!("load of {} bits", w));
                }
                if let Some(v) = trye!(st.mem.load_c(addr, n)) {
                    return Ok(Val::C(v & mask(w)));
                }
                let mut e = trye!(st.mem.load_e(&mut self.ar, addr, n));
                if self.ar.w(e) != w {
                    e = self.ar.extract(e, 0, w);
                }
                Ok(self.mk(st, e))
            }
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                let mut v = vec![];
                for i in 0..ty.count() {
                    let t = ty.elem(i);
                    v.push(self.load(st, &t, addr + ty.field_offset(i))?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => er("load type"),
        }
    }
    fn store(&mut self, st: &mut State, ty: &Ty, addr: u64, v: &Val) -> X<()> {
        match (ty, v) {
            (Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..), Val::Agg(vs)) => {
                for (i, x) in vs.iter().enumerate() {
                    let t = ty.elem(i);
                    self.store(st, &t, addr + ty.field_offset(i), x)?;
                }
                Ok(())
            }
            (_, Val::C(c)) => {
                let n = (ty.bits() as u64 + 7) / 8;
                trye!(st.mem.store_c(addr, n, *c));
                Ok(())
            }
            (_, Val::S(e)) => {
                let n = (ty.bits() as u64 + 7) / 8;
                let w = self.ar.w(*e);
                let e = if w as u64 != n * 8 { self.ar.zext(*e, n as u32 * 8) } else { *e };
                trye!(st.mem.store_e(addr, n, e));
                Ok(())
            }
            _ => er("store type"),
        }
    }

    // ---------------------------------------------------------------- solving
    fn slice(&mut self, cons: &[Eid], goal: &[Eid]) -> Vec<Eid> {
        let mut vars: HashSet<u32> = HashSet::new();
        for g in goal {
            vars.extend(self.ar.vars_of(*g, &mut self.vcache).iter());
        }
        let mut left: Vec<(Eid, Rc<Vec<u32>>)> = cons.iter().map(|c| (*c, self.ar.vars_of(*c, &mut self.vcache))).collect();
        let mut out: Vec<Eid> = goal.to_vec();
        loop {
            let before = out.len();
            left.retain(|(c, vs)| {
                if vs.iter().any(|v| vars.contains(v)) {
                    vars.extend(vs.iter());
                    out.push(*c);
                    false
                } else {
                    true
                }
            });
            if out.len() == before {
                break;
            }
        }
        out.sort();
        out.dedup();
        out
    }

    /// Is `goal` satisfiable together with the path condition?
    /// None = unsat, Some(Some(m)) = sat with a validated model, Some(None) = maybe
    fn sat(&mut self, st: &State, goal: Eid, strong: bool) -> Option<Option<Rc<Model>>> {
        if self.ar.cval(goal) == Some(0) {
            return None;
        }
        let q = self.slice(&st.cons, &[goal]);
        let cached = self.qcache.get(&q).cloned();
        let res = match cached {
            Some(None) => None,
            Some(Some(Some(m))) => Some(Some(m)),
            Some(Some(None)) if !strong => Some(None),
            _ => {
                let r = self.solve(&q, strong);
                self.qcache.insert(q, r.clone());
                r
            }
        };
        match res {
            None => None,
            Some(None) => Some(None),
            Some(Some(m)) => {
                // variables outside the slice keep the values of the current model
                match &st.model {
                    Some(old) => {
                        let mut v = old.vals.clone();
                        for (k, x) in m.iter() {
                            v.insert(*k, *x);
                        }
                        Some(Some(Model::new(v)))
                    }
                    None => {
                        let nm = Model::new((*m).clone());
                        let ok = st.cons.iter().all(|c| nm.eval(&self.ar, *c) == Some(1));
                        if ok {
                            Some(Some(nm))
                        } else {
                            Some(None)
                        }
                    }
                }
            }
        }
    }

    fn solve(&mut self, q: &[Eid], strong: bool) -> Option<Option<Rc<HashMap<u32, u128>>>> {
        let other = if self.o.mode == Enc::Int { Enc::Bv } else { Enc::Int };
        let plan: Vec<(Prog, Enc, u64)> = if strong {
            let t = self.o.assert_ms;
            vec![
                (Prog::Z3, self.o.mode, t / 10),
                (Prog::Z3, other, t / 10),
                (Prog::Cvc5, self.o.mode, t / 5),
                (Prog::Z3, self.o.mode, t),
                (Prog::Z3, other, t / 2),
                (Prog::Cvc5, other, t / 2),
            ]
        } else {
            vec![(Prog::Z3, self.o.mode, self.o.branch_ms)]
        };
        let t0 = Instant::now();
        let mut res = Some(None);
        for (p, e, t) in plan {
            match self.smt.check(&self.ar, q, p, e, t) {
                Answer::Unsat => {
                    res = None;
                    break;
                }
                Answer::Sat(m) => {
                    res = Some(Some(Rc::new(m)));
                    break;
                }
                Answer::SatApprox | Answer::Unknown => {}
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        if dt > 0.5 {
            self.slow.push((dt, format!("{} cons strong={} res={}", q.len(), strong, match &res { None => "unsat", Some(Some(_)) => "sat", _ => "unknown" })));
        }
        res
    }

    fn add(&mut self, st: &mut State, c: Eid) {
        if self.ar.cval(c) == Some(1) {
            return;
        }
        if st.known.get(&c) == Some(&true) {
            return;
        }
        st.known.insert(c, true);
        let nc = self.ar.not(c);
        st.known.insert(nc, false);
        let n = *self.ar.n(c);
        match n.op {
            Op::Eq => {
                if let Some(k) = self.ar.cval(n.b) {
                    st.subst.insert(n.a, k);
                    // equality of a zero-extension or concatenation with a constant
                    let na = *self.ar.n(n.a);
                    if na.op == Op::ZExt {
                        st.subst.insert(na.a, k);
                    }
                } else if let Some(k) = self.ar.cval(n.a) {
                    st.subst.insert(n.b, k);
                }
            }
            Op::And if n.w == 1 => {
                self.add(st, n.a);
                self.add(st, n.b);
                return;
            }
            Op::Xor if n.w == 1 && self.ar.cval(n.b) == Some(1) => {
                // not (a or b)
                let o = *self.ar.n(n.a);
                if o.op == Op::Or && o.w == 1 {
                    let (x, y) = (self.ar.not(o.a), self.ar.not(o.b));
                    self.add(st, x);
                    self.add(st, y);
                    return;
                }
            }
            _ => {}
        }
        st.cons.push(c);
    }

    /// Decide a symbolic condition: returns the value taken by this state, forking if both are possible.
    /// The forked state is positioned at the same instruction, so it re-evaluates the condition.
    fn decide(&mut self, st: &mut State, c: Eid) -> X<Option<bool>> {
        if let Some(v) = self.ar.cval(c) {
            return Ok(Some(v == 1));
        }
        if let Some(b) = st.known.get(&c) {
            return Ok(Some(*b));
        }
        let nc = self.ar.not(c);
        let mv = match &st.model {
            Some(m) => m.eval(&self.ar, c).map(|v| v == 1),
            None => None,
        };
        self.n.branch_q += 1;
        let side = match mv {
            Some(b) => b,
            None => {
                // no model: query the true side first
                match self.sat(st, c, false) {
                    None => {
                        st.known.insert(c, false);
                        st.known.insert(nc, true);
                        return Ok(Some(false));
                    }
                    Some(m) => {
                        let r = self.sat(st, nc, false);
                        match r {
                            None => {
                                st.known.insert(c, true);
                                st.known.insert(nc, false);
                                if m.is_some() {
                                    st.model = m;
                                }
                                return Ok(Some(true));
                            }
                            Some(m2) => {
                                let mut o = st.clone();
                                self.n.forks += 1;
                                o.depth += 1;
                                st.depth += 1;
                                self.add(&mut o, nc);
                                o.model = m2;
                                self.work.push(o);
                                self.add(st, c);
                                st.model = m;
                                return Ok(Some(true));
                            }
                        }
                    }
                }
            }
        };
        let (mine, other) = if side { (c, nc) } else { (nc, c) };
        match self.sat(st, other, false) {
            None => {
                st.known.insert(mine, true);
                st.known.insert(other, false);
                Ok(Some(side))
            }
            Some(m) => {
                if m.is_none() {
                    self.n.unknown_branch += 1;
                }
                let mut o = st.clone();
                self.n.forks += 1;
                o.depth += 1;
                st.depth += 1;
                self.add(&mut o, other);
                o.model = m;
                self.work.push(o);
                self.add(st, mine);
                Ok(Some(side))
            }
        }
    }

    fn need_model(&mut self, st: &mut State) -> X<bool> {
        // make sure the state has a validated model; false = infeasible
        if st.model.is_some() {
            return Ok(true);
        }
        let all = st.cons.clone();
        match self.solve(&all, true) {
            None => Ok(false),
            Some(Some(m)) => {
                st.model = Some(Model::new((*m).clone()));
                Ok(true)
            }
            Some(None) => er("no model for the path condition within the solver limits"),
        }
    }

    /// Pick a concrete value for a term, forking over the alternatives.
    fn conc(&mut self, st: &mut State, v: &Val, w: u32) -> X<Option<u128>> {
        let e = match v {
            Val::C(c) => return Ok(Some(*c)),
            Val::S(e) => *e,
            Val::Agg(_) => return er("aggregate address"),
        };
        if let Some(k) = st.subst.get(&e) {
            return Ok(Some(*k));
        }
        self.n.conc += 1;
        if st.model.is_none() && !self.need_model(st)? {
            return Ok(None);
        }
        let k = match st.model.as_ref().unwrap().eval(&self.ar, e) {
            Some(k) => k,
            None => return er("model evaluation"),
        };
        let ke = self.ar.c(w, k);
        let eq = self.ar.pred(Op::Eq, e, ke);
        let ne = self.ar.not(eq);
        match self.sat(st, ne, false) {
            None => {
                st.subst.insert(e, k);
                Ok(Some(k))
            }
            Some(m) => {
                let mut o = st.clone();
                self.n.forks += 1;
                o.depth += 1;
                st.depth += 1;
                self.add(&mut o, ne);
                o.model = m;
                self.work.push(o);
                self.add(st, eq);
                st.subst.insert(e, k);
                Ok(Some(k))
            }
        }
    }

    fn input_values(&mut self, st: &State, m: &Model) -> Vec<(String, u128)> {
        let mut out = vec![];
        for i in &st.inputs {
            match i {
                Input::Choice(c) => out.push(("choice".to_string(), *c as u128)),
                Input::Sym(e) => {
                    let n = *self.ar.n(*e);
                    let nm = if n.op == Op::Var { self.ar.vars[n.k as usize].name.clone() } else { "?".into() };
                    out.push((nm, m.eval(&self.ar, *e).unwrap_or(0)));
                }
            }
        }
        out
    }

    fn violation(&mut self, st: &State, id: &str, m: &Model) {
        let inputs = self.input_values(st, m);
        let trace = self.trace(st);
        self.violations.push(Violation { id: id.to_string(), inputs, trace });
    }

    fn do_assert(&mut self, st: &mut State, c: Val, id: &str) -> X<bool> {
        // returns false when the path cannot continue
        let ent = self.asserts.entry(id.to_string()).or_insert((0, 0));
        ent.0 += 1;
        let already = self.violations.iter().filter(|v| v.id == id).count();
        match c {
            Val::C(1) => {
                self.n.assert_trivial += 1;
                Ok(true)
            }
            Val::C(_) => {
                if already < 3 {
                    if !self.need_model(st)? {
                        return Ok(false);
                    }
                    let m = st.model.clone().unwrap();
                    self.violation(st, id, &m);
                }
                Ok(false)
            }
            Val::S(e) => {
                let ne = self.ar.not(e);
                self.n.assert_q += 1;
                self.asserts.get_mut(id).unwrap().1 += 1;
                // quick refutation by the current model
                if let Some(m) = st.model.clone() {
                    if m.eval(&self.ar, ne) == Some(1) {
                        if already < 3 {
                            self.violation(st, id, &m);
                        }
                        match self.sat(st, e, false) {
                            None => return Ok(false),
                            Some(m) => {
                                self.add(st, e);
                                st.model = m;
                                return Ok(true);
                            }
                        }
                    }
                }
                match self.sat(st, ne, true) {
                    None => {
                        st.known.insert(e, true);
                        st.known.insert(ne, false);
                        Ok(true)
                    }
                    Some(Some(m)) => {
                        if already < 3 {
                            self.violation(st, id, &m);
                        }
                        match self.sat(st, e, false) {
                            None => Ok(false),
                            Some(m) => {
                                self.add(st, e);
                                if st.model.as_ref().map(|x| x.eval(&self.ar, e)) != Some(Some(1)) {
                                    st.model = m;
                                }
                                Ok(true)
                            }
                        }
                    }
                    Some(None) => {
                        self.unknowns.push(id.to_string());
                        self.add(st, e);
                        if st.model.as_ref().map(|x| x.eval(&self.ar, e)) != Some(Some(1)) {
                            st.model = None;
                        }
                        Ok(true)
                    }
                }
            }
            _ => er("assert operand"),
        }
    }

    fn hook(&mut self, name: &Rc<str>) -> Hook {
        if let Some(h) = self.hooks.get(name) {
            return *h;
        }
        let mut h = classify(name, self.m.fn_src.contains_key(name));
        if h == Hook::FindPda && !self.o.pda_stub {
            h = Hook::None;
        }
        self.hooks.insert(name.clone(), h);
        h
    }

    // ---------------------------------------------------------------- execution
    fn path(&mut self, st: &mut State) -> X<End> {
        let mut steps: u64 = 0;
        loop {
            let (f, blk) = {
                let fr = st.frames.last().unwrap();
                (fr.f.clone(), fr.blk as usize)
            };
            let block = &f.blocks[blk];
            let mut ip = st.frames.last().unwrap().ip;
            loop {
                steps += 1;
                if steps > self.o.max_steps {
                    // no operation of the program takes this long: reported, and replayed natively
                    return self.hang(st);
                }
                self.n.steps += 1;
                if steps & 0xffff == 0 && Instant::now() > self.o.deadline {
                    return er("time budget exhausted");
                }
                let (dst, ins) = &block.ins[ip];
                if Rc::strong_count(st.frames.last().unwrap()) > 1 || st.frames.last().unwrap().ip != ip {
                    Rc::make_mut(st.frames.last_mut().unwrap()).ip = ip;
                }
                match self.step(st, *dst, ins) {
                    Ok(Next::Fall) => ip += 1,
                    Ok(Next::Jump) => break,
                    Ok(Next::End(e)) => return Ok(e),
                    // nor does any need this much memory
                    Err(Stop::Err(e)) if e.starts_with("allocation of") => return self.hang(st),
                    Err(e) => return Err(e),
                }
            }
        }
    }
    fn hang(&mut self, st: &mut State) -> X<End> {
        if !self.need_model(st)? {
            return Ok(End::Infeasible);
        }
        let m = st.model.clone().unwrap();
        self.violation(st, "hang", &m);
        if let Some(p) = &self.par {
            p.stop();
        }
        self.hung = true;
        Ok(End::Infeasible)
    }

    fn set(&self, st: &mut State, dst: Option<u32>, v: Val) {
        if let Some(d) = dst {
            let fr = Rc::make_mut(st.frames.last_mut().unwrap());
            fr.regs[d as usize] = v;
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = fr.blk;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        let mut vals: Vec<(u32, Val)> = vec![];
        let mut n = 0;
        for (d, ins) in &b.ins {
            if let Ins::Phi(ty, inc) = ins {
                let o = inc.iter().find(|(_, b)| *b == from).map(|(o, _)| o).unwrap_or_else(|| panic!("phi in {} block {} from {}", f.name, to, from));
                vals.push((d.unwrap(), self.get(fr, ty, o)));
                n += 1;
            } else {
                break;
            }
        }
        for (d, v) in vals {
            fr.regs[d as usize] = v;
        }
        fr.blk = to;
        fr.ip = n;
    }

    fn binop(&mut self, st: &State, op: BinOp, ty: &Ty, a: &Val, b: &Val) -> X<Val> {
        if let (Val::Agg(x), Val::Agg(y)) = (a, b) {
            let t = ty.elem(0);
            let mut v = vec![];
            for i in 0..x.len() {
                v.push(self.binop(st, op, &t, &x[i], &y[i])?);
            }
            return Ok(Val::Agg(Rc::new(v)));
        }
        let w = ty.bits();
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::FAdd => Op::FAdd,
            BinOp::FSub => Op::FSub,
            BinOp::FMul => Op::FMul,
            BinOp::FDiv => Op::FDiv,
            BinOp::FRem => {
                return match (a, b) {
                    (Val::C(x), Val::C(y)) => Ok(Val::C(fold_math("frem", w, &[*x, *y]))),
                    _ => er("remainder of a symbolic float"),
                }
            }
        };
        if matches!(o, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv) {
            if let (Val::C(x), Val::C(y)) = (a, b) {
                return Ok(Val::C(fold_float(o, w, w, *x, *y)));
            }
            let (x, y) = (self.eid(a, w), self.eid(b, w));
            let e = self.ar.fop(o, w, x, y);
            return Ok(self.mk(st, e));
        }
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if let Some(v) = fold(o, w, *x, *y) {
                return Ok(Val::C(v));
            }
        }
        if w > 128 {
            return er("wide integer");
        }
        let (x, y) = (self.eid(a, w), self.eid(b, w));
        let e = self.ar.bin(o, x, y);
        Ok(self.mk(st, e))
    }

    fn icmp(&mut self, st: &State, p: Pred, ty: &Ty, a: &Val, b: &Val) -> X<Val> {
        if let (Val::Agg(x), Val::Agg(y)) = (a, b) {
            let t = ty.elem(0);
            let mut v = vec![];
            for i in 0..x.len() {
                v.push(self.icmp(st, p, &t, &x[i], &y[i])?);
            }
            return Ok(Val::Agg(Rc::new(v)));
        }
        let w = ty.bits();
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx_, sy) = (sx(x, w), sx(y, w));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx_ > sy,
                Pred::Sge => sx_ >= sy,
                Pred::Slt => sx_ < sy,
                Pred::Sle => sx_ <= sy,
            };
            return Ok(Val::C(r as u128));
        }
        let (x, y) = (self.eid(a, w), self.eid(b, w));
        let e = match p {
            Pred::Eq => self.ar.pred(Op::Eq, x, y),
            Pred::Ne => {
                let e = self.ar.pred(Op::Eq, x, y);
                self.ar.not(e)
            }
            Pred::Ult => self.ar.pred(Op::Ult, x, y),
            Pred::Ugt => self.ar.pred(Op::Ult, y, x),
            Pred::Ule => {
                let e = self.ar.pred(Op::Ult, y, x);
                self.ar.not(e)
            }
            Pred::Uge => {
                let e = self.ar.pred(Op::Ult, x, y);
                self.ar.not(e)
            }
            Pred::Slt => self.ar.pred(Op::Slt, x, y),
            Pred::Sgt => self.ar.pred(Op::Slt, y, x),
            Pred::Sle => {
                let e = self.ar.pred(Op::Slt, y, x);
                self.ar.not(e)
            }
            Pred::Sge => {
                let e = self.ar.pred(Op::Slt, x, y);
                self.ar.not(e)
            }
        };
        Ok(self.mk(st, e))
    }

    fn select(&mut self, st: &State, c: Eid, ty: &Ty, a: &Val, b: &Val) -> X<Val> {
        match (a, b) {
            (Val::Agg(x), Val::Agg(y)) => {
                let mut v = vec![];
                for i in 0..x.len() {
                    let t = ty.elem(i);
                    v.push(self.select(st, c, &t, &x[i], &y[i])?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            (Val::C(x), Val::C(y)) if x == y => Ok(a.clone()),
            _ => {
                let w = ty.bits();
                let (x, y) = (self.eid(a, w), self.eid(b, w));
                let e = self.ar.ite(c, x, y);
                Ok(self.mk(st, e))
            }
        }
    }

    fn flatten(&mut self, ty: &Ty, v: &Val) -> X<Eid> {
        match v {
            Val::Agg(vs) => {
                let t = ty.elem(0);
                let mut r: Option<Eid> = None;
                for x in vs.iter() {
                    let e = self.flatten(&t, x)?;
                    r = Some(match r {
                        None => e,
                        Some(l) => self.ar.concat(e, l),
                    });
                }
                Ok(r.unwrap())
            }
            _ => {
                let w = ty.bits();
                Ok(self.eid(v, w))
            }
        }
    }

    fn cast(&mut self, st: &State, op: CastOp, from: &Ty, v: &Val, to: &Ty) -> X<Val> {
        if op == CastOp::Bitcast {
            match (from, to) {
                (Ty::Vector(..), Ty::Vector(et, n)) => {
                    let e = self.flatten(from, v)?;
                    let w = et.bits();
                    let mut out = vec![];
                    for i in 0..*n as u32 {
                        let x = self.ar.extract(e, i * w, w);
                        out.push(self.mk(st, x));
                    }
                    return Ok(Val::Agg(Rc::new(out)));
                }
                (Ty::Vector(..), _) => {
                    let e = self.flatten(from, v)?;
                    return Ok(self.mk(st, e));
                }
                (_, Ty::Vector(et, n)) => {
                    let e = self.eid(v, from.bits());
                    let w = et.bits();
                    let mut out = vec![];
                    for i in 0..*n as u32 {
                        let x = self.ar.extract(e, i * w, w);
                        out.push(self.mk(st, x));
                    }
                    return Ok(Val::Agg(Rc::new(out)));
                }
                _ => return Ok(v.clone()),
            }
        }
        if let (Val::Agg(x), Ty::Vector(ft, _), Ty::Vector(tt, _)) = (v, from, to) {
            let mut out = vec![];
            for e in x.iter() {
                out.push(self.cast(st, op, ft, e, tt)?);
            }
            return Ok(Val::Agg(Rc::new(out)));
        }
        let (fw, tw) = (from.bits(), to.bits());
        match op {
            CastOp::Trunc | CastOp::ZExt | CastOp::PtrToInt | CastOp::IntToPtr => {
                if let Val::C(c) = v {
                    return Ok(Val::C(*c & mask(tw)));
                }
                let e = self.eid(v, fw);
                let r = if tw < fw {
                    self.ar.extract(e, 0, tw)
                } else if tw > fw {
                    self.ar.zext(e, tw)
                } else {
                    e
                };
                Ok(self.mk(st, r))
            }
            CastOp::SExt => {
                if let Val::C(c) = v {
                    return Ok(Val::C(sx(*c, fw) as u128 & mask(tw)));
                }
                let e = self.eid(v, fw);
                let r = self.ar.sext(e, tw);
                Ok(self.mk(st, r))
            }
            CastOp::FpToUi | CastOp::FpToSi | CastOp::UiToFp | CastOp::SiToFp | CastOp::FpExt | CastOp::FpTrunc => {
                let o = match op {
                    CastOp::FpToUi => Op::FToU,
                    CastOp::FpToSi => Op::FToS,
                    CastOp::UiToFp => Op::FFromU,
                    CastOp::SiToFp => Op::FFromS,
                    CastOp::FpExt => Op::FExt,
                    _ => Op::FTrunc,
                };
                let e = self.eid(v, fw);
                let r = self.ar.fop(o, tw, e, 0);
                Ok(self.mk(st, r))
            }
            CastOp::Bitcast => unreachable!(),
        }
    }

    fn fcmp(&mut self, st: &State, p: &str, ty: &Ty, a: &Val, b: &Val) -> X<Val> {
        let w = ty.bits();
        let (x, y) = (self.eid(a, w), self.eid(b, w));
        let uno = self.ar.fop(Op::FUno, 1, x, y);
        let base = |s: &mut Self, q: &str| -> Eid {
            match q {
                "eq" => s.ar.fop(Op::FEq, 1, x, y),
                "lt" => s.ar.fop(Op::FLt, 1, x, y),
                "le" => s.ar.fop(Op::FLe, 1, x, y),
                "gt" => s.ar.fop(Op::FLt, 1, y, x),
                "ge" => s.ar.fop(Op::FLe, 1, y, x),
                "ne" => {
                    let e = s.ar.fop(Op::FEq, 1, x, y);
                    let n = s.ar.not(e);
                    let nu = s.ar.not(uno);
                    s.ar.and1(n, nu)
                }
                _ => unreachable!(),
            }
        };
        let e = match p {
            "uno" => uno,
            "ord" => self.ar.not(uno),
            "true" => self.ar.b(true),
            "false" => self.ar.b(false),
            _ => {
                let b = base(self, &p[1..]);
                if p.starts_with('u') {
                    self.ar.or1(b, uno)
                } else {
                    b
                }
            }
        };
        Ok(self.mk(st, e))
    }

    fn step(&mut self, st: &mut State, dst: Option<u32>, ins: &Ins) -> X<Next> {
        macro_rules! g {
            ($t:expr, $o:expr) => {
                self.get(st.frames.last().unwrap(), $t, $o)
            };
        }
        macro_rules! conc {
            ($v:expr, $w:expr) => {
                match self.conc(st, $v, $w)? {
                    Some(x) => x,
                    None => return Ok(Next::End(End::Infeasible)),
                }
            };
        }
        match ins {
            Ins::Load(ty, p) => {
                let a = g!(&Ty::Ptr, p);
                let a = conc!(&a, 64);
                let v = self.load(st, ty, a as u64)?;
                self.set(st, dst, v);
                Ok(Next::Fall)
            }
            Ins::Store(ty, v, p) => {
                let a = g!(&Ty::Ptr, p);
                let a = conc!(&a, 64);
                let v = g!(ty, v);
                self.store(st, ty, a as u64, &v)?;
                Ok(Next::Fall)
            }
            Ins::Gep(base, off, idx) => {
                let b = g!(&Ty::Ptr, base);
                let mut conc_off = *off;
                let mut sym: Option<Eid> = None;
                for (o, w, stride) in idx {
                    let v = g!(&Ty::Int(*w), o);
                    match v {
                        Val::C(c) => conc_off = conc_off.wrapping_add((sx(c, *w) as i64).wrapping_mul(*stride)),
                        Val::S(e) => {
                            let e = if *w < 64 { self.ar.sext(e, 64) } else { e };
                            let k = self.ar.c(64, *stride as u64 as u128);
                            let t = self.ar.bin(Op::Mul, e, k);
                            sym = Some(match sym {
                                None => t,
                                Some(s) => self.ar.bin(Op::Add, s, t),
                            });
                        }
                        _ => return er("vector gep"),
                    }
                }
                let v = match (b, sym) {
                    (Val::C(b), None) => Val::C((b as u64).wrapping_add(conc_off as u64) as u128),
                    (b, s) => {
                        let be = self.eid(&b, 64);
                        let k = self.ar.c(64, conc_off as u64 as u128);
                        let mut e = self.ar.bin(Op::Add, be, k);
                        if let Some(s) = s {
                            e = self.ar.bin(Op::Add, e, s);
                        }
                        self.mk(st, e)
                    }
                };
                self.set(st, dst, v);
                Ok(Next::Fall)
            }
            Ins::Bin(op, ty, a, b) => {
                let (x, y) = (g!(ty, a), g!(ty, b));
                let v = self.binop(st, *op, ty, &x, &y)?;
                self.set(st, dst, v);
                Ok(Next::Fall)
            }
            Ins::ICmp(p, ty, a, b) => {
                let (x, y) = (g!(ty, a), g!(ty, b));
                let v = self.icmp(st, *p, ty, &x, &y)?;
                self.set(st, dst, v);
                Ok(Next::Fall)
            }
            Ins::Br(b) => {
                self.jump(st, *b);
                Ok(Next::Jump)
            }
            Ins::CondBr(c, a, b) => {
                let v = g!(&Ty::Int(1), c);
                let t = match v {
                    Val::C(c) => c == 1,
                    Val::S(e) => match self.decide(st, e)? {
                        Some(b) => b,
                        None => return Ok(Next::End(End::Infeasible)),
                    },
                    _ => return er("branch"),
                };
                self.jump(st, if t { *a } else { *b });
                Ok(Next::Jump)
            }
            Ins::Select(cty, ty, c, a, b) => {
                let cv = g!(cty, c);
                let (x, y) = (g!(ty, a), g!(ty, b));
                let v = match cv {
                    Val::C(k) => {
                        if k == 1 {
                            x
                        } else {
                            y
                        }
                    }
                    Val::S(e) if self.o.split && matches!(ty, Ty::Int(w) if *w >= 32) => match self.decide(st, e)? {
                        Some(true) => x,
                        Some(false) => y,
                        None => return Ok(Next::End(End::Infeasible)),
                    },
                    Val::S(e) => self.select(st, e, ty, &x, &y)?,
                    Val::Agg(cs) => match (&x, &y) {
                        (Val::Agg(xs), Val::Agg(ys)) => {
                            let t = ty.elem(0);
                            let mut out = vec![];
                            for i in 0..cs.len() {
                                out.push(match &cs[i] {
                                    Val::C(1) => xs[i].clone(),
                                    Val::C(_) => ys[i].clone(),
                                    Val::S(e) => self.select(st, *e, &t, &xs[i], &ys[i])?,
                                    _ => return er("select"),
                                });
                            }
                            Val::Agg(Rc::new(out))
                        }
                        _ => return er("select"),
                    },
                };
                self.set(st, dst, v);
                Ok(Next::Fall)
            }
            Ins::Switch(w, o, dflt, cases) => {
                let v = g!(&Ty::Int(*w), o);
                match v {
                    Val::C(k) => {
                        let t = cases.iter().find(|(c, _)| *c == k).map(|x| x.1).unwrap_or(*dflt);
                        self.jump(st, t);
                        Ok(Next::Jump)
                    }
                    Val::S(e) => {
                        // group by target
                        let mut tg: Vec<(u32, Eid)> = vec![];
                        let mut any = self.ar.b(false);
                        for (k, t) in cases {
                            let ke = self.ar.c(*w, *k);
                            let c = self.ar.pred(Op::Eq, e, ke);
                            any = self.ar.or1(any, c);
                            if *t == *dflt {
                                continue;
                            }
                            match tg.iter_mut().find(|x| x.0 == *t) {
                                Some(x) => x.1 = self.ar.or1(x.1, c),
                                None => tg.push((*t, c)),
                            }
                        }
                        for (t, c) in tg {
                            match self.decide(st, c)? {
                                Some(true) => {
                                    self.jump(st, t);
                                    return Ok(Next::Jump);
                                }
                                Some(false) => {}
                                None => return Ok(Next::End(End::Infeasible)),
                            }
                        }
                        self.jump(st, *dflt);
                        Ok(Next::Jump)
                    }
                    _ => er("switch"),
                }
            }
            Ins::Ret(v) => {
                let val = match v {
                    Some((t, o)) => Some(g!(t, o)),
                    None => None,
                };
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas {
                    st.mem.free(*a);
                }
                if st.frames.is_empty() {
                    return Ok(Next::End(End::Done));
                }
                let (ret, normal) = (fr.ret, fr.normal);
                if let (Some(_), Some(v)) = (ret, val) {
                    self.set(st, ret, v);
                }
                match normal {
                    Some(b) => self.jump(st, b),
                    None => Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1,
                }
                Ok(Next::Jump)
            }
            Ins::Alloca(ty, n, _) => {
                let n = g!(&Ty::Int(64), n);
                let n = conc!(&n, 64) as u64;
                let a = trye!(st.mem.alloc(ty.size() * n));
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.allocas.push(a);
                self.set(st, dst, Val::C(a as u128));
                Ok(Next::Fall)
            }
            Ins::Cast(op, from, o, to) => {
                let x = g!(from, o);
                let v = self.cast(st, *op, from, &x, to)?;
                self.set(st, dst, v);
                Ok(Next::Fall)
            }
            Ins::ExtractValue(ty, o, ix) => {
                let mut v = g!(ty, o);
                for i in ix {
                    v = match v {
                        Val::Agg(a) => a[*i as usize].clone(),
                        _ => return er("extractvalue"),
                    };
                }
                self.set(st, dst, v);
                Ok(Next::Fall)
            }
            Ins::InsertValue(ty, o, ety, e, ix) => {
                let base = g!(ty, o);
                let x = g!(ety, e);
                fn put(v: &Val, ix: &[u32], x: Val) -> Val {
                    if ix.is_empty() {
                        return x;
                    }
                    match v {
                        Val::Agg(a) => {
                            let mut a2 = (**a).clone();
                            a2[ix[0] as usize] = put(&a[ix[0] as usize], &ix[1..], x);
                            Val::Agg(Rc::new(a2))
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                let v = put(&base, ix, x);
                self.set(st, dst, v);
                Ok(Next::Fall)
            }
            Ins::Freeze(o) => {
                let v = match o {
                    Opd::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
                    Opd::C(Cst::Int(v)) => Val::C(*v),
                    _ => Val::C(0),
                };
                self.set(st, dst, v);
                Ok(Next::Fall)
            }
            Ins::FCmp(p, ty, a, b) => {
                let (x, y) = (g!(ty, a), g!(ty, b));
                let v = self.fcmp(st, p, ty, &x, &y)?;
                self.set(st, dst, v);
                Ok(Next::Fall)
            }
            Ins::FNeg(ty, a) => {
                let x = g!(ty, a);
                let w = ty.bits();
                let e = self.eid(&x, w);
                let r = self.ar.fop(Op::FNeg, w, e, 0);
                let v = self.mk(st, r);
                self.set(st, dst, v);
                Ok(Next::Fall)
            }
            Ins::CmpXchg(ty, p, c, n) => {
                let a = g!(&Ty::Ptr, p);
                let a = conc!(&a, 64) as u64;
                let old = self.load(st, ty, a)?;
                let (c, n) = (g!(ty, c), g!(ty, n));
                let eq = self.icmp(st, Pred::Eq, ty, &old, &c)?;
                match eq {
                    Val::C(1) => self.store(st, ty, a, &n)?,
                    Val::C(_) => {}
                    _ => return er("symbolic cmpxchg"),
                }
                self.set(st, dst, Val::Agg(Rc::new(vec![old, eq])));
                Ok(Next::Fall)
            }
            Ins::AtomicRmw(op, ty, p, v) => {
                let a = g!(&Ty::Ptr, p);
                let a = conc!(&a, 64) as u64;
                let old = self.load(st, ty, a)?;
                let x = g!(ty, v);
                let n = match op.as_str() {
                    "xchg" => x,
                    "add" => self.binop(st, BinOp::Add, ty, &old, &x)?,
                    "sub" => self.binop(st, BinOp::Sub, ty, &old, &x)?,
                    "and" => self.binop(st, BinOp::And, ty, &old, &x)?,
                    "or" => self.binop(st, BinOp::Or, ty, &old, &x)?,
                    "xor" => self.binop(st, BinOp::Xor, ty, &old, &x)?,
                    "umax" => self.pick(st, Pred::Ugt, ty, &old, &x)?,
                    "umin" => self.pick(st, Pred::Ult, ty, &old, &x)?,
                    "max" => self.pick(st, Pred::Sgt, ty, &old, &x)?,
                    "min" => self.pick(st, Pred::Slt, ty, &old, &x)?,
                    _ => return er(format!("atomicrmw {}", op)),
                };
                self.store(st, ty, a, &n)?;
                self.set(st, dst, old);
                Ok(Next::Fall)
            }
            Ins::Fence => Ok(Next::Fall),
            Ins::ExtractElement(ty, v, i) => {
                let v = g!(ty, v);
                let i = g!(&Ty::Int(64), i);
                let i = conc!(&i, 64) as usize;
                let r = match v {
                    Val::Agg(a) => a[i].clone(),
                    _ => return er("extractelement"),
                };
                self.set(st, dst, r);
                Ok(Next::Fall)
            }
            Ins::InsertElement(ty, v, e, i) => {
                let v = g!(ty, v);
                let e = g!(&ty.elem(0), e);
                let i = g!(&Ty::Int(64), i);
                let i = conc!(&i, 64) as usize;
                let r = match v {
                    Val::Agg(a) => {
                        let mut a2 = (*a).clone();
                        a2[i] = e;
                        Val::Agg(Rc::new(a2))
                    }
                    _ => return er("insertelement"),
                };
                self.set(st, dst, r);
                Ok(Next::Fall)
            }
            Ins::Shuffle(ty, a, b, mty, m) => {
                let (x, y) = (g!(ty, a), g!(ty, b));
                let m = g!(mty, m);
                let (x, y, m) = match (x, y, m) {
                    (Val::Agg(x), Val::Agg(y), Val::Agg(m)) => (x, y, m),
                    _ => return er("shuffle"),
                };
                let mut out = vec![];
                for i in m.iter() {
                    let k = match i {
                        Val::C(c) => *c as usize,
                        _ => return er("shuffle mask"),
                    };
                    out.push(if k < x.len() { x[k].clone() } else if k - x.len() < y.len() { y[k - x.len()].clone() } else { Val::C(0) });
                }
                self.set(st, dst, Val::Agg(Rc::new(out)));
                Ok(Next::Fall)
            }
            Ins::Call { ret, callee, args, normal } => self.call(st, dst, ret, callee, args, *normal),
            Ins::Unreachable => {
                // only feasible paths matter: a reached `unreachable` is undefined behaviour
                if st.model.is_none() && !self.need_model(st)? {
                    return Ok(Next::End(End::Infeasible));
                }
                er("reached unreachable")
            }
            Ins::Phi(..) => er("stray phi"),
            Ins::LandingPad | Ins::Resume => er("unwinding"),
            Ins::Unsupported(s) => er(format!("unsupported instruction: {}", s)),
        }
    }

    fn ret_to(&mut self, st: &mut State, dst: Option<u32>, v: Val, normal: Option<u32>) -> X<Next> {
        self.set(st, dst, v);
        match normal {
            Some(b) => {
                self.jump(st, b);
                Ok(Next::Jump)
            }
            None => Ok(Next::Fall),
        }
    }

    fn call(
        &mut self,
        st: &mut State,
        dst: Option<u32>,
        ret: &Ty,
        callee: &Callee,
        args: &[(Ty, Opd)],
        normal: Option<u32>,
    ) -> X<Next> {
        let name: Rc<str> = match callee {
            Callee::Direct(n) => n.clone(),
            Callee::Asm => {
                // black_box style barriers have no outputs that matter here
                return self.ret_to(st, dst, Self::zero(ret), normal);
            }
            Callee::Indirect(o) => {
                let a = self.get(st.frames.last().unwrap(), &Ty::Ptr, o);
                let a = match self.conc(st, &a, 64)? {
                    Some(a) => a as u64,
                    None => return Ok(Next::End(End::Infeasible)),
                };
                match self.m.fn_at(a) {
                    Some(n) => n,
                    None => return er(format!("call through {:#x}", a)),
                }
            }
        };
        let h = self.hook(&name);
        let vals: Vec<Val> = args.iter().map(|(t, o)| self.get(st.frames.last().unwrap(), t, o)).collect();
        if h == Hook::None {
            let f = match self.m.func(&name) {
                Ok(f) => f,
                Err(e) => return er(e),
            };
            if st.frames.len() > 400 {
                return er("call depth");
            }
            *self.funcs.entry(name).or_insert(0) += 1;
            let mut regs = vec![Val::C(0); f.nregs as usize];
            for (i, (_, r)) in f.params.iter().enumerate() {
                if i < vals.len() {
                    regs[*r as usize] = vals[i].clone();
                }
            }
            st.frames.push(Rc::new(Frame { f, regs, blk: 0, ip: 0, allocas: vec![], ret: dst, normal }));
            return Ok(Next::Jump);
        }
        macro_rules! conc {
            ($v:expr, $w:expr) => {
                match self.conc(st, $v, $w)? {
                    Some(x) => x,
                    None => return Ok(Next::End(End::Infeasible)),
                }
            };
        }
        let v = match h {
            Hook::Panic => {
                let who = format!("{} in {}", demangle(&name), demangle(&st.frames.last().unwrap().f.name));
                if st.no_panic > 0 {
                    if st.model.is_none() && !self.need_model(st)? {
                        return Ok(Next::End(End::Infeasible));
                    }
                    let m = st.model.clone().unwrap();
                    if self.violations.iter().filter(|v| v.id.starts_with("panic")).count() < 3 {
                        self.violation(st, "panic", &m);
                    }
                }
                return Ok(Next::End(End::Panic(who)));
            }
            Hook::FmtOk => Val::C(0),
            Hook::FormatInner => {
                let p = conc!(&vals[0], 64) as u64;
                trye!(st.mem.store_c(p, 8, 0));
                trye!(st.mem.store_c(p + 8, 8, 1));
                trye!(st.mem.store_c(p + 16, 8, 0));
                Val::C(0)
            }
            Hook::Malloc => {
                let n = conc!(&vals[0], 64) as u64;
                Val::C(trye!(st.mem.alloc(n)) as u128)
            }
            Hook::RustAlloc | Hook::RustAllocZeroed => {
                let n = conc!(&vals[0], 64) as u64;
                Val::C(trye!(st.mem.alloc(n)) as u128)
            }
            Hook::Calloc => {
                let n = conc!(&vals[0], 64) as u64;
                let k = conc!(&vals[1], 64) as u64;
                Val::C(trye!(st.mem.alloc(n * k)) as u128)
            }
            Hook::PosixMemalign => {
                let p = conc!(&vals[0], 64) as u64;
                let n = conc!(&vals[2], 64) as u64;
                let a = trye!(st.mem.alloc(n));
                trye!(st.mem.store_c(p, 8, a as u128));
                Val::C(0)
            }
            Hook::Realloc | Hook::RustRealloc => {
                let p = conc!(&vals[0], 64) as u64;
                let n = conc!(&vals[if h == Hook::Realloc { 1 } else { 3 }], 64) as u64;
                let a = trye!(st.mem.alloc(n));
                if p != 0 {
                    let old = match st.mem.obj(p) {
                        Some(o) => o.size,
                        None => return er("realloc of a dead object"),
                    };
                    trye!(st.mem.copy(a, p, old.min(n)));
                    st.mem.free(p);
                }
                Val::C(a as u128)
            }
            Hook::Free | Hook::RustDealloc => {
                let p = conc!(&vals[0], 64) as u64;
                if p != 0 {
                    st.mem.free(p);
                }
                Val::C(0)
            }
            Hook::Memcpy => {
                let n = conc!(&vals[2], 64) as u64;
                let d = conc!(&vals[0], 64) as u64;
                let s = conc!(&vals[1], 64) as u64;
                trye!(st.mem.copy(d, s, n));
                Val::C(d as u128)
            }
            Hook::Memset => {
                let n = conc!(&vals[2], 64) as u64;
                let d = conc!(&vals[0], 64) as u64;
                let b = match &vals[1] {
                    Val::C(c) => Byte::C(*c as u8),
                    Val::S(e) => Byte::S(*e, 0),
                    _ => return er("memset"),
                };
                trye!(st.mem.fill(d, n, b));
                Val::C(d as u128)
            }
            // only seeds hash maps, whose contents do not depend on the seed
            Hook::GetRandom => {
                let n = conc!(&vals[1], 64) as u64;
                let d = conc!(&vals[0], 64) as u64;
                trye!(st.mem.fill(d, n, Byte::C(0x5a)));
                Val::C(n as u128)
            }
            Hook::Bcmp | Hook::Memcmp => {
                let n = conc!(&vals[2], 64) as u64;
                let a = conc!(&vals[0], 64) as u64;
                let b = conc!(&vals[1], 64) as u64;
                self.compare(st, a, b, n, h == Hook::Memcmp)?
            }
            Hook::Strlen => {
                let a = conc!(&vals[0], 64) as u64;
                let mut n = 0;
                loop {
                    match trye!(st.mem.load_c(a + n, 1)) {
                        Some(0) => break,
                        Some(_) => n += 1,
                        None => return er("symbolic strlen"),
                    }
                }
                Val::C(n as u128)
            }
            Hook::Nop | Hook::NopZero => Self::zero(ret),
            Hook::Errno => {
                let a = match st.tls.get(&u64::MAX) {
                    Some(a) => *a,
                    None => {
                        let a = trye!(st.mem.alloc(8)) as u128;
                        st.tls.insert(u64::MAX, a);
                        a
                    }
                };
                Val::C(a)
            }
            Hook::PthKeyCreate => {
                let p = conc!(&vals[0], 64) as u64;
                let k = st.tls.len() as u128 + 1;
                st.tls.insert(k as u64, 0);
                trye!(st.mem.store_c(p, 4, k));
                Val::C(0)
            }
            Hook::PthGet => {
                let k = conc!(&vals[0], 32) as u64;
                Val::C(st.tls.get(&k).copied().unwrap_or(0))
            }
            Hook::PthSet => {
                let k = conc!(&vals[0], 32) as u64;
                let v = conc!(&vals[1], 64);
                st.tls.insert(k, v);
                Val::C(0)
            }
            Hook::Trap => return er("trap"),
            Hook::Sym => {
                // obs_sym(name, len, width, signed, lo, hi) -> u64
                let np = conc!(&vals[0], 64) as u64;
                let nl = conc!(&vals[1], 64) as u64;
                let w = conc!(&vals[2], 32) as u32;
                let sg = conc!(&vals[3], 32) as u32 != 0;
                let lo = conc!(&vals[4], 64);
                let hi = conc!(&vals[5], 64);
                let nm = String::from_utf8_lossy(&trye!(st.mem.concrete_bytes(np, nl))).to_string();
                let cnt = st.names.entry(nm.clone()).or_insert(0);
                let full = if *cnt == 0 { nm.clone() } else { format!("{}#{}", nm, cnt) };
                *cnt += 1;
                let key = (full.clone(), w, lo, hi, sg);
                let e = match self.var_ids.get(&key) {
                    Some(e) => *e,
                    None => {
                        let e = self.ar.var(&full, w, sg, lo & mask(w), hi & mask(w));
                        self.var_ids.insert(key, e);
                        e
                    }
                };
                st.inputs.push(Input::Sym(e));
                let r = if w < 64 {
                    if sg {
                        self.ar.sext(e, 64)
                    } else {
                        self.ar.zext(e, 64)
                    }
                } else {
                    e
                };
                self.mk(st, r)
            }
            Hook::SymBytes => return er("obs_sym_bytes"),
            Hook::Choice => {
                let n = conc!(&vals[0], 64) as u64;
                if n == 0 {
                    return er("empty choice");
                }
                for k in (1..n).rev() {
                    let mut o = st.clone();
                    o.inputs.push(Input::Choice(k));
                    self.n.forks += 1;
                    self.set(&mut o, dst, Val::C(k as u128));
                    match normal {
                        Some(b) => self.jump(&mut o, b),
                        None => Rc::make_mut(o.frames.last_mut().unwrap()).ip += 1,
                    }
                    self.work.push(o);
                }
                st.inputs.push(Input::Choice(0));
                Val::C(0)
            }
            Hook::Assume => {
                match &vals[0] {
                    Val::C(0) => return Ok(Next::End(End::Infeasible)),
                    Val::C(_) => {}
                    Val::S(e) => {
                        let e = if self.ar.w(*e) > 1 { self.ar.extract(*e, 0, 1) } else { *e };
                        if let Val::C(k) = self.mk(st, e) {
                            if k == 0 {
                                return Ok(Next::End(End::Infeasible));
                            }
                        } else {
                            let free = matches!(&st.model, Some(m) if m.eval(&self.ar, e) == Some(1));
                            if free {
                                self.add(st, e);
                            } else {
                                match self.sat(st, e, false) {
                                    None => return Ok(Next::End(End::Infeasible)),
                                    Some(m) => {
                                        self.add(st, e);
                                        st.model = m;
                                    }
                                }
                            }
                        }
                    }
                    _ => return er("assume"),
                }
                Val::C(0)
            }
            Hook::Assert => {
                let np = conc!(&vals[1], 64) as u64;
                let nl = conc!(&vals[2], 64) as u64;
                let id = String::from_utf8_lossy(&trye!(st.mem.concrete_bytes(np, nl))).to_string();
                let c = match &vals[0] {
                    Val::S(e) if self.ar.w(*e) > 1 => {
                        let e = self.ar.extract(*e, 0, 1);
                        self.mk(st, e)
                    }
                    v => v.clone(),
                };
                if !self.do_assert(st, c, &id)? {
                    return Ok(Next::End(End::Infeasible));
                }
                Val::C(0)
            }
            Hook::Cover => {
                let np = conc!(&vals[1], 64) as u64;
                let nl = conc!(&vals[2], 64) as u64;
                let id = String::from_utf8_lossy(&trye!(st.mem.concrete_bytes(np, nl))).to_string();
                st.marks.push((id.as_str().into(), vals[0].clone()));
                let mut wit = None;
                let hit = match &vals[0] {
                    Val::C(k) => *k & 1 == 1,
                    Val::S(e) => {
                        let e = if self.ar.w(*e) > 1 { self.ar.extract(*e, 0, 1) } else { *e };
                        if self.covers.get(&id).copied().unwrap_or(0) > 0 {
                            false
                        } else {
                            match self.mk(st, e) {
                                Val::C(k) => k == 1,
                                _ => {
                                    let free = matches!(&st.model, Some(m) if m.eval(&self.ar, e) == Some(1));
                                    free || match self.sat(st, e, false) {
                                        Some(Some(m)) => {
                                            wit = Some(m);
                                            true
                                        }
                                        _ => false,
                                    }
                                }
                            }
                        }
                    }
                    _ => false,
                };
                if hit && st.model.is_some() {
                    if !self.witness.contains_key(&id) {
                        let m = wit.unwrap_or_else(|| st.model.clone().unwrap());
                        let v = self.input_values(st, &m);
                        self.witness.insert(id.clone(), v);
                    }
                    *self.covers.entry(id).or_insert(0) += 1;
                }
                Val::C(0)
            }
            Hook::NoPanic => {
                st.no_panic = conc!(&vals[0], 32) as u32;
                Val::C(0)
            }
            Hook::Concrete => Val::C(conc!(&vals[0], 64)),
            Hook::IsSym => Val::C(1),
            Hook::Stop => return Ok(Next::End(End::Done)),
            Hook::TryUnwind => return er("try_unwind"),
            Hook::FindPda => return er("find_program_address reached"),
            Hook::Llvm => return self.llvm(st, dst, ret, &name, args, vals, normal),
            Hook::None => unreachable!(),
        };
        self.ret_to(st, dst, v, normal)
    }

    fn compare(&mut self, st: &State, a: u64, b: u64, n: u64, ordered: bool) -> X<Val> {
        let x = trye!(st.mem.bytes(a, n));
        let y = trye!(st.mem.bytes(b, n));
        let allc = x.iter().chain(y.iter()).all(|b| matches!(b, Byte::C(_)));
        if allc {
            for i in 0..n as usize {
                if let (Byte::C(p), Byte::C(q)) = (x[i], y[i]) {
                    if p != q {
                        return Ok(Val::C(if p < q { mask(32) } else { 1 }));
                    }
                }
            }
            return Ok(Val::C(0));
        }
        if !ordered {
            let mut all = self.ar.b(true);
            let mut i = 0;
            while i < n {
                let k = (n - i).min(16);
                let p = trye!(st.mem.load_e(&mut self.ar, a + i, k));
                let q = trye!(st.mem.load_e(&mut self.ar, b + i, k));
                let e = self.ar.pred(Op::Eq, p, q);
                all = self.ar.and1(all, e);
                i += k;
            }
            let (z, o) = (self.ar.c(32, 0), self.ar.c(32, 1));
            let r = self.ar.ite(all, z, o);
            return Ok(self.mk(st, r));
        }
        // lexicographic, from the last chunk backwards
        let mut r = self.ar.c(32, 0);
        let (neg, one) = (self.ar.c(32, mask(32)), self.ar.c(32, 1));
        for i in (0..n).rev() {
            let p = trye!(st.mem.load_e(&mut self.ar, a + i, 1));
            let q = trye!(st.mem.load_e(&mut self.ar, b + i, 1));
            let lt = self.ar.pred(Op::Ult, p, q);
            let gt = self.ar.pred(Op::Ult, q, p);
            let t = self.ar.ite(gt, one, r);
            r = self.ar.ite(lt, neg, t);
        }
        Ok(self.mk(st, r))
    }

    fn llvm(
        &mut self,
        st: &mut State,
        dst: Option<u32>,
        ret: &Ty,
        name: &str,
        args: &[(Ty, Opd)],
        vals: Vec<Val>,
        normal: Option<u32>,
    ) -> X<Next> {
        let parts: Vec<&str> = name.split('.').collect();
        let base = parts[1];
        // elementwise intrinsics over vectors, one lane at a time
        if let (Some((Ty::Vector(t, n), _)), Ty::Vector(rt, _)) = (args.first(), ret) {
            if matches!(base, "abs" | "sadd" | "uadd" | "ssub" | "usub" | "ctlz" | "cttz" | "ctpop" | "bswap" | "bitreverse" | "fshl" | "fshr" | "ucmp" | "scmp" | "fptosi" | "fptoui")
                || FLOATS.contains(&base)
            {
                let lane: Vec<(Ty, Opd)> = args.iter().map(|(a, o)| (if matches!(a, Ty::Vector(..)) { (**t).clone() } else { a.clone() }, o.clone())).collect();
                let mut out = vec![];
                for i in 0..*n as usize {
                    let vs: Vec<Val> = vals.iter().map(|v| if let Val::Agg(a) = v { a[i].clone() } else { v.clone() }).collect();
                    match self.intrinsic(st, rt, name, &lane, vs)? {
                        Ok(v) => out.push(v),
                        Err(e) => return Ok(e),
                    }
                }
                return self.ret_to(st, dst, Val::Agg(Rc::new(out)), normal);
            }
        }
        match self.intrinsic(st, ret, name, args, vals)? {
            Ok(v) => self.ret_to(st, dst, v, normal),
            Err(e) => Ok(e),
        }
    }

    fn intrinsic(&mut self, st: &mut State, ret: &Ty, name: &str, args: &[(Ty, Opd)], vals: Vec<Val>) -> X<Result<Val, Next>> {
        macro_rules! conc {
            ($v:expr, $w:expr) => {
                match self.conc(st, $v, $w)? {
                    Some(x) => x,
                    None => return Ok(Err(Next::End(End::Infeasible))),
                }
            };
        }
        let parts: Vec<&str> = name.split('.').collect();
        let base = parts[1];
        let v = match base {
            "lifetime" | "assume" | "experimental" | "dbg" | "donothing" | "invariant" | "prefetch" | "sideeffect" | "var" => Self::zero(ret),
            "x86" if matches!(parts[2], "sse2" if parts[3] == "pause") || parts[2] == "xgetbv" => Self::zero(ret),
            "memcpy" | "memmove" => {
                let n = conc!(&vals[2], 64) as u64;
                let d = conc!(&vals[0], 64) as u64;
                let s = conc!(&vals[1], 64) as u64;
                if n > 0 {
                    trye!(st.mem.copy(d, s, n));
                }
                Val::C(0)
            }
            "memset" => {
                let n = conc!(&vals[2], 64) as u64;
                let d = conc!(&vals[0], 64) as u64;
                let b = match &vals[1] {
                    Val::C(c) => Byte::C(*c as u8),
                    Val::S(e) => Byte::S(*e, 0),
                    _ => return er("memset"),
                };
                trye!(st.mem.fill(d, n, b));
                Val::C(0)
            }
            "umin" | "umax" | "smin" | "smax" => {
                let t = &args[0].0;
                let p = match base {
                    "umin" => Pred::Ult,
                    "umax" => Pred::Ugt,
                    "smin" => Pred::Slt,
                    _ => Pred::Sgt,
                };
                if self.o.split && matches!(t, Ty::Int(w) if *w >= 32) {
                    match self.icmp(st, p, t, &vals[0], &vals[1])? {
                        Val::C(1) => vals[0].clone(),
                        Val::C(_) => vals[1].clone(),
                        Val::S(e) => match self.decide(st, e)? {
                            Some(true) => vals[0].clone(),
                            Some(false) => vals[1].clone(),
                            None => return Ok(Err(Next::End(End::Infeasible))),
                        },
                        _ => return er("min"),
                    }
                } else {
                    self.pick(st, p, t, &vals[0], &vals[1])?
                }
            }
            "abs" => {
                let t = &args[0].0;
                let z = Self::zero(t);
                let n = self.binop(st, BinOp::Sub, t, &z, &vals[0])?;
                let c = self.icmp(st, Pred::Slt, t, &vals[0], &z)?;
                match c {
                    Val::C(1) => n,
                    Val::C(_) => vals[0].clone(),
                    Val::S(e) => self.select(st, e, t, &n, &vals[0])?,
                    _ => return er("abs vector"),
                }
            }
            "sadd" | "uadd" | "ssub" | "usub" | "smul" | "umul" if parts[2] == "with" => {
                let t = &args[0].0;
                let w = t.bits();
                let (bo, fo) = match base {
                    "sadd" => (BinOp::Add, Op::SAddO),
                    "uadd" => (BinOp::Add, Op::UAddO),
                    "ssub" => (BinOp::Sub, Op::SSubO),
                    "usub" => (BinOp::Sub, Op::USubO),
                    "smul" => (BinOp::Mul, Op::SMulO),
                    _ => (BinOp::Mul, Op::UMulO),
                };
                let r = self.binop(st, bo, t, &vals[0], &vals[1])?;
                let f = if let (Val::C(x), Val::C(y)) = (&vals[0], &vals[1]) {
                    Val::C(fold_pred(fo, w, *x, *y))
                } else {
                    let (x, y) = (self.eid(&vals[0], w), self.eid(&vals[1], w));
                    let e = self.ar.pred(fo, x, y);
                    self.mk(st, e)
                };
                Val::Agg(Rc::new(vec![r, f]))
            }
            "sadd" | "uadd" | "ssub" | "usub" if parts[2] == "sat" => {
                let t = &args[0].0;
                let w = t.bits();
                let (bo, fo) = match base {
                    "sadd" => (BinOp::Add, Op::SAddO),
                    "uadd" => (BinOp::Add, Op::UAddO),
                    "ssub" => (BinOp::Sub, Op::SSubO),
                    _ => (BinOp::Sub, Op::USubO),
                };
                let r = self.binop(st, bo, t, &vals[0], &vals[1])?;
                let (x, y) = (self.eid(&vals[0], w), self.eid(&vals[1], w));
                let f = self.ar.pred(fo, x, y);
                let sat = match base {
                    "uadd" => self.ar.c(w, mask(w)),
                    "usub" => self.ar.c(w, 0),
                    _ => {
                        // the sign of the first operand decides the direction
                        let z = self.ar.c(w, 0);
                        let neg = self.ar.pred(Op::Slt, x, z);
                        let (mn, mx) = (self.ar.c(w, smin(w) as u128), self.ar.c(w, smax(w) as u128));
                        self.ar.ite(neg, mn, mx)
                    }
                };
                let re = self.eid(&r, w);
                let e = self.ar.ite(f, sat, re);
                self.mk(st, e)
            }
            "ucmp" | "scmp" => {
                let (w, rw) = (args[0].0.bits(), ret.bits());
                let (x, y) = (self.eid(&vals[0], w), self.eid(&vals[1], w));
                let o = if base == "ucmp" { Op::Ult } else { Op::Slt };
                let (lt, gt) = (self.ar.pred(o, x, y), self.ar.pred(o, y, x));
                let (n, z, p) = (self.ar.c(rw, mask(rw)), self.ar.c(rw, 0), self.ar.c(rw, 1));
                let e = self.ar.ite(gt, p, z);
                let e = self.ar.ite(lt, n, e);
                self.mk(st, e)
            }
            "minnum" | "maxnum" | "minimum" | "maximum" if !vals.iter().all(|v| matches!(v, Val::C(_))) => {
                let w = args[0].0.bits();
                let (x, y) = (self.eid(&vals[0], w), self.eid(&vals[1], w));
                let lt = if base.starts_with("min") { self.ar.fop(Op::FLt, 1, x, y) } else { self.ar.fop(Op::FLt, 1, y, x) };
                let (nx, ny) = (self.ar.fop(Op::FUno, 1, x, x), self.ar.fop(Op::FUno, 1, y, y));
                let e = self.ar.ite(lt, x, y);
                // the `num` forms ignore a NaN, the others return it
                let e = if base.ends_with("num") {
                    let e = self.ar.ite(ny, x, e);
                    self.ar.ite(nx, y, e)
                } else {
                    let e = self.ar.ite(ny, y, e);
                    self.ar.ite(nx, x, e)
                };
                self.mk(st, e)
            }
            _ if FLOATS.contains(&base) => {
                let w = args[0].0.bits();
                let mut x = vec![];
                for v in &vals {
                    match v {
                        Val::C(c) => x.push(*c),
                        _ => return er(format!("{} of a symbolic value", name)),
                    }
                }
                Val::C(fold_math(base, w, &x))
            }
            "ctlz" | "cttz" | "ctpop" => {
                let t = &args[0].0;
                let w = t.bits();
                let e = self.eid(&vals[0], w);
                let o = match base {
                    "ctlz" => Op::Ctlz,
                    "cttz" => Op::Cttz,
                    _ => Op::Ctpop,
                };
                let r = self.ar.un(o, e);
                self.mk(st, r)
            }
            "bswap" => {
                let w = args[0].0.bits();
                let e = self.eid(&vals[0], w);
                let mut r: Option<Eid> = None;
                for i in (0..w / 8).rev() {
                    // byte i of the source becomes byte (n-1-i)
                    let x = self.ar.extract(e, i * 8, 8);
                    r = Some(match r {
                        None => x,
                        Some(l) => self.ar.concat(x, l),
                    });
                }
                let r = r.unwrap();
                self.mk(st, r)
            }
            "bitreverse" => {
                let w = args[0].0.bits();
                let e = self.eid(&vals[0], w);
                let mut r: Option<Eid> = None;
                for i in (0..w).rev() {
                    let x = self.ar.extract(e, i, 1);
                    r = Some(match r {
                        None => x,
                        Some(l) => self.ar.concat(x, l),
                    });
                }
                let r = r.unwrap();
                self.mk(st, r)
            }
            "fshl" | "fshr" => {
                let w = args[0].0.bits();
                let k = match &vals[2] {
                    Val::C(c) => (*c % w as u128) as u32,
                    k => {
                        // one position at a time would fork; shift by a symbolic amount
                        let (a, b, k) = (self.eid(&vals[0], w), self.eid(&vals[1], w), self.eid(k, w));
                        let n = self.ar.c(w, w as u128);
                        let k = self.ar.bin(Op::URem, k, n);
                        let r = self.ar.bin(Op::Sub, n, k);
                        let z = self.ar.c(w, 0);
                        let none = self.ar.pred(Op::Eq, k, z);
                        let (up, down) = if base == "fshl" { (k, r) } else { (r, k) };
                        let h = self.ar.bin(Op::Shl, a, up);
                        let l = self.ar.bin(Op::LShr, b, down);
                        let both = self.ar.bin(Op::Or, h, l);
                        let e = self.ar.ite(none, if base == "fshl" { a } else { b }, both);
                        return Ok(Ok(self.mk(st, e)));
                    }
                };
                let (a, b) = (self.eid(&vals[0], w), self.eid(&vals[1], w));
                let r = if base == "fshl" {
                    if k == 0 {
                        a
                    } else {
                        let h = self.ar.extract(a, 0, w - k);
                        let l = self.ar.extract(b, w - k, k);
                        self.ar.concat(h, l)
                    }
                } else if k == 0 {
                    b
                } else {
                    let h = self.ar.extract(a, 0, k);
                    let l = self.ar.extract(b, k, w - k);
                    self.ar.concat(h, l)
                };
                self.mk(st, r)
            }
            "threadlocal" | "ptrmask" | "expect" | "launder" | "strip" => vals[0].clone(),
            "is" => Val::C(0),
            "trap" | "debugtrap" | "ubsantrap" => {
                return Ok(Err(Next::End(End::Panic("trap".into()))));
            }
            "fptosi" | "fptoui" => {
                let o = if base == "fptosi" { Op::FToS } else { Op::FToU };
                let e = self.eid(&vals[0], args[0].0.bits());
                let r = self.ar.fop(o, ret.bits(), e, 0);
                self.mk(st, r)
            }
            "fabs" => {
                let w = args[0].0.bits();
                let e = self.eid(&vals[0], w);
                let k = self.ar.c(w, mask(w - 1));
                let r = self.ar.bin(Op::And, e, k);
                self.mk(st, r)
            }
            "vector" if parts[2] == "reduce" => {
                let t = args[0].0.elem(0);
                let xs = match &vals[0] {
                    Val::Agg(a) => a.clone(),
                    _ => return er("reduce"),
                };
                let mut acc = xs[0].clone();
                for x in &xs[1..] {
                    acc = match parts[3] {
                        "add" => self.binop(st, BinOp::Add, &t, &acc, x)?,
                        "and" => self.binop(st, BinOp::And, &t, &acc, x)?,
                        "or" => self.binop(st, BinOp::Or, &t, &acc, x)?,
                        "xor" => self.binop(st, BinOp::Xor, &t, &acc, x)?,
                        "mul" => self.binop(st, BinOp::Mul, &t, &acc, x)?,
                        "umax" => self.pick(st, Pred::Ugt, &t, &acc, x)?,
                        "umin" => self.pick(st, Pred::Ult, &t, &acc, x)?,
                        "smax" => self.pick(st, Pred::Sgt, &t, &acc, x)?,
                        "smin" => self.pick(st, Pred::Slt, &t, &acc, x)?,
                        _ => return er(format!("{}", name)),
                    };
                }
                acc
            }
            _ => return er(format!("intrinsic {}", name)),
        };
        Ok(Ok(v))
    }

    fn pick(&mut self, st: &State, p: Pred, t: &Ty, a: &Val, b: &Val) -> X<Val> {
        if let (Val::Agg(x), Val::Agg(y)) = (a, b) {
            let et = t.elem(0);
            let mut out = vec![];
            for i in 0..x.len() {
                out.push(self.pick(st, p, &et, &x[i], &y[i])?);
            }
            return Ok(Val::Agg(Rc::new(out)));
        }
        let c = self.icmp(st, p, t, a, b)?;
        match c {
            Val::C(1) => Ok(a.clone()),
            Val::C(_) => Ok(b.clone()),
            Val::S(e) => self.select(st, e, t, a, b),
            _ => er("pick"),
        }
    }
}

const FLOATS: &[&str] = &[
    "minnum", "maxnum", "minimum", "maximum", "copysign", "sqrt", "floor", "ceil", "trunc", "round", "roundeven", "rint", "nearbyint", "fma", "fmuladd", "powi", "pow", "exp", "exp2", "log", "log2", "log10",
];

fn fold_math(op: &str, w: u32, a: &[u128]) -> u128 {
    macro_rules! go {
        ($f:ty, $b:ty) => {{
            let f = |i: usize| <$f>::from_bits(a[i] as $b);
            let x = f(0);
            let r: $f = match op {
                "minnum" => x.min(f(1)),
                "maxnum" => x.max(f(1)),
                "minimum" | "maximum" if x.is_nan() || f(1).is_nan() => <$f>::NAN,
                "minimum" => x.min(f(1)),
                "maximum" => x.max(f(1)),
                "copysign" => x.copysign(f(1)),
                "sqrt" => x.sqrt(),
                "floor" => x.floor(),
                "ceil" => x.ceil(),
                "trunc" => x.trunc(),
                "round" => x.round(),
                "roundeven" | "rint" | "nearbyint" => {
                    let t = x.trunc();
                    if (x - t).abs() == 0.5 {
                        2.0 * (x / 2.0).round()
                    } else {
                        x.round()
                    }
                }
                "fma" => x.mul_add(f(1), f(2)),
                "fmuladd" => x * f(1) + f(2),
                "powi" => x.powi(a[1] as u32 as i32),
                "pow" => x.powf(f(1)),
                "exp" => x.exp(),
                "exp2" => x.exp2(),
                "log" => x.ln(),
                "log2" => x.log2(),
                "log10" => x.log10(),
                "frem" => x % f(1),
                _ => unreachable!(),
            };
            r.to_bits() as u128
        }};
    }
    if w == 32 {
        go!(f32, u32)
    } else {
        go!(f64, u64)
    }
}

extern "C" {
    fn fork() -> i32;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// State shared by the processes exploring one harness
pub struct Par {
    pub jobs: u64,
    pub child: bool,
    pub kids: Vec<i32>,
    /// running, started, stop
    sh: *const [AtomicU64; 3],
}
impl Par {
    pub fn new(jobs: u64) -> Par {
        // PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS
        let sh = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const [AtomicU64; 3];
        let p = Par { jobs, child: false, kids: vec![], sh };
        p.at(0).store(1, SeqCst);
        p.at(1).store(1, SeqCst);
        p
    }
    fn at(&self, i: usize) -> &AtomicU64 {
        unsafe { &(*self.sh)[i] }
    }
    pub fn running(&self) -> u64 {
        self.at(0).load(SeqCst)
    }
    pub fn started(&self) -> u64 {
        self.at(1).load(SeqCst)
    }
    fn claim(&self) -> bool {
        let r = self.at(0).load(SeqCst);
        if r >= self.jobs || self.at(0).compare_exchange(r, r + 1, SeqCst, SeqCst).is_err() {
            return false;
        }
        self.at(1).fetch_add(1, SeqCst);
        true
    }
    pub fn release(&self) {
        self.at(0).fetch_sub(1, SeqCst);
    }
    pub fn stop(&self) {
        self.at(2).store(1, SeqCst);
    }
    pub fn stopped(&self) -> bool {
        self.at(2).load(SeqCst) != 0
    }
}
