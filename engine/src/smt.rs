//! SMT back end: two encodings of the same terms (bit-vectors, and integers with explicit
//! wrap-around), solver processes, and validation of every model against the terms themselves.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Enc {
    Bv,
    Int,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Prog {
    Z3,
    Cvc5,
}

#[derive(Clone, Debug)]
pub enum Answer {
    Unsat,
    /// validated assignment
    Sat(HashMap<u32, u128>),
    /// the solver said sat but the assignment does not satisfy the exact terms
    SatApprox,
    Unknown,
}

struct Proc {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
}

impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn spawn(p: Prog, enc: Enc) -> std::io::Result<Proc> {
    let mut c = match p {
        Prog::Z3 => {
            let mut c = Command::new(std::env::var("OBSYM_Z3").unwrap_or("z3-new".into()));
            c.args(["-in", "-smt2"]);
            c
        }
        Prog::Cvc5 => {
            let mut c = Command::new("cvc5");
            c.args(["--lang=smt2", "--incremental", "--produce-models"]);
            let _ = enc;
            c
        }
    };
    let mut child = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()?;
    let stdin = child.stdin.take().unwrap();
    let out = child.stdout.take().unwrap();
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            match l {
                Ok(l) => {
                    if tx.send(l).is_err() {
                        break;
                    }
                }
                Err(_) => break,
            }
        }
    });
    Ok(Proc { child, stdin, rx })
}

pub struct Stats {
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub by: HashMap<String, u64>,
}

pub struct Smt {
    procs: HashMap<(Prog, Enc), Proc>,
    pub stats: Stats,
    pub dump: Option<String>,
}

impl Smt {
    pub fn new() -> Self {
        Smt {
            procs: HashMap::new(),
            stats: Stats { queries: 0, unsat: 0, sat: 0, unknown: 0, time: 0.0, max_time: 0.0, by: HashMap::new() },
            dump: None,
        }
    }

    /// forget the solver processes of the parent after a fork
    pub fn after_fork(&mut self) {
        let old = std::mem::take(&mut self.procs);
        std::mem::forget(old);
    }

    pub fn check(&mut self, ar: &Arena, cons: &[Eid], prog: Prog, enc: Enc, timeout_ms: u64) -> Answer {
        let t0 = Instant::now();
        let (text, vars, approx) = match enc {
            Enc::Bv => BvEnc::script(ar, cons),
            Enc::Int => IntEnc::script(ar, cons),
        };
        let r = self.ask(&text, &vars, prog, enc, timeout_ms);
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.time += dt;
        if dt > self.stats.max_time {
            self.stats.max_time = dt;
        }
        *self.stats.by.entry(format!("{:?}/{:?}", prog, enc).to_lowercase()).or_insert(0) += 1;
        if let Some(d) = &self.dump {
            let _ = std::fs::write(format!("{}/q{:05}.smt2", d, self.stats.queries), format!("; {:?} {:.2}s\n{}", r.as_ref().map(|x| x.is_some()), dt, text));
        }
        let ans = match r {
            Ok(None) => Answer::Unsat,
            Ok(Some(m)) => {
                // validate
                let mut memo = HashMap::new();
                let f = |i: usize| m.get(&(i as u32)).copied().unwrap_or(0);
                let good = cons.iter().all(|c| ar.eval(*c, &f, &mut memo) == Some(1));
                let _ = approx;
                if good {
                    Answer::Sat(m)
                } else {
                    Answer::SatApprox
                }
            }
            Err(_) => Answer::Unknown,
        };
        match ans {
            Answer::Unsat => self.stats.unsat += 1,
            Answer::Sat(_) => self.stats.sat += 1,
            _ => self.stats.unknown += 1,
        }
        ans
    }

    /// Ok(None)=unsat, Ok(Some(model))=sat, Err=unknown
    fn ask(
        &mut self,
        text: &str,
        vars: &[(u32, String)],
        prog: Prog,
        enc: Enc,
        timeout_ms: u64,
    ) -> Result<Option<HashMap<u32, u128>>, ()> {
        let key = (prog, enc);
        if !self.procs.contains_key(&key) {
            let p = spawn(prog, enc).map_err(|_| ())?;
            self.procs.insert(key, p);
        }
        let deadline = Instant::now() + Duration::from_millis(timeout_ms + 1500);
        let mut q = String::with_capacity(text.len() + 256);
        match prog {
            Prog::Z3 => {
                let _ = write!(q, "(reset)\n(set-option :timeout {})\n", timeout_ms);
                q.push_str("(set-option :produce-models true)\n");
            }
            Prog::Cvc5 => {
                let _ = write!(q, "(reset)\n(set-option :tlimit-per {})\n(set-option :produce-models true)\n(set-logic ALL)\n", timeout_ms);
            }
        }
        q.push_str(text);
        q.push_str("(check-sat)\n(echo \"<<\")\n");
        let first = {
            let p = self.procs.get_mut(&key).unwrap();
            if p.stdin.write_all(q.as_bytes()).is_err() || p.stdin.flush().is_err() {
                self.procs.remove(&key);
                return Err(());
            }
            self.read_until(key, deadline)
        };
        let lines = match first {
            Some(l) => l,
            None => {
                self.procs.remove(&key);
                return Err(());
            }
        };
        let mut verdict = "unknown";
        for l in &lines {
            match l.trim() {
                "sat" => verdict = "sat",
                "unsat" => verdict = "unsat",
                "unknown" => verdict = "unknown",
                x if x.starts_with("(error") => {
                    if std::env::var("OBSYM_DEBUG").is_ok() {
                        eprintln!("solver error: {}", x);
                        let _ = std::fs::write("/tmp/obsym-err.smt2", text);
                    }
                    return Err(());
                }
                _ => {}
            }
        }
        match verdict {
            "unsat" => Ok(None),
            "sat" => {
                let mut m = HashMap::new();
                if !vars.is_empty() {
                    let mut q = String::from("(get-value (");
                    for (_, n) in vars {
                        q.push_str(n);
                        q.push(' ');
                    }
                    q.push_str("))\n(echo \"<<\")\n");
                    let p = self.procs.get_mut(&key).unwrap();
                    if p.stdin.write_all(q.as_bytes()).is_err() || p.stdin.flush().is_err() {
                        self.procs.remove(&key);
                        return Err(());
                    }
                    let lines = match self.read_until(key, Instant::now() + Duration::from_secs(20)) {
                        Some(l) => l,
                        None => {
                            self.procs.remove(&key);
                            return Err(());
                        }
                    };
                    let text = lines.join(" ");
                    let vals = parse_values(&text);
                    for (i, n) in vars {
                        if let Some(v) = vals.get(n) {
                            m.insert(*i, *v);
                        }
                    }
                }
                Ok(Some(m))
            }
            _ => Err(()),
        }
    }

    fn read_until(&mut self, key: (Prog, Enc), deadline: Instant) -> Option<Vec<String>> {
        let p = self.procs.get_mut(&key)?;
        let mut v = vec![];
        loop {
            let now = Instant::now();
            let left = if deadline > now { deadline - now } else { Duration::from_millis(1) };
            match p.rx.recv_timeout(left) {
                Ok(l) => {
                    if l.contains("<<") {
                        return Some(v);
                    }
                    v.push(l);
                }
                Err(RecvTimeoutError::Timeout) => return None,
                Err(RecvTimeoutError::Disconnected) => return None,
            }
        }
    }
}

fn parse_values(t: &str) -> HashMap<String, u128> {
    // ((v1 5) (v2 (- 3)) (v3 #x0f) (v4 true))
    let mut toks = vec![];
    let b = t.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'(' | b')' => {
                toks.push((b[i] as char).to_string());
                i += 1;
            }
            b' ' | b'\n' | b'\t' | b'\r' => i += 1,
            _ => {
                let s = i;
                while i < b.len() && !b"() \n\t\r".contains(&b[i]) {
                    i += 1;
                }
                toks.push(t[s..i].to_string());
            }
        }
    }
    let mut out = HashMap::new();
    let mut i = 0;
    while i + 1 < toks.len() {
        if toks[i] == "(" && toks[i + 1].starts_with('v') {
            let name = toks[i + 1].clone();
            let mut j = i + 2;
            let mut neg = false;
            let mut val: Option<u128> = None;
            let mut depth = 1;
            while j < toks.len() && depth > 0 {
                match toks[j].as_str() {
                    "(" => depth += 1,
                    ")" => depth -= 1,
                    "-" => neg = true,
                    "true" => val = Some(1),
                    "false" => val = Some(0),
                    x if x.starts_with("#x") => val = u128::from_str_radix(&x[2..], 16).ok(),
                    x if x.starts_with("#b") => val = u128::from_str_radix(&x[2..], 2).ok(),
                    x => {
                        if let Ok(v) = x.parse::<u128>() {
                            if val.is_none() {
                                val = Some(v)
                            }
                        }
                    }
                }
                j += 1;
            }
            if let Some(v) = val {
                out.insert(name, if neg { v.wrapping_neg() } else { v });
            }
            i = j;
        } else {
            i += 1;
        }
    }
    out
}

fn topo(ar: &Arena, roots: &[Eid]) -> Vec<Eid> {
    let mut seen = HashSet::new();
    let mut out = vec![];
    let mut st: Vec<(Eid, bool)> = roots.iter().map(|r| (*r, false)).collect();
    while let Some((e, done)) = st.pop() {
        if e == 0 {
            continue;
        }
        if done {
            out.push(e);
            continue;
        }
        if !seen.insert(e) {
            continue;
        }
        st.push((e, true));
        let n = ar.n(e);
        if n.op != Op::Const && n.op != Op::Var {
            for k in [n.a, n.b, n.c] {
                if k != 0 && !seen.contains(&k) {
                    st.push((k, false));
                }
            }
        }
    }
    out
}

struct BvEnc<'a> {
    ar: &'a Arena,
    out: String,
}

impl<'a> BvEnc<'a> {
    fn r(&self, e: Eid) -> String {
        let n = self.ar.n(e);
        match n.op {
            Op::Const => {
                if n.w == 1 {
                    (if n.k == 1 { "true" } else { "false" }).to_string()
                } else {
                    format!("(_ bv{} {})", n.k, n.w)
                }
            }
            Op::Var => format!("v{}", n.k),
            _ => format!("e{}", e),
        }
    }
    /// as a bit-vector even when it is one bit wide
    fn rb(&self, e: Eid) -> String {
        if self.ar.w(e) == 1 {
            format!("(ite {} #b1 #b0)", self.r(e))
        } else {
            self.r(e)
        }
    }
    fn fp(&self, e: Eid) -> String {
        if self.ar.w(e) == 32 {
            format!("((_ to_fp 8 24) {})", self.rb(e))
        } else {
            format!("((_ to_fp 11 53) {})", self.rb(e))
        }
    }
    fn script(ar: &'a Arena, cons: &[Eid]) -> (String, Vec<(u32, String)>, bool) {
        let order = topo(ar, cons);
        let mut s = BvEnc { ar, out: String::new() };
        let mut vars = vec![];
        let mut asserts = vec![];
        for e in &order {
            let n = *ar.n(*e);
            let w = n.w;
            let sort = |w: u32| if w == 1 { "Bool".to_string() } else { format!("(_ BitVec {})", w) };
            match n.op {
                Op::Const => continue,
                Op::Var => {
                    let _ = write!(s.out, "(declare-fun v{} () {})\n", n.k, sort(w));
                    vars.push((n.k as u32, format!("v{}", n.k)));
                    let i = ar.inf(*e);
                    if w > 1 {
                        if i.slo > smin(w) {
                            asserts.push(format!("(bvsge v{} (_ bv{} {}))", n.k, i.slo as u128 & mask(w), w));
                        }
                        if i.shi < smax(w) {
                            asserts.push(format!("(bvsle v{} (_ bv{} {}))", n.k, i.shi as u128 & mask(w), w));
                        }
                        if i.ulo > 0 {
                            asserts.push(format!("(bvuge v{} (_ bv{} {}))", n.k, i.ulo, w));
                        }
                        if i.uhi < mask(w) {
                            asserts.push(format!("(bvule v{} (_ bv{} {}))", n.k, i.uhi, w));
                        }
                    }
                    continue;
                }
                _ => {}
            }
            let (a, b) = (n.a, n.b);
            let one = w == 1;
            let bvw = |x: String| if one { format!("(= {} #b1)", x) } else { x };
            let t = match n.op {
                Op::And | Op::Or | Op::Xor if one => {
                    let o = match n.op {
                        Op::And => "and",
                        Op::Or => "or",
                        _ => "xor",
                    };
                    format!("({} {} {})", o, s.r(a), s.r(b))
                }
                Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::Shl | Op::LShr | Op::AShr
                | Op::And | Op::Or | Op::Xor => {
                    let o = match n.op {
                        Op::Add => "bvadd",
                        Op::Sub => "bvsub",
                        Op::Mul => "bvmul",
                        Op::UDiv => "bvudiv",
                        Op::SDiv => "bvsdiv",
                        Op::URem => "bvurem",
                        Op::SRem => "bvsrem",
                        Op::Shl => "bvshl",
                        Op::LShr => "bvlshr",
                        Op::AShr => "bvashr",
                        Op::And => "bvand",
                        Op::Or => "bvor",
                        _ => "bvxor",
                    };
                    bvw(format!("({} {} {})", o, s.rb(a), s.rb(b)))
                }
                Op::Eq => format!("(= {} {})", s.r(a), s.r(b)),
                Op::Ult => format!("(bvult {} {})", s.rb(a), s.rb(b)),
                Op::Slt => format!("(bvslt {} {})", s.rb(a), s.rb(b)),
                Op::Ite => format!("(ite {} {} {})", s.r(a), s.r(b), s.r(n.c)),
                Op::Concat => format!("(concat {} {})", s.rb(a), s.rb(b)),
                Op::Extract => bvw(format!("((_ extract {} {}) {})", n.k as u32 + w - 1, n.k, s.rb(a))),
                Op::ZExt => format!("((_ zero_extend {}) {})", w - ar.w(a), s.rb(a)),
                Op::SExt => format!("((_ sign_extend {}) {})", w - ar.w(a), s.rb(a)),
                Op::SAddO | Op::UAddO | Op::SSubO | Op::USubO => {
                    let ow = ar.w(a);
                    let ext = if matches!(n.op, Op::SAddO | Op::SSubO) { "sign_extend" } else { "zero_extend" };
                    let o = if matches!(n.op, Op::SAddO | Op::UAddO) { "bvadd" } else { "bvsub" };
                    let wide = format!("({} ((_ {} 1) {}) ((_ {} 1) {}))", o, ext, s.rb(a), ext, s.rb(b));
                    let nar = format!("({} {} {})", o, s.rb(a), s.rb(b));
                    let _ = ow;
                    format!("(not (= {} ((_ {} 1) {})))", wide, ext, nar)
                }
                Op::SMulO | Op::UMulO => {
                    let ow = ar.w(a);
                    let ext = if n.op == Op::SMulO { "sign_extend" } else { "zero_extend" };
                    let wide = format!("(bvmul ((_ {} {}) {}) ((_ {} {}) {}))", ext, ow, s.rb(a), ext, ow, s.rb(b));
                    let nar = format!("(bvmul {} {})", s.rb(a), s.rb(b));
                    format!("(not (= {} ((_ {} {}) {})))", wide, ext, ow, nar)
                }
                Op::Ctlz if w.is_power_of_two() && w >= 8 => {
                    // binary search for the highest set bit
                    let x = s.rb(a);
                    let mut binds = String::new();
                    let mut sum: Vec<String> = vec![];
                    let mut cur = x.clone();
                    let mut h = w / 2;
                    let mut depth = 0;
                    while h >= 1 {
                        let z = format!("z{}_{}", e, h);
                        binds.push_str(&format!("(let (({} (= ((_ extract {} {}) {}) (_ bv0 {})))) ", z, w - 1, w - h, cur, h));
                        let y = format!("y{}_{}", e, h);
                        binds.push_str(&format!("(let (({} (ite {} (concat ((_ extract {} 0) {}) (_ bv0 {})) {}))) ", y, z, w - 1 - h, cur, h, cur));
                        depth += 2;
                        sum.push(format!("(ite {} #b1 #b0)", z));
                        cur = y;
                        h /= 2;
                    }
                    // zero input: every step shifted, and the top bit is still clear
                    let n = sum.len() as u32;
                    format!(
                        "{}(ite (= {} (_ bv0 {})) (_ bv{} {}) (concat (_ bv0 {}) {})){}",
                        binds,
                        x,
                        w,
                        w,
                        w,
                        w - n,
                        if n == 1 { sum[0].clone() } else { format!("(concat {})", sum.join(" ")) },
                        ")".repeat(depth)
                    )
                }
                Op::Ctlz | Op::Cttz => {
                    // ite chain over the bits
                    let mut t = format!("(_ bv{} {})", w, w);
                    for i in 0..w {
                        let (bit, val) = if n.op == Op::Ctlz { (i, w - 1 - i) } else { (w - 1 - i, w - 1 - i) };
                        t = format!("(ite (= ((_ extract {} {}) {}) #b1) (_ bv{} {}) {})", bit, bit, s.rb(a), val, w, t);
                    }
                    t
                }
                Op::Ctpop => {
                    let mut t = format!("(_ bv0 {})", w);
                    for i in 0..w {
                        t = format!("(bvadd ((_ zero_extend {}) ((_ extract {} {}) {})) {})", w - 1, i, i, s.rb(a), t);
                    }
                    t
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FNeg | Op::FFromS | Op::FFromU | Op::FExt | Op::FTrunc => {
                    let fs = if w == 32 { "8 24" } else { "11 53" };
                    let f = match n.op {
                        Op::FAdd => format!("(fp.add RNE {} {})", s.fp(a), s.fp(b)),
                        Op::FSub => format!("(fp.sub RNE {} {})", s.fp(a), s.fp(b)),
                        Op::FMul => format!("(fp.mul RNE {} {})", s.fp(a), s.fp(b)),
                        Op::FDiv => format!("(fp.div RNE {} {})", s.fp(a), s.fp(b)),
                        Op::FNeg => format!("(fp.neg {})", s.fp(a)),
                        Op::FFromS => format!("((_ to_fp {}) RNE {})", fs, s.rb(a)),
                        Op::FFromU => format!("((_ to_fp_unsigned {}) RNE {})", fs, s.rb(a)),
                        _ => format!("((_ to_fp {}) RNE {})", fs, s.fp(a)),
                    };
                    // value of the result as bits: a fresh vector constrained through to_fp
                    let _ = write!(s.out, "(declare-fun e{} () (_ BitVec {}))\n", e, w);
                    asserts.push(format!("(= ((_ to_fp {}) e{}) {})", fs, e, f));
                    continue;
                }
                Op::FLt => format!("(fp.lt {} {})", s.fp(a), s.fp(b)),
                Op::FLe => format!("(fp.leq {} {})", s.fp(a), s.fp(b)),
                Op::FEq => format!("(fp.eq {} {})", s.fp(a), s.fp(b)),
                Op::FUno => format!("(or (fp.isNaN {}) (fp.isNaN {}))", s.fp(a), s.fp(b)),
                Op::FToS | Op::FToU => {
                    let fs = if ar.w(a) == 32 { "8 24" } else { "11 53" };
                    let x = s.fp(a);
                    let (lo, hi, conv, cv) = if n.op == Op::FToS {
                        (smin(w) as u128 & mask(w), smax(w) as u128 & mask(w), "fp.to_sbv", "to_fp")
                    } else {
                        (0, mask(w), "fp.to_ubv", "to_fp_unsigned")
                    };
                    format!(
                        "(ite (fp.isNaN {x}) (_ bv0 {w}) (ite (fp.leq {x} ((_ {cv} {fs}) RNE (_ bv{lo} {w}))) (_ bv{lo} {w}) (ite (fp.geq {x} ((_ {cv} {fs}) RNE (_ bv{hi} {w}))) (_ bv{hi} {w}) ((_ {conv} {w}) RTZ {x}))))",
                        x = x, w = w, fs = fs, lo = lo, hi = hi, conv = conv, cv = cv
                    )
                }
                _ => unreachable!("{:?}", n.op),
            };
            let _ = write!(s.out, "(define-fun e{} () {} {})\n", e, sort(w), t);
        }
        let mut out = s.out.clone();
        for a in asserts {
            let _ = write!(out, "(assert {})\n", a);
        }
        for c in cons {
            let _ = write!(out, "(assert {})\n", s.r(*c));
        }
        (out, vars, false)
    }
}

/// Integer encoding.  Every term has an unsigned reading U in [0,2^w) and a signed reading S;
/// `nat` records which of the two the definition was written in.
struct IntEnc<'a> {
    ar: &'a Arena,
    out: String,
    asserts: Vec<String>,
    approx: bool,
    conv: HashSet<(Eid, bool)>,
    ovf_s: HashSet<(Op, Eid, Eid)>,
    havoc_and: HashSet<(Eid, Eid)>,
}

fn p2(w: u32) -> String {
    if w >= 128 {
        "340282366920938463463374607431768211456".into()
    } else {
        (1u128 << w).to_string()
    }
}
fn lit(v: i128) -> String {
    if v < 0 {
        format!("(- {})", v.unsigned_abs())
    } else {
        v.to_string()
    }
}

impl<'a> IntEnc<'a> {
    fn nonneg(&self, e: Eid) -> bool {
        self.ar.inf(e).slo >= 0
    }
    /// is the native reading signed?
    fn is_s(&self, e: Eid) -> bool {
        if self.nonneg(e) {
            return false;
        }
        let n = self.ar.n(e);
        match n.op {
            Op::Const => false,
            Op::Var => self.ar.vars[n.k as usize].signed,
            Op::Add => self.add_signed(n),
            Op::Sub => self.sub_signed(n),
            Op::Mul => self.mul_signed(n),
            Op::SDiv | Op::SRem | Op::SExt => true,
            Op::Ite => self.is_s(n.b) || self.is_s(n.c) || (self.cneg(n.b) || self.cneg(n.c)) && self.ar.inf(e).slo > smin(n.w) / 2,
            Op::Extract => self.ext_signed(e),
            Op::Xor => {
                if let Some(k) = self.ar.cval(n.b) {
                    if k == 1u128 << (n.w - 1) {
                        return !self.is_s(n.a) && !self.nonneg(n.a);
                    }
                    if k == mask(n.w) {
                        return true;
                    }
                }
                false
            }
            _ => false,
        }
    }
    fn cneg(&self, e: Eid) -> bool {
        let n = self.ar.n(e);
        n.op == Op::Const && sx(n.k, n.w) < 0
    }
    fn ext_signed(&self, e: Eid) -> bool {
        let n = self.ar.n(e);
        if n.k == 0 {
            let i = self.ar.inf(n.a);
            return i.slo >= smin(n.w) && i.shi <= smax(n.w);
        }
        n.k as u32 + n.w == self.ar.w(n.a) && self.is_s(n.a)
    }
    fn exact_s(&self, op: Op, a: Eid, b: Eid) -> bool {
        let (ia, ib) = (self.ar.inf(a), self.ar.inf(b));
        let w = self.ar.w(a);
        let (mn, mx) = (smin(w), smax(w));
        let ok = |x: Option<i128>| matches!(x, Some(v) if v >= mn && v <= mx);
        match op {
            Op::Add => ok(ia.slo.checked_add(ib.slo)) && ok(ia.shi.checked_add(ib.shi)),
            Op::Sub => ok(ia.slo.checked_sub(ib.shi)) && ok(ia.shi.checked_sub(ib.slo)),
            Op::Mul => {
                ok(ia.slo.checked_mul(ib.slo))
                    && ok(ia.slo.checked_mul(ib.shi))
                    && ok(ia.shi.checked_mul(ib.slo))
                    && ok(ia.shi.checked_mul(ib.shi))
            }
            _ => false,
        }
    }
    fn exact_u(&self, op: Op, a: Eid, b: Eid) -> bool {
        let (ia, ib) = (self.ar.inf(a), self.ar.inf(b));
        let m = mask(self.ar.w(a));
        match op {
            Op::Add => matches!(ia.uhi.checked_add(ib.uhi), Some(h) if h <= m),
            Op::Sub => ia.ulo >= ib.uhi,
            Op::Mul => matches!(ia.uhi.checked_mul(ib.uhi), Some(h) if h <= m),
            _ => false,
        }
    }
    fn has_s(&self, op: Op, a: Eid, b: Eid) -> bool {
        self.ovf_s.contains(&(op, a, b)) || self.ovf_s.contains(&(op, b, a))
    }
    fn add_signed(&self, n: &Node) -> bool {
        if self.exact_s(Op::Add, n.a, n.b) {
            return true;
        }
        if self.exact_u(Op::Add, n.a, n.b) {
            return false;
        }
        if self.has_s(Op::SAddO, n.a, n.b) {
            return true;
        }
        self.is_s(n.a) || self.is_s(n.b)
    }
    fn sub_signed(&self, n: &Node) -> bool {
        if self.exact_s(Op::Sub, n.a, n.b) {
            return true;
        }
        if self.exact_u(Op::Sub, n.a, n.b) {
            return false;
        }
        if self.ovf_s.contains(&(Op::SSubO, n.a, n.b)) {
            return true;
        }
        self.is_s(n.a) || self.is_s(n.b)
    }
    fn mul_signed(&self, n: &Node) -> bool {
        if self.exact_s(Op::Mul, n.a, n.b) {
            return true;
        }
        if self.exact_u(Op::Mul, n.a, n.b) {
            return false;
        }
        if self.has_s(Op::SMulO, n.a, n.b) {
            return true;
        }
        self.is_s(n.a) || self.is_s(n.b)
    }

    fn nat(&self, e: Eid) -> String {
        let n = self.ar.n(e);
        match n.op {
            Op::Const => {
                if n.w == 1 {
                    (if n.k == 1 { "true" } else { "false" }).into()
                } else {
                    n.k.to_string()
                }
            }
            Op::Var => format!("v{}", n.k),
            _ => format!("e{}", e),
        }
    }
    /// unsigned reading
    fn u(&mut self, e: Eid) -> String {
        let n = *self.ar.n(e);
        if n.w == 1 {
            return format!("(ite {} 1 0)", self.nat(e));
        }
        if n.op == Op::Const {
            return n.k.to_string();
        }
        if self.nonneg(e) || !self.is_s(e) {
            return self.nat(e);
        }
        let name = format!("u{}", e);
        if self.conv.insert((e, false)) {
            let x = self.nat(e);
            let i = self.ar.inf(e);
            let t = if i.shi < 0 {
                format!("(+ {} {})", x, p2(n.w))
            } else {
                format!("(ite (< {} 0) (+ {} {}) {})", x, x, p2(n.w), x)
            };
            let _ = write!(self.out, "(define-fun {} () Int {})\n", name, t);
        }
        name
    }
    /// signed reading
    fn s(&mut self, e: Eid) -> String {
        let n = *self.ar.n(e);
        if n.w == 1 {
            return format!("(ite {} (- 1) 0)", self.nat(e));
        }
        if n.op == Op::Const {
            return lit(sx(n.k, n.w));
        }
        if self.nonneg(e) || self.is_s(e) {
            return self.nat(e);
        }
        let name = format!("s{}", e);
        if self.conv.insert((e, true)) {
            let x = self.nat(e);
            let i = self.ar.inf(e);
            let t = if i.shi < 0 {
                format!("(- {} {})", x, p2(n.w))
            } else {
                format!("(ite (>= {} {}) (- {} {}) {})", x, p2(n.w - 1), x, p2(n.w), x)
            };
            let _ = write!(self.out, "(define-fun {} () Int {})\n", name, t);
        }
        name
    }
    fn havoc(&mut self, e: Eid) -> String {
        // fresh integer within the known interval
        self.approx = true;
        let i = *self.ar.inf(e);
        let s = self.is_s(e);
        let name = format!("e{}", e);
        let _ = write!(self.out, "(declare-fun {} () Int)\n", name);
        let (lo, hi) = if s {
            (lit(i.slo), lit(i.shi))
        } else {
            (i.ulo.to_string(), i.uhi.to_string())
        };
        self.asserts.push(format!("(and (<= {} {}) (<= {} {}))", lo, name, name, hi));
        name
    }
    fn wrap_s(&self, p: &str, w: u32) -> String {
        format!(
            "(ite (> {p} {hi}) (ite (< (- {p} {m}) {half}) (- {p} {m}) (- (mod (+ {p} {half}) {m}) {half})) (ite (< {p} {lo}) (ite (>= (+ {p} {m}) {lo}) (+ {p} {m}) (- (mod (+ {p} {half}) {m}) {half})) {p}))",
            p = p,
            hi = lit(smax(w)),
            lo = lit(smin(w)),
            m = p2(w),
            half = p2(w - 1)
        )
    }
    /// sum of the masked runs of an unsigned reading
    fn masked(&mut self, e: Eid, k: u128) -> String {
        let w = self.ar.w(e);
        let x = self.u(e);
        let mut parts = vec![];
        let mut rest = k & mask(w);
        while rest != 0 {
            let lo = rest.trailing_zeros();
            let len = (!(rest >> lo)).trailing_zeros().min(w - lo);
            let d = if lo == 0 { x.clone() } else { format!("(div {} {})", x, p2(lo)) };
            let t = if lo + len >= w { d } else { format!("(mod {} {})", d, p2(len)) };
            parts.push(if lo == 0 { t } else { format!("(* {} {})", p2(lo), t) });
            rest &= !(mask(len) << lo);
        }
        match parts.len() {
            0 => "0".into(),
            1 => parts.pop().unwrap(),
            _ => format!("(+ {})", parts.join(" ")),
        }
    }

    fn script(ar: &'a Arena, cons: &[Eid]) -> (String, Vec<(u32, String)>, bool) {
        let order = topo(ar, cons);
        let mut s = IntEnc {
            ar,
            out: String::new(),
            asserts: vec![],
            approx: false,
            conv: HashSet::new(),
            ovf_s: HashSet::new(),
            havoc_and: HashSet::new(),
        };
        for e in &order {
            let n = ar.n(*e);
            if matches!(n.op, Op::SAddO | Op::SSubO | Op::SMulO) {
                s.ovf_s.insert((n.op, n.a, n.b));
            }
        }
        let mut vars = vec![];
        for &e in &order {
            let n = *ar.n(e);
            let w = n.w;
            let (a, b) = (n.a, n.b);
            match n.op {
                Op::Const => continue,
                Op::Var => {
                    let name = format!("v{}", n.k);
                    let _ = write!(s.out, "(declare-fun {} () {})\n", name, if w == 1 { "Bool" } else { "Int" });
                    if w > 1 {
                        let i = *ar.inf(e);
                        let (lo, hi) = if s.is_s(e) {
                            (lit(i.slo), lit(i.shi))
                        } else {
                            (i.ulo.to_string(), i.uhi.to_string())
                        };
                        s.asserts.push(format!("(and (<= {} {}) (<= {} {}))", lo, name, name, hi));
                    }
                    vars.push((n.k as u32, name));
                    continue;
                }
                _ => {}
            }
            let sort = if w == 1 { "Bool" } else { "Int" };
            let t: String = match n.op {
                Op::And | Op::Or | Op::Xor if w == 1 => {
                    let o = match n.op {
                        Op::And => "and",
                        Op::Or => "or",
                        _ => "xor",
                    };
                    if n.op == Op::Xor && ar.cval(b) == Some(1) {
                        format!("(not {})", s.nat(a))
                    } else {
                        format!("({} {} {})", o, s.nat(a), s.nat(b))
                    }
                }
                Op::Add | Op::Sub | Op::Mul if w == 1 => match n.op {
                    Op::Mul => format!("(and {} {})", s.nat(a), s.nat(b)),
                    _ => format!("(xor {} {})", s.nat(a), s.nat(b)),
                },
                Op::Add | Op::Sub => {
                    let o = if n.op == Op::Add { "+" } else { "-" };
                    let sg = if n.op == Op::Add { s.add_signed(&n) } else { s.sub_signed(&n) };
                    if sg {
                        let p = format!("({} {} {})", o, s.s(a), s.s(b));
                        if s.exact_s(n.op, a, b) {
                            p
                        } else {
                            let pn = format!("p{}", e);
                            let _ = write!(s.out, "(define-fun {} () Int {})\n", pn, p);
                            s.wrap_s(&pn, w)
                        }
                    } else {
                        // unsigned; a negative constant is added as itself
                        let kneg = n.op == Op::Add && s.cneg(b);
                        let p = if kneg {
                            format!("(+ {} {})", s.u(a), lit(sx(ar.cval(b).unwrap(), w)))
                        } else {
                            format!("({} {} {})", o, s.u(a), s.u(b))
                        };
                        if !kneg && s.exact_u(n.op, a, b) {
                            p
                        } else {
                            let pn = format!("p{}", e);
                            let _ = write!(s.out, "(define-fun {} () Int {})\n", pn, p);
                            if n.op == Op::Sub || kneg {
                                format!("(ite (< {} 0) (+ {} {}) {})", pn, pn, p2(w), pn)
                            } else {
                                format!("(ite (>= {} {}) (- {} {}) {})", pn, p2(w), pn, p2(w), pn)
                            }
                        }
                    }
                }
                Op::Mul => {
                    let sg = s.mul_signed(&n);
                    let (x, y) = if sg { (s.s(a), s.s(b)) } else { (s.u(a), s.u(b)) };
                    let p = format!("(* {} {})", x, y);
                    if (sg && s.exact_s(Op::Mul, a, b)) || (!sg && s.exact_u(Op::Mul, a, b)) {
                        p
                    } else {
                        let pn = format!("p{}", e);
                        let _ = write!(s.out, "(define-fun {} () Int {})\n", pn, p);
                        if sg {
                            format!(
                                "(ite (and (<= {lo} {p}) (<= {p} {hi})) {p} (- (mod (+ {p} {h}) {m}) {h}))",
                                lo = lit(smin(w)),
                                hi = lit(smax(w)),
                                p = pn,
                                m = p2(w),
                                h = p2(w - 1)
                            )
                        } else {
                            format!("(ite (< {p} {m}) {p} (mod {p} {m}))", p = pn, m = p2(w))
                        }
                    }
                }
                Op::UDiv | Op::URem => {
                    let (x, y) = (s.u(a), s.u(b));
                    let o = if n.op == Op::UDiv { "div" } else { "mod" };
                    let t = format!("({} {} {})", o, x, y);
                    if ar.inf(b).ulo > 0 {
                        t
                    } else if n.op == Op::UDiv {
                        format!("(ite (= {} 0) {} {})", y, mask(w), t)
                    } else {
                        format!("(ite (= {} 0) {} {})", y, x, t)
                    }
                }
                Op::SDiv | Op::SRem => {
                    let (x, y) = (s.s(a), s.s(b));
                    let (ia, ib) = (*ar.inf(a), *ar.inf(b));
                    let mag = |x: &str, y: &str| format!("(div {} {})", x, y);
                    let pos_b = if ia.slo >= 0 {
                        mag(&x, &y)
                    } else if ia.shi <= 0 {
                        format!("(- (div (- {}) {}))", x, y)
                    } else {
                        format!("(ite (>= {x} 0) (div {x} {y}) (- (div (- {x}) {y})))", x = x, y = y)
                    };
                    let q = if ib.slo > 0 {
                        pos_b
                    } else {
                        let neg_b = format!("(ite (>= {x} 0) (- (div {x} (- {y}))) (div (- {x}) (- {y})))", x = x, y = y);
                        let dz = format!("(ite (< {} 0) 1 (- 1))", x);
                        format!("(ite (> {y} 0) {p} (ite (< {y} 0) {n} {z}))", y = y, p = pos_b, n = neg_b, z = dz)
                    };
                    let qn = format!("q{}", e);
                    let _ = write!(s.out, "(define-fun {} () Int {})\n", qn, q);
                    if n.op == Op::SDiv {
                        if ib.slo <= -1 && ib.shi >= -1 && ia.slo == smin(w) {
                            s.wrap_s(&qn, w)
                        } else {
                            qn
                        }
                    } else if ib.slo > 0 || ib.shi < 0 {
                        format!("(- {} (* {} {}))", x, y, qn)
                    } else {
                        format!("(ite (= {} 0) {} (- {} (* {} {})))", y, x, x, y, qn)
                    }
                }
                Op::Concat => {
                    let wl = ar.w(b);
                    let (h, l) = (s.u(a), s.u(b));
                    if ar.cval(b) == Some(0) {
                        format!("(* {} {})", p2(wl), h)
                    } else {
                        format!("(+ (* {} {}) {})", p2(wl), h, l)
                    }
                }
                Op::Extract => {
                    let lo = n.k as u32;
                    let aw = ar.w(a);
                    if w == 1 {
                        let x = s.u(a);
                        if lo == aw - 1 {
                            if s.is_s(a) {
                                format!("(< {} 0)", s.nat(a))
                            } else {
                                format!("(>= {} {})", x, p2(lo))
                            }
                        } else {
                            let d = if lo == 0 { x } else { format!("(div {} {})", x, p2(lo)) };
                            format!("(= (mod {} 2) 1)", d)
                        }
                    } else if s.ext_signed(e) && !s.nonneg(e) {
                        if lo == 0 {
                            s.s(a)
                        } else {
                            format!("(div {} {})", s.s(a), p2(lo))
                        }
                    } else if lo == 0 {
                        let i = *ar.inf(a);
                        if i.uhi <= mask(w) {
                            s.u(a)
                        } else {
                            format!("(mod {} {})", s.nat(a), p2(w))
                        }
                    } else {
                        let d = format!("(div {} {})", s.u(a), p2(lo));
                        if lo + w == aw || (ar.inf(a).uhi >> lo) <= mask(w) {
                            d
                        } else {
                            format!("(mod {} {})", d, p2(w))
                        }
                    }
                }
                Op::ZExt => s.u(a),
                Op::SExt => s.s(a),
                Op::Ite => {
                    let c = s.nat(a);
                    if w == 1 {
                        format!("(ite {} {} {})", c, s.nat(b), s.nat(n.c))
                    } else if s.is_s(e) {
                        format!("(ite {} {} {})", c, s.s(b), s.s(n.c))
                    } else {
                        format!("(ite {} {} {})", c, s.u(b), s.u(n.c))
                    }
                }
                Op::And | Op::Or | Op::Xor => {
                    if let Some(k) = ar.cval(b) {
                        match n.op {
                            Op::And => s.masked(a, k),
                            Op::Or => {
                                let x = s.u(a);
                                let m = s.masked(a, k);
                                format!("(- (+ {} {}) {})", x, k, m)
                            }
                            _ => {
                                if k == 1u128 << (w - 1) {
                                    if s.is_s(e) {
                                        format!("(- {} {})", s.u(a), p2(w - 1))
                                    } else {
                                        format!("(+ {} {})", s.s(a), p2(w - 1))
                                    }
                                } else if k == mask(w) {
                                    if s.is_s(e) {
                                        format!("(- (- 1) {})", s.s(a))
                                    } else {
                                        format!("(- {} {})", k, s.u(a))
                                    }
                                } else {
                                    let x = s.u(a);
                                    let m = s.masked(a, k);
                                    format!("(- (+ {} {}) (* 2 {}))", x, k, m)
                                }
                            }
                        }
                    } else {
                        // the conjunction of the two operands is left free within its bounds
                        s.approx = true;
                        let (x, y) = (s.u(a), s.u(b));
                        let (lo, hi) = if a < b { (a, b) } else { (b, a) };
                        let h = format!("h{}_{}", lo, hi);
                        if s.havoc_and.insert((lo, hi)) {
                            let _ = write!(s.out, "(declare-fun {} () Int)\n", h);
                            s.asserts.push(format!("(and (<= 0 {h}) (<= {h} {x}) (<= {h} {y}))", h = h, x = x, y = y));
                        }
                        match n.op {
                            Op::And => h,
                            Op::Or => {
                                s.asserts.push(format!("(< (- (+ {x} {y}) {h}) {m})", x = x, y = y, h = h, m = p2(w)));
                                format!("(- (+ {} {}) {})", x, y, h)
                            }
                            _ => {
                                s.asserts.push(format!("(< (- (+ {x} {y}) (* 2 {h})) {m})", x = x, y = y, h = h, m = p2(w)));
                                format!("(- (+ {} {}) (* 2 {}))", x, y, h)
                            }
                        }
                    }
                }
                Op::Eq => {
                    if ar.w(a) == 1 {
                        format!("(= {} {})", s.nat(a), s.nat(b))
                    } else if s.is_s(a) || s.is_s(b) {
                        format!("(= {} {})", s.s(a), s.s(b))
                    } else {
                        format!("(= {} {})", s.u(a), s.u(b))
                    }
                }
                Op::Ult => format!("(< {} {})", s.u(a), s.u(b)),
                Op::Slt => format!("(< {} {})", s.s(a), s.s(b)),
                Op::SAddO | Op::SSubO | Op::SMulO => {
                    let ow = ar.w(a);
                    let o = match n.op {
                        Op::SAddO => "+",
                        Op::SSubO => "-",
                        _ => "*",
                    };
                    let p = format!("({} {} {})", o, s.s(a), s.s(b));
                    format!("(not (and (<= {} {}) (<= {} {})))", lit(smin(ow)), p, p, lit(smax(ow)))
                }
                Op::UAddO | Op::UMulO => {
                    let ow = ar.w(a);
                    let o = if n.op == Op::UAddO { "+" } else { "*" };
                    let p = format!("({} {} {})", o, s.u(a), s.u(b));
                    format!("(>= {} {})", p, p2(ow))
                }
                Op::USubO => format!("(< {} {})", s.u(a), s.u(b)),
                Op::FLt | Op::FLe | Op::FEq | Op::FUno => {
                    s.approx = true;
                    let _ = write!(s.out, "(declare-fun e{} () Bool)\n", e);
                    continue;
                }
                _ => {
                    s.havoc(e);
                    continue;
                }
            };
            let _ = write!(s.out, "(define-fun e{} () {} {})\n", e, sort, t);
        }
        let mut out = std::mem::take(&mut s.out);
        for a in &s.asserts {
            let _ = write!(out, "(assert {})\n", a);
        }
        for c in cons {
            let _ = write!(out, "(assert {})\n", s.nat(*c));
        }
        (out, vars, s.approx)
    }
}
