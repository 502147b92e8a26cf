//! Hash-consed bit-vector terms with local simplification, interval and known-bits facts.
use std::collections::HashMap;

pub type Eid = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
    Ctlz,
    Cttz,
    Ctpop,
    SAddO,
    UAddO,
    SSubO,
    USubO,
    SMulO,
    UMulO,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FLt,
    FLe,
    FEq,
    FUno,
    FNeg,
    FFromS,
    FFromU,
    FToS,
    FToU,
    FExt,
    FTrunc,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: Eid,
    pub b: Eid,
    pub c: Eid,
    pub k: u128,
}

#[derive(Clone, Copy, Debug)]
pub struct Info {
    pub ulo: u128,
    pub uhi: u128,
    pub slo: i128,
    pub shi: i128,
    pub kz: u128,
    pub ko: u128,
}

#[derive(Clone, Debug)]
pub struct VarDecl {
    pub name: String,
    pub w: u32,
    pub signed: bool,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    map: HashMap<Node, Eid>,
    pub vars: Vec<VarDecl>,
    pub defaults: Vec<u128>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}
pub fn smin(w: u32) -> i128 {
    if w >= 128 {
        i128::MIN
    } else {
        -(1i128 << (w - 1))
    }
}
pub fn smax(w: u32) -> i128 {
    if w >= 128 {
        i128::MAX
    } else {
        (1i128 << (w - 1)) - 1
    }
}

fn bits_needed(v: u128) -> u32 {
    128 - v.leading_zeros()
}

pub fn fold(op: Op, w: u32, x: u128, y: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                return None;
            }
            x / y
        }
        Op::URem => {
            if y == 0 {
                return None;
            }
            x % y
        }
        Op::SDiv => {
            if y == 0 {
                return None;
            }
            (sx(x, w).wrapping_div(sx(y, w))) as u128 & m
        }
        Op::SRem => {
            if y == 0 {
                return None;
            }
            (sx(x, w).wrapping_rem(sx(y, w))) as u128 & m
        }
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = if y >= w as u128 { w - 1 } else { y as u32 };
            (sx(x, w) >> s.min(127)) as u128 & m
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Slt => unreachable!(),
        _ => return None,
    })
}

/// overflow predicates and signed compare need the operand width
pub fn fold_pred(op: Op, ow: u32, x: u128, y: u128) -> u128 {
    let (a, b) = (sx(x, ow), sx(y, ow));
    let fits = |r: Option<i128>| match r {
        None => false,
        Some(v) => v >= smin(ow) && v <= smax(ow),
    };
    let ufits = |r: Option<u128>| match r {
        None => false,
        Some(v) => v <= mask(ow),
    };
    (match op {
        Op::Eq => x == y,
        Op::Ult => x < y,
        Op::Slt => a < b,
        Op::SAddO => !fits(a.checked_add(b)),
        Op::SSubO => !fits(a.checked_sub(b)),
        Op::SMulO => !fits(a.checked_mul(b)),
        Op::UAddO => !ufits(x.checked_add(y)),
        Op::USubO => x < y,
        Op::UMulO => !ufits(x.checked_mul(y)),
        _ => unreachable!(),
    }) as u128
}

pub fn fold_float(op: Op, w: u32, aw: u32, x: u128, y: u128) -> u128 {
    let f = |v: u128, w: u32| {
        if w == 32 {
            f32::from_bits(v as u32) as f64
        } else {
            f64::from_bits(v as u64)
        }
    };
    let enc = |v: f64, w: u32| {
        if w == 32 {
            (v as f32).to_bits() as u128
        } else {
            v.to_bits() as u128
        }
    };
    // f32 arithmetic through f64 is correctly rounded for + - * /
    match op {
        Op::FAdd => enc(f(x, w) + f(y, w), w),
        Op::FSub => enc(f(x, w) - f(y, w), w),
        Op::FMul => enc(f(x, w) * f(y, w), w),
        Op::FDiv => enc(f(x, w) / f(y, w), w),
        Op::FNeg => x ^ (1u128 << (w - 1)),
        Op::FLt => (f(x, aw) < f(y, aw)) as u128,
        Op::FLe => (f(x, aw) <= f(y, aw)) as u128,
        Op::FEq => (f(x, aw) == f(y, aw)) as u128,
        Op::FUno => (f(x, aw).is_nan() || f(y, aw).is_nan()) as u128,
        Op::FFromS => {
            let v = sx(x, aw);
            if w == 32 {
                (v as f32).to_bits() as u128
            } else {
                (v as f64).to_bits() as u128
            }
        }
        Op::FFromU => {
            if w == 32 {
                (x as f32).to_bits() as u128
            } else {
                (x as f64).to_bits() as u128
            }
        }
        Op::FToS => {
            let v = f(x, aw);
            let r = v as i128;
            (r.clamp(smin(w), smax(w)) as u128) & mask(w)
        }
        Op::FToU => {
            let v = f(x, aw);
            (v as u128).min(mask(w))
        }
        Op::FExt | Op::FTrunc => enc(f(x, aw), w),
        _ => unreachable!(),
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { nodes: vec![], info: vec![], map: HashMap::new(), vars: vec![], defaults: vec![] };
        // id 0 is never a term
        a.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        a.info.push(Info { ulo: 0, uhi: 0, slo: 0, shi: 0, kz: 0, ko: 0 });
        a
    }
    pub fn n(&self, e: Eid) -> &Node {
        &self.nodes[e as usize]
    }
    pub fn w(&self, e: Eid) -> u32 {
        self.nodes[e as usize].w
    }
    pub fn inf(&self, e: Eid) -> &Info {
        &self.info[e as usize]
    }
    pub fn cval(&self, e: Eid) -> Option<u128> {
        let n = self.n(e);
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn raw(&mut self, n: Node) -> Eid {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let info = self.compute_info(&n);
        // a term with a single possible value is that value
        if n.op != Op::Const && info.ulo == info.uhi {
            return self.c(n.w, info.ulo);
        }
        let e = self.nodes.len() as Eid;
        self.nodes.push(n);
        self.info.push(info);
        self.map.insert(n, e);
        e
    }
    pub fn c(&mut self, w: u32, v: u128) -> Eid {
        self.raw(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn b(&mut self, v: bool) -> Eid {
        self.c(1, v as u128)
    }
    pub fn var(&mut self, name: &str, w: u32, signed: bool, lo: u128, hi: u128) -> Eid {
        let id = self.vars.len();
        let zero_ok = if signed { sx(lo, w) <= 0 && sx(hi, w) >= 0 } else { lo == 0 };
        self.defaults.push(if zero_ok { 0 } else { lo });
        self.vars.push(VarDecl { name: name.to_string(), w, signed });
        let n = Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: id as u128 };
        let e = self.nodes.len() as Eid;
        let inf = if signed {
            self.norm_info(w, Info { ulo: 0, uhi: mask(w), slo: sx(lo, w), shi: sx(hi, w), kz: 0, ko: 0 })
        } else {
            self.norm_info(w, Info { ulo: lo, uhi: hi, slo: smin(w), shi: smax(w), kz: 0, ko: 0 })
        };
        self.nodes.push(n);
        self.info.push(inf);
        self.map.insert(n, e);
        e
    }

    /// a value inside the declared range of variable `i`
    pub fn default_of(&self, i: usize) -> u128 {
        self.defaults[i]
    }

    fn norm_info(&self, w: u32, mut i: Info) -> Info {
        let m = mask(w);
        for _ in 0..2 {
            // known bits -> unsigned
            let lo_k = i.ko;
            let hi_k = m & !i.kz;
            if lo_k > i.ulo {
                i.ulo = lo_k;
            }
            if hi_k < i.uhi {
                i.uhi = hi_k;
            }
            // unsigned -> signed
            let half = 1u128 << (w - 1);
            if i.uhi < half {
                i.slo = i.slo.max(i.ulo as i128);
                i.shi = i.shi.min(i.uhi as i128);
            } else if i.ulo >= half {
                i.slo = i.slo.max(sx(i.ulo, w));
                i.shi = i.shi.min(sx(i.uhi, w));
            }
            // signed -> unsigned
            if i.slo >= 0 {
                i.ulo = i.ulo.max(i.slo as u128);
                i.uhi = i.uhi.min(i.shi as u128);
            } else if i.shi < 0 {
                i.ulo = i.ulo.max(i.slo as u128 & m);
                i.uhi = i.uhi.min(i.shi as u128 & m);
            }
            if i.ulo > i.uhi || i.slo > i.shi {
                // contradictory (dead) term: fall back to no information
                return Info { ulo: 0, uhi: m, slo: smin(w), shi: smax(w), kz: 0, ko: 0 };
            }
            // unsigned -> known zeros above the top bit of uhi
            let n = bits_needed(i.uhi);
            if n < w {
                i.kz |= m & !mask(n);
            }
            // common prefix of ulo and uhi
            let diff = i.ulo ^ i.uhi;
            let n = bits_needed(diff);
            if n < w {
                let pm = m & !mask(n);
                i.ko |= i.ulo & pm;
                i.kz |= !i.ulo & pm;
            }
        }
        i
    }

    fn full(&self, w: u32) -> Info {
        Info { ulo: 0, uhi: mask(w), slo: smin(w), shi: smax(w), kz: 0, ko: 0 }
    }

    fn compute_info(&self, n: &Node) -> Info {
        let w = n.w;
        let m = mask(w);
        let mut i = self.full(w);
        let (ia, ib) = (self.info[n.a as usize], self.info[n.b as usize]);
        match n.op {
            Op::Const => {
                return Info { ulo: n.k, uhi: n.k, slo: sx(n.k, w), shi: sx(n.k, w), kz: m & !n.k, ko: n.k };
            }
            Op::Var => {}
            Op::Add => {
                if let (Some(l), Some(h)) = (ia.ulo.checked_add(ib.ulo), ia.uhi.checked_add(ib.uhi)) {
                    if h <= m {
                        i.ulo = l;
                        i.uhi = h;
                    }
                }
                if let (Some(l), Some(h)) = (ia.slo.checked_add(ib.slo), ia.shi.checked_add(ib.shi)) {
                    if l >= smin(w) && h <= smax(w) {
                        i.slo = l;
                        i.shi = h;
                    }
                }
                // trailing known zeros
                let tz = (!ia.kz).trailing_zeros().min((!ib.kz).trailing_zeros());
                i.kz |= mask(tz.min(w)) & m;
            }
            Op::Sub => {
                if ia.ulo >= ib.uhi {
                    i.ulo = ia.ulo - ib.uhi;
                    i.uhi = ia.uhi - ib.ulo;
                }
                if let (Some(l), Some(h)) = (ia.slo.checked_sub(ib.shi), ia.shi.checked_sub(ib.slo)) {
                    if l >= smin(w) && h <= smax(w) {
                        i.slo = l;
                        i.shi = h;
                    }
                }
            }
            Op::Mul => {
                if let Some(h) = ia.uhi.checked_mul(ib.uhi) {
                    if h <= m {
                        i.ulo = ia.ulo * ib.ulo;
                        i.uhi = h;
                    }
                }
                let c = [
                    ia.slo.checked_mul(ib.slo),
                    ia.slo.checked_mul(ib.shi),
                    ia.shi.checked_mul(ib.slo),
                    ia.shi.checked_mul(ib.shi),
                ];
                if c.iter().all(|x| x.is_some()) {
                    let l = c.iter().map(|x| x.unwrap()).min().unwrap();
                    let h = c.iter().map(|x| x.unwrap()).max().unwrap();
                    if l >= smin(w) && h <= smax(w) {
                        i.slo = l;
                        i.shi = h;
                    }
                }
                let tz = (!ia.kz).trailing_zeros() + (!ib.kz).trailing_zeros();
                i.kz |= mask(tz.min(w)) & m;
            }
            Op::UDiv => {
                if ib.ulo > 0 {
                    i.ulo = ia.ulo / ib.uhi;
                    i.uhi = ia.uhi / ib.ulo;
                } else {
                    i.uhi = m;
                }
            }
            Op::URem => {
                if ib.ulo > 0 {
                    i.uhi = ia.uhi.min(ib.uhi - 1);
                }
            }
            Op::SDiv => {
                if ia.slo >= 0 && ib.slo > 0 {
                    i.slo = ia.slo / ib.shi;
                    i.shi = ia.shi / ib.slo;
                } else if ib.slo > 0 {
                    i.slo = (ia.slo / ib.slo).min(0);
                    i.shi = (ia.shi / ib.slo).max(0);
                }
            }
            Op::SRem => {
                if ib.slo > 0 {
                    i.slo = if ia.slo >= 0 { 0 } else { -(ib.shi - 1) };
                    i.shi = if ia.shi <= 0 { 0 } else { (ib.shi - 1).min(ia.shi) };
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if n.op == Op::LShr {
                    i.uhi = ia.uhi;
                }
            }
            Op::And => {
                i.kz = (ia.kz | ib.kz) & m;
                i.ko = ia.ko & ib.ko;
                i.uhi = ia.uhi.min(ib.uhi);
            }
            Op::Or => {
                i.ko = (ia.ko | ib.ko) & m;
                i.kz = ia.kz & ib.kz;
                i.ulo = ia.ulo.max(ib.ulo);
            }
            Op::Xor => {
                let k = (ia.kz | ia.ko) & (ib.kz | ib.ko);
                let v = ia.ko ^ ib.ko;
                i.ko = v & k;
                i.kz = !v & k & m;
            }
            Op::Ite => {
                let (t, e) = (self.info[n.b as usize], self.info[n.c as usize]);
                i.ulo = t.ulo.min(e.ulo);
                i.uhi = t.uhi.max(e.uhi);
                i.slo = t.slo.min(e.slo);
                i.shi = t.shi.max(e.shi);
                i.kz = t.kz & e.kz;
                i.ko = t.ko & e.ko;
            }
            Op::Concat => {
                let wl = self.w(n.b);
                i.kz = ((ia.kz << wl) | ib.kz) & m;
                i.ko = ((ia.ko << wl) | ib.ko) & m;
                i.ulo = (ia.ulo << wl) | ib.ulo;
                i.uhi = (ia.uhi << wl) | ib.uhi;
            }
            Op::Extract => {
                let lo = n.k as u32;
                i.kz = (ia.kz >> lo) & m;
                i.ko = (ia.ko >> lo) & m;
                if lo + w == self.w(n.a) {
                    i.ulo = ia.ulo >> lo;
                    i.uhi = ia.uhi >> lo;
                    if true {
                        i.slo = ia.slo >> lo;
                        i.shi = ia.shi >> lo;
                    }
                } else if lo == 0 && ia.uhi <= m {
                    i.ulo = ia.ulo;
                    i.uhi = ia.uhi;
                } else if lo == 0 && ia.slo >= smin(w) && ia.shi <= smax(w) {
                    i.slo = ia.slo;
                    i.shi = ia.shi;
                }
            }
            Op::ZExt => {
                i.ulo = ia.ulo;
                i.uhi = ia.uhi;
                i.kz = ia.kz | (m & !mask(self.w(n.a)));
                i.ko = ia.ko;
            }
            Op::SExt => {
                i.slo = ia.slo;
                i.shi = ia.shi;
            }
            Op::Ctlz | Op::Cttz | Op::Ctpop => {
                i.uhi = w as u128;
                if n.op == Op::Ctlz {
                    i.ulo = (w - bits_needed(ia.uhi)) as u128;
                    i.uhi = (w - bits_needed(ia.ulo)) as u128;
                }
            }
            _ => {}
        }
        self.norm_info(w, i)
    }

    // ---------- constructors ----------
    pub fn not(&mut self, a: Eid) -> Eid {
        let w = self.w(a);
        let m = self.c(w, mask(w));
        self.bin(Op::Xor, a, m)
    }
    pub fn and1(&mut self, a: Eid, b: Eid) -> Eid {
        self.bin(Op::And, a, b)
    }
    pub fn or1(&mut self, a: Eid, b: Eid) -> Eid {
        self.bin(Op::Or, a, b)
    }
    fn is_not(&self, e: Eid) -> Option<Eid> {
        let n = self.n(e);
        if n.op == Op::Xor && self.cval(n.b) == Some(mask(n.w)) {
            Some(n.a)
        } else {
            None
        }
    }

    pub fn extract(&mut self, a: Eid, lo: u32, w: u32) -> Eid {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw {
            return a;
        }
        let n = *self.n(a);
        match n.op {
            Op::Const => return self.c(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.c(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    return self.sext(x, w);
                }
                let x = self.extract(n.a, iw - 1, 1);
                return self.sext(x, w);
            }
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, lo + w - wl);
                return self.concat(h, l);
            }
            Op::Ite => {
                if self.cval(n.b).is_some() || self.cval(n.c).is_some() {
                    let t = self.extract(n.b, lo, w);
                    let e = self.extract(n.c, lo, w);
                    return self.ite(n.a, t, e);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if self.cval(n.b).is_some() {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return self.bin(n.op, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul => {
                // low part of an addition of two extended narrow values
                if lo == 0 {
                    let na = *self.n(n.a);
                    let nb = *self.n(n.b);
                    let narrow = |s: &Self, x: &Node| {
                        x.op == Op::Const || ((x.op == Op::ZExt || x.op == Op::SExt) && s.w(x.a) <= w)
                    };
                    if narrow(self, &na) && narrow(self, &nb) {
                        let x = self.extract(n.a, 0, w);
                        let y = self.extract(n.b, 0, w);
                        return self.bin(n.op, x, y);
                    }
                }
            }
            _ => {}
        }
        // all extracted bits known?
        let inf = *self.inf(a);
        let em = mask(w);
        let kn = ((inf.kz | inf.ko) >> lo) & em;
        if kn == em {
            return self.c(w, inf.ko >> lo);
        }
        self.raw(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }

    pub fn concat(&mut self, h: Eid, l: Eid) -> Eid {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        assert!(w <= 128, "concat wider than 128");
        if let (Some(a), Some(b)) = (self.cval(h), self.cval(l)) {
            return self.c(w, (a << wl) | b);
        }
        if self.cval(h) == Some(0) {
            return self.zext(l, w);
        }
        let (nh, nl) = (*self.n(h), *self.n(l));
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k as u32 == nl.k as u32 + wl {
            return self.extract(nh.a, nl.k as u32, w);
        }
        // (h ++ l1) ++ l2 with adjacent l1,l2 : right-associate
        if nh.op == Op::Concat {
            let l2 = self.concat(nh.b, l);
            return self.concat(nh.a, l2);
        }
        if nh.op == Op::ZExt {
            let inner = self.concat(nh.a, l);
            return self.zext(inner, w);
        }
        if nl.op == Op::Concat {
            let nlh = *self.n(nl.a);
            if nh.op == Op::Extract
                && nlh.op == Op::Extract
                && nh.a == nlh.a
                && nh.k as u32 == nlh.k as u32 + nlh.w
            {
                let hh = self.extract(nh.a, nlh.k as u32, wh + nlh.w);
                return self.concat(hh, nl.b);
            }
        }
        // sign-extension written as a concat is left alone
        self.raw(Node { op: Op::Concat, w, a: h, b: l, c: 0, k: 0 })
    }

    pub fn zext(&mut self, a: Eid, w: u32) -> Eid {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let n = *self.n(a);
        match n.op {
            Op::Const => return self.c(w, n.k),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite => {
                if self.cval(n.b).is_some() && self.cval(n.c).is_some() {
                    let t = self.zext(n.b, w);
                    let e = self.zext(n.c, w);
                    return self.ite(n.a, t, e);
                }
            }
            Op::Extract => {
                // zext(extract(x,0,k), w(x)) == x when the upper bits are known zero
                if n.k == 0 && self.w(n.a) == w && self.inf(n.a).uhi <= mask(aw) {
                    return n.a;
                }
            }
            _ => {}
        }
        self.raw(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }

    pub fn sext(&mut self, a: Eid, w: u32) -> Eid {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let n = *self.n(a);
        if n.op == Op::Const {
            return self.c(w, sx(n.k, aw) as u128);
        }
        if self.inf(a).slo >= 0 {
            return self.zext(a, w);
        }
        match n.op {
            Op::SExt => return self.sext(n.a, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite => {
                if self.cval(n.b).is_some() && self.cval(n.c).is_some() {
                    let t = self.sext(n.b, w);
                    let e = self.sext(n.c, w);
                    return self.ite(n.a, t, e);
                }
            }
            Op::Extract => {
                if n.k == 0 && self.w(n.a) == w {
                    let i = self.inf(n.a);
                    if i.slo >= smin(aw) && i.shi <= smax(aw) {
                        return n.a;
                    }
                }
            }
            _ => {}
        }
        self.raw(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }

    pub fn ite(&mut self, c: Eid, t: Eid, e: Eid) -> Eid {
        if let Some(v) = self.cval(c) {
            return if v == 1 { t } else { e };
        }
        if t == e {
            return t;
        }
        if let Some(x) = self.is_not(c) {
            return self.ite(x, e, t);
        }
        let w = self.w(t);
        if w == 1 {
            match (self.cval(t), self.cval(e)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or1(c, e),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.and1(nc, e);
                }
                (None, Some(0)) => return self.and1(c, t),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.or1(nc, t);
                }
                _ => {}
            }
        }
        let nt = *self.n(t);
        if nt.op == Op::Ite && nt.a == c {
            return self.ite(c, nt.b, e);
        }
        let ne = *self.n(e);
        if ne.op == Op::Ite && ne.a == c {
            return self.ite(c, t, ne.c);
        }
        // ite(x == k, k, x) = x
        let nc = *self.n(c);
        if nc.op == Op::Eq {
            if nc.a == e && nc.b == t {
                return e;
            }
            if nc.a == t && nc.b == e {
                return e;
            }
        }
        self.raw(Node { op: Op::Ite, w, a: c, b: t, c: e, k: 0 })
    }

    pub fn un(&mut self, op: Op, a: Eid) -> Eid {
        let w = self.w(a);
        if let Some(x) = self.cval(a) {
            let r = match op {
                Op::Ctlz => (w - bits_needed(x)) as u128,
                Op::Cttz => {
                    if x == 0 {
                        w as u128
                    } else {
                        x.trailing_zeros() as u128
                    }
                }
                Op::Ctpop => x.count_ones() as u128,
                Op::FNeg => fold_float(Op::FNeg, w, w, x, 0),
                _ => unreachable!(),
            };
            return self.c(w, r);
        }
        self.raw(Node { op, w, a, b: 0, c: 0, k: 0 })
    }

    pub fn fop(&mut self, op: Op, w: u32, a: Eid, b: Eid) -> Eid {
        let aw = self.w(a);
        let two = b != 0;
        match (self.cval(a), if two { self.cval(b) } else { Some(0) }) {
            (Some(x), Some(y)) => {
                let r = fold_float(op, w, aw, x, y);
                self.c(w, r)
            }
            _ => self.raw(Node { op, w, a, b, c: 0, k: 0 }),
        }
    }

    /// predicates: Eq Ult Slt and the overflow flags
    pub fn pred(&mut self, op: Op, a: Eid, b: Eid) -> Eid {
        let ow = self.w(a);
        debug_assert_eq!(ow, self.w(b));
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.b(fold_pred(op, ow, x, y) == 1);
        }
        let (ia, ib) = (*self.inf(a), *self.inf(b));
        match op {
            Op::Eq => {
                if a == b {
                    return self.b(true);
                }
                if ia.uhi < ib.ulo
                    || ib.uhi < ia.ulo
                    || ia.shi < ib.slo
                    || ib.shi < ia.slo
                    || (ia.kz & ib.ko) != 0
                    || (ia.ko & ib.kz) != 0
                {
                    return self.b(false);
                }
                let (mut a, mut b) = (a, b);
                if self.cval(a).is_some() {
                    std::mem::swap(&mut a, &mut b);
                }
                if ow == 1 {
                    if let Some(k) = self.cval(b) {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    let x = self.bin(Op::Xor, a, b);
                    return self.not(x);
                }
                let na = *self.n(a);
                if let Some(k) = self.cval(b) {
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if k > mask(iw) {
                                return self.b(false);
                            }
                            let c = self.c(iw, k);
                            return self.pred(Op::Eq, na.a, c);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let s = sx(k, ow);
                            if s < smin(iw) || s > smax(iw) {
                                return self.b(false);
                            }
                            let c = self.c(iw, k);
                            return self.pred(Op::Eq, na.a, c);
                        }
                        Op::Concat => {
                            let wl = self.w(na.b);
                            let wh = self.w(na.a);
                            let ch = self.c(wh, k >> wl);
                            let cl = self.c(wl, k);
                            let x = self.pred(Op::Eq, na.a, ch);
                            let y = self.pred(Op::Eq, na.b, cl);
                            return self.and1(x, y);
                        }
                        Op::Add => {
                            if let Some(c1) = self.cval(na.b) {
                                let c = self.c(ow, k.wrapping_sub(c1));
                                return self.pred(Op::Eq, na.a, c);
                            }
                        }
                        Op::Xor => {
                            if let Some(c1) = self.cval(na.b) {
                                let c = self.c(ow, k ^ c1);
                                return self.pred(Op::Eq, na.a, c);
                            }
                            if k == 0 {
                                return self.pred(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Sub => {
                            if k == 0 {
                                return self.pred(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Or => {
                            if k == 0 {
                                let z = self.c(ow, 0);
                                let x = self.pred(Op::Eq, na.a, z);
                                let y = self.pred(Op::Eq, na.b, z);
                                return self.and1(x, y);
                            }
                        }
                        Op::Ite => {
                            let (ct, ce) = (self.cval(na.b), self.cval(na.c));
                            if ct.is_some() || ce.is_some() {
                                let x = self.pred(Op::Eq, na.b, b);
                                let y = self.pred(Op::Eq, na.c, b);
                                return self.ite(na.a, x, y);
                            }
                        }
                        _ => {}
                    }
                } else {
                    let nb = *self.n(b);
                    if na.op == nb.op && (na.op == Op::ZExt || na.op == Op::SExt) && self.w(na.a) == self.w(nb.a) {
                        return self.pred(Op::Eq, na.a, nb.a);
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                        let x = self.pred(Op::Eq, na.a, nb.a);
                        let y = self.pred(Op::Eq, na.b, nb.b);
                        return self.and1(x, y);
                    }
                    if na.op == Op::Add && nb.op == Op::Add {
                        if na.a == nb.a {
                            return self.pred(Op::Eq, na.b, nb.b);
                        }
                        if na.b == nb.b {
                            return self.pred(Op::Eq, na.a, nb.a);
                        }
                    }
                    if a > b {
                        std::mem::swap(&mut a, &mut b);
                    }
                }
                self.raw(Node { op, w: 1, a, b, c: 0, k: 0 })
            }
            Op::Ult => {
                if a == b || ia.ulo >= ib.uhi {
                    return self.b(false);
                }
                if ia.uhi < ib.ulo {
                    return self.b(true);
                }
                if ow == 1 {
                    let na = self.not(a);
                    return self.and1(na, b);
                }
                // x < 1  <=>  x == 0 ; max-ish forms
                if self.cval(b) == Some(1) {
                    let z = self.c(ow, 0);
                    return self.pred(Op::Eq, a, z);
                }
                if self.cval(a) == Some(0) {
                    let z = self.c(ow, 0);
                    let e = self.pred(Op::Eq, b, z);
                    return self.not(e);
                }
                let (na, nb) = (*self.n(a), *self.n(b));
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.pred(Op::Ult, na.a, nb.a);
                }
                if let (Op::ZExt, Some(k)) = (na.op, self.cval(b)) {
                    let iw = self.w(na.a);
                    if k <= mask(iw) {
                        let c = self.c(iw, k);
                        return self.pred(Op::Ult, na.a, c);
                    }
                }
                if let (Op::ZExt, Some(k)) = (nb.op, self.cval(a)) {
                    let iw = self.w(nb.a);
                    if k <= mask(iw) {
                        let c = self.c(iw, k);
                        return self.pred(Op::Ult, c, nb.a);
                    }
                }
                // comparison of the high part only
                if na.op == Op::Concat && nb.op == Op::Concat && na.b == nb.b && self.w(na.a) == self.w(nb.a) {
                    return self.pred(Op::Ult, na.a, nb.a);
                }
                // both non-negative as signed: use the signed form so that literals are shared
                if ia.slo >= 0 && ib.slo >= 0 {
                    return self.slt_raw(a, b);
                }
                // values that never wrap around the top: range check idiom (x + c1) < c2 stays as is
                self.raw(Node { op, w: 1, a, b, c: 0, k: 0 })
            }
            Op::Slt => {
                if a == b || ia.slo >= ib.shi {
                    return self.b(false);
                }
                if ia.shi < ib.slo {
                    return self.b(true);
                }
                let (na, nb) = (*self.n(a), *self.n(b));
                if na.op == nb.op && (na.op == Op::SExt || na.op == Op::ZExt) && self.w(na.a) == self.w(nb.a) {
                    let o = if na.op == Op::SExt { Op::Slt } else { Op::Ult };
                    return self.pred(o, na.a, nb.a);
                }
                if let (Op::SExt, Some(k)) = (na.op, self.cval(b)) {
                    let iw = self.w(na.a);
                    let s = sx(k, ow);
                    if s >= smin(iw) && s <= smax(iw) {
                        let c = self.c(iw, k);
                        return self.pred(Op::Slt, na.a, c);
                    }
                }
                if let (Op::SExt, Some(k)) = (nb.op, self.cval(a)) {
                    let iw = self.w(nb.a);
                    let s = sx(k, ow);
                    if s >= smin(iw) && s <= smax(iw) {
                        let c = self.c(iw, k);
                        return self.pred(Op::Slt, c, nb.a);
                    }
                }
                if na.op == Op::ZExt && ow > self.w(na.a) {
                    if let Some(k) = self.cval(b) {
                        let iw = self.w(na.a);
                        if sx(k, ow) >= 0 && k <= mask(iw) {
                            let c = self.c(iw, k);
                            return self.pred(Op::Ult, na.a, c);
                        }
                    }
                }
                if nb.op == Op::ZExt && ow > self.w(nb.a) {
                    if let Some(k) = self.cval(a) {
                        let iw = self.w(nb.a);
                        if sx(k, ow) >= 0 && k <= mask(iw) {
                            let c = self.c(iw, k);
                            return self.pred(Op::Ult, c, nb.a);
                        }
                    }
                }
                self.slt_raw(a, b)
            }
            Op::SAddO | Op::SSubO | Op::SMulO | Op::UAddO | Op::USubO | Op::UMulO => {
                if op == Op::USubO {
                    return self.pred(Op::Ult, a, b);
                }
                let (mn, mx, m) = (smin(ow), smax(ow), mask(ow));
                let no = match op {
                    Op::SAddO => {
                        matches!(ia.slo.checked_add(ib.slo), Some(l) if l >= mn)
                            && matches!(ia.shi.checked_add(ib.shi), Some(h) if h <= mx)
                    }
                    Op::SSubO => {
                        matches!(ia.slo.checked_sub(ib.shi), Some(l) if l >= mn)
                            && matches!(ia.shi.checked_sub(ib.slo), Some(h) if h <= mx)
                    }
                    Op::SMulO => [
                        ia.slo.checked_mul(ib.slo),
                        ia.slo.checked_mul(ib.shi),
                        ia.shi.checked_mul(ib.slo),
                        ia.shi.checked_mul(ib.shi),
                    ]
                    .iter()
                    .all(|x| matches!(x, Some(v) if *v >= mn && *v <= mx)),
                    Op::UAddO => matches!(ia.uhi.checked_add(ib.uhi), Some(h) if h <= m),
                    Op::UMulO => matches!(ia.uhi.checked_mul(ib.uhi), Some(h) if h <= m),
                    _ => false,
                };
                if no {
                    return self.b(false);
                }
                let (mut a, mut b) = (a, b);
                if op != Op::SSubO && (self.cval(a).is_some() || (self.cval(b).is_none() && a > b)) {
                    std::mem::swap(&mut a, &mut b);
                }
                self.raw(Node { op, w: 1, a, b, c: 0, k: 0 })
            }
            _ => unreachable!(),
        }
    }

    fn slt_raw(&mut self, a: Eid, b: Eid) -> Eid {
        // canonical strict form; x < k+1 style constants: keep  (k < x)  and (x < k) only
        let w = self.w(a);
        if let Some(k) = self.cval(a) {
            // k < x   <=>  !(x < k+1)
            if sx(k, w) < smax(w) {
                let c = self.c(w, k.wrapping_add(1));
                let r = self.raw(Node { op: Op::Slt, w: 1, a: b, b: c, c: 0, k: 0 });
                return self.not(r);
            }
        }
        self.raw(Node { op: Op::Slt, w: 1, a, b, c: 0, k: 0 })
    }

    pub fn bin(&mut self, op: Op, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        match op {
            Op::Eq | Op::Ult | Op::Slt | Op::SAddO | Op::UAddO | Op::SSubO | Op::USubO | Op::SMulO | Op::UMulO => {
                return self.pred(op, a, b)
            }
            _ => {}
        }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            if let Some(r) = fold(op, w, x, y) {
                return self.c(w, r);
            }
        }
        let m = mask(w);
        let (mut a, mut b) = (a, b);
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor) {
            if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let cb = self.cval(b);
        let (na, nb) = (*self.n(a), *self.n(b));
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if na.op == Op::Add {
                        if let Some(x) = self.cval(na.b) {
                            let c = self.c(w, x.wrapping_add(y));
                            return self.bin(Op::Add, na.a, c);
                        }
                    }
                    if na.op == Op::Ite && self.cval(na.b).is_some() && self.cval(na.c).is_some() {
                        let t = self.bin(Op::Add, na.b, b);
                        let e = self.bin(Op::Add, na.c, b);
                        return self.ite(na.a, t, e);
                    }
                }
                if na.op == Op::Sub && na.b == b {
                    return na.a;
                }
                if nb.op == Op::Sub && nb.b == a {
                    return nb.a;
                }
                // float constants outwards: (x + c) + y -> (x + y) + c
                if cb.is_none() {
                    if na.op == Op::Add {
                        if let Some(_) = self.cval(na.b) {
                            let s = self.bin(Op::Add, na.a, b);
                            return self.bin(Op::Add, s, na.b);
                        }
                    }
                    if nb.op == Op::Add {
                        if let Some(_) = self.cval(nb.b) {
                            let s = self.bin(Op::Add, a, nb.a);
                            return self.bin(Op::Add, s, nb.b);
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.c(w, 0);
                }
                if let Some(y) = cb {
                    let c = self.c(w, y.wrapping_neg());
                    return self.bin(Op::Add, a, c);
                }
                if na.op == Op::Add {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                    if self.cval(na.b).is_some() {
                        let s = self.bin(Op::Sub, na.a, b);
                        return self.bin(Op::Add, s, na.b);
                    }
                }
                if na.op == Op::Sub && na.a == b && false {
                    return b;
                }
                if nb.op == Op::Sub && nb.a == a {
                    return nb.b;
                }
                if nb.op == Op::Add {
                    if nb.a == a {
                        let z = self.c(w, 0);
                        return self.bin(Op::Sub, z, nb.b);
                    }
                    if nb.b == a {
                        let z = self.c(w, 0);
                        return self.bin(Op::Sub, z, nb.a);
                    }
                    if let Some(k) = self.cval(nb.b) {
                        let s = self.bin(Op::Sub, a, nb.a);
                        let c = self.c(w, k.wrapping_neg());
                        return self.bin(Op::Add, s, c);
                    }
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
            }
            Op::UDiv | Op::SDiv => {
                if cb == Some(1) {
                    return a;
                }
                if op == Op::SDiv {
                    let (ia, ib) = (self.inf(a), self.inf(b));
                    if ia.slo >= 0 && ib.slo > 0 {
                        return self.bin(Op::UDiv, a, b);
                    }
                }
                if op == Op::UDiv {
                    if let Some(y) = cb {
                        if y.is_power_of_two() {
                            let c = self.c(w, y.trailing_zeros() as u128);
                            return self.bin(Op::LShr, a, c);
                        }
                    }
                }
            }
            Op::URem | Op::SRem => {
                if cb == Some(1) {
                    return self.c(w, 0);
                }
                if op == Op::SRem {
                    let (ia, ib) = (self.inf(a), self.inf(b));
                    if ia.slo >= 0 && ib.slo > 0 {
                        return self.bin(Op::URem, a, b);
                    }
                }
                if op == Op::URem {
                    if let Some(y) = cb {
                        if y.is_power_of_two() {
                            let c = self.c(w, y - 1);
                            return self.bin(Op::And, a, c);
                        }
                    }
                    let (ia, ib) = (self.inf(a), self.inf(b));
                    if ia.uhi < ib.ulo {
                        return a;
                    }
                }
            }
            Op::Shl => {
                if let Some(s) = cb {
                    if s == 0 {
                        return a;
                    }
                    if s >= w as u128 {
                        return self.c(w, 0);
                    }
                    let s = s as u32;
                    let h = self.extract(a, 0, w - s);
                    let l = self.c(s, 0);
                    return self.concat(h, l);
                }
            }
            Op::LShr => {
                if let Some(s) = cb {
                    if s == 0 {
                        return a;
                    }
                    if s >= w as u128 {
                        return self.c(w, 0);
                    }
                    let s = s as u32;
                    let h = self.extract(a, s, w - s);
                    return self.zext(h, w);
                }
            }
            Op::AShr => {
                if let Some(s) = cb {
                    if s == 0 {
                        return a;
                    }
                    let s = (s.min(w as u128 - 1)) as u32;
                    let h = self.extract(a, s, w - s);
                    return self.sext(h, w);
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == m {
                        return a;
                    }
                    let kz = self.inf(a).kz;
                    if (m & !y) & !kz == 0 {
                        return a;
                    }
                    if na.op == Op::And {
                        if let Some(x) = self.cval(na.b) {
                            let c = self.c(w, x & y);
                            return self.bin(Op::And, na.a, c);
                        }
                    }
                    // contiguous mask -> extract
                    let lo = y.trailing_zeros();
                    let len = bits_needed(y) - lo;
                    if mask(len) << lo == y {
                        let x = self.extract(a, lo, len);
                        let l = if lo > 0 {
                            let z = self.c(lo, 0);
                            self.concat(x, z)
                        } else {
                            x
                        };
                        return self.zext(l, w);
                    }
                }
                if w == 1 {
                    if let Some(x) = self.is_not(a) {
                        if x == b {
                            return self.b(false);
                        }
                    }
                    if let Some(x) = self.is_not(b) {
                        if x == a {
                            return self.b(false);
                        }
                    }
                    if nb.op == Op::And && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if na.op == Op::And && (na.a == b || na.b == b) {
                        return a;
                    }
                }
                let (ia, ib) = (self.inf(a), self.inf(b));
                if (m & !ia.kz) & (m & !ib.kz) == 0 {
                    return self.c(w, 0);
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return b;
                    }
                }
                if w == 1 {
                    if let Some(x) = self.is_not(a) {
                        if x == b {
                            return self.b(true);
                        }
                    }
                    if let Some(x) = self.is_not(b) {
                        if x == a {
                            return self.b(true);
                        }
                    }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if na.op == Op::Or && (na.a == b || na.b == b) {
                        return a;
                    }
                } else {
                    // disjoint halves -> concat
                    let (ia, ib) = (*self.inf(a), *self.inf(b));
                    let (pa, pb) = (m & !ia.kz, m & !ib.kz);
                    if pa != 0 && pb != 0 {
                        let (hi, lo, phi, plo) = if pa > pb { (a, b, pa, pb) } else { (b, a, pb, pa) };
                        let cut = bits_needed(plo);
                        if phi.trailing_zeros() >= cut {
                            let cut = phi.trailing_zeros();
                            let h = self.extract(hi, cut, w - cut);
                            let l = self.extract(lo, 0, cut);
                            return self.concat(h, l);
                        }
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.c(w, 0);
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if na.op == Op::Xor {
                        if let Some(x) = self.cval(na.b) {
                            let c = self.c(w, x ^ y);
                            return self.bin(Op::Xor, na.a, c);
                        }
                    }
                    if w > 1 && na.op == Op::Ite && self.cval(na.b).is_some() && self.cval(na.c).is_some() {
                        let t = self.bin(Op::Xor, na.b, b);
                        let e = self.bin(Op::Xor, na.c, b);
                        return self.ite(na.a, t, e);
                    }
                    if na.op == Op::Concat && w > 1 {
                        let wl = self.w(na.b);
                        let ch = self.c(w - wl, y >> wl);
                        let cl = self.c(wl, y);
                        let h = self.bin(Op::Xor, na.a, ch);
                        let l = self.bin(Op::Xor, na.b, cl);
                        return self.concat(h, l);
                    }
                } else if w == 1 {
                    // pull negations out
                    if let Some(x) = self.is_not(a) {
                        let r = self.bin(Op::Xor, x, b);
                        return self.not(r);
                    }
                    if let Some(x) = self.is_not(b) {
                        let r = self.bin(Op::Xor, a, x);
                        return self.not(r);
                    }
                }
            }
            _ => {}
        }
        self.raw(Node { op, w, a, b, c: 0, k: 0 })
    }

    /// Evaluate under an assignment of the variables (missing ones read as `dflt`).
    pub fn eval(&self, root: Eid, model: &dyn Fn(usize) -> u128, memo: &mut HashMap<Eid, u128>) -> Option<u128> {
        let mut stack = vec![root];
        while let Some(&e) = stack.last() {
            if memo.contains_key(&e) {
                stack.pop();
                continue;
            }
            let n = self.nodes[e as usize];
            let kids: [Eid; 3] = match n.op {
                Op::Const | Op::Var => [0, 0, 0],
                _ => [n.a, n.b, n.c],
            };
            let mut ready = true;
            for k in kids {
                if k != 0 && !memo.contains_key(&k) {
                    stack.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let g = |x: Eid| if x == 0 { 0 } else { memo[&x] };
            let w = n.w;
            let v = match n.op {
                Op::Const => n.k,
                Op::Var => model(n.k as usize) & mask(w),
                Op::Ite => {
                    if g(n.a) == 1 {
                        g(n.b)
                    } else {
                        g(n.c)
                    }
                }
                Op::Concat => (g(n.a) << self.w(n.b)) | g(n.b),
                Op::Extract => (g(n.a) >> n.k as u32) & mask(w),
                Op::ZExt => g(n.a),
                Op::SExt => sx(g(n.a), self.w(n.a)) as u128 & mask(w),
                Op::Eq | Op::Ult | Op::Slt | Op::SAddO | Op::UAddO | Op::SSubO | Op::USubO | Op::SMulO | Op::UMulO => {
                    fold_pred(n.op, self.w(n.a), g(n.a), g(n.b))
                }
                Op::Ctlz => (w - bits_needed(g(n.a))) as u128,
                Op::Cttz => {
                    if g(n.a) == 0 {
                        w as u128
                    } else {
                        g(n.a).trailing_zeros() as u128
                    }
                }
                Op::Ctpop => g(n.a).count_ones() as u128,
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FLt | Op::FLe | Op::FEq | Op::FUno | Op::FNeg
                | Op::FFromS | Op::FFromU | Op::FToS | Op::FToU | Op::FExt | Op::FTrunc => {
                    fold_float(n.op, w, self.w(n.a), g(n.a), g(n.b))
                }
                Op::UDiv if g(n.b) == 0 => mask(w),
                Op::URem if g(n.b) == 0 => g(n.a),
                Op::SDiv if g(n.b) == 0 => {
                    if sx(g(n.a), w) < 0 {
                        1
                    } else {
                        mask(w)
                    }
                }
                Op::SRem if g(n.b) == 0 => g(n.a),
                _ => match fold(n.op, w, g(n.a), g(n.b)) {
                    Some(v) => v,
                    None => return None,
                },
            };
            memo.insert(e, v);
            stack.pop();
        }
        memo.get(&root).copied()
    }

    pub fn vars_of(&self, root: Eid, cache: &mut HashMap<Eid, std::rc::Rc<Vec<u32>>>) -> std::rc::Rc<Vec<u32>> {
        let mut stack = vec![root];
        while let Some(&e) = stack.last() {
            if cache.contains_key(&e) {
                stack.pop();
                continue;
            }
            let n = self.nodes[e as usize];
            if n.op == Op::Var {
                cache.insert(e, std::rc::Rc::new(vec![n.k as u32]));
                continue;
            }
            if n.op == Op::Const {
                cache.insert(e, std::rc::Rc::new(vec![]));
                continue;
            }
            let mut ready = true;
            for k in [n.a, n.b, n.c] {
                if k != 0 && !cache.contains_key(&k) {
                    stack.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let kids: Vec<Eid> = [n.a, n.b, n.c].into_iter().filter(|k| *k != 0).collect();
            let mut best = cache[&kids[0]].clone();
            for k in &kids[1..] {
                let o = &cache[k];
                if o.iter().all(|x| best.binary_search(x).is_ok()) {
                    continue;
                }
                if best.iter().all(|x| o.binary_search(x).is_ok()) {
                    best = o.clone();
                    continue;
                }
                let mut v: Vec<u32> = best.iter().chain(o.iter()).copied().collect();
                v.sort();
                v.dedup();
                best = std::rc::Rc::new(v);
            }
            cache.insert(e, best);
        }
        cache[&root].clone()
    }
}
