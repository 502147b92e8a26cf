//! Parser for the textual LLVM IR that rustc writes (`--emit=llvm-ir` after fat LTO).
//! Functions are indexed up front and parsed on first call.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Float,
    Double,
    Ptr,
    Struct(Rc<Vec<Ty>>, bool),
    Array(Rc<Ty>, u64),
    Vector(Rc<Ty>, u64),
    Func,
    Meta,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Float => 32,
            Ty::Double | Ty::Ptr => 64,
            Ty::Vector(t, n) => t.bits() * *n as u32,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Float | Ty::Double | Ty::Ptr)
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                _ => 8,
            },
            Ty::Float => 4,
            Ty::Double | Ty::Ptr => 8,
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Array(t, _) => t.align(),
            Ty::Vector(t, n) => {
                let s = (t.bits() as u64 * n + 7) / 8;
                s.next_power_of_two()
            }
            _ => 1,
        }
    }
    /// allocation size in bytes
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let s = (*w as u64 + 7) / 8;
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Float => 4,
            Ty::Double | Ty::Ptr => 8,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            Ty::Array(t, n) => t.size() * n,
            Ty::Vector(t, n) => {
                let s = (t.bits() as u64 * n + 7) / 8;
                let a = self.align();
                (s + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Array(t, _) => t.size() * i as u64,
            Ty::Vector(t, _) => (t.bits() as u64 / 8) * i as u64,
            _ => panic!("field_offset"),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Array(t, _) | Ty::Vector(t, _) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Array(_, n) | Ty::Vector(_, n) => *n as usize,
            _ => panic!("count"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Agg(Rc<Vec<Cst>>),
    Zero,
    Undef,
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    C(Cst),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bitcast,
    PtrToInt,
    IntToPtr,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(Rc<str>),
    Indirect(Opd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Alloca(Ty, Opd, u64),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    /// base, constant offset, (index, index type width, stride)
    Gep(Opd, i64, Vec<(Opd, u32, i64)>),
    Bin(BinOp, Ty, Opd, Opd),
    ICmp(Pred, Ty, Opd, Opd),
    FCmp(String, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    Select(Ty, Ty, Opd, Opd, Opd),
    Phi(Ty, Vec<(Opd, u32)>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opd)>),
    Call {
        ret: Ty,
        callee: Callee,
        args: Vec<(Ty, Opd)>,
        normal: Option<u32>,
    },
    Unreachable,
    ExtractValue(Ty, Opd, Vec<u32>),
    InsertValue(Ty, Opd, Ty, Opd, Vec<u32>),
    Cast(CastOp, Ty, Opd, Ty),
    Freeze(Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    AtomicRmw(String, Ty, Opd, Opd),
    Fence,
    ExtractElement(Ty, Opd, Opd),
    InsertElement(Ty, Opd, Opd, Opd),
    Shuffle(Ty, Opd, Opd, Ty, Opd),
    LandingPad,
    Resume,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Block {
    pub ins: Vec<(Option<u32>, Ins)>,
}

#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<(Ty, u32)>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub nregs: u32,
}

#[derive(Clone, Debug)]
pub struct Global {
    pub name: Rc<str>,
    pub ty: Ty,
    pub init: Option<Cst>,
    pub constant: bool,
}

pub struct Module {
    src: String,
    types: HashMap<String, Ty>,
    type_src: HashMap<String, String>,
    pub globals: Vec<Global>,
    pub gindex: HashMap<Rc<str>, usize>,
    pub fn_src: HashMap<Rc<str>, (usize, usize)>,
    pub fn_names: Vec<Rc<str>>,
    pub fn_index: HashMap<Rc<str>, usize>,
    pub declared: HashMap<Rc<str>, ()>,
    aliases: HashMap<String, String>,
    cache: RefCell<HashMap<Rc<str>, Rc<Func>>>,
}

pub const FN_BASE: u64 = 1 << 56;
pub const OBJ_SHIFT: u32 = 24;
pub fn global_addr(i: usize) -> u64 {
    ((i as u64) + 16) << OBJ_SHIFT
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Local(String),
    Global(String),
    Int(u128, bool),
    Float(u64),
    Word(String),
    P(char),
    Str(Vec<u8>),
    Meta(String),
    Attr(String),
    Ellipsis,
    Nl,
    Label(String),
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            out.push(b'\\');
            i += 2;
            continue;
        }
        if s[i] == b'\\' && i + 2 < s.len() + 0 && i + 2 <= s.len() - 1 {
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap_or("");
            if let Ok(v) = u8::from_str_radix(h, 16) {
                out.push(v);
                i += 3;
                continue;
            }
        }
        out.push(s[i]);
        i += 1;
    }
    out
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn tokenize(src: &str) -> Vec<Tok> {
    let b = src.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let mut line_start = true;
    while i < b.len() {
        let c = b[i];
        match c {
            b'\n' => {
                out.push(Tok::Nl);
                i += 1;
                line_start = true;
                continue;
            }
            b' ' | b'\t' | b'\r' => {
                i += 1;
                continue;
            }
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
                continue;
            }
            b'%' | b'@' => {
                i += 1;
                let name = if b[i] == b'"' {
                    let s = i + 1;
                    i = s;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    let n = String::from_utf8_lossy(&unescape(&b[s..i])).into_owned();
                    i += 1;
                    n
                } else {
                    let s = i;
                    while i < b.len() && is_id(b[i]) {
                        i += 1;
                    }
                    src[s..i].to_string()
                };
                out.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
            }
            b'!' => {
                let s = i;
                i += 1;
                while i < b.len() && (is_id(b[i]) || b[i] == b'\\') {
                    i += 1;
                }
                if i < b.len() && b[i] == b'"' {
                    i += 1;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    i += 1;
                }
                out.push(Tok::Meta(src[s..i].to_string()));
            }
            b'#' => {
                let s = i;
                i += 1;
                while i < b.len() && is_id(b[i]) {
                    i += 1;
                }
                out.push(Tok::Attr(src[s..i].to_string()));
            }
            b'"' => {
                let s = i + 1;
                i = s;
                while b[i] != b'"' {
                    i += 1;
                }
                let v = unescape(&b[s..i]);
                i += 1;
                if line_start && i < b.len() && b[i] == b':' {
                    i += 1;
                    out.push(Tok::Label(String::from_utf8_lossy(&v).into_owned()));
                } else {
                    out.push(Tok::Str(v));
                }
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let s = i + 2;
                i = s;
                while b[i] != b'"' {
                    i += 1;
                }
                out.push(Tok::Str(unescape(&b[s..i])));
                i += 1;
            }
            b'0'..=b'9' | b'-' => {
                let s = i;
                i += 1;
                // label like 123:
                while i < b.len() && (is_id(b[i]) || (b[i] == b'+' && (b[i - 1] == b'e'))) {
                    i += 1;
                }
                let t = &src[s..i];
                if line_start && i < b.len() && b[i] == b':' {
                    i += 1;
                    out.push(Tok::Label(t.to_string()));
                } else if let Some(h) = t.strip_prefix("0x") {
                    out.push(Tok::Float(u64::from_str_radix(h, 16).unwrap_or(0)));
                } else if t.contains('.') || t.contains("e+") || t.contains("e-") {
                    let f: f64 = t.parse().unwrap_or(0.0);
                    out.push(Tok::Float(f.to_bits()));
                } else if let Some(n) = t.strip_prefix('-') {
                    out.push(Tok::Int(n.parse::<u128>().unwrap_or(0), true));
                } else if let Ok(n) = t.parse::<u128>() {
                    out.push(Tok::Int(n, false));
                } else {
                    out.push(Tok::Word(t.to_string()));
                }
            }
            b'.' if src[i..].starts_with("...") => {
                out.push(Tok::Ellipsis);
                i += 3;
            }
            _ if is_id(c) => {
                let s = i;
                while i < b.len() && is_id(b[i]) {
                    i += 1;
                }
                if line_start && i < b.len() && b[i] == b':' {
                    out.push(Tok::Label(src[s..i].to_string()));
                    i += 1;
                } else {
                    out.push(Tok::Word(src[s..i].to_string()));
                }
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
        line_start = false;
    }
    out.push(Tok::Nl);
    out
}

struct P<'m> {
    t: Vec<Tok>,
    i: usize,
    m: &'m Module,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}

type R<T> = Result<T, String>;

fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

impl<'m> P<'m> {
    fn new(src: &str, m: &'m Module) -> Self {
        P { t: tokenize(src), i: 0, m, regs: HashMap::new(), labels: HashMap::new() }
    }
    fn peek(&self) -> &Tok {
        self.t.get(self.i).unwrap_or(&Tok::Nl)
    }
    fn next(&mut self) -> Tok {
        let t = self.t.get(self.i).cloned().unwrap_or(Tok::Nl);
        self.i += 1;
        t
    }
    fn skip_nl(&mut self) {
        while self.i < self.t.len() && *self.peek() == Tok::Nl {
            self.i += 1;
        }
    }
    fn skip_line(&mut self) {
        while self.i < self.t.len() && *self.peek() != Tok::Nl {
            self.i += 1;
        }
    }
    fn is_p(&self, c: char) -> bool {
        *self.peek() == Tok::P(c)
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Tok::Word(x) if x == w)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} got {:?} at {:?}", c, self.peek(), &self.t[self.i.saturating_sub(8)..self.i]))
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(l)
    }
    fn label(&mut self, n: &str) -> u32 {
        let l = self.labels.len() as u32;
        *self.labels.entry(n.to_string()).or_insert(l)
    }
    fn skip_parens(&mut self) {
        if self.eat('(') {
            let mut d = 1;
            while d > 0 {
                match self.next() {
                    Tok::P('(') => d += 1,
                    Tok::P(')') => d -= 1,
                    _ => {}
                }
                if self.i >= self.t.len() {
                    break;
                }
            }
        }
    }

    fn ty(&mut self) -> R<Ty> {
        let base = match self.next() {
            Tok::Word(w) => {
                if w == "void" {
                    Ty::Void
                } else if w == "ptr" {
                    if self.eat_w("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                } else if w == "float" {
                    Ty::Float
                } else if w == "double" {
                    Ty::Double
                } else if w == "metadata" {
                    Ty::Meta
                } else if w == "label" {
                    Ty::Void
                } else if w.starts_with('i') && w[1..].parse::<u32>().is_ok() {
                    Ty::Int(w[1..].parse().unwrap())
                } else {
                    return Err(format!("type {}", w));
                }
            }
            Tok::Local(n) => self.m.named(&n)?,
            Tok::P('[') => {
                let n = match self.next() {
                    Tok::Int(n, _) => n as u64,
                    t => return Err(format!("array len {:?}", t)),
                };
                if !self.eat_w("x") {
                    return Err("array x".into());
                }
                let t = self.ty()?;
                self.expect(']')?;
                Ty::Array(Rc::new(t), n)
            }
            Tok::P('{') => {
                let mut f = vec![];
                while !self.eat('}') {
                    f.push(self.ty()?);
                    self.eat(',');
                }
                Ty::Struct(Rc::new(f), false)
            }
            Tok::P('<') => {
                if self.eat('{') {
                    let mut f = vec![];
                    while !self.eat('}') {
                        f.push(self.ty()?);
                        self.eat(',');
                    }
                    self.expect('>')?;
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = match self.next() {
                        Tok::Int(n, _) => n as u64,
                        t => return Err(format!("vec len {:?}", t)),
                    };
                    if !self.eat_w("x") {
                        return Err("vec x".into());
                    }
                    let t = self.ty()?;
                    self.expect('>')?;
                    Ty::Vector(Rc::new(t), n)
                }
            }
            t => return Err(format!("type tok {:?}", t)),
        };
        Ok(base)
    }

    fn param_attrs(&mut self) {
        loop {
            match self.peek() {
                Tok::Word(w) => {
                    let w = w.clone();
                    match w.as_str() {
                        "noalias" | "nocapture" | "noundef" | "nonnull" | "readonly" | "readnone"
                        | "writeonly" | "signext" | "zeroext" | "returned" | "immarg" | "inreg"
                        | "swiftself" | "nofree" | "nest" | "allocptr" | "allocalign" | "captures"
                        | "noext" | "nofpclass" | "range" | "initializes" | "dead_on_unwind"
                        | "writable" => {
                            self.i += 1;
                            self.skip_parens();
                        }
                        "align" => {
                            self.i += 1;
                            if self.is_p('(') {
                                self.skip_parens()
                            } else {
                                self.i += 1;
                            }
                        }
                        "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval"
                        | "elementtype" | "byref" | "inalloca" | "preallocated" => {
                            self.i += 1;
                            self.skip_parens();
                        }
                        _ => break,
                    }
                }
                Tok::Attr(_) => self.i += 1,
                Tok::Str(_) => {
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                _ => break,
            }
        }
    }

    /// constant or register of type `ty`
    fn opd(&mut self, ty: &Ty) -> R<Opd> {
        if let Tok::Local(n) = self.peek() {
            let n = n.clone();
            self.i += 1;
            return Ok(Opd::Reg(self.reg(&n)));
        }
        Ok(Opd::C(self.cst(ty)?))
    }

    fn cst(&mut self, ty: &Ty) -> R<Cst> {
        match self.next() {
            Tok::Int(n, neg) => {
                let w = ty.bits();
                let v = if neg { n.wrapping_neg() } else { n };
                Ok(Cst::Int(v & mask(w)))
            }
            Tok::Float(f) => match ty {
                Ty::Float => Ok(Cst::Int((f64::from_bits(f) as f32).to_bits() as u128)),
                _ => Ok(Cst::Int(f as u128)),
            },
            Tok::Global(g) => Ok(Cst::Int(self.m.addr_of(&g)? as u128)),
            Tok::Str(s) => Ok(Cst::Agg(Rc::new(s.iter().map(|b| Cst::Int(*b as u128)).collect()))),
            Tok::P('[') => {
                let e = ty.elem(0);
                let mut v = vec![];
                while !self.eat(']') {
                    let _ = self.ty()?;
                    v.push(self.cst(&e)?);
                    self.eat(',');
                }
                Ok(Cst::Agg(Rc::new(v)))
            }
            Tok::P('{') => {
                let mut v = vec![];
                while !self.eat('}') {
                    let t = self.ty()?;
                    v.push(self.cst(&t)?);
                    self.eat(',');
                }
                Ok(Cst::Agg(Rc::new(v)))
            }
            Tok::P('<') => {
                if self.eat('{') {
                    let mut v = vec![];
                    while !self.eat('}') {
                        let t = self.ty()?;
                        v.push(self.cst(&t)?);
                        self.eat(',');
                    }
                    self.expect('>')?;
                    Ok(Cst::Agg(Rc::new(v)))
                } else {
                    let mut v = vec![];
                    while !self.eat('>') {
                        let t = self.ty()?;
                        v.push(self.cst(&t)?);
                        self.eat(',');
                    }
                    Ok(Cst::Agg(Rc::new(v)))
                }
            }
            Tok::Word(w) => match w.as_str() {
                "true" => Ok(Cst::Int(1)),
                "false" | "null" => Ok(Cst::Int(0)),
                "zeroinitializer" => Ok(Cst::Zero),
                "undef" | "poison" => Ok(Cst::Undef),
                "getelementptr" => {
                    while self.eat_w("inbounds") || self.eat_w("nuw") || self.eat_w("nusw") || self.eat_w("inrange") {}
                    self.expect('(')?;
                    let src = self.ty()?;
                    self.expect(',')?;
                    let pt = self.ty()?;
                    let base = match self.cst(&pt)? {
                        Cst::Int(v) => v as u64,
                        _ => 0,
                    };
                    let mut off: i64 = 0;
                    let mut cur = src;
                    let mut first = true;
                    while self.eat(',') {
                        self.eat_w("inrange");
                        let it = self.ty()?;
                        let v = match self.cst(&it)? {
                            Cst::Int(v) => sx(v, it.bits()),
                            _ => 0,
                        };
                        if first {
                            off += v as i64 * cur.size() as i64;
                            first = false;
                        } else {
                            match &cur {
                                Ty::Struct(..) => {
                                    off += cur.field_offset(v as usize) as i64;
                                    cur = cur.elem(v as usize);
                                }
                                _ => {
                                    let e = cur.elem(0);
                                    off += v as i64 * e.size() as i64;
                                    cur = e;
                                }
                            }
                        }
                    }
                    self.expect(')')?;
                    Ok(Cst::Int(base.wrapping_add(off as u64) as u128))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" => {
                    self.expect('(')?;
                    let t = self.ty()?;
                    let v = self.cst(&t)?;
                    if !self.eat_w("to") {
                        return Err("cast to".into());
                    }
                    let d = self.ty()?;
                    self.expect(')')?;
                    Ok(match v {
                        Cst::Int(x) if d.is_scalar() => Cst::Int(x & mask(d.bits())),
                        v => v,
                    })
                }
                "add" | "sub" | "and" | "or" | "xor" | "mul" | "shl" | "lshr" => {
                    while self.eat_w("nuw") || self.eat_w("nsw") || self.eat_w("exact") || self.eat_w("disjoint") {}
                    self.expect('(')?;
                    let t = self.ty()?;
                    let a = self.cst(&t)?;
                    self.expect(',')?;
                    let t2 = self.ty()?;
                    let b = self.cst(&t2)?;
                    self.expect(')')?;
                    let (a, b) = match (a, b) {
                        (Cst::Int(a), Cst::Int(b)) => (a, b),
                        _ => return Err("cexpr".into()),
                    };
                    let r = match w.as_str() {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "and" => a & b,
                        "or" => a | b,
                        "xor" => a ^ b,
                        "mul" => a.wrapping_mul(b),
                        "shl" => a << b,
                        _ => a >> b,
                    };
                    Ok(Cst::Int(r & mask(t.bits())))
                }
                "icmp" => {
                    let eq = if self.eat_w("eq") {
                        true
                    } else if self.eat_w("ne") {
                        false
                    } else {
                        return Err("const expr icmp".into());
                    };
                    self.expect('(')?;
                    let t = self.ty()?;
                    let a = self.cst(&t)?;
                    self.expect(',')?;
                    let t2 = self.ty()?;
                    let b = self.cst(&t2)?;
                    self.expect(')')?;
                    let int = |c: Cst| match c {
                        Cst::Int(x) => Ok(x),
                        Cst::Zero => Ok(0),
                        _ => Err("const expr icmp".to_string()),
                    };
                    Ok(Cst::Int(((int(a)? == int(b)?) == eq) as u128))
                }
                "select" => {
                    self.expect('(')?;
                    let t = self.ty()?;
                    let c = self.cst(&t)?;
                    self.expect(',')?;
                    let t1 = self.ty()?;
                    let a = self.cst(&t1)?;
                    self.expect(',')?;
                    let t2 = self.ty()?;
                    let b = self.cst(&t2)?;
                    self.expect(')')?;
                    match c {
                        Cst::Int(x) => Ok(if x & 1 == 1 { a } else { b }),
                        Cst::Zero => Ok(b),
                        _ => Err("const expr select".into()),
                    }
                }
                _ => Err(format!("const word {}", w)),
            },
            t => Err(format!("const tok {:?}", t)),
        }
    }

    fn ty_opd(&mut self) -> R<(Ty, Opd)> {
        let t = self.ty()?;
        self.param_attrs();
        let o = self.opd(&t)?;
        Ok((t, o))
    }

    fn lbl(&mut self) -> R<u32> {
        // label %x
        if !self.eat_w("label") {
            return Err("label".into());
        }
        match self.next() {
            Tok::Local(n) => Ok(self.label(&n)),
            t => Err(format!("label tok {:?}", t)),
        }
    }

    fn indices(&mut self) -> R<Vec<u32>> {
        let mut v = vec![];
        while self.eat(',') {
            match self.next() {
                Tok::Int(n, _) => v.push(n as u32),
                Tok::Meta(_) => {
                    self.skip_line();
                    break;
                }
                t => return Err(format!("index {:?}", t)),
            }
        }
        Ok(v)
    }

    fn instr(&mut self) -> R<(Option<u32>, Ins)> {
        let mut dst = None;
        if let Tok::Local(n) = self.peek() {
            let n = n.clone();
            self.i += 1;
            self.expect('=')?;
            dst = Some(self.reg(&n));
        }
        let mut op = match self.next() {
            Tok::Word(w) => w,
            t => return Err(format!("opcode {:?}", t)),
        };
        if op == "tail" || op == "musttail" || op == "notail" {
            op = match self.next() {
                Tok::Word(w) => w,
                t => return Err(format!("opcode {:?}", t)),
            };
        }
        let bin = |o: &str| {
            Some(match o {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem,
                "srem" => BinOp::SRem,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                "fadd" => BinOp::FAdd,
                "fsub" => BinOp::FSub,
                "fmul" => BinOp::FMul,
                "fdiv" => BinOp::FDiv,
                "frem" => BinOp::FRem,
                _ => return None,
            })
        };
        if let Some(b) = bin(&op) {
            while matches!(self.peek(), Tok::Word(w) if ["nuw","nsw","exact","disjoint","fast","nnan","ninf","nsz","arcp","contract","afn","reassoc"].contains(&w.as_str()))
            {
                self.i += 1;
            }
            let t = self.ty()?;
            let a = self.opd(&t)?;
            self.expect(',')?;
            let c = self.opd(&t)?;
            return Ok((dst, Ins::Bin(b, t, a, c)));
        }
        let cast = |o: &str| {
            Some(match o {
                "trunc" => CastOp::Trunc,
                "zext" => CastOp::ZExt,
                "sext" => CastOp::SExt,
                "bitcast" => CastOp::Bitcast,
                "ptrtoint" => CastOp::PtrToInt,
                "inttoptr" => CastOp::IntToPtr,
                "fptoui" => CastOp::FpToUi,
                "fptosi" => CastOp::FpToSi,
                "uitofp" => CastOp::UiToFp,
                "sitofp" => CastOp::SiToFp,
                "fpext" => CastOp::FpExt,
                "fptrunc" => CastOp::FpTrunc,
                _ => return None,
            })
        };
        if let Some(c) = cast(&op) {
            while self.eat_w("nuw") || self.eat_w("nsw") || self.eat_w("nneg") {}
            let (t, a) = self.ty_opd()?;
            if !self.eat_w("to") {
                return Err("cast to".into());
            }
            let d = self.ty()?;
            return Ok((dst, Ins::Cast(c, t, a, d)));
        }
        let ins = match op.as_str() {
            "alloca" => {
                self.eat_w("inalloca");
                let t = self.ty()?;
                let mut n = Opd::C(Cst::Int(1));
                let mut al = t.align();
                while self.eat(',') {
                    if self.eat_w("align") {
                        if let Tok::Int(a, _) = self.next() {
                            al = a as u64;
                        }
                    } else if matches!(self.peek(), Tok::Meta(_)) {
                        break;
                    } else {
                        let (_, o) = self.ty_opd()?;
                        n = o;
                    }
                }
                Ins::Alloca(t, n, al)
            }
            "load" => {
                while self.eat_w("atomic") || self.eat_w("volatile") {}
                let t = self.ty()?;
                self.expect(',')?;
                let (_, p) = self.ty_opd()?;
                Ins::Load(t, p)
            }
            "store" => {
                while self.eat_w("atomic") || self.eat_w("volatile") {}
                let (t, v) = self.ty_opd()?;
                self.expect(',')?;
                let (_, p) = self.ty_opd()?;
                Ins::Store(t, v, p)
            }
            "getelementptr" => {
                while self.eat_w("inbounds") || self.eat_w("nuw") || self.eat_w("nusw") {}
                let src = self.ty()?;
                self.expect(',')?;
                let (_, base) = self.ty_opd()?;
                let mut off = 0i64;
                let mut dy = vec![];
                let mut cur = src;
                let mut first = true;
                while self.is_p(',') {
                    if matches!(self.t.get(self.i + 1), Some(Tok::Meta(_))) {
                        break;
                    }
                    self.i += 1;
                    let (it, o) = self.ty_opd()?;
                    let stride;
                    if first {
                        stride = cur.size() as i64;
                        first = false;
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let k = match o {
                                    Opd::C(Cst::Int(v)) => v as usize,
                                    Opd::C(Cst::Zero) => 0,
                                    _ => return Err("gep struct idx".into()),
                                };
                                off += cur.field_offset(k) as i64;
                                cur = cur.elem(k);
                                continue;
                            }
                            _ => {
                                let e = cur.elem(0);
                                stride = e.size() as i64;
                                cur = e;
                            }
                        }
                    }
                    match &o {
                        Opd::C(Cst::Int(v)) => off = off.wrapping_add((sx(*v, it.bits()) as i64).wrapping_mul(stride)),
                        Opd::C(_) => {}
                        _ => dy.push((o, it.bits(), stride)),
                    }
                }
                Ins::Gep(base, off, dy)
            }
            "icmp" => {
                let p = match self.next() {
                    Tok::Word(w) => w,
                    t => return Err(format!("pred {:?}", t)),
                };
                let pr = match p.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => return Err(p),
                };
                let t = self.ty()?;
                let a = self.opd(&t)?;
                self.expect(',')?;
                let b = self.opd(&t)?;
                Ins::ICmp(pr, t, a, b)
            }
            "fcmp" => {
                let mut p = match self.next() {
                    Tok::Word(w) => w,
                    t => return Err(format!("pred {:?}", t)),
                };
                while ["fast", "nnan", "ninf", "nsz"].contains(&p.as_str()) {
                    p = match self.next() {
                        Tok::Word(w) => w,
                        t => return Err(format!("pred {:?}", t)),
                    };
                }
                let t = self.ty()?;
                let a = self.opd(&t)?;
                self.expect(',')?;
                let b = self.opd(&t)?;
                Ins::FCmp(p, t, a, b)
            }
            "fneg" => {
                let (t, a) = self.ty_opd()?;
                Ins::FNeg(t, a)
            }
            "select" => {
                let (ct, c) = self.ty_opd()?;
                self.expect(',')?;
                let (t, a) = self.ty_opd()?;
                self.expect(',')?;
                let (_, b) = self.ty_opd()?;
                Ins::Select(ct, t, c, a, b)
            }
            "phi" => {
                let t = self.ty()?;
                let mut v = vec![];
                loop {
                    self.expect('[')?;
                    let o = self.opd(&t)?;
                    self.expect(',')?;
                    let l = match self.next() {
                        Tok::Local(n) => self.label(&n),
                        t => return Err(format!("phi label {:?}", t)),
                    };
                    self.expect(']')?;
                    v.push((o, l));
                    if self.is_p(',') && !matches!(self.t.get(self.i + 1), Some(Tok::Meta(_))) {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                Ins::Phi(t, v)
            }
            "br" => {
                if self.is_w("label") {
                    Ins::Br(self.lbl()?)
                } else {
                    let (_, c) = self.ty_opd()?;
                    self.expect(',')?;
                    let a = self.lbl()?;
                    self.expect(',')?;
                    let b = self.lbl()?;
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, c) = self.ty_opd()?;
                self.expect(',')?;
                let d = self.lbl()?;
                self.expect('[')?;
                let mut v = vec![];
                loop {
                    self.skip_nl();
                    if self.eat(']') {
                        break;
                    }
                    let ct = self.ty()?;
                    let k = match self.cst(&ct)? {
                        Cst::Int(k) => k,
                        _ => 0,
                    };
                    self.expect(',')?;
                    v.push((k, self.lbl()?));
                }
                Ins::Switch(t.bits(), c, d, v)
            }
            "ret" => {
                let t = self.ty()?;
                if t == Ty::Void {
                    Ins::Ret(None)
                } else {
                    let o = self.opd(&t)?;
                    Ins::Ret(Some((t, o)))
                }
            }
            "call" | "invoke" => {
                while matches!(self.peek(), Tok::Word(w) if ["fastcc","ccc","coldcc","fast","nnan","ninf","nsz","contract","reassoc","arcp","afn"].contains(&w.as_str()))
                {
                    self.i += 1;
                }
                self.param_attrs();
                let ret = self.ty()?;
                // optional function type (varargs)
                if self.is_p('(') {
                    self.skip_parens();
                }
                let callee = match self.next() {
                    Tok::Global(n) => Callee::Direct(self.m.alias(&n).into()),
                    Tok::Local(n) => Callee::Indirect(Opd::Reg(self.reg(&n))),
                    Tok::Word(w) if w == "asm" => {
                        while !self.is_p('(') && *self.peek() != Tok::Nl {
                            self.i += 1;
                        }
                        Callee::Asm
                    }
                    Tok::Word(w) if w == "inttoptr" => {
                        self.i -= 1;
                        let c = self.cst(&Ty::Ptr)?;
                        Callee::Indirect(Opd::C(c))
                    }
                    t => return Err(format!("callee {:?}", t)),
                };
                self.expect('(')?;
                let mut args = vec![];
                while !self.eat(')') {
                    let t = self.ty()?;
                    if t == Ty::Meta {
                        // skip one metadata operand
                        let mut d = 0;
                        loop {
                            match self.peek() {
                                Tok::P('(') | Tok::P('{') | Tok::P('[') => d += 1,
                                Tok::P(')') | Tok::P('}') | Tok::P(']') if d > 0 => d -= 1,
                                Tok::P(')') => break,
                                Tok::P(',') if d == 0 => break,
                                Tok::Nl => break,
                                _ => {}
                            }
                            self.i += 1;
                        }
                        args.push((Ty::Meta, Opd::C(Cst::Undef)));
                    } else {
                        self.param_attrs();
                        let o = self.opd(&t)?;
                        args.push((t, o));
                    }
                    self.eat(',');
                }
                let mut normal = None;
                if op == "invoke" {
                    while !self.is_w("to") {
                        self.i += 1;
                        if self.i >= self.t.len() {
                            return Err("invoke".into());
                        }
                    }
                    self.i += 1;
                    normal = Some(self.lbl()?);
                }
                Ins::Call { ret, callee, args, normal }
            }
            "unreachable" => Ins::Unreachable,
            "extractvalue" => {
                let (t, o) = self.ty_opd()?;
                let ix = self.indices()?;
                Ins::ExtractValue(t, o, ix)
            }
            "insertvalue" => {
                let (t, o) = self.ty_opd()?;
                self.expect(',')?;
                let (vt, v) = self.ty_opd()?;
                let ix = self.indices()?;
                Ins::InsertValue(t, o, vt, v, ix)
            }
            "freeze" => {
                let (_, o) = self.ty_opd()?;
                Ins::Freeze(o)
            }
            "cmpxchg" => {
                while self.eat_w("weak") || self.eat_w("volatile") {}
                let (_, p) = self.ty_opd()?;
                self.expect(',')?;
                let (t, a) = self.ty_opd()?;
                self.expect(',')?;
                let (_, b) = self.ty_opd()?;
                Ins::CmpXchg(t, p, a, b)
            }
            "atomicrmw" => {
                self.eat_w("volatile");
                let o = match self.next() {
                    Tok::Word(w) => w,
                    t => return Err(format!("rmw {:?}", t)),
                };
                let (_, p) = self.ty_opd()?;
                self.expect(',')?;
                let (t, v) = self.ty_opd()?;
                Ins::AtomicRmw(o, t, p, v)
            }
            "fence" => Ins::Fence,
            "extractelement" => {
                let (t, v) = self.ty_opd()?;
                self.expect(',')?;
                let (_, i) = self.ty_opd()?;
                Ins::ExtractElement(t, v, i)
            }
            "insertelement" => {
                let (t, v) = self.ty_opd()?;
                self.expect(',')?;
                let (_, e) = self.ty_opd()?;
                self.expect(',')?;
                let (_, i) = self.ty_opd()?;
                Ins::InsertElement(t, v, e, i)
            }
            "shufflevector" => {
                let (t, a) = self.ty_opd()?;
                self.expect(',')?;
                let (_, b) = self.ty_opd()?;
                self.expect(',')?;
                let (mt, m) = self.ty_opd()?;
                Ins::Shuffle(t, a, b, mt, m)
            }
            "landingpad" => {
                self.skip_line();
                // clauses on following lines
                loop {
                    let save = self.i;
                    self.skip_nl();
                    if self.is_w("cleanup") || self.is_w("catch") || self.is_w("filter") {
                        self.skip_line();
                    } else {
                        self.i = save;
                        break;
                    }
                }
                Ins::LandingPad
            }
            "resume" => Ins::Resume,
            o => Ins::Unsupported(o.to_string()),
        };
        Ok((dst, ins))
    }
}

fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

impl Module {
    fn named(&self, n: &str) -> R<Ty> {
        if let Some(t) = self.types.get(n) {
            return Ok(t.clone());
        }
        match self.type_src.get(n) {
            Some(s) => {
                let mut p = P::new(s, self);
                p.ty()
            }
            None => Err(format!("unknown type {}", n)),
        }
    }
    fn alias<'a>(&'a self, n: &'a str) -> &'a str {
        let mut n = n;
        while let Some(a) = self.aliases.get(n) {
            n = a;
        }
        n
    }
    pub fn addr_of(&self, g: &str) -> R<u64> {
        let g = self.alias(g);
        if let Some(i) = self.gindex.get(g) {
            return Ok(global_addr(*i));
        }
        if let Some(i) = self.fn_index.get(g) {
            return Ok(FN_BASE + ((*i as u64) << 4));
        }
        Err(format!("unknown global {}", g))
    }
    pub fn fn_at(&self, addr: u64) -> Option<Rc<str>> {
        if addr < FN_BASE {
            return None;
        }
        self.fn_names.get(((addr - FN_BASE) >> 4) as usize).cloned()
    }

    pub fn load(path: &str) -> R<Module> {
        let src = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
        let mut m = Module {
            src: String::new(),
            types: HashMap::new(),
            type_src: HashMap::new(),
            globals: vec![],
            gindex: HashMap::new(),
            fn_src: HashMap::new(),
            fn_names: vec![],
            fn_index: HashMap::new(),
            declared: HashMap::new(),
            aliases: HashMap::new(),
            cache: RefCell::new(HashMap::new()),
        };
        let mut pos = 0;
        let mut glob_lines: Vec<(String, usize, usize)> = vec![];
        let bytes = src.as_bytes();
        while pos < bytes.len() {
            let end = src[pos..].find('\n').map(|x| x + pos).unwrap_or(bytes.len());
            let line = &src[pos..end];
            if line.starts_with("define ") {
                let fe = src[pos..].find("\n}").map(|x| x + pos).ok_or("define end")?;
                let name = fname(line)?;
                let rc: Rc<str> = name.into();
                m.fn_index.insert(rc.clone(), m.fn_names.len());
                m.fn_names.push(rc.clone());
                m.fn_src.insert(rc, (pos, fe));
                pos = fe + 2;
                continue;
            } else if line.starts_with("declare ") {
                let name = fname(line)?;
                let rc: Rc<str> = name.into();
                m.fn_index.insert(rc.clone(), m.fn_names.len());
                m.fn_names.push(rc.clone());
                m.declared.insert(rc, ());
            } else if line.starts_with('%') {
                if let Some(k) = line.find(" = type ") {
                    let mut n = &line[1..k];
                    let un;
                    if n.starts_with('"') {
                        un = String::from_utf8_lossy(&unescape(n[1..n.len() - 1].as_bytes())).into_owned();
                        n = &un;
                    }
                    m.type_src.insert(n.to_string(), line[k + 8..].to_string());
                }
            } else if line.starts_with('@') {
                let k = line.find(" = ").ok_or("global =")?;
                let mut n = line[1..k].to_string();
                if n.starts_with('"') {
                    n = String::from_utf8_lossy(&unescape(n[1..n.len() - 1].as_bytes())).into_owned();
                }
                glob_lines.push((n, pos + k + 3, end));
            }
            pos = end + 1;
        }
        // first pass: names, so that initialisers can refer to each other
        let mut defs = vec![];
        for (n, s, e) in &glob_lines {
            let rest = &src[*s..*e];
            let mut toks = rest.split_whitespace();
            let mut is_alias = false;
            for _ in 0..8 {
                match toks.next() {
                    Some("alias") => {
                        is_alias = true;
                        break;
                    }
                    Some("global") | Some("constant") => break,
                    _ => {}
                }
            }
            if is_alias {
                let at = rest.rfind("ptr @").ok_or("alias target")?;
                let t = rest[at + 5..].split(|c| c == ',' || c == ' ').next().unwrap().trim_matches('"').to_string();
                m.aliases.insert(n.clone(), t);
                continue;
            }
            let rc: Rc<str> = n.as_str().into();
            m.gindex.insert(rc.clone(), m.globals.len());
            m.globals.push(Global { name: rc, ty: Ty::Void, init: None, constant: false });
            defs.push((*s, *e));
        }
        for (gi, (s, e)) in defs.iter().enumerate() {
            let text = &src[*s..*e];
            let (ty, init, constant) = {
                let mut p = P::new(text, &m);
                let mut external = false;
                loop {
                    match p.next() {
                        Tok::Word(w) if w == "global" => break false,
                        Tok::Word(w) if w == "constant" => break true,
                        Tok::Word(w) => {
                            if w == "external" || w == "extern_weak" {
                                external = true;
                            }
                        }
                        Tok::Nl => return Err(format!("global {}", text)),
                        _ => {}
                    }
                };
                let constant = text.contains(" constant ") || text.starts_with("constant ");
                let ty = p.ty().map_err(|e| format!("{} in {}", e, m.globals[gi].name))?;
                let init = if external {
                    None
                } else {
                    Some(p.cst(&ty).map_err(|e| format!("{} in global {}", e, m.globals[gi].name))?)
                };
                (ty, init, constant)
            };
            m.globals[gi].ty = ty;
            m.globals[gi].init = init;
            m.globals[gi].constant = constant;
        }
        m.src = src;
        Ok(m)
    }

    pub fn func(&self, name: &str) -> R<Rc<Func>> {
        if let Some(f) = self.cache.borrow().get(name) {
            return Ok(f.clone());
        }
        let (s, e) = *self.fn_src.get(self.alias(name)).ok_or_else(|| format!("undefined function {}", name))?;
        let f = Rc::new(self.parse_fn(name, &self.src[s..e]).map_err(|er| format!("{} in {}", er, name))?);
        self.cache.borrow_mut().insert(name.into(), f.clone());
        Ok(f)
    }

    fn parse_fn(&self, name: &str, text: &str) -> R<Func> {
        let mut p = P::new(text, self);
        // header: define ... <ret ty> @name(params) ... {
        let mut hdr_end = 0;
        for (i, t) in p.t.iter().enumerate() {
            if *t == Tok::Nl {
                hdr_end = i;
                break;
            }
        }
        let at = p.t[..hdr_end]
            .iter()
            .position(|t| matches!(t, Tok::Global(_)))
            .ok_or("fn name")?;
        // return type: find by trying to parse a type at each position ending exactly at `at`
        let mut ret = None;
        for st in (1..at).rev() {
            p.i = st;
            if let Ok(t) = p.ty() {
                if p.i == at {
                    // prefer the longest type
                    ret = Some(t);
                }
            }
        }
        let ret = ret.ok_or("ret type")?;
        p.i = at + 1;
        p.expect('(')?;
        let mut params = vec![];
        let mut unnamed = 0;
        while !p.eat(')') {
            if *p.peek() == Tok::Ellipsis {
                p.i += 1;
                continue;
            }
            let t = p.ty()?;
            p.param_attrs();
            let n = match p.peek() {
                Tok::Local(n) => {
                    let n = n.clone();
                    p.i += 1;
                    if let Ok(k) = n.parse::<i32>() {
                        unnamed = k + 1;
                    }
                    n
                }
                _ => {
                    let n = unnamed.to_string();
                    unnamed += 1;
                    n
                }
            };
            let r = p.reg(&n);
            params.push((t, r));
            p.eat(',');
        }
        p.i = hdr_end;
        p.skip_nl();
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut cur: Option<u32> = None;
        let mut order_first = true;
        let mut curb = Block { ins: vec![] };
        let put = |blocks: &mut Vec<Option<Block>>, i: u32, b: Block| {
            while blocks.len() <= i as usize {
                blocks.push(None);
            }
            blocks[i as usize] = Some(b);
        };
        let mut entry = 0;
        while p.i < p.t.len() {
            p.skip_nl();
            if p.i >= p.t.len() {
                break;
            }
            if let Tok::Label(n) = p.peek() {
                let n = n.clone();
                p.i += 1;
                if let Some(c) = cur {
                    put(&mut blocks, c, std::mem::replace(&mut curb, Block { ins: vec![] }));
                }
                let l = p.label(&n);
                if order_first {
                    entry = l;
                    order_first = false;
                }
                cur = Some(l);
                p.skip_line();
                continue;
            }
            if cur.is_none() {
                // unnamed entry block: its implicit label is the next number after the parameters
                let n = unnamed.to_string();
                let l = p.label(&n);
                entry = l;
                order_first = false;
                cur = Some(l);
            }
            let (d, ins) = p.instr()?;
            curb.ins.push((d, ins));
            p.skip_line();
        }
        if let Some(c) = cur {
            put(&mut blocks, c, curb);
        }
        let n = p.labels.len();
        while blocks.len() < n {
            blocks.push(None);
        }
        let mut bl: Vec<Block> = blocks
            .into_iter()
            .map(|b| b.unwrap_or(Block { ins: vec![(None, Ins::Unsupported("missing block".into()))] }))
            .collect();
        if entry != 0 {
            // entry must be block 0: add a trampoline by swapping is unsafe for phis, so relabel
            let e = entry;
            let sw = |l: &mut u32| {
                if *l == 0 {
                    *l = e
                } else if *l == e {
                    *l = 0
                }
            };
            for b in bl.iter_mut() {
                for (_, i) in b.ins.iter_mut() {
                    match i {
                        Ins::Br(l) => sw(l),
                        Ins::CondBr(_, a, b) => {
                            sw(a);
                            sw(b)
                        }
                        Ins::Switch(_, _, d, v) => {
                            sw(d);
                            for (_, l) in v.iter_mut() {
                                sw(l)
                            }
                        }
                        Ins::Phi(_, v) => {
                            for (_, l) in v.iter_mut() {
                                sw(l)
                            }
                        }
                        Ins::Call { normal: Some(l), .. } => sw(l),
                        _ => {}
                    }
                }
            }
            bl.swap(0, e as usize);
        }
        Ok(Func { name: name.into(), params, ret, blocks: bl, nregs: p.regs.len() as u32 })
    }
}

fn fname(line: &str) -> R<String> {
    let at = line.find('@').ok_or("fn @")?;
    let r = &line[at + 1..];
    if let Some(q) = r.strip_prefix('"') {
        let e = q.find('"').ok_or("fn quote")?;
        Ok(q[..e].to_string())
    } else {
        let e = r.find('(').ok_or("fn (")?;
        Ok(r[..e].to_string())
    }
}
