//! Copy-on-write memory: objects of 256-byte pages, each byte either concrete or byte `k` of a term.
use crate::expr::*;
use crate::ir::OBJ_SHIFT;
use std::rc::Rc;

const PG: usize = 256;
const CH: usize = 64;

#[derive(Clone)]
pub struct Page {
    data: [u8; PG],
    sym: Option<Box<[(Eid, u8); PG]>>,
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pages: Vec<Rc<Page>>,
    pub constant: bool,
}

#[derive(Clone)]
pub struct Mem {
    objs: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    n: usize,
    zero: Rc<Page>,
}

#[derive(Clone, Copy)]
pub enum Byte {
    C(u8),
    S(Eid, u8),
}

pub type MR<T> = Result<T, String>;

impl Mem {
    pub fn new() -> Self {
        Mem { objs: vec![], n: 0, zero: Rc::new(Page { data: [0; PG], sym: None }) }
    }
    fn push(&mut self, o: Option<Rc<Obj>>) -> usize {
        let i = self.n;
        if i / CH >= self.objs.len() {
            self.objs.push(Rc::new(Vec::with_capacity(CH)));
        }
        Rc::make_mut(&mut self.objs[i / CH]).push(o);
        self.n += 1;
        i
    }
    pub fn alloc(&mut self, size: u64) -> MR<u64> {
        if size >= 1 << OBJ_SHIFT {
            return Err(format!("allocation of {} bytes", size));
        }
        let np = (size as usize + PG - 1) / PG;
        let o = Obj { size, pages: vec![self.zero.clone(); np], constant: false };
        let i = self.push(Some(Rc::new(o)));
        Ok((i as u64 + 16) << OBJ_SHIFT)
    }
    pub fn set_const(&mut self, addr: u64) {
        let i = ((addr >> OBJ_SHIFT) - 16) as usize;
        let ch = Rc::make_mut(&mut self.objs[i / CH]);
        if let Some(o) = ch[i % CH].as_mut() {
            Rc::make_mut(o).constant = true;
        }
    }
    pub fn free(&mut self, addr: u64) {
        let i = (addr >> OBJ_SHIFT) as usize;
        if i < 16 || i - 16 >= self.n {
            return;
        }
        let i = i - 16;
        Rc::make_mut(&mut self.objs[i / CH])[i % CH] = None;
    }
    pub fn obj(&self, addr: u64) -> Option<&Rc<Obj>> {
        let i = (addr >> OBJ_SHIFT) as usize;
        if i < 16 || i - 16 >= self.n {
            return None;
        }
        let i = i - 16;
        self.objs[i / CH][i % CH].as_ref()
    }
    fn chk(&self, addr: u64, n: u64, write: bool) -> MR<&Rc<Obj>> {
        let off = addr & ((1 << OBJ_SHIFT) - 1);
        match self.obj(addr) {
            Some(o) if off + n <= o.size && !(write && o.constant) => Ok(o),
            Some(o) => Err(format!("access of {} bytes at offset {} of a {}-byte object (write={})", n, off, o.size, write)),
            None => Err(format!("access of {} bytes at invalid address {:#x}", n, addr)),
        }
    }
    fn obj_mut(&mut self, addr: u64) -> &mut Obj {
        let i = ((addr >> OBJ_SHIFT) - 16) as usize;
        let ch = Rc::make_mut(&mut self.objs[i / CH]);
        Rc::make_mut(ch[i % CH].as_mut().unwrap())
    }
    /// concrete little-endian integer of up to 16 bytes, if fully concrete
    pub fn load_c(&self, addr: u64, n: u64) -> MR<Option<u128>> {
        let o = self.chk(addr, n, false)?;
        let off = (addr & ((1 << OBJ_SHIFT) - 1)) as usize;
        let (p, q) = (off / PG, off % PG);
        if n == 0 {
            return Ok(Some(0));
        }
        let mut buf = [0u8; 16];
        if q + n as usize <= PG {
            let pg = &o.pages[p];
            if let Some(s) = &pg.sym {
                if s[q..q + n as usize].iter().any(|x| x.0 != 0) {
                    return Ok(None);
                }
            }
            buf[..n as usize].copy_from_slice(&pg.data[q..q + n as usize]);
        } else {
            for i in 0..n as usize {
                let pg = &o.pages[(off + i) / PG];
                let k = (off + i) % PG;
                if let Some(s) = &pg.sym {
                    if s[k].0 != 0 {
                        return Ok(None);
                    }
                }
                buf[i] = pg.data[k];
            }
        }
        Ok(Some(u128::from_le_bytes(buf)))
    }
    pub fn byte(&self, addr: u64) -> MR<Byte> {
        let o = self.chk(addr, 1, false)?;
        let off = (addr & ((1 << OBJ_SHIFT) - 1)) as usize;
        let pg = &o.pages[off / PG];
        if let Some(s) = &pg.sym {
            let c = s[off % PG];
            if c.0 != 0 {
                return Ok(Byte::S(c.0, c.1));
            }
        }
        Ok(Byte::C(pg.data[off % PG]))
    }
    pub fn load_e(&self, ar: &mut Arena, addr: u64, n: u64) -> MR<Eid> {
        // groups of consecutive bytes of the same term
        let mut res: Option<Eid> = None;
        let mut i = 0;
        while i < n {
            let part = match self.byte(addr + i)? {
                Byte::C(b) => {
                    let mut v = b as u128;
                    let mut k = 1;
                    while i + k < n {
                        match self.byte(addr + i + k)? {
                            Byte::C(b) => v |= (b as u128) << (8 * k),
                            _ => break,
                        }
                        k += 1;
                    }
                    i += k;
                    ar.c(8 * k as u32, v)
                }
                Byte::S(e, ix) => {
                    let mut k = 1;
                    while i + k < n {
                        match self.byte(addr + i + k)? {
                            Byte::S(e2, ix2) if e2 == e && ix2 as u64 == ix as u64 + k => k += 1,
                            _ => break,
                        }
                    }
                    i += k;
                    let w = ar.w(e);
                    if ix == 0 && w == 8 * k as u32 {
                        e
                    } else {
                        ar.extract(e, ix as u32 * 8, 8 * k as u32)
                    }
                }
            };
            res = Some(match res {
                None => part,
                Some(l) => ar.concat(part, l),
            });
        }
        Ok(res.unwrap())
    }
    pub fn store_c(&mut self, addr: u64, n: u64, v: u128) -> MR<()> {
        self.chk(addr, n, true)?;
        let b = v.to_le_bytes();
        let off = (addr & ((1 << OBJ_SHIFT) - 1)) as usize;
        let o = self.obj_mut(addr);
        let mut i = 0;
        while i < n as usize {
            let q = (off + i) % PG;
            let k = (PG - q).min(n as usize - i);
            let pg = Rc::make_mut(&mut o.pages[(off + i) / PG]);
            pg.data[q..q + k].copy_from_slice(&b[i..i + k]);
            if let Some(s) = pg.sym.as_mut() {
                for x in &mut s[q..q + k] {
                    x.0 = 0;
                }
            }
            i += k;
        }
        Ok(())
    }
    pub fn store_e(&mut self, addr: u64, n: u64, e: Eid) -> MR<()> {
        self.chk(addr, n, true)?;
        let off = (addr & ((1 << OBJ_SHIFT) - 1)) as usize;
        let o = self.obj_mut(addr);
        for i in 0..n as usize {
            let pg = Rc::make_mut(&mut o.pages[(off + i) / PG]);
            let s = pg.sym.get_or_insert_with(|| Box::new([(0, 0); PG]));
            s[(off + i) % PG] = (e, i as u8);
        }
        Ok(())
    }
    pub fn fill(&mut self, addr: u64, n: u64, b: Byte) -> MR<()> {
        if n == 0 {
            return Ok(());
        }
        self.chk(addr, n, true)?;
        let off = (addr & ((1 << OBJ_SHIFT) - 1)) as usize;
        let zero = self.zero.clone();
        let o = self.obj_mut(addr);
        let mut i = 0;
        while i < n as usize {
            let q = (off + i) % PG;
            let k = (PG - q).min(n as usize - i);
            if q == 0 && k == PG && matches!(b, Byte::C(0)) {
                o.pages[(off + i) / PG] = zero.clone();
                i += k;
                continue;
            }
            let pg = Rc::make_mut(&mut o.pages[(off + i) / PG]);
            match b {
                Byte::C(v) => {
                    for x in &mut pg.data[q..q + k] {
                        *x = v;
                    }
                    if let Some(s) = pg.sym.as_mut() {
                        for x in &mut s[q..q + k] {
                            x.0 = 0;
                        }
                    }
                }
                Byte::S(e, ix) => {
                    let s = pg.sym.get_or_insert_with(|| Box::new([(0, 0); PG]));
                    for x in &mut s[q..q + k] {
                        *x = (e, ix);
                    }
                }
            }
            i += k;
        }
        Ok(())
    }
    pub fn bytes(&self, addr: u64, n: u64) -> MR<Vec<Byte>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let o = self.chk(addr, n, false)?;
        let off = (addr & ((1 << OBJ_SHIFT) - 1)) as usize;
        let mut v = Vec::with_capacity(n as usize);
        for i in 0..n as usize {
            let pg = &o.pages[(off + i) / PG];
            let k = (off + i) % PG;
            match &pg.sym {
                Some(s) if s[k].0 != 0 => v.push(Byte::S(s[k].0, s[k].1)),
                _ => v.push(Byte::C(pg.data[k])),
            }
        }
        Ok(v)
    }
    pub fn concrete_bytes(&self, addr: u64, n: u64) -> MR<Vec<u8>> {
        self.bytes(addr, n)?
            .into_iter()
            .map(|b| match b {
                Byte::C(v) => Ok(v),
                _ => Err("symbolic byte where a concrete one is needed".to_string()),
            })
            .collect()
    }
    pub fn write_bytes(&mut self, addr: u64, v: &[Byte]) -> MR<()> {
        if v.is_empty() {
            return Ok(());
        }
        self.chk(addr, v.len() as u64, true)?;
        let off = (addr & ((1 << OBJ_SHIFT) - 1)) as usize;
        let o = self.obj_mut(addr);
        let mut i = 0;
        while i < v.len() {
            let q = (off + i) % PG;
            let k = (PG - q).min(v.len() - i);
            let pg = Rc::make_mut(&mut o.pages[(off + i) / PG]);
            for j in 0..k {
                match v[i + j] {
                    Byte::C(b) => {
                        pg.data[q + j] = b;
                        if let Some(s) = pg.sym.as_mut() {
                            s[q + j].0 = 0;
                        }
                    }
                    Byte::S(e, ix) => {
                        let s = pg.sym.get_or_insert_with(|| Box::new([(0, 0); PG]));
                        s[q + j] = (e, ix);
                    }
                }
            }
            i += k;
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> MR<()> {
        if n == 0 || dst == src {
            return Ok(());
        }
        let so = (src & ((1 << OBJ_SHIFT) - 1)) as usize;
        let dof = (dst & ((1 << OBJ_SHIFT) - 1)) as usize;
        if so % PG == dof % PG && n as usize > 2 * PG && (src >> OBJ_SHIFT) != (dst >> OBJ_SHIFT) {
            // share whole pages
            let pages: Vec<Rc<Page>> = {
                let o = self.chk(src, n, false)?;
                o.pages.clone()
            };
            self.chk(dst, n, true)?;
            let head = (PG - so % PG) % PG;
            if head > 0 {
                let h = self.bytes(src, head as u64)?;
                self.write_bytes(dst, &h)?;
            }
            let full = (n as usize - head) / PG;
            {
                let o = self.obj_mut(dst);
                for i in 0..full {
                    o.pages[(dof + head) / PG + i] = pages[(so + head) / PG + i].clone();
                }
            }
            let done = head + full * PG;
            if done < n as usize {
                let t = self.bytes(src + done as u64, n - done as u64)?;
                self.write_bytes(dst + done as u64, &t)?;
            }
            return Ok(());
        }
        let v = self.bytes(src, n)?;
        self.write_bytes(dst, &v)
    }
}
