//! ELF writer, independent ELF loader and stack builder for the reference machine.

use crate::model::*;

pub const PF_X: u32 = 1;
pub const PF_W: u32 = 2;
pub const PF_R: u32 = 4;

#[derive(Clone, Debug)]
pub struct Ph {
    pub typ: u32,
    pub flags: u32,
    pub offset: u64,
    pub vaddr: u64,
    pub paddr: u64,
    pub filesz: u64,
    pub memsz: u64,
    pub align: u64,
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub bits: u32,
    pub be: bool,
    pub entry: u64,
    pub phs: Vec<Ph>,
    /// where the program headers go
    pub phoff: u64,
    pub phnum: u16,
    /// file contents after headers: (offset, bytes)
    pub blobs: Vec<(u64, Vec<u8>)>,
}

pub fn ehsize(bits: u32) -> u64 {
    if bits == 64 {
        64
    } else {
        52
    }
}
pub fn phsize(bits: u32) -> u64 {
    if bits == 64 {
        56
    } else {
        32
    }
}

struct W<'a> {
    b: &'a mut Vec<u8>,
    be: bool,
}
impl W<'_> {
    fn put(&mut self, at: u64, v: u64, n: usize) {
        let at = at as usize;
        if self.b.len() < at + n {
            self.b.resize(at + n, 0);
        }
        for i in 0..n {
            let k = if self.be { n - 1 - i } else { i };
            self.b[at + i] = (v >> (8 * k)) as u8;
        }
    }
}

impl Spec {
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = vec![0u8; ehsize(self.bits) as usize];
        b[0..4].copy_from_slice(b"\x7fELF");
        b[4] = if self.bits == 64 { 2 } else { 1 };
        b[5] = if self.be { 2 } else { 1 };
        b[6] = 1;
        let mut w = W { b: &mut b, be: self.be };
        w.put(16, 2, 2);
        w.put(18, 243, 2);
        w.put(20, 1, 4);
        if self.bits == 64 {
            w.put(24, self.entry, 8);
            w.put(32, self.phoff, 8);
            w.put(40, 0, 8);
            w.put(48, 0, 4);
            w.put(52, 64, 2);
            w.put(54, 56, 2);
            w.put(56, self.phnum as u64, 2);
            w.put(58, 64, 2);
        } else {
            w.put(24, self.entry, 4);
            w.put(28, self.phoff, 4);
            w.put(36, 0, 4);
            w.put(40, 52, 2);
            w.put(42, 32, 2);
            w.put(44, self.phnum as u64, 2);
            w.put(46, 40, 2);
        }
        for (i, p) in self.phs.iter().enumerate() {
            let at = self.phoff.wrapping_add(i as u64 * phsize(self.bits));
            if at > 1 << 24 {
                continue;
            }
            if self.bits == 64 {
                w.put(at, p.typ as u64, 4);
                w.put(at + 4, p.flags as u64, 4);
                w.put(at + 8, p.offset, 8);
                w.put(at + 16, p.vaddr, 8);
                w.put(at + 24, p.paddr, 8);
                w.put(at + 32, p.filesz, 8);
                w.put(at + 40, p.memsz, 8);
                w.put(at + 48, p.align, 8);
            } else {
                w.put(at, p.typ as u64, 4);
                w.put(at + 4, p.offset, 4);
                w.put(at + 8, p.vaddr, 4);
                w.put(at + 12, p.paddr, 4);
                w.put(at + 16, p.filesz, 4);
                w.put(at + 20, p.memsz, 4);
                w.put(at + 24, p.flags as u64, 4);
                w.put(at + 28, p.align, 4);
            }
        }
        for (off, d) in &self.blobs {
            let o = *off as usize;
            if b.len() < o + d.len() {
                b.resize(o + d.len(), 0);
            }
            b[o..o + d.len()].copy_from_slice(d);
        }
        b
    }
}

#[derive(Clone, Debug)]
pub struct Seg {
    pub vaddr: u64,
    pub memsz: u64,
    pub data: Vec<u8>,
    pub flags: u32,
}

/// A well-formed image.
#[derive(Clone, Debug)]
pub struct Image {
    pub bits: u32,
    pub entry: u64,
    pub segs: Vec<Seg>,
}

impl Image {
    pub fn spec(&self) -> Spec {
        let mut off = ehsize(self.bits) + phsize(self.bits) * self.segs.len() as u64;
        let mut phs = vec![];
        let mut blobs = vec![];
        for s in &self.segs {
            phs.push(Ph {
                typ: 1,
                flags: s.flags,
                offset: off,
                vaddr: s.vaddr,
                paddr: s.vaddr,
                filesz: s.data.len() as u64,
                memsz: s.memsz.max(s.data.len() as u64),
                align: 4096,
            });
            blobs.push((off, s.data.clone()));
            off += s.data.len() as u64;
        }
        Spec {
            bits: self.bits,
            be: false,
            entry: self.entry,
            phnum: phs.len() as u16,
            phs,
            phoff: ehsize(self.bits),
            blobs,
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.spec().bytes()
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Load {
    pub addr: u64,
    pub size: u64,
    pub flags: u8,
    pub src: (u64, u64),
    pub off: u64,
}

fn get(b: &[u8], at: u64, n: u64, be: bool) -> Option<u64> {
    let end = at.checked_add(n)?;
    if end > b.len() as u64 {
        return None;
    }
    let mut v = 0u64;
    for i in 0..n {
        let k = if be { n - 1 - i } else { i };
        v |= (b[(at + i) as usize] as u64) << (8 * k);
    }
    Some(v)
}

/// Loadable segments and entry point of an image, or why it must be refused.
pub fn parse(b: &[u8], bits: u32, ver: u32) -> Result<(Vec<Load>, u64), String> {
    if b.len() < 16 || &b[..4] != b"\x7fELF" {
        return Err("magic".into());
    }
    let cls = match b[4] {
        1 => 32,
        2 => 64,
        _ => return Err("class".into()),
    };
    let be = match b[5] {
        1 => false,
        2 => true,
        _ => return Err("endianness".into()),
    };
    if (b.len() as u64) < ehsize(cls) {
        return Err("short".into());
    }
    if cls != bits {
        return Err("bits".into());
    }
    let g = |at, n| get(b, at, n, be);
    let (entry, phoff, phnum) = if bits == 64 {
        (g(24, 8).unwrap(), g(32, 8).unwrap(), g(56, 2).unwrap())
    } else {
        (g(24, 4).unwrap(), g(28, 4).unwrap(), g(44, 2).unwrap())
    };
    let mut out = vec![];
    let mut phs = vec![];
    for i in 0..phnum {
        let at = phoff.checked_add(i * phsize(bits)).ok_or("phoff")?;
        let f = |o64: u64, n64: u64, o32: u64| if bits == 64 { g(at.checked_add(o64)?, n64) } else { g(at.checked_add(o32)?, 4) };
        let ph = (|| {
            Some(Ph {
                typ: f(0, 4, 0)? as u32,
                flags: f(4, 4, 24)? as u32,
                offset: f(8, 8, 4)?,
                vaddr: f(16, 8, 8)?,
                paddr: f(24, 8, 12)?,
                filesz: f(32, 8, 16)?,
                memsz: f(40, 8, 20)?,
                align: f(48, 8, 28)?,
            })
        })()
        .ok_or("program header out of file")?;
        phs.push(ph);
    }
    for p in phs {
        if p.typ != 1 {
            continue;
        }
        let addr = p.vaddr & !(PAGE - 1);
        let pad = p.vaddr - addr;
        let total = p.memsz.wrapping_add(pad);
        let size = total.wrapping_add(PAGE - 1) & !(PAGE - 1);
        let end = p.offset.checked_add(p.filesz).ok_or("file range")?;
        if end > b.len() as u64 {
            return Err("file range".into());
        }
        let (r, w, x) = (p.flags & PF_R != 0, p.flags & PF_W != 0, p.flags & PF_X != 0);
        if !r || (w && x) {
            return Err("segment flags".into());
        }
        let flags = if x {
            F_EXEC | F_FREEZE
        } else if w && ver >= 1 {
            0
        } else {
            F_FREEZE
        };
        out.push(Load { addr, size, flags, src: (p.offset, end), off: pad });
    }
    Ok((out, entry))
}

/// Load into the reference memory; on error memory may be partially filled.
pub fn load(m: &mut Model, b: &[u8]) -> Result<u64, String> {
    let (loads, entry) = parse(b, m.xlen, m.ver)?;
    let mut n = 0;
    for l in &loads {
        m.mem
            .init_pages(l.addr, l.size, l.flags, &b[l.src.0 as usize..l.src.1 as usize], l.off)
            .map_err(|f| format!("{f:?}"))?;
        if m.ver == 0 {
            m.mem.fill(l.addr, l.off, 0).map_err(|f| format!("{f:?}"))?;
        }
        n += l.src.1 - l.src.0;
    }
    m.pc = if m.xlen == 32 { entry & 0xffff_ffff } else { entry };
    Ok(n)
}

/// Documented start-up stack: returns the bytes used.
pub fn stack(m: &mut Model, args: &[Vec<u8>], start: u64, size: u64) -> Result<u64, Fault> {
    let top = start + size;
    let w = m.xlen as u64 / 8;
    let wrap = |v: u64| if m.xlen == 32 { v & 0xffff_ffff } else { v };
    if m.ver >= 1 && args.is_empty() {
        let sp = top.checked_sub(w).ok_or(Fault::OutOfStack)? & !15;
        if sp < start {
            return Err(Fault::OutOfStack);
        }
        m.x[2] = sp;
        return Ok(top - sp);
    }
    let mut sp = top;
    let mut vals = vec![args.len() as u64];
    for a in args {
        sp = wrap(sp.wrapping_sub(a.len() as u64 + 1));
        m.mem.store_bytes(sp, a)?;
        m.mem.fill(sp + a.len() as u64, 1, 0)?;
        vals.push(sp);
    }
    let vw = if m.ver >= 1 {
        vals.push(0);
        let un = wrap(sp.wrapping_sub(w * vals.len() as u64));
        sp = wrap(sp.wrapping_sub(un & 15));
        w
    } else {
        4
    };
    for v in vals.iter().rev() {
        sp = wrap(sp.wrapping_sub(w));
        m.mem.store(sp, vw, *v)?;
    }
    m.x[2] = sp;
    if sp < start {
        return Err(Fault::OutOfStack);
    }
    Ok(top - sp)
}

/// load_program of the reference machine: top quarter of memory is the stack
pub fn load_program(m: &mut Model, b: &[u8], args: &[Vec<u8>]) -> Result<u64, String> {
    let n = load(m, b)?;
    let size = m.mem.size / 4;
    let start = m.mem.size - size;
    let s = stack(m, args, start, size).map_err(|f| format!("{f:?}"))?;
    Ok(n + s)
}
