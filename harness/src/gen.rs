//! Generators: configurations, instructions, structured programs, and their assembler.

use crate::elf::*;
use crate::isa::*;
use crate::src::Src;

pub const ISA_B: u8 = 1;
pub const ISA_MOP: u8 = 2;
pub const ISA_A: u8 = 4;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct PCfg {
    pub c: Cfg,
    pub mop: bool,
    pub mem: u64,
}
impl PCfg {
    pub fn isa(&self) -> u8 {
        (if self.c.b { ISA_B } else { 0 }) | (if self.mop { ISA_MOP } else { 0 }) | (if self.c.a { ISA_A } else { 0 })
    }
    pub fn xlen(&self) -> u32 {
        self.c.xlen
    }
    pub fn ver(&self) -> u32 {
        self.c.ver
    }
}
impl std::fmt::Display for PCfg {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "rv{}imc{}{}{} v{} mem={}K",
            self.c.xlen,
            if self.c.a { "a" } else { "" },
            if self.c.b { "b" } else { "" },
            if self.mop { "+mop" } else { "" },
            self.c.ver,
            self.mem / 1024
        )
    }
}

pub fn gen_cfg(s: &mut Src, xlen: u32) -> PCfg {
    let ver = [2, 1, 0][s.weighted(&[6, 3, 2])];
    let mop = ver > 0 && s.chance(1, 3);
    let a = s.chance(3, 4);
    let b = s.chance(3, 4);
    let mem = [256, 512, 1024, 4096][s.weighted(&[4, 6, 3, 1])] * 1024;
    PCfg { c: Cfg { xlen, ver, a, b }, mop, mem }
}

pub fn avail(o: &OpInfo, c: &Cfg) -> bool {
    !(o.x64 && c.xlen == 32) && !(o.ext == Ext::A && !c.a) && !(o.ext == Ext::B && !c.b)
}

pub fn imm12(s: &mut Src) -> i64 {
    match s.below(5) {
        0 => 0,
        1 => s.below(32) as i64 - 16,
        2 => *s.pick(&[2047, -2048, 1024, -1024, 31, 32, 63, -1, 255, 1]),
        _ => s.below(4096) as i64 - 2048,
    }
}
pub fn imm_u(s: &mut Src) -> i64 {
    let v = match s.below(4) {
        0 => s.below(8),
        1 => *s.pick(&[0x7ffff, 0x80000, 0xfffff, 0xffff0, 0x40000, 1, 31]),
        2 => s.below(64).wrapping_sub(32) & 0xfffff,
        _ => s.below(1 << 20),
    };
    ((v << 12) as u32) as i32 as i64
}
pub fn gen_imm(s: &mut Src, op: Op, xlen: u32) -> i64 {
    match op.info().fmt {
        Fmt::I | Fmt::Ld | Fmt::S | Fmt::Jalr => imm12(s),
        Fmt::Sh6 => s.below(if xlen == 64 || op == Op::Slliuw { 64 } else { 32 }) as i64,
        Fmt::Sh5 => s.below(32) as i64,
        Fmt::U => imm_u(s),
        Fmt::B => (s.below(4096) as i64 - 2048) * 2,
        Fmt::J => (s.below(1 << 20) as i64 - (1 << 19)) * 2,
        _ => 0,
    }
}
/// an ALU instruction (no memory, no control flow)
pub fn is_alu(op: Op) -> bool {
    matches!(op.info().fmt, Fmt::R | Fmt::Un | Fmt::I | Fmt::Sh6 | Fmt::Sh5 | Fmt::U)
}
pub fn gen_alu(s: &mut Src, c: &Cfg, rd: &[u8], rs: &[u8]) -> Inst {
    loop {
        let o = &OPS[s.usize(OPS.len())];
        if !avail(o, c) || !is_alu(o.op) {
            // replay of a shrunk sequence must terminate
            if s.consumed() > 390_000 {
                return Inst::new(Op::Addi, 0, 0, 0, 0);
            }
            continue;
        }
        return Inst::new(o.op, *s.pick(rd), if o.fmt == Fmt::U { 0 } else { *s.pick(rs) }, if o.fmt == Fmt::R { *s.pick(rs) } else { 0 }, 0).with_imm(gen_imm(s, o.op, c.xlen));
    }
}
impl Inst {
    pub fn with_imm(mut self, imm: i64) -> Self {
        self.imm = imm;
        self
    }
}

#[derive(Clone, Debug)]
pub enum It {
    I(Inst, bool),
    Br(Inst, usize, bool),
    /// address of label into rd: auipc/addi (pc-relative) or lui/addi
    La(u8, usize, i64, bool),
    /// jump through auipc/jalr or lui/jalr: (hi register, link register, label, absolute)
    Far(u8, u8, usize, bool),
    Lab(usize),
    /// label at an offset from here
    LabAt(usize, i64),
    Raw(Vec<u8>),
    /// c.nop up to the given offset from the code base (no-op when already past)
    PadTo(u64),
    /// c.nop until offset % .0 == .1
    Align(u64, u64),
}

#[derive(Default, Clone)]
pub struct Asm {
    pub items: Vec<It>,
    pub labels: usize,
}

fn invert(op: Op) -> Op {
    use Op::*;
    match op {
        Beq => Bne,
        Bne => Beq,
        Blt => Bge,
        Bge => Blt,
        Bltu => Bgeu,
        Bgeu => Bltu,
        o => o,
    }
}

pub fn enc_into(out: &mut Vec<u8>, n: &Inst, comp: bool, c: &Cfg) {
    if comp {
        if let Some(h) = find_compressed(n, c) {
            out.extend_from_slice(&h.to_le_bytes());
            return;
        }
    }
    out.extend_from_slice(&encode_for(n, c.xlen).to_le_bytes());
}
fn hilo(v: i64) -> (i64, i64) {
    let lo = ((v << 52) >> 52) as i64;
    let hi = v.wrapping_sub(lo);
    (((hi as u32) & 0xfffff000) as i32 as i64, lo)
}

impl Asm {
    pub fn label(&mut self) -> usize {
        self.labels += 1;
        self.labels - 1
    }
    pub fn i(&mut self, n: Inst) {
        self.items.push(It::I(n, false));
    }
    pub fn ic(&mut self, n: Inst, comp: bool) {
        self.items.push(It::I(n, comp));
    }
    pub fn lab(&mut self, l: usize) {
        self.items.push(It::Lab(l));
    }
    pub fn br(&mut self, n: Inst, l: usize) {
        self.items.push(It::Br(n, l, false));
    }
    pub fn jmp(&mut self, l: usize, link: u8) {
        self.items.push(It::Br(Inst::new(Op::Jal, link, 0, 0, 0), l, false));
    }
    pub fn op(&mut self, op: Op, rd: u8, rs1: u8, rs2: u8, imm: i64) {
        self.i(Inst::new(op, rd, rs1, rs2, imm));
    }
    /// load a constant
    pub fn li(&mut self, rd: u8, v: u64, xlen: u32) {
        for n in li_seq(rd, v, xlen) {
            self.i(n);
        }
    }
    /// Lay out at base; returns code and label addresses.
    pub fn assemble(&self, base: u64, c: &Cfg) -> (Vec<u8>, Vec<u64>) {
        let n = self.items.len();
        // form of each branch: 0 compressed, 1 full, 2 long
        let mut form: Vec<u8> = self.items.iter().map(|i| matches!(i, It::Br(_, _, false)) as u8).collect();
        let mut labels = vec![base; self.labels];
        for _ in 0..40 {
            // layout
            let mut off = 0u64;
            let mut at = vec![0u64; n];
            for (k, it) in self.items.iter().enumerate() {
                at[k] = off;
                off += match it {
                    It::I(i, comp) => {
                        if *comp && find_compressed(i, c).is_some() {
                            2
                        } else {
                            4
                        }
                    }
                    It::Br(..) => [2, 4, 8][form[k] as usize],
                    It::La(..) | It::Far(..) => 8,
                    It::Lab(l) => {
                        labels[*l] = base + off;
                        0
                    }
                    It::LabAt(l, d) => {
                        labels[*l] = base.wrapping_add(off).wrapping_add(*d as u64);
                        0
                    }
                    It::Raw(b) => b.len() as u64,
                    It::PadTo(t) => t.saturating_sub(off) & !1,
                    It::Align(m, r) => {
                        let mut p = 0;
                        while (base + off + p) % m != *r && p < *m {
                            p += 2;
                        }
                        p
                    }
                };
            }
            // emit
            let mut out: Vec<u8> = Vec::with_capacity(off as usize);
            let mut again = false;
            for (k, it) in self.items.iter().enumerate() {
                let pc = base + at[k];
                match it {
                    It::I(i, comp) => enc_into(&mut out, i, *comp, c),
                    It::Br(i, l, _) => {
                        let d = labels[*l].wrapping_sub(pc) as i64;
                        let j = i.with_imm(d);
                        match form[k] {
                            0 => match find_compressed(&j, c) {
                                Some(h) => out.extend_from_slice(&h.to_le_bytes()),
                                None => {
                                    form[k] = 1;
                                    again = true;
                                    out.extend_from_slice(&[1, 0]);
                                }
                            },
                            1 => {
                                if i.op != Op::Jal && !(-4096..4096).contains(&d) {
                                    form[k] = 2;
                                    again = true;
                                }
                                out.extend_from_slice(&encode(&j).to_le_bytes());
                            }
                            _ => {
                                let mut v = *i;
                                v.op = invert(i.op);
                                v.imm = 8;
                                out.extend_from_slice(&encode(&v).to_le_bytes());
                                out.extend_from_slice(&encode(&Inst::new(Op::Jal, 0, 0, 0, d - 4)).to_le_bytes());
                            }
                        }
                    }
                    It::La(rd, l, d, abs) => {
                        let t = labels[*l].wrapping_add(*d as u64);
                        let abs = &(*abs && (c.xlen == 32 || t < 0x7fff_f000));
                        let (hi, lo) = hilo(if *abs { t as i64 } else { t.wrapping_sub(pc) as i64 });
                        out.extend_from_slice(&encode(&Inst::new(if *abs { Op::Lui } else { Op::Auipc }, *rd, 0, 0, hi)).to_le_bytes());
                        out.extend_from_slice(&encode(&Inst::new(Op::Addi, *rd, *rd, 0, lo)).to_le_bytes());
                    }
                    It::Far(h, link, l, abs) => {
                        let t = labels[*l];
                        let abs = &(*abs && (c.xlen == 32 || t < 0x7fff_f000));
                        let (hi, lo) = hilo(if *abs { t as i64 } else { t.wrapping_sub(pc) as i64 });
                        out.extend_from_slice(&encode(&Inst::new(if *abs { Op::Lui } else { Op::Auipc }, *h, 0, 0, hi)).to_le_bytes());
                        out.extend_from_slice(&encode(&Inst::new(Op::Jalr, *link, *h, 0, lo)).to_le_bytes());
                    }
                    It::Lab(_) | It::LabAt(..) => {}
                    It::Raw(b) => out.extend_from_slice(b),
                    It::PadTo(_) | It::Align(..) => {
                        let end = if k + 1 < n { at[k + 1] } else { off };
                        while (out.len() as u64) < end {
                            out.extend_from_slice(&[1, 0]);
                        }
                    }
                }
            }
            if !again {
                return (out, labels);
            }
        }
        panic!("assembler did not converge")
    }
}

pub fn li_seq(rd: u8, v: u64, xlen: u32) -> Vec<Inst> {
    let i = Inst::new;
    let sv = if xlen == 32 { v as i32 as i64 } else { v as i64 };
    if (-2048..2048).contains(&sv) {
        return vec![i(Op::Addi, rd, 0, 0, sv)];
    }
    if sv == sv as i32 as i64 {
        let (hi, lo) = hilo(sv);
        let mut r = vec![i(Op::Lui, rd, 0, 0, hi)];
        if xlen == 32 {
            if lo != 0 {
                r.push(i(Op::Addi, rd, rd, 0, lo));
            }
        } else {
            // the word form wraps 0x80000000 - x correctly
            r.push(i(Op::Addiw, rd, rd, 0, lo));
        }
        return r;
    }
    let lo = (sv << 52) >> 52;
    let rest = sv.wrapping_sub(lo);
    let tz = (rest as u64).trailing_zeros().min(63);
    let mut r = li_seq(rd, (rest >> tz) as u64, xlen);
    r.push(i(Op::Slli, rd, rd, 0, tz as i64));
    if lo != 0 {
        r.push(i(Op::Addi, rd, rd, 0, lo));
    }
    r
}

// ------------------------------------------------------------------ programs

#[derive(Clone)]
pub struct Prog {
    pub p: PCfg,
    pub bytes: Vec<u8>,
    pub args: Vec<Vec<u8>>,
    pub code_base: u64,
    pub code: Vec<u8>,
    pub labels: std::collections::BTreeSet<&'static str>,
}

impl Prog {
    pub fn render(&self) -> String {
        let mut o = format!("{} code@{:#x} {}B: ", self.p, self.code_base, self.code.len());
        let mut k = 0;
        let mut n = 0;
        while k + 2 <= self.code.len() && n < 40 {
            let mut w = u16::from_le_bytes([self.code[k], self.code[k + 1]]) as u32;
            if w & 3 == 3 && k + 4 <= self.code.len() {
                w |= (u16::from_le_bytes([self.code[k + 2], self.code[k + 3]]) as u32) << 16;
            }
            match decode(w, &self.p.c) {
                Some(i) => {
                    if w == 1 {
                        k += 2;
                        continue;
                    }
                    o.push_str(&format!("{i}; "));
                    k += i.len as usize;
                }
                None => {
                    o.push_str(&format!(".{w:#x}; "));
                    k += if w & 3 == 3 { 4 } else { 2 };
                }
            }
            n += 1;
        }
        o
    }
}

#[derive(Clone, Copy)]
pub struct Opts {
    /// calls to the standard test host (codes 2001..2006)
    pub host: bool,
    /// probability out of 100 that a fault is injected
    pub faults: u64,
    /// rough number of statements
    pub size: u64,
    /// probability (percent) of large code layouts with cache-slot collisions
    pub big: u64,
    pub args: bool,
    /// probability (percent) of the unstructured generator
    pub wild: u64,
    pub ebreaks: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { host: true, faults: 8, size: 40, big: 25, args: true, wild: 15, ebreaks: true }
    }
}

pub const FREE: &[u8] = &[5, 6, 7, 10, 11, 12, 13, 14, 15, 16, 22, 23, 24, 25, 28, 29, 30, 0];
pub const BASES: &[u8] = &[3, 4, 8, 9, 2];
const ALLR: &[u8] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31,
];

struct G<'a> {
    s: &'a mut Src,
    p: PCfg,
    o: Opts,
    a: Asm,
    budget: i64,
    funcs: Vec<usize>,
    cur: usize,
    exit: usize,
    tags: std::collections::BTreeSet<&'static str>,
    fault_left: u64,
    data: Vec<u64>,
}

impl G<'_> {
    fn comp(&mut self) -> bool {
        self.s.chance(2, 5)
    }
    fn push(&mut self, n: Inst) {
        let c = self.comp();
        self.a.ic(n, c);
    }
    fn alu(&mut self) {
        let c = self.p.c;
        let n = if self.s.chance(1, 3) {
            // two-address forms compress
            let r = *self.s.pick(&[10u8, 11, 12, 13, 14, 15, 5, 6]);
            let mut n = gen_alu(self.s, &c, &[r], &[10, 11, 12, 13, 14, 15, 8, 9]);
            if n.op.info().fmt != Fmt::U {
                n.rs1 = r;
            }
            if matches!(n.op.info().fmt, Fmt::I) {
                n.imm = self.s.below(64) as i64 - 32;
            }
            n
        } else {
            gen_alu(self.s, &c, FREE, ALLR)
        };
        self.push(n);
    }
    fn mem(&mut self) {
        use Op::*;
        let rv64 = self.p.c.xlen == 64;
        let base = *self.s.pick(BASES);
        let mut off = match self.s.below(4) {
            0 => self.s.below(32) as i64 * 8 - if base == 2 { 0 } else { 64 },
            1 => self.s.below(64) as i64 * 4,
            2 => self.s.below(64) as i64 - 32,
            _ => imm12(self.s),
        };
        if base == 2 {
            // keep stack slots inside the stack
            off = off.rem_euclid(128) + 16;
            off = off.min(150);
        }
        let mut b = base;
        if self.s.chance(1, 4) && base != 2 {
            // computed address
            let mask = *self.s.pick(&[0x7ff, 0x3f, 0xff, 7]);
            let r = *self.s.pick(FREE);
            self.push(Inst::new(Andi, 31, r, 0, mask));
            self.push(Inst::new(Add, 31, 31, base, 0));
            b = 31;
            off = self.s.below(64) as i64 - 32;
        }
        let load = self.s.bool();
        let op = if load {
            *self.s.pick(if rv64 { &[Lb, Lbu, Lh, Lhu, Lw, Lwu, Ld, Ld] } else { &[Lb, Lbu, Lh, Lhu, Lw, Lw, Lw, Lb] })
        } else {
            *self.s.pick(if rv64 { &[Sb, Sh, Sw, Sd] } else { &[Sb, Sh, Sw, Sw] })
        };
        if load {
            let rd = *self.s.pick(FREE);
            self.push(Inst::new(op, rd, b, 0, off));
        } else {
            let r = *self.s.pick(ALLR);
            self.push(Inst::new(op, 0, b, r, off));
        }
    }
    fn amo(&mut self) {
        let c = self.p.c;
        if !c.a {
            return self.alu();
        }
        let base = *self.s.pick(&[3u8, 4, 8, 9]);
        let off = self.s.below(8) as i64 * 8 + if self.s.chance(1, 8) { self.s.below(8) as i64 } else { 0 };
        self.push(Inst::new(Op::Addi, 31, base, 0, off));
        let ops: Vec<&OpInfo> = OPS.iter().filter(|o| o.ext == Ext::A && avail(o, &c)).collect();
        let n = self.s.range(1, 3);
        for _ in 0..n {
            let o = ops[self.s.usize(ops.len())];
            let rd = *self.s.pick(FREE);
            let rs2 = *self.s.pick(ALLR);
            self.a.i(Inst::new(o.op, rd, 31, if o.fmt == Fmt::Lr { 0 } else { rs2 }, 0));
        }
    }
    fn mop(&mut self) {
        self.tags.insert("mop-idiom");
        let regs: Vec<u8> = FREE.iter().copied().filter(|r| *r != 0).collect();
        let v = mop_window(self.s, &self.p.c, &regs);
        // operands worth computing with
        if self.s.chance(1, 3) {
            let r = *self.s.pick(&regs);
            let val = self.s.val();
            let x = self.p.c.xlen;
            self.a.li(r, val, x);
        }
        for n in v {
            let c = self.s.chance(1, 4);
            self.a.ic(n, c);
        }
    }
    fn straight(&mut self, n: u64) {
        for _ in 0..n {
            self.budget -= 1;
            match self.s.weighted(&[10, 6, 2, if self.p.c.xlen == 64 { 3 } else { 1 }, 1]) {
                0 => self.alu(),
                1 => self.mem(),
                2 => self.amo(),
                3 => self.mop(),
                _ => {
                    let r = *self.s.pick(FREE);
                    let v = self.s.val();
                    let x = self.p.c.xlen;
                    if r != 0 {
                        self.a.li(r, v, x);
                    }
                }
            }
        }
    }
    fn cond(&mut self, l: usize) {
        use Op::*;
        let op = *self.s.pick(&[Beq, Bne, Blt, Bge, Bltu, Bgeu]);
        let rs1 = *self.s.pick(&[10u8, 11, 12, 13, 14, 15, 5, 22, 28, 0]);
        let rs2 = if self.s.chance(1, 2) { 0 } else { *self.s.pick(FREE) };
        let c = self.comp();
        self.a.items.push(It::Br(Inst::new(op, 0, rs1, rs2, 0), l, c));
    }
    fn stmt(&mut self, depth: usize) {
        if self.budget <= 0 {
            return self.straight(1);
        }
        self.budget -= 2;
        let host = if self.o.host { 2 } else { 0 };
        match self.s.weighted(&[8, 3, 3, 3, 2, 1, host, 1, 1, 1]) {
            0 => {
                let n = if self.s.chance(1, 6) {
                    self.tags.insert("long-block");
                    self.s.range(14, 40)
                } else {
                    self.s.range(1, 8)
                };
                self.straight(n)
            }
            1 => {
                // if / else
                let (l, e) = (self.a.label(), self.a.label());
                self.cond(l);
                self.block(depth + 1);
                if self.s.bool() {
                    let c = self.comp();
                    self.a.items.push(It::Br(Inst::new(Op::Jal, 0, 0, 0, 0), e, c));
                    self.a.lab(l);
                    self.block(depth + 1);
                    self.a.lab(e);
                } else {
                    self.a.lab(l);
                    self.a.lab(e);
                }
            }
            2 => {
                if depth >= 3 {
                    return self.straight(3);
                }
                self.tags.insert("loop");
                // registers s2.. count; saved around calls by being per-depth and per-function
                let cr = self.loop_reg(depth);
                let n = if self.s.chance(1, 10) { self.s.range(20, 60) } else { self.s.range(1, 6) };
                self.a.op(Op::Addi, cr, 0, 0, n as i64);
                let top = self.a.label();
                self.a.lab(top);
                self.block(depth + 1);
                self.push(Inst::new(Op::Addi, cr, cr, 0, -1));
                let c = self.comp();
                self.a.items.push(It::Br(Inst::new(Op::Bne, 0, cr, 0, 0), top, c));
            }
            3 => {
                // call a later function
                if self.cur + 1 < self.funcs.len() {
                    let k = self.cur + 1 + self.s.usize(self.funcs.len() - self.cur - 1);
                    let l = self.funcs[k];
                    self.tags.insert("call");
                    match self.s.below(4) {
                        0 => self.a.jmp(l, 1),
                        1 => self.a.items.push(It::Far(1, 1, l, false)),
                        2 => {
                            let h = if self.s.chance(2, 3) { 1 } else { 31 };
                            self.a.items.push(It::Far(h, 1, l, true))
                        }
                        _ => {
                            let abs = self.s.bool();
                            self.a.items.push(It::La(31, l, 0, abs));
                            self.push(Inst::new(Op::Jalr, 1, 31, 0, 0));
                        }
                    }
                } else {
                    self.straight(2);
                }
            }
            4 => {
                // computed jump into the middle of a block
                self.tags.insert("jump-into-block");
                let l = self.a.label();
                let n = self.s.range(2, 20);
                let k = self.s.below(n);
                self.a.items.push(It::La(31, l, 0, false));
                if depth > 0 && self.s.bool() {
                    // varies with the loop counter
                    let cr = self.loop_reg(depth - 1);
                    let m = if n > 15 { 15 } else if n > 7 { 7 } else if n > 3 { 3 } else { 1 };
                    self.a.op(Op::Andi, 30, cr, 0, m);
                    self.a.op(Op::Slli, 30, 30, 0, 2);
                    self.a.op(Op::Add, 31, 31, 30, 0);
                    self.a.op(Op::Jalr, 0, 31, 0, 0);
                } else {
                    self.a.op(Op::Jalr, 0, 31, 0, 4 * k as i64);
                }
                self.a.lab(l);
                for _ in 0..n {
                    let c = self.p.c;
                    let i = gen_alu(self.s, &c, FREE, ALLR);
                    self.a.i(i);
                }
            }
            5 => {
                // an instruction whose second half is an instruction of its own
                self.tags.insert("overlapping-code");
                let l = self.a.label();
                let h = loop {
                    // c.addi / c.li / c.mv-like words writing free registers
                    let rd = *self.s.pick(&[10u32, 11, 12, 13, 14, 15]);
                    let h = match self.s.below(3) {
                        0 => (1 | rd << 7) as u64 | self.s.range(1, 31) << 2,
                        1 => (0x4001 | rd << 7) as u64 | self.s.below(32) << 2,
                        _ => (0x8002 | rd << 7) as u64 | self.s.range(1, 31) << 2,
                    };
                    if decode16(h as u16, &self.p.c).is_some() {
                        break h as u32;
                    }
                };
                let rd = *self.s.pick(&[10u32, 11, 12, 13, 14, 15]);
                let w = h << 16 | self.s.below(16) as u32 * 4096 | rd << 7 | 0x37;
                self.cond(l);
                self.a.items.push(It::LabAt(l, 2));
                self.a.items.push(It::Raw(w.to_le_bytes().to_vec()));
            }
            6 => self.host_call(),
            7 => {
                let op = if self.o.ebreaks && self.s.bool() { Op::Ebreak } else if self.s.bool() { Op::Fencei } else { Op::Fence };
                self.push(Inst::new(op, 0, 0, 0, 0));
            }
            8 => {
                // stray alignment: shift everything after by two bytes, or to the end of a page
                if self.s.chance(1, 3) {
                    self.tags.insert("page-crossing-code");
                    let l = self.a.label();
                    self.a.jmp(l, 0);
                    let r = 4096 - self.s.range(1, 12) * 2;
                    self.a.items.push(It::Align(4096, r));
                    self.a.lab(l);
                } else {
                    self.a.items.push(It::Raw(vec![1, 0]));
                }
            }
            _ => {
                if self.fault_left > 0 && self.s.chance(1, 2) {
                    self.fault_left -= 1;
                    self.fault();
                } else {
                    self.straight(2);
                }
            }
        }
    }
    fn loop_reg(&self, depth: usize) -> u8 {
        18 + depth.min(3) as u8
    }
    fn host_call(&mut self) {
        let x = self.p.c.xlen;
        self.tags.insert("host-call");
        let k = self.s.range(2001, 2006);
        match k {
            2002 | 2004 | 2006 => {
                // address in a1 / a0
                let base = *self.s.pick(&[3u8, 4, 8, 9]);
                let off = self.s.below(256) as i64;
                let r = if k == 2002 { 11 } else { 10 };
                self.a.op(Op::Addi, r, base, 0, off);
            }
            _ => {}
        }
        self.a.li(17, k, x);
        self.a.op(Op::Ecall, 0, 0, 0, 0);
    }
    fn fault(&mut self) {
        use Op::*;
        let x = self.p.c.xlen;
        self.tags.insert("fault");
        match self.s.below(7) {
            0 => {
                // out of bound access
                let a = match self.s.below(4) {
                    0 => self.p.mem - self.s.range(0, 8),
                    1 => self.p.mem + self.s.below(1 << 20),
                    2 => self.s.u64(),
                    _ => 0u64.wrapping_sub(self.s.range(1, 16)),
                };
                self.a.li(31, a, x);
                let op = if x == 64 { *self.s.pick(&[Ld, Sd, Lw, Sw, Lb, Sb, Lh, Sh]) } else { *self.s.pick(&[Lw, Sw, Lb, Sb, Lh, Sh]) };
                let i = self.s.below(16) as i64 - 8;
                if op.is_load() {
                    self.a.op(op, 10, 31, 0, i)
                } else {
                    self.a.op(op, 0, 31, 10, i)
                }
            }
            1 => {
                // store into code
                self.a.items.push(It::La(31, self.exit, 0, false));
                let op = *self.s.pick(&[Sw, Sb, Sh]);
                self.a.op(op, 0, 31, 10, 0);
            }
            2 => {
                let w = match self.s.below(3) {
                    0 => vec![0, 0],
                    1 => 0xffffffffu32.to_le_bytes().to_vec(),
                    _ => (self.s.u64() as u32).to_le_bytes().to_vec(),
                };
                self.a.items.push(It::Raw(w));
            }
            3 => {
                let k = self.s.range(3000, 3005);
                self.a.li(17, k, x);
                self.a.op(Ecall, 0, 0, 0, 0);
            }
            4 => {
                // jump to data or outside
                let d = match self.s.below(4) {
                    0 => self.p.mem,
                    1 => self.p.mem - 2,
                    2 => self.s.u64(),
                    _ => *self.s.pick(&self.data.clone()),
                };
                self.a.li(31, d, x);
                self.a.op(Jalr, 0, 31, 0, 0);
            }
            5 => {
                if self.p.c.a {
                    let d = *self.s.pick(&[self.p.mem - 4, self.p.mem - 2, self.p.mem]);
                    self.a.li(31, d, x);
                    let op = *self.s.pick(&[AmoaddW, ScW, LrW]);
                    self.a.i(Inst::new(op, 10, 31, if op == LrW { 0 } else { 11 }, 0));
                } else {
                    self.a.items.push(It::Raw(vec![0, 0]));
                }
            }
            _ => {
                // store straddling into an executable page or over the end
                self.a.items.push(It::La(31, self.exit, 0, false));
                self.a.op(Srli, 31, 31, 0, 12);
                self.a.op(Slli, 31, 31, 0, 12);
                let d = -(self.s.range(1, 3) as i64);
                self.a.op(Sw, 0, 31, 10, d);
            }
        }
    }
    fn block(&mut self, depth: usize) {
        let n = self.s.range(1, 3);
        for _ in 0..n {
            self.stmt(depth);
        }
    }
}

/// A code window from the macro-fusion templates, possibly spoiled.
pub fn mop_window(s: &mut Src, c: &Cfg, regs: &[u8]) -> Vec<Inst> {
    use Op::*;
    let i = Inst::new;
    let r: Vec<u8> = (0..6).map(|_| *s.pick(regs)).collect();
    // mostly distinct registers
    let mut d: Vec<u8> = vec![];
    for x in r.iter() {
        let mut y = *x;
        let mut n = 0;
        while d.contains(&y) && n < 32 {
            let p = regs.iter().position(|q| *q == y).unwrap_or(0);
            y = regs[(p + 1) % regs.len()];
            n += 1;
        }
        d.push(y);
    }
    let q = if s.chance(1, 6) { &r } else { &d };
    let (a, b, e, f, g) = (q[0], q[1], q[2], q[3], q[4]);
    let mut v = match s.below(16) {
        0 => vec![i(Add, a, a, b, 0), i(Sltu, b, a, b, 0), i(Add, a, a, e, 0), i(Sltu, e, a, e, 0), i(Or, b, b, e, 0)],
        1 => vec![i(Sub, b, a, b, 0), i(Sltu, f, a, b, 0), i(Sub, a, b, e, 0), i(Sltu, e, b, a, 0), i(Or, b, e, f, 0)],
        2 => vec![i(Add, a, b, a, 0), i(Sltu, e, a, b, 0), i(Add, f, e, g, 0)],
        3 => vec![i(Add, a, b, e, 0), i(Sltu, b, a, b, 0), i(Add, f, b, g, 0)],
        4 => vec![i(Add, a, b, e, 0), i(Sltu, f, a, b, 0), i(Add, f, f, g, 0)],
        5 => vec![i(Add, a, b, e, 0), i(Sltu, f, a, b, 0)],
        6 => vec![i(Add, a, a, b, 0), i(Sltu, f, a, b, 0)],
        7 => vec![i(Sub, a, b, e, 0), i(Sltu, f, b, e, 0)],
        8 | 9 => {
            let hi = imm_u(s);
            let lo = imm12(s);
            vec![i(Lui, a, 0, 0, hi), i(if c.xlen == 64 { Addiw } else { Addi }, a, a, 0, lo)]
        }
        10 => {
            let hi = imm_u(s);
            let lo = imm12(s);
            vec![i(Auipc, a, 0, 0, hi), i(Addi, a, a, 0, lo)]
        }
        11 => vec![i(Mulh, a, b, e, 0), i(Mul, f, b, e, 0)],
        12 => vec![i(Mulhu, a, b, e, 0), i(Mul, f, b, e, 0)],
        13 => vec![i(Mulhsu, a, b, e, 0), i(Mul, f, b, e, 0)],
        14 => vec![i(Div, a, b, e, 0), i(Rem, f, b, e, 0)],
        _ => vec![i(Divu, a, b, e, 0), i(Remu, f, b, e, 0)],
    };
    if s.chance(2, 5) {
        // spoil one thing
        let k = s.usize(v.len());
        let r = if s.chance(1, 6) { 0 } else { *s.pick(regs) };
        match s.below(6) {
            0 => v[k].rd = r,
            1 if v[k].op.info().fmt != Fmt::U => v[k].rs1 = r,
            2 if v[k].op.info().fmt == Fmt::R => v[k].rs2 = r,
            3 if v[k].op.info().fmt == Fmt::R => {
                let t = v[k].rs1;
                v[k].rs1 = v[k].rs2;
                v[k].rs2 = t;
            }
            4 => v.insert(k, i(Addi, 0, 0, 0, 0)),
            _ => {
                v.truncate(k.max(1));
            }
        }
    }
    v
}

/// memories of several gigabytes, hardly touched
pub fn vast_mem(s: &mut Src, xlen: u32) -> u64 {
    let fr = 256 * 1024;
    *s.pick(&if xlen == 64 { [(1u64 << 31) + 16 * fr, (1 << 32) + 16 * fr, (1 << 32) + 16 * fr] } else { [(1u64 << 31) + 16 * fr, (1 << 32) - fr, (1 << 32) - 8 * fr] })
}
/// where to put code in a memory of several gigabytes: around 2^31 or 2^32
pub fn high_base(s: &mut Src, p: &PCfg) -> u64 {
    let tops: &[u64] = if p.mem > 1 << 32 && p.c.ver >= 2 { &[1 << 31, 1 << 32, 1 << 32] } else { &[1 << 31] };
    let t = *s.pick(tops);
    match s.below(4) {
        0 => t,
        1 => t - 0x1000,
        2 => t - 0x1000 * s.range(1, 8),
        _ => t + 0x1000 * s.below(16),
    }
}

/// A data address worth using as a base register: page and frame boundaries, stack, memory ends.
pub fn gen_base(s: &mut Src, p: &PCfg, code: (u64, u64), data: u64) -> u64 {
    let m = p.mem;
    for _ in 0..8 {
        let a = match s.below(7) {
            0 => data + s.below(64) * 8,
            1 => s.below(m / 4096) * 4096 + 4096 - s.below(64),
            2 => {
                if m > 256 * 1024 {
                    (1 + s.below(m / (256 * 1024) - 1)) * 256 * 1024 - s.below(64)
                } else {
                    m / 2
                }
            }
            3 => m - 2100 - s.below(64),
            4 => 2100 + s.below(1000),
            5 => m - m / 4 + s.below(4096),
            _ => s.below(m - 8192) + 4096,
        };
        let lo = a.saturating_sub(4096);
        let hi = a + 4096;
        if hi <= m && (hi <= code.0 || lo >= code.1) && a >= 2048 {
            return a;
        }
    }
    data + 2048
}

pub fn gen_program(s: &mut Src, p: PCfg, o: Opts) -> Prog {
    let x = p.c.xlen;
    let wild = s.below(100) < o.wild;
    let big = s.below(100) < o.big && p.mem >= 512 * 1024;
    let code_base = match s.below(4) {
        _ if p.mem > 1 << 30 => high_base(s, &p),
        0 => 0x10000,
        1 => 0x1000 * s.range(1, 8),
        2 => 0,
        _ => 0x10000 + s.below(8) * 0x1000,
    };
    let data_base = if big { code_base + 0x30000 } else { code_base + 0x10000 };
    let nfun = s.range(1, 4) as usize;
    let faults = (s.below(100) < o.faults) as u64;
    let mut g = G {
        s,
        p,
        o,
        a: Asm::default(),
        budget: 0,
        funcs: vec![],
        cur: 0,
        exit: 0,
        tags: Default::default(),
        fault_left: faults,
        data: vec![data_base],
    };
    g.exit = g.a.label();
    for _ in 0..nfun {
        let l = g.a.label();
        g.funcs.push(l);
    }
    // main: bases, some registers
    let code_end = data_base;
    let entry = g.a.label();
    g.a.lab(entry);
    g.a.op(Op::Addi, 2, 2, 0, -176);
    for r in [3u8, 4, 8, 9] {
        let b = gen_base(g.s, &p, (code_base, code_end), data_base);
        g.a.li(r, b, x);
    }
    let ninit = g.s.range(0, 6);
    for _ in 0..ninit {
        let r = *g.s.pick(&[5u8, 6, 7, 10, 11, 12, 13, 14, 15, 16, 22, 23, 28, 29, 30]);
        let v = g.s.val();
        g.a.li(r, v, x);
    }
    if wild {
        g.tags.insert("wild");
        // unstructured code: anything, with branches to random labels
        let n = g.s.range(5, 60);
        let ls: Vec<usize> = (0..n).map(|_| g.a.label()).collect();
        for k in 0..n as usize {
            g.a.lab(ls[k]);
            match g.s.weighted(&[6, 5, 2, 3, 2, 1]) {
                0 => {
                    let c = p.c;
                    let i = gen_alu(g.s, &c, ALLR, ALLR);
                    g.push(i);
                }
                1 => g.mem(),
                2 => g.amo(),
                3 => {
                    let l = ls[g.s.usize(n as usize)];
                    if g.s.chance(1, 3) {
                        let link = *g.s.pick(&[0u8, 1, 5]);
                        g.a.jmp(l, link);
                    } else {
                        g.cond(l);
                    }
                }
                4 => g.mop(),
                _ => {
                    let l = ls[g.s.usize(n as usize)];
                    let link = *g.s.pick(&[0u8, 1, 10, 31]);
                    g.a.items.push(It::La(31, l, 0, false));
                    let d = (g.s.below(8) as i64 - 4) * if g.s.bool() { 2 } else { 1 };
                    g.a.op(Op::Jalr, link, 31, 0, d);
                }
            }
        }
        let l = g.a.label();
        g.a.lab(l);
        g.a.lab(g.exit);
    } else {
        g.budget = o.size as i64;
        let n = g.s.range(2, 6);
        for _ in 0..n {
            g.stmt(0);
        }
        g.a.lab(g.exit);
    }
    if g.s.chance(1, 2) {
        g.push(Inst::new(Op::Andi, 10, 10, 0, 127));
    }
    g.a.op(Op::Addi, 17, 0, 0, 93);
    g.a.op(Op::Ecall, 0, 0, 0, 0);
    // functions
    for f in 0..nfun {
        if wild && f > 0 {
            g.a.lab(g.funcs[f]);
            g.a.op(Op::Jalr, 0, 1, 0, 0);
            continue;
        }
        if big {
            // functions that share trace slots with each other or with main
            g.tags.insert("slot-collision");
            let extra = if g.s.bool() { 0 } else { g.s.below(64) * 2 };
            let t = (f as u64 + 1) * 32768 + extra;
            if t < 0x28000 {
                g.a.items.push(It::PadTo(t));
            }
        } else if g.s.chance(1, 6) {
            g.a.items.push(It::Align(4096, 4096 - 2 * g.s.range(1, 10)));
        }
        g.a.lab(g.funcs[f]);
        g.cur = f;
        let (st, ld, w) = if x == 64 { (Op::Sd, Op::Ld, 8) } else { (Op::Sw, Op::Lw, 4) };
        g.push(Inst::new(Op::Addi, 2, 2, 0, -208));
        g.push(Inst::new(st, 0, 2, 1, 192));
        // loop counters are callee-saved
        for k in 0..4u8 {
            g.a.op(st, 0, 2, 18 + k, 192 - w * (k as i64 + 1));
        }
        g.budget = (o.size / 2) as i64;
        let n = g.s.range(1, 4);
        for _ in 0..n {
            g.stmt(1);
        }
        for k in 0..4u8 {
            g.a.op(ld, 18 + k, 2, 0, 192 - w * (k as i64 + 1));
        }
        g.push(Inst::new(ld, 1, 2, 0, 192));
        g.push(Inst::new(Op::Addi, 2, 2, 0, 208));
        g.push(Inst::new(Op::Jalr, 0, 1, 0, 0));
    }
    let (code, labels) = g.a.assemble(code_base, &p.c);
    let tags = g.tags;
    let entry_addr = labels[entry];
    let mut segs = vec![Seg { vaddr: code_base, memsz: code.len() as u64 + s.below(3) * 700, data: code.clone(), flags: PF_R | PF_X }];
    let dl = s.below(600);
    let mut data: Vec<u8> = vec![];
    for _ in 0..dl / 8 {
        data.extend_from_slice(&s.val().to_le_bytes());
    }
    let ro = s.chance(1, 5);
    // version 0 freezes writable segments against re-initialisation only; stores still work
    segs.push(Seg { vaddr: data_base + if p.c.ver == 0 { 0 } else { s.below(3) * 8 }, memsz: 8192, data, flags: if ro { PF_R } else { PF_R | PF_W } });
    let img = Image { bits: x, entry: entry_addr, segs };
    let args = if o.args && s.chance(1, 2) { gen_args(s) } else { vec![] };
    Prog { p, bytes: img.bytes(), args, code_base, code, labels: tags }
}

pub fn gen_args(s: &mut Src) -> Vec<Vec<u8>> {
    let n = s.below(6);
    (0..n)
        .map(|_| {
            let l = match s.below(4) {
                0 => 0,
                1 => s.below(8),
                2 => s.below(64),
                _ => s.below(400),
            };
            let b = s.u64();
            (0..l).map(|k| (b.rotate_left(k as u32 * 7) as u8).wrapping_add(k as u8)).collect()
        })
        .collect()
}
