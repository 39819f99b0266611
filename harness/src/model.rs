//! Reference machine: registers, paged memory with permissions, RV32/RV64 IMCAB execution, cycle
//! accounting with macro-op fusion, in the simplest possible style (decode afresh at every step).

use crate::isa::*;

pub const PAGE: u64 = 4096;
pub const FRAME: u64 = 256 * 1024;
pub const F_FREEZE: u8 = 1;
pub const F_EXEC: u8 = 2;
pub const F_DIRTY: u8 = 4;

/// Why an operation failed. Mirrors the error classes the VM documents.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fault {
    /// out of bound access [addr, addr+len)
    Oob(u64, u64),
    /// write to an executable page or fetch from a non-executable one
    Perm(u64),
    Frozen(u64),
    Unaligned,
    Invalid { pc: u64, bits: u32 },
    Ecall(u64),
    CyclesExceeded,
    CyclesOverflow,
    OutOfStack,
    External(String),
}

#[derive(Clone)]
pub struct Mem {
    pub data: Vec<u8>,
    pub flags: Vec<u8>,
    pub size: u64,
    /// permissions enforced
    pub wx: bool,
}

impl Mem {
    pub fn new(size: u64, wx: bool) -> Self {
        Mem { data: vec![0; size as usize], flags: vec![0; (size / PAGE) as usize], size, wx }
    }
    pub fn inb(&self, addr: u64, len: u64) -> Result<(), Fault> {
        match addr.checked_add(len) {
            Some(e) if addr < self.size && e <= self.size => Ok(()),
            _ => Err(Fault::Oob(addr, len)),
        }
    }
    fn pages(addr: u64, len: u64) -> std::ops::RangeInclusive<u64> {
        addr / PAGE..=(addr + len - 1) / PAGE
    }
    pub fn load(&self, addr: u64, len: u64) -> Result<u64, Fault> {
        self.inb(addr, len)?;
        let mut v = 0u64;
        for i in 0..len {
            v |= (self.data[(addr + i) as usize] as u64) << (8 * i);
        }
        Ok(v)
    }
    pub fn check_writable(&self, addr: u64, len: u64) -> Result<(), Fault> {
        self.inb(addr, len)?;
        if self.wx {
            for p in Self::pages(addr, len) {
                if self.flags[p as usize] & F_EXEC != 0 {
                    return Err(Fault::Perm(p));
                }
            }
        }
        Ok(())
    }
    fn mark(&mut self, addr: u64, len: u64) {
        for p in Self::pages(addr, len) {
            self.flags[p as usize] |= F_DIRTY;
        }
    }
    pub fn store(&mut self, addr: u64, len: u64, v: u64) -> Result<(), Fault> {
        self.check_writable(addr, len)?;
        self.mark(addr, len);
        for i in 0..len {
            self.data[(addr + i) as usize] = (v >> (8 * i)) as u8;
        }
        Ok(())
    }
    pub fn store_bytes(&mut self, addr: u64, b: &[u8]) -> Result<(), Fault> {
        if b.is_empty() {
            return Ok(());
        }
        self.check_writable(addr, b.len() as u64)?;
        self.mark(addr, b.len() as u64);
        self.data[addr as usize..addr as usize + b.len()].copy_from_slice(b);
        Ok(())
    }
    pub fn fill(&mut self, addr: u64, len: u64, v: u8) -> Result<(), Fault> {
        if len == 0 {
            return Ok(());
        }
        self.check_writable(addr, len)?;
        self.mark(addr, len);
        self.data[addr as usize..(addr + len) as usize].fill(v);
        Ok(())
    }
    pub fn load_bytes(&self, addr: u64, len: u64) -> Result<&[u8], Fault> {
        if len == 0 {
            return Ok(&[]);
        }
        self.inb(addr, len)?;
        Ok(&self.data[addr as usize..(addr + len) as usize])
    }
    pub fn fetch16(&self, addr: u64) -> Result<u32, Fault> {
        self.fetch(addr, 2)
    }
    pub fn fetch(&self, addr: u64, len: u64) -> Result<u32, Fault> {
        self.inb(addr, len)?;
        if self.wx {
            for p in Self::pages(addr, len) {
                if self.flags[p as usize] & F_EXEC == 0 {
                    return Err(Fault::Perm(p));
                }
            }
        }
        self.load(addr, len).map(|v| v as u32)
    }
    pub fn init_pages(&mut self, addr: u64, size: u64, flags: u8, src: &[u8], off: u64) -> Result<(), Fault> {
        if addr % PAGE != 0 || size % PAGE != 0 {
            return Err(Fault::Unaligned);
        }
        if addr > self.size || size > self.size || addr + size > self.size || off > size {
            return Err(Fault::Oob(addr, size));
        }
        for p in addr / PAGE..(addr + size) / PAGE {
            if self.flags[p as usize] & F_FREEZE != 0 {
                return Err(Fault::Frozen(p));
            }
        }
        let d = &mut self.data[addr as usize..(addr + size) as usize];
        d.fill(0);
        let n = src.len().min((size - off) as usize);
        d[off as usize..off as usize + n].copy_from_slice(&src[..n]);
        for p in addr / PAGE..(addr + size) / PAGE {
            self.flags[p as usize] |= flags | F_DIRTY;
        }
        Ok(())
    }
    /// instruction word at pc: 16 bits first, then 16 more for a full-size instruction
    pub fn inst_bits(&self, pc: u64) -> Result<u32, Fault> {
        // A full word is fetched at once unless its second half lies in another page.
        if pc % PAGE < PAGE - 2 {
            let w = self.fetch(pc, 4)?;
            Ok(if w & 3 == 3 { w } else { w & 0xffff })
        } else {
            let mut w = self.fetch(pc, 2)?;
            if w & 3 == 3 {
                w |= self.fetch(pc.wrapping_add(2), 2)? << 16;
            }
            Ok(w)
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cost {
    Zero,
    One,
    Published,
    /// arbitrary but fixed function of the operation kind
    Hash(u64),
    /// up to 2^k per operation
    Huge(u64),
}

pub fn published_cost(op: Op) -> u64 {
    use Op::*;
    match op {
        Jal | Jalr | Beq | Bne | Blt | Bge | Bltu | Bgeu => 3,
        Lb | Lbu | Lh | Lhu | Lw | Lwu => 3,
        Ld => 2,
        Sb | Sh | Sw => 3,
        Sd => 2,
        Ecall | Ebreak => 500,
        Mul | Mulh | Mulhu | Mulhsu | Mulw => 5,
        Div | Divu | Divw | Divuw | Rem | Remu | Remw | Remuw => 32,
        LrW | ScW | AmoswapW | AmoaddW | AmoxorW | AmoandW | AmoorW | AmominW | AmomaxW | AmominuW | AmomaxuW => 4,
        LrD | ScD | AmoswapD | AmoaddD | AmoxorD | AmoandD | AmoorD | AmominD | AmomaxD | AmominuD | AmomaxuD => 3,
        _ => 1,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Fused {
    Adc,
    Sbb,
    Adcs,
    Sbbs,
    Add3a,
    Add3b,
    Add3c,
    LoadImm,
    FarJumpAbs,
    FarJumpRel,
    WideMul,
    WideMulu,
    WideMulsu,
    WideDiv,
    WideDivu,
}
impl Fused {
    pub fn name(self) -> &'static str {
        match self {
            Fused::Adc => "ADC",
            Fused::Sbb => "SBB",
            Fused::Adcs => "ADCS",
            Fused::Sbbs => "SBBS",
            Fused::Add3a => "ADD3A",
            Fused::Add3b => "ADD3B",
            Fused::Add3c => "ADD3C",
            Fused::LoadImm => "CUSTOM_LOAD_IMM",
            Fused::FarJumpAbs => "FAR_JUMP_ABS",
            Fused::FarJumpRel => "FAR_JUMP_REL",
            Fused::WideMul => "WIDE_MUL",
            Fused::WideMulu => "WIDE_MULU",
            Fused::WideMulsu => "WIDE_MULSU",
            Fused::WideDiv => "WIDE_DIV",
            Fused::WideDivu => "WIDE_DIVU",
        }
    }
    pub fn published_cost(self) -> u64 {
        match self {
            Fused::WideMul | Fused::WideMulu | Fused::WideMulsu => 5,
            Fused::WideDiv | Fused::WideDivu => 32,
            Fused::FarJumpAbs | Fused::FarJumpRel => 3,
            _ => 1,
        }
    }
    pub fn ends_block(self) -> bool {
        matches!(self, Fused::FarJumpAbs | Fused::FarJumpRel)
    }
}

pub fn hashed(k: u64, name: &str) -> u64 {
    crate::src::mix(k, crate::src::hash_str(name)) % 40
}
pub fn huge(k: u64, name: &str) -> u64 {
    crate::src::mix(k, crate::src::hash_str(name)) & ((1 << k) - 1)
}
pub fn op_cost(c: Cost, op: Op) -> u64 {
    match c {
        Cost::Zero => 0,
        Cost::One => 1,
        Cost::Published => published_cost(op),
        Cost::Hash(k) => hashed(k, op.name()),
        Cost::Huge(k) => huge(k, op.name()),
    }
}
pub fn fused_cost(c: Cost, f: Fused) -> u64 {
    match c {
        Cost::Zero => 0,
        Cost::One => 1,
        Cost::Published => f.published_cost(),
        Cost::Hash(k) => hashed(k, f.name()),
        Cost::Huge(k) => huge(k, f.name()),
    }
}

/// What a step did
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ev {
    None,
    Exit(i8),
    Ecall(u64),
    Ebreak,
}

#[derive(Clone)]
pub struct Model {
    pub x: [u64; 32],
    pub pc: u64,
    pub xlen: u32,
    pub ver: u32,
    pub mop: bool,
    pub cfg: Cfg,
    pub mem: Mem,
    pub lr: u64,
    pub cycles: u64,
    pub max_cycles: u64,
    pub cost: Cost,
    pub steps: u64,
    /// executed fused groups (only for accounting; execution is always one by one)
    pub fused: Vec<(u64, Fused)>,
    /// execute fused far jumps the way the VM documents them for old versions
    pub far_jump_as_unit: bool,
    /// instructions left in the fused group being executed
    pub grp_left: usize,
    pub exec_counts: Vec<u32>,
    /// destination and old value of an atomic that faulted on its store: an engine may or may not have
    /// written the destination
    pub fault_rd: Option<(u8, u64)>,
}

fn mulhu64(a: u64, b: u64) -> u64 {
    ((a as u128 * b as u128) >> 64) as u64
}
fn clmul128(a: u64, b: u64, n: u32) -> u128 {
    let mut r = 0u128;
    for i in 0..n {
        if b >> i & 1 == 1 {
            r ^= (a as u128) << i;
        }
    }
    r
}

impl Model {
    pub fn new(xlen: u32, ver: u32, isa: u8, mem: Mem) -> Self {
        Model {
            x: [0; 32],
            pc: 0,
            xlen,
            ver,
            mop: isa & 2 != 0,
            cfg: Cfg { xlen, ver, a: isa & 4 != 0, b: isa & 1 != 0 },
            mem,
            lr: u64::MAX,
            cycles: 0,
            max_cycles: u64::MAX,
            cost: Cost::Zero,
            steps: 0,
            fused: vec![],
            far_jump_as_unit: true,
            grp_left: 0,
            exec_counts: vec![],
            fault_rd: None,
        }
    }
    fn m(&self, v: u64) -> u64 {
        if self.xlen == 32 {
            v & 0xffff_ffff
        } else {
            v
        }
    }
    fn s(&self, v: u64) -> i64 {
        if self.xlen == 32 {
            v as i32 as i64
        } else {
            v as i64
        }
    }
    pub fn set(&mut self, r: u8, v: u64) {
        if r != 0 {
            self.x[r as usize] = self.m(v);
        }
    }
    pub fn fetch_decode(&self, pc: u64) -> Result<(Inst, u32), Fault> {
        if pc >= self.mem.size {
            return Err(Fault::Oob(pc, 2));
        }
        let bits = self.mem.inst_bits(pc)?;
        match decode(bits, &self.cfg) {
            Some(n) => Ok((n, bits)),
            None => Err(Fault::Invalid { pc, bits }),
        }
    }

    /// The fused group starting at pc, with its instruction count, as documented for this version.
    pub fn fuse_at(&self, pc: u64) -> Option<(Fused, usize)> {
        if !self.mop || self.ver == 0 {
            return None;
        }
        let mut v: Vec<Inst> = vec![];
        let mut p = pc;
        for _ in 0..5 {
            match self.fetch_decode(p) {
                Ok((n, _)) => {
                    p = p.wrapping_add(n.len as u64);
                    v.push(n);
                }
                Err(_) => break,
            }
        }
        fuse(&v, self.ver, pc, self.xlen)
    }

    pub fn charge(&mut self, c: u64) -> Result<(), Fault> {
        let n = self.cycles.checked_add(c).ok_or(Fault::CyclesOverflow)?;
        if n > self.max_cycles {
            return Err(Fault::CyclesExceeded);
        }
        self.cycles = n;
        Ok(())
    }

    /// One instruction (or the first of a fused group: the group's cost is charged at its head).
    /// On Err the registers, memory and pc are as before, save for a partially effective atomic
    /// (its rd) and the pc, which moves past the faulting instruction in the VM.
    pub fn step(&mut self) -> Result<Ev, Fault> {
        self.fault_rd = None;
        let (n, _) = self.fetch_decode(self.pc)?;
        if self.grp_left > 0 {
            self.grp_left -= 1;
        } else {
            let c = if let Some((f, k)) = self.fuse_at(self.pc) {
                self.fused.push((self.pc, f));
                self.grp_left = k - 1;
                let c = fused_cost(self.cost, f);
                if f.ends_block() && self.far_jump_as_unit {
                    self.grp_left = 0;
                    self.charge(c)?;
                    let (n2, _) = self.fetch_decode(self.pc.wrapping_add(n.len as u64))?;
                    // A far jump is one operation with a 32-bit displacement or target: version 1
                    // leaves the intermediate register alone.
                    let sum = (n.imm as i32).wrapping_add(n2.imm as i32) as i64 as u64;
                    let link = self.pc.wrapping_add((n.len + n2.len) as u64);
                    let t = if f == Fused::FarJumpAbs { sum } else { self.pc.wrapping_add(sum) };
                    self.set(1, link);
                    self.pc = self.m(t) & !1;
                    self.steps += 2;
                    return Ok(Ev::None);
                }
                c
            } else {
                op_cost(self.cost, n.op)
            };
            if let Err(e) = self.charge(c) {
                self.grp_left = 0;
                return Err(e);
            }
        }
        let r = self.exec(&n);
        self.steps += 1;
        r
    }

    /// registers and pc only; executes over the memory of another machine (which must not be written)
    pub fn clone_small(&self, x: &[u64; 32], pc: u64) -> Model {
        let mut m = Model::new(self.xlen, self.ver, 0, Mem::new(0, true));
        m.cfg = self.cfg;
        m.pc = pc;
        for i in 1..32 {
            m.set(i, x[i as usize]);
        }
        m
    }
    pub fn step_in(&mut self, mem: &Mem) -> Result<Ev, Fault> {
        if self.pc >= mem.size {
            return Err(Fault::Oob(self.pc, 2));
        }
        let bits = mem.inst_bits(self.pc)?;
        match decode(bits, &self.cfg) {
            Some(n) => self.exec(&n),
            None => Err(Fault::Invalid { pc: self.pc, bits }),
        }
    }

    pub fn exec(&mut self, n: &Inst) -> Result<Ev, Fault> {
        use Op::*;
        let xl = self.xlen as u64;
        let pc = self.pc;
        let a = self.x[n.rs1 as usize];
        let b = self.x[n.rs2 as usize];
        let (sa, sb) = (self.s(a), self.s(b));
        let imm = n.imm as u64;
        let mut next = self.m(pc.wrapping_add(n.len as u64));
        let addr = self.m(a.wrapping_add(imm));
        let sh = |v: u64| v & (xl - 1);
        let w32 = |v: u64| v as i32 as i64 as u64;
        // like the VM: the pc is past the instruction even when it faults
        self.pc = next;
        let mut ev = Ev::None;
        let mut rd: Option<u64> = None;
        match n.op {
            Lui => rd = Some(imm),
            Auipc => rd = Some(pc.wrapping_add(imm)),
            Jal => {
                rd = Some(next);
                next = self.m(pc.wrapping_add(imm));
            }
            Jalr => {
                let link = next;
                if self.ver == 0 {
                    // version 0 writes the link before reading the base
                    self.set(n.rd, link);
                    let base = self.x[n.rs1 as usize];
                    next = self.m(base.wrapping_add(imm)) & !1;
                } else {
                    next = addr & !1;
                    rd = Some(link);
                }
            }
            Beq | Bne | Blt | Bge | Bltu | Bgeu => {
                let t = match n.op {
                    Beq => a == b,
                    Bne => a != b,
                    Blt => sa < sb,
                    Bge => sa >= sb,
                    Bltu => a < b,
                    _ => a >= b,
                };
                if t {
                    next = self.m(pc.wrapping_add(imm));
                }
            }
            Lb | Lh | Lw | Ld | Lbu | Lhu | Lwu => {
                let w = n.op.mem_width();
                if self.ver == 0 {
                    // version 0 cannot read the last byte of memory
                    match addr.checked_add(w) {
                        Some(e) if e < self.mem.size => {}
                        _ => return Err(Fault::Oob(addr, w)),
                    }
                }
                let v = self.mem.load(addr, w)?;
                rd = Some(match n.op {
                    Lb => v as i8 as i64 as u64,
                    Lh => v as i16 as i64 as u64,
                    Lw => v as i32 as i64 as u64,
                    _ => v,
                });
            }
            Sb | Sh | Sw | Sd => {
                self.mem.store(addr, n.op.mem_width(), b)?;
            }
            Addi => rd = Some(a.wrapping_add(imm)),
            Slti => rd = Some((sa < n.imm) as u64),
            Sltiu => rd = Some((a < self.m(imm)) as u64),
            Xori => rd = Some(a ^ imm),
            Ori => rd = Some(a | imm),
            Andi => rd = Some(a & imm),
            Slli => rd = Some(a << sh(imm)),
            Srli => rd = Some(a >> sh(imm)),
            Srai => rd = Some((sa >> sh(imm)) as u64),
            Add => rd = Some(a.wrapping_add(b)),
            Sub => rd = Some(a.wrapping_sub(b)),
            Sll => rd = Some(a << sh(b)),
            Slt => rd = Some((sa < sb) as u64),
            Sltu => rd = Some((a < b) as u64),
            Xor => rd = Some(a ^ b),
            Srl => rd = Some(a >> sh(b)),
            Sra => rd = Some((sa >> sh(b)) as u64),
            Or => rd = Some(a | b),
            And => rd = Some(a & b),
            Fence | Fencei => {}
            Ecall => {
                let code = self.x[17];
                ev = if code == 93 { Ev::Exit(self.x[10] as i8) } else { Ev::Ecall(code) };
            }
            Ebreak => ev = Ev::Ebreak,
            Addiw => rd = Some(w32(a.wrapping_add(imm))),
            Slliw => rd = Some(w32(a << (imm & 31))),
            Srliw => rd = Some(w32(((a as u32) >> (imm & 31)) as u64)),
            Sraiw => rd = Some(((a as i32) >> (imm & 31)) as i64 as u64),
            Addw => rd = Some(w32(a.wrapping_add(b))),
            Subw => rd = Some(w32(a.wrapping_sub(b))),
            Sllw => rd = Some(w32(a << (b & 31))),
            Srlw => rd = Some(w32(((a as u32) >> (b & 31)) as u64)),
            Sraw => rd = Some(((a as i32) >> (b & 31)) as i64 as u64),
            Mul => rd = Some(a.wrapping_mul(b)),
            Mulh => rd = Some(((sa as i128 * sb as i128) >> xl) as u64),
            Mulhsu => rd = Some(((sa as i128).wrapping_mul(b as i128) >> xl) as u64),
            Mulhu => rd = Some(if xl == 64 { mulhu64(a, b) } else { (a * b) >> 32 }),
            Div => {
                rd = Some(if b == 0 {
                    u64::MAX
                } else if self.xlen == 32 {
                    (sa as i32).wrapping_div(sb as i32) as i64 as u64
                } else {
                    sa.wrapping_div(sb) as u64
                })
            }
            Divu => rd = Some(if b == 0 { u64::MAX } else { a / b }),
            Rem => {
                rd = Some(if b == 0 {
                    a
                } else if self.xlen == 32 {
                    (sa as i32).wrapping_rem(sb as i32) as i64 as u64
                } else {
                    sa.wrapping_rem(sb) as u64
                })
            }
            Remu => rd = Some(if b == 0 { a } else { a % b }),
            Mulw => rd = Some(w32((a as u32).wrapping_mul(b as u32) as u64)),
            Divw => {
                rd = Some(if b as u32 == 0 { u64::MAX } else { (a as i32).wrapping_div(b as i32) as i64 as u64 })
            }
            Divuw => rd = Some(if b as u32 == 0 { u64::MAX } else { w32((a as u32 / b as u32) as u64) }),
            Remw => rd = Some(if b as u32 == 0 { w32(a) } else { (a as i32).wrapping_rem(b as i32) as i64 as u64 }),
            Remuw => rd = Some(if b as u32 == 0 { w32(a) } else { w32((a as u32 % b as u32) as u64) }),
            LrW | LrD => {
                let w = n.op.mem_width();
                let v = self.mem.load(a, w)?;
                self.lr = a;
                rd = Some(if w == 4 { w32(v) } else { v });
            }
            ScW | ScD => {
                let w = n.op.mem_width();
                let ok = self.lr == a;
                // the location must be readable and writable whether or not the store happens
                self.mem.load(a, w)?;
                self.mem.check_writable(a, w)?;
                if ok {
                    self.mem.store(a, w, b)?;
                } else {
                    self.mem.mark(a, w);
                }
                self.lr = u64::MAX;
                rd = Some(!ok as u64);
            }
            _ if n.op.is_atomic() => {
                let w = n.op.mem_width();
                let old = self.mem.load(a, w)?;
                let old = if w == 4 { w32(old) } else { old };
                let (o32, b32) = (old as i32, b as i32);
                let new = match n.op {
                    AmoswapW | AmoswapD => b,
                    AmoaddW | AmoaddD => old.wrapping_add(b),
                    AmoxorW | AmoxorD => old ^ b,
                    AmoandW | AmoandD => old & b,
                    AmoorW | AmoorD => old | b,
                    AmominW => o32.min(b32) as u64,
                    AmomaxW => o32.max(b32) as u64,
                    AmominuW => (o32 as u32).min(b32 as u32) as u64,
                    AmomaxuW => (o32 as u32).max(b32 as u32) as u64,
                    AmominD => (old as i64).min(b as i64) as u64,
                    AmomaxD => (old as i64).max(b as i64) as u64,
                    AmominuD => old.min(b),
                    AmomaxuD => old.max(b),
                    _ => unreachable!(),
                };
                let before = self.x[n.rd as usize];
                self.set(n.rd, old);
                if let Err(e) = self.mem.store(a, w, new) {
                    self.fault_rd = Some((n.rd, before));
                    return Err(e);
                }
            }
            Adduw => rd = Some((a as u32 as u64).wrapping_add(b)),
            Andn => rd = Some(a & !b),
            Orn => rd = Some(a | !b),
            Xnor => rd = Some(!(a ^ b)),
            Bclr => rd = Some(a & !(1 << sh(b))),
            Bclri => rd = Some(a & !(1 << sh(imm))),
            Bext => rd = Some(a >> sh(b) & 1),
            Bexti => rd = Some(a >> sh(imm) & 1),
            Binv => rd = Some(a ^ 1 << sh(b)),
            Binvi => rd = Some(a ^ 1 << sh(imm)),
            Bset => rd = Some(a | 1 << sh(b)),
            Bseti => rd = Some(a | 1 << sh(imm)),
            Clmul => rd = Some(clmul128(a, b, self.xlen) as u64),
            Clmulh => rd = Some((clmul128(a, b, self.xlen) >> xl) as u64),
            Clmulr => rd = Some((clmul128(a, b, self.xlen) >> (xl - 1)) as u64),
            Clz => rd = Some(if xl == 64 { a.leading_zeros() } else { (a as u32).leading_zeros() } as u64),
            Ctz => rd = Some(if a == 0 { xl } else { a.trailing_zeros() as u64 }),
            Cpop => rd = Some(a.count_ones() as u64),
            Clzw => rd = Some((a as u32).leading_zeros() as u64),
            Ctzw => rd = Some((a as u32).trailing_zeros() as u64),
            Cpopw => rd = Some((a as u32).count_ones() as u64),
            Max => rd = Some(if sa < sb { b } else { a }),
            Maxu => rd = Some(a.max(b)),
            Min => rd = Some(if sa < sb { a } else { b }),
            Minu => rd = Some(a.min(b)),
            Orcb => {
                let mut v = 0u64;
                for i in 0..8 {
                    if a >> (8 * i) & 0xff != 0 {
                        v |= 0xff << (8 * i);
                    }
                }
                rd = Some(v);
            }
            Rev8 => rd = Some(if xl == 64 { a.swap_bytes() } else { (a as u32).swap_bytes() as u64 }),
            Rol => rd = Some(self.rot(a, sh(b), true)),
            Ror => rd = Some(self.rot(a, sh(b), false)),
            Rori => rd = Some(self.rot(a, sh(imm), false)),
            Rolw => rd = Some(w32((a as u32).rotate_left(b as u32 & 31) as u64)),
            Rorw => rd = Some(w32((a as u32).rotate_right(b as u32 & 31) as u64)),
            Roriw => rd = Some(w32((a as u32).rotate_right(imm as u32 & 31) as u64)),
            Sextb => rd = Some(a as i8 as i64 as u64),
            Sexth => rd = Some(a as i16 as i64 as u64),
            Zexth => rd = Some(a as u16 as u64),
            Sh1add => rd = Some((a << 1).wrapping_add(b)),
            Sh2add => rd = Some((a << 2).wrapping_add(b)),
            Sh3add => rd = Some((a << 3).wrapping_add(b)),
            Sh1adduw => rd = Some(((a as u32 as u64) << 1).wrapping_add(b)),
            Sh2adduw => rd = Some(((a as u32 as u64) << 2).wrapping_add(b)),
            Sh3adduw => rd = Some(((a as u32 as u64) << 3).wrapping_add(b)),
            Slliuw => rd = Some((a as u32 as u64) << (imm & 63)),
            _ => unreachable!(),
        }
        if let Some(v) = rd {
            self.set(n.rd, v);
        }
        self.pc = next;
        Ok(ev)
    }

    fn rot(&self, a: u64, k: u64, left: bool) -> u64 {
        let k = k as u32;
        match (self.xlen, left) {
            (64, true) => a.rotate_left(k),
            (64, false) => a.rotate_right(k),
            (_, true) => (a as u32).rotate_left(k) as u64,
            (_, false) => (a as u32).rotate_right(k) as u64,
        }
    }
}

/// Documented fusion rules over the decoded window `v` starting at `pc`.
pub fn fuse(v: &[Inst], ver: u32, pc: u64, xlen: u32) -> Option<(Fused, usize)> {
    use Op::*;
    let h = v.first()?;
    let g = |i: usize| v.get(i);
    let v2 = ver >= 2;
    match h.op {
        Add => {
            // add a,a,b / sltu b,a,b / add a,a,c / sltu c,a,c / or b,b,c
            if v.len() >= 5 {
                let (n, k, b2, t) = (&v[1], &v[2], &v[3], &v[4]);
                let (a, b) = (h.rd, h.rs2);
                let c = k.rs2;
                if h.rd == h.rs1
                    && h.rs1 != h.rs2
                    && n.op == Sltu
                    && (n.rd, n.rs1, n.rs2) == (b, a, b)
                    && k.op == Add
                    && (k.rd, k.rs1) == (a, a)
                    && c != a
                    && c != b
                    && b2.op == Sltu
                    && (b2.rd, b2.rs1, b2.rs2) == (c, a, c)
                    && t.op == Or
                    && (t.rd, t.rs1, t.rs2) == (b, b, c)
                    && a != 0
                    && b != 0
                    && c != 0
                {
                    return Some((Fused::Adc, 5));
                }
            }
            if v2 && v.len() >= 3 {
                let (n, k) = (&v[1], &v[2]);
                if n.op == Sltu && k.op == Add {
                    // ADD3A: add r0,r1,r0 / sltu r2,r0,r1 / add r3,r2,r4
                    let r0 = h.rd;
                    if h.rs2 == r0 {
                        let (r1, r2, r4) = (h.rs1, n.rd, k.rs2);
                        if r0 != r1
                            && n.rs1 == r0
                            && n.rs2 == r1
                            && k.rs1 == r2
                            && r0 != r4
                            && r2 != r4
                            && r0 != 0
                            && r2 != 0
                        {
                            return Some((Fused::Add3a, 3));
                        }
                    }
                    // ADD3B: add r0,r1,r2 / sltu r1,r0,r1 / add r3,r1,r4
                    {
                        let (r1, r4) = (h.rs1, k.rs2);
                        if r0 != r1
                            && (n.rd, n.rs1, n.rs2) == (r1, r0, r1)
                            && k.rs1 == r1
                            && r0 != r4
                            && r1 != r4
                            && r0 != 0
                            && r1 != 0
                        {
                            return Some((Fused::Add3b, 3));
                        }
                    }
                    // ADD3C: add r0,r1,r2 / sltu r3,r0,r1 / add r3,r3,r4
                    {
                        let (r1, r3, r4) = (h.rs1, n.rd, k.rs2);
                        if r0 != r1
                            && (n.rs1, n.rs2) == (r0, r1)
                            && (k.rd, k.rs1) == (r3, r3)
                            && r0 != r4
                            && r3 != r4
                            && r0 != 0
                            && r3 != 0
                        {
                            return Some((Fused::Add3c, 3));
                        }
                    }
                }
            }
            if v2 {
                if let Some(n) = g(1) {
                    // ADCS: add r0,r1,r2 / sltu r3,r0,r1 (the addition's operands may be swapped)
                    let (rs1, rs2) = if h.rd == h.rs1 && h.rd != h.rs2 { (h.rs2, h.rs1) } else { (h.rs1, h.rs2) };
                    let _ = rs2;
                    if n.op == Sltu && n.rs1 == h.rd && n.rs2 == rs1 && h.rd != rs1 && h.rd != 0 {
                        return Some((Fused::Adcs, 2));
                    }
                }
            }
            None
        }
        Sub => {
            // sub b',a,b' / sltu t,a,x / sub a',b',c ...
            if v.len() >= 5 {
                let (n, k, b2, t) = (&v[1], &v[2], &v[3], &v[4]);
                let (r1, r2) = (h.rs1, h.rs2);
                if h.rd == r2
                    && r1 != r2
                    && n.op == Sltu
                    && n.rs1 == r1
                    && n.rs2 == r2
                    && n.rd != r1
                    && n.rd != r2
                    && k.op == Sub
                    && k.rd == r1
                    && k.rs1 == r2
                    && k.rs2 != r1
                    && k.rs2 != r2
                    && k.rs2 != n.rd
                    && b2.op == Sltu
                    && b2.rd == k.rs2
                    && b2.rs1 == r2
                    && b2.rs2 == r1
                    && t.op == Or
                    && t.rd == h.rd
                    && t.rs1 == b2.rd
                    && t.rs2 == n.rd
                    && r1 != 0
                    && r2 != 0
                    && n.rd != 0
                    && k.rs2 != 0
                {
                    return Some((Fused::Sbb, 5));
                }
            }
            if v2 {
                if let Some(n) = g(1) {
                    // SBBS: sub r0,r1,r2 / sltu r3,r1,r2
                    if n.op == Sltu && n.rs1 == h.rs1 && n.rs2 == h.rs2 && h.rd != h.rs1 && h.rd != h.rs2 {
                        return Some((Fused::Sbbs, 2));
                    }
                }
            }
            None
        }
        Lui => {
            let n = g(1)?;
            match n.op {
                Jalr => {
                    let ok = if v2 { n.rs1 == h.rd && h.rd == 1 && n.rd == 1 } else { n.rs1 == h.rd && n.rd == 1 };
                    if ok {
                        Some((Fused::FarJumpAbs, 2))
                    } else {
                        None
                    }
                }
                Addiw if n.rs1 == h.rd && n.rd == h.rd => Some((Fused::LoadImm, 2)),
                _ => None,
            }
        }
        Auipc => {
            let n = g(1)?;
            match n.op {
                Jalr => {
                    let ok = if v2 {
                        n.rs1 == h.rd && h.rd == 1 && n.rd == 1 && (h.imm as i32).checked_add(n.imm as i32).is_some()
                    } else {
                        n.rs1 == h.rd && n.rd == 1
                    };
                    if ok {
                        Some((Fused::FarJumpRel, 2))
                    } else {
                        None
                    }
                }
                Addi if v2 && n.rs1 == h.rd && n.rd == h.rd => {
                    let _ = xlen;
                    let p = i32::try_from(pc).ok()?;
                    (h.imm as i32).checked_add(n.imm as i32)?.checked_add(p)?;
                    Some((Fused::LoadImm, 2))
                }
                _ => None,
            }
        }
        Mulh | Mulhu | Mulhsu | Div | Divu => {
            let n = g(1)?;
            let (want, f) = match h.op {
                Mulh => (Mul, Fused::WideMul),
                Mulhu => (Mul, Fused::WideMulu),
                Mulhsu => (Mul, Fused::WideMulsu),
                Div => (Rem, Fused::WideDiv),
                _ => (Remu, Fused::WideDivu),
            };
            if n.op == want
                && h.rd != h.rs1
                && h.rd != h.rs2
                && h.rd != n.rd
                && (n.rs1, n.rs2) == (h.rs1, h.rs2)
            {
                Some((f, 2))
            } else {
                None
            }
        }
        _ => None,
    }
}
