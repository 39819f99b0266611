//! On-line generation: instructions are drawn while the reference machine executes them, so operands,
//! addresses and jump targets are chosen knowing the machine state, and any control flow is possible.

use crate::exec::*;
use crate::gen::*;
use crate::isa::*;
use crate::model::*;
use crate::src::Src;
use crate::vm::*;

#[derive(Clone)]
pub struct Setup {
    pub p: PCfg,
    pub regs: [u64; 32],
    pub pc: u64,
    pub code_base: u64,
    pub code: Vec<u8>,
    pub blobs: Vec<(u64, Vec<u8>)>,
    pub cost: Cost,
    pub max_cycles: u64,
}

impl Setup {
    pub fn model(&self) -> Model {
        self.model_on(new_model(&self.p))
    }
    pub fn model_on(&self, mut m: Model) -> Model {
        m.cost = self.cost;
        m.max_cycles = self.max_cycles;
        m.mem.init_pages(self.code_base, self.code.len() as u64, F_EXEC | F_FREEZE, &self.code, 0).expect("setup code");
        for (a, b) in &self.blobs {
            m.mem.store_bytes(*a, b).expect("setup data");
        }
        for i in 1..32 {
            m.set(i, self.regs[i as usize]);
        }
        m.pc = self.pc;
        m
    }
    pub fn apply(&self, sm: &mut dyn SM) -> Result<(), String> {
        sm.init_pages(self.code_base, self.code.len() as u64, F_EXEC | F_FREEZE, Some(Bytes::from(self.code.clone())), 0)
            .map_err(|e| format!("setup code: {e:?}"))?;
        for (a, b) in &self.blobs {
            sm.store_bytes(*a, b).map_err(|e| format!("setup data: {e:?}"))?;
        }
        for i in 1..32 {
            sm.set_reg(i, self.regs[i]);
        }
        sm.set_pc(self.pc);
        Ok(())
    }
    pub fn vm(&self, k: Kind) -> Result<Box<dyn Vm>, String> {
        let mut c = vm_cfg(k, &self.p).cycles(self.max_cycles, self.cost);
        c.syscalls.push(host_sys());
        self.vm_with(c)
    }
    pub fn vm_with(&self, c: VmCfg) -> Result<Box<dyn Vm>, String> {
        let mut vm = build(c);
        self.apply(vm.sm())?;
        Ok(vm)
    }
    pub fn render(&self) -> String {
        let mut o = format!("{} pc={:#x}: ", self.p, self.pc);
        let mut m = self.model();
        for _ in 0..40 {
            match m.fetch_decode(m.pc) {
                Ok((n, _)) => o.push_str(&format!("{:x}: {n}; ", m.pc)),
                Err(e) => {
                    o.push_str(&format!("{:x}: {e:?}", m.pc));
                    break;
                }
            }
            match m.step() {
                Ok(Ev::Exit(_)) | Err(_) => break,
                Ok(Ev::Ecall(c)) => {
                    if model_ecall(&mut m, c).is_err() {
                        break;
                    }
                }
                _ => {}
            }
        }
        o
    }
}

#[derive(Clone, Copy)]
pub struct On {
    pub steps: u64,
    /// weights: any op uniformly, random compressed word, memory op, branch/jump, atomic, mop window, ecall
    pub w: [u32; 7],
    /// percent of memory operations aimed at the edges of memory, code pages, or outside
    pub wild_mem: u64,
    /// percent of cases that end with a deliberate fault
    pub fault: u64,
    /// percent chance per step that the code continues elsewhere (jump) to spread the layout
    pub hop: u64,
    pub mem: Option<u64>,
    /// keep generating after a fault, as if the host let the program continue, up to that many times
    pub go_on: usize,
}
impl Default for On {
    fn default() -> Self {
        On { steps: 40, w: [10, 4, 4, 2, 1, 0, 0], wild_mem: 1, fault: 0, hop: 2, mem: None, go_on: 0 }
    }
}

pub const CORNER: [u64; 12] = [
    0,
    1,
    u64::MAX,
    0x8000_0000_0000_0000,
    0x7fff_ffff_ffff_ffff,
    0xffff_ffff_8000_0000,
    0x7fff_ffff,
    0x8000_0000,
    0xffff_ffff,
    31,
    32,
    63,
];
pub fn operand(s: &mut Src) -> u64 {
    if s.chance(2, 5) {
        *s.pick(&CORNER)
    } else {
        s.val()
    }
}

pub struct OnGen<'a> {
    pub s: &'a mut Src,
    pub m: Model,
    pub set: Setup,
    used: Vec<bool>,
    pub o: On,
    pub windows: u64,
    pub faulted: bool,
    /// where the program goes on after each fault
    pub conts: Vec<u64>,
}

pub const CODE_LEN: u64 = 0x8000;

impl<'a> OnGen<'a> {
    pub fn new(s: &'a mut Src, p: PCfg, o: On) -> Self {
        let code_base = if p.mem > 1 << 30 { high_base(s, &p) } else { *s.pick(&[0x10000u64, 0x1000, 0, 0x8000]) };
        let mut regs = [0u64; 32];
        for r in regs.iter_mut().skip(1) {
            *r = operand(s);
            if p.c.xlen == 32 {
                *r &= 0xffff_ffff;
            }
        }
        let mut blobs = vec![];
        for _ in 0..s.below(4) {
            let a = data_addr(s, p.mem, code_base, 64);
            let n = s.range(1, 8);
            let mut b = vec![];
            for _ in 0..n {
                b.extend_from_slice(&s.val().to_le_bytes());
            }
            blobs.push((a, b));
        }
        let pc = code_base + match s.below(4) {
            0 => 0,
            1 => 4096 - 2 * s.range(1, 8),
            _ => s.below(0x3000) * 2,
        };
        let set = Setup { p, regs, pc, code_base, code: vec![0; CODE_LEN as usize], blobs, cost: Cost::One, max_cycles: u64::MAX };
        let mut m = set.model();
        m.far_jump_as_unit = true;
        OnGen { s, m, set, used: vec![false; (CODE_LEN / 2) as usize], o, windows: 0, faulted: false, conts: vec![] }
    }
    fn slot(&self, a: u64) -> Option<usize> {
        if a >= self.set.code_base && a < self.set.code_base + CODE_LEN && a % 2 == 0 {
            Some(((a - self.set.code_base) / 2) as usize)
        } else {
            None
        }
    }
    fn free(&self, a: u64, len: u64) -> bool {
        (0..len / 2).all(|i| self.slot(a.wrapping_add(2 * i)).map(|k| !self.used[k]).unwrap_or(false))
    }
    fn put(&mut self, a: u64, b: &[u8]) {
        for i in 0..b.len() / 2 {
            let k = self.slot(a + 2 * i as u64).unwrap();
            self.used[k] = true;
        }
        let o = (a - self.set.code_base) as usize;
        self.set.code[o..o + b.len()].copy_from_slice(b);
        self.m.mem.data[a as usize..a as usize + b.len()].copy_from_slice(b);
    }
    /// a landing place: fresh and roomy, or (sometimes) code already there
    fn target(&mut self) -> u64 {
        let base = self.set.code_base;
        for _ in 0..20 {
            let a = match self.s.below(5) {
                0 => base + self.s.below(CODE_LEN / 2 - 64) * 2,
                1 => base + (1 + self.s.below(CODE_LEN / 4096 - 1)) * 4096 - 2 * self.s.range(1, 6),
                2 => self.m.pc.saturating_add(4 + 2 * self.s.below(40)).min(base + CODE_LEN - 128),
                3 => self.m.pc.saturating_sub(2 * self.s.range(10, 60)).max(base),
                _ => self.m.pc.saturating_add(2 * self.s.range(2, 30)),
            };
            if self.free(a, 48) {
                return a;
            }
        }
        let mut a = base;
        while a + 64 < base + CODE_LEN {
            if self.free(a, 48) {
                return a;
            }
            a += 32;
        }
        base
    }
    /// an address usable by an access of width w
    fn addr(&mut self, w: u64) -> u64 {
        data_addr(self.s, self.set.p.mem, self.set.code_base, w)
    }
    fn ok_addr(&self, n: &Inst) -> bool {
        let a = self.m.x[n.rs1 as usize].wrapping_add(if n.op.is_atomic() { 0 } else { n.imm as u64 });
        let a = if self.m.xlen == 32 { a & 0xffff_ffff } else { a };
        let w = n.op.mem_width();
        if n.op.is_load() || matches!(n.op, Op::LrW | Op::LrD) {
            // loads from code would read bytes not generated yet
            self.m.mem.inb(a, w + (self.m.ver == 0) as u64).is_ok() && (a + w <= self.set.code_base || a >= self.set.code_base + CODE_LEN)
        } else {
            self.m.mem.check_writable(a, w).is_ok()
        }
    }
    /// place an instruction at pc (after `pre`), hopping away first when there is no room
    fn emit(&mut self, seq: &[(Inst, bool)]) -> Vec<u64> {
        let c = self.set.p.c;
        let mut bytes: Vec<Vec<u8>> = vec![];
        for (n, comp) in seq {
            let mut b = vec![];
            enc_into(&mut b, n, *comp, &c);
            bytes.push(b);
        }
        let tot: u64 = bytes.iter().map(|b| b.len() as u64).sum();
        let mut pc = self.m.pc;
        if !self.free(pc, tot + 8) {
            pc = match self.hop() {
                Some(p) => p,
                None => return vec![],
            };
            if !self.free(pc, tot) {
                return vec![];
            }
        }
        let mut at = vec![];
        for b in bytes {
            at.push(pc);
            let n = b.len() as u64;
            self.put(pc, &b);
            pc += n;
        }
        at
    }
    /// jump to a fresh place: returns where the code continues (after executing the jump)
    fn hop(&mut self) -> Option<u64> {
        let t = self.target();
        let pc = self.m.pc;
        let j = Inst::new(Op::Jal, 0, 0, 0, t.wrapping_sub(pc) as i64);
        let mut b = vec![];
        enc_into(&mut b, &j, true, &self.set.p.c);
        if b.len() == 4 && !self.free(pc, 4) || !self.free(pc, 2) {
            // no room even for the jump: leave what is there
            if self.free(pc, 2) {
                self.put(pc, &[1, 0]);
            }
            return None;
        }
        self.put(pc, &b);
        if self.m.step().is_err() {
            return None;
        }
        Some(self.m.pc)
    }
    fn draw(&mut self) -> Vec<(Inst, bool)> {
        let p = self.set.p;
        let c = p.c;
        let reg = |s: &mut Src| if s.chance(1, 12) { 0 } else { s.below(32) as u8 };
        let k = self.s.weighted(&self.o.w);
        match k {
            1 => {
                // a random compressed word
                for _ in 0..60 {
                    let h = self.s.below(65536) as u16;
                    if h & 3 == 3 {
                        continue;
                    }
                    if let Some(n) = decode16(h, &c) {
                        if matches!(n.op, Op::Ecall) {
                            continue;
                        }
                        return vec![(n, true)];
                    }
                }
                vec![(Inst::new(Op::Addi, 0, 0, 0, 0), true)]
            }
            5 => {
                let regs: Vec<u8> = if self.s.chance(1, 8) { (0..32).collect() } else { (5..32).collect() };
                self.windows += 1;
                let w = mop_window(self.s, &c, &regs);
                w.into_iter().map(|n| (n, self.s.chance(1, 3))).collect()
            }
            6 => vec![(Inst::new(Op::Ecall, 0, 0, 0, 0), false)],
            _ => {
                let o = loop {
                    let o = match k {
                        0 => &OPS[self.s.usize(OPS.len())],
                        2 => {
                            use Op::*;
                            self.s.pick(&[Lb, Lbu, Lh, Lhu, Lw, Lwu, Ld, Sb, Sh, Sw, Sd]).info()
                        }
                        3 => {
                            use Op::*;
                            self.s.pick(&[Jal, Jalr, Jalr, Beq, Bne, Blt, Bge, Bltu, Bgeu]).info()
                        }
                        _ => {
                            let v: Vec<&OpInfo> = OPS.iter().filter(|o| o.ext == Ext::A).collect();
                            v[self.s.usize(v.len())]
                        }
                    };
                    if o.op == Op::Ecall {
                        continue;
                    }
                    if avail(o, &c) {
                        break o;
                    }
                    if self.s.consumed() > 390_000 || k == 4 {
                        break Op::Addi.info();
                    }
                };
                let mut n = Inst::new(o.op, 0, 0, 0, gen_imm(self.s, o.op, c.xlen));
                match o.fmt {
                    Fmt::R | Fmt::Amo => {
                        n.rd = reg(self.s);
                        n.rs1 = reg(self.s);
                        n.rs2 = match self.s.below(8) {
                            0 => n.rs1,
                            1 => n.rd,
                            _ => reg(self.s),
                        };
                        if self.s.chance(1, 8) {
                            n.rd = n.rs1;
                        }
                    }
                    Fmt::S | Fmt::B => {
                        n.rs1 = reg(self.s);
                        n.rs2 = if self.s.chance(1, 8) { n.rs1 } else { reg(self.s) };
                    }
                    Fmt::U | Fmt::J => n.rd = reg(self.s),
                    Fmt::Fence | Fmt::Fix => {}
                    _ => {
                        n.rd = reg(self.s);
                        n.rs1 = if self.s.chance(1, 6) { n.rd } else { reg(self.s) };
                    }
                }
                vec![(n, self.s.chance(1, 3))]
            }
        }
    }
    fn li(&mut self, r: u8, v: u64) -> Vec<(Inst, bool)> {
        li_seq(r, v, self.m.xlen).into_iter().map(|n| (n, self.s.chance(1, 4))).collect()
    }
    fn place(&mut self, mut seq: Vec<(Inst, bool)>) {
        let n = seq[0].0;
        let mut pre: Vec<(Inst, bool)> = vec![];
        if seq.len() == 1 {
            match n.op.info().fmt {
                Fmt::Ld | Fmt::S | Fmt::Amo | Fmt::Lr => {
                    let wild = self.s.below(100) < self.o.wild_mem;
                    if !self.ok_addr(&n) || wild {
                        if n.rs1 == 0 {
                            if !wild {
                                return;
                            }
                        } else if !wild || self.s.bool() {
                            let w = n.op.mem_width();
                            let a = if wild { wild_addr(self.s, &self.m.mem, self.set.code_base) } else { self.addr(w) };
                            let off = if n.op.is_atomic() { 0 } else { n.imm as u64 };
                            pre = self.li(n.rs1, a.wrapping_sub(off));
                        }
                    }
                    // keep operands of stores and atomics interesting
                    if n.rs2 != 0 && n.rs2 != n.rs1 && self.s.chance(1, 8) {
                        let v = operand(self.s);
                        pre.extend(self.li(n.rs2, v));
                    }
                }
                Fmt::Jalr => {
                    let t = self.target() | self.s.chance(1, 6) as u64;
                    if n.rs1 == 0 {
                        let d = t as i64;
                        if d < 2048 {
                            seq[0].0.imm = d;
                        } else {
                            return;
                        }
                    } else {
                        pre = self.li(n.rs1, t.wrapping_sub(n.imm as u64));
                    }
                }
                Fmt::B | Fmt::J => {}
                Fmt::R | Fmt::I | Fmt::Un | Fmt::Sh5 | Fmt::Sh6 => {
                    // refresh an operand now and then
                    if n.rs1 != 0 && n.len == 4 && self.s.chance(1, 6) {
                        let v = operand(self.s);
                        pre = self.li(n.rs1, v);
                    }
                }
                _ => {}
            }
        } else if self.s.chance(1, 3) {
            // operands for a window
            let r = seq[0].0.rs1;
            if r != 0 {
                let v = operand(self.s);
                pre = self.li(r, v);
            }
        }
        // branches need to know where they are: place the prefix first
        if !pre.is_empty() {
            if self.emit(&pre).is_empty() {
                return;
            }
            self.go(pre.len());
            if self.faulted {
                return;
            }
        }
        if matches!(n.op.info().fmt, Fmt::B | Fmt::J) && seq.len() == 1 {
            let t = self.target();
            let pc = self.m.pc;
            if !self.free(pc, 4) {
                return;
            }
            let d = t.wrapping_sub(pc) as i64;
            let j = n.with_imm(d);
            let lim = match (n.op.info().fmt, n.len) {
                (Fmt::B, 2) => 256,
                (Fmt::J, 2) => 2048,
                (Fmt::B, _) => 4096,
                _ => 1 << 20,
            };
            if d < -lim || d >= lim {
                // too far: use what was drawn if it stays in the code
                let t = pc.wrapping_add(n.imm as u64);
                if self.slot(t).is_none() || !self.free(t, 48) {
                    return;
                }
                seq[0].0 = n;
            } else {
                seq[0].0 = j;
            }
            // never loop onto itself
            if seq[0].0.imm == 0 {
                return;
            }
        }
        if self.emit(&seq).is_empty() {
            return;
        }
        self.go(seq.len());
    }
    /// execute up to n instructions on the model (stops when it runs into unwritten code)
    fn go(&mut self, n: usize) {
        for _ in 0..n {
            match self.slot(self.m.pc) {
                Some(k) if self.used[k] => {}
                _ => return,
            }
            match self.m.step() {
                Ok(Ev::Ecall(c)) => {
                    if model_ecall(&mut self.m, c).is_err() {
                        let next = self.m.pc;
                        self.fail(Some(next));
                        return;
                    }
                }
                Ok(_) => {}
                Err(_) => {
                    let pc = self.m.pc;
                    let next = self.m.fetch_decode(pc).ok().map(|(n, _)| pc.wrapping_add(n.len as u64));
                    self.fail(next);
                    return;
                }
            }
        }
    }
    /// The program faulted: it ends here, or goes on somewhere.
    fn fail(&mut self, next: Option<u64>) {
        if self.conts.len() >= self.o.go_on {
            self.faulted = true;
            return;
        }
        let t = match next {
            Some(t) if !self.s.chance(1, 8) => t,
            _ => self.target(),
        };
        self.m.grp_left = 0;
        self.m.pc = t;
        self.conts.push(t);
    }
    pub fn generate(mut self) -> (Setup, u64) {
        self.build();
        (self.set, self.windows)
    }
    pub fn generate_conts(mut self) -> (Setup, Vec<u64>) {
        self.build();
        (self.set, self.conts)
    }
    fn build(&mut self) {
        let mut k = 0;
        while k < self.o.steps && !self.faulted {
            k += 1;
            // run through code that is already there
            for _ in 0..50 {
                match self.slot(self.m.pc) {
                    Some(k) if self.used[k] => self.go(1),
                    _ => break,
                }
                if self.faulted {
                    break;
                }
            }
            if self.faulted {
                break;
            }
            match self.slot(self.m.pc) {
                None => {
                    self.fail(None);
                    continue;
                }
                Some(k) if self.used[k] => continue,
                _ => {}
            }
            if self.s.below(100) < self.o.hop {
                self.hop();
                continue;
            }
            if self.o.go_on > 0 && self.s.below(100) < self.o.fault {
                self.fault();
                continue;
            }
            let seq = self.draw();
            self.place(seq);
        }
        if !self.faulted {
            for _ in 0..400 {
                match self.slot(self.m.pc) {
                    Some(k) if self.used[k] => self.go(1),
                    _ => break,
                }
                if self.faulted {
                    break;
                }
            }
        }
        if !self.faulted {
            if self.s.below(100) < self.o.fault {
                self.fault();
            }
            let i = Inst::new;
            self.emit(&[(i(Op::Addi, 17, 0, 0, 93), false), (i(Op::Ecall, 0, 0, 0, 0), false)]);
        }
    }
    fn fault(&mut self) {
        use Op::*;
        let i = Inst::new;
        let mem = self.set.p.mem;
        let x = self.m.xlen;
        let c = self.set.p.c;
        match self.s.below(7) {
            0 | 1 => {
                let ops: &[Op] = if x == 64 { &[Lb, Lbu, Lh, Lhu, Lw, Lwu, Ld, Sb, Sh, Sw, Sd] } else { &[Lb, Lbu, Lh, Lhu, Lw, Sb, Sh, Sw] };
                let op = *self.s.pick(ops);
                let a = wild_addr(self.s, &self.m.mem, self.set.code_base);
                let imm = imm12(self.s);
                let r = self.s.range(1, 31) as u8;
                let q = self.s.below(32) as u8;
                let pre = self.li(r, a.wrapping_sub(imm as u64));
                if self.emit(&pre).is_empty() {
                    return;
                }
                self.go(pre.len());
                let n = if op.is_load() { i(op, q, r, 0, imm) } else { i(op, 0, r, q, imm) };
                let c = self.s.bool();
                self.emit(&[(n, c)]);
                self.go(1);
            }
            2 if c.a => {
                let v: Vec<&OpInfo> = OPS.iter().filter(|o| o.ext == Ext::A && avail(o, &c)).collect();
                let o = v[self.s.usize(v.len())];
                let a = wild_addr(self.s, &self.m.mem, self.set.code_base);
                let r = self.s.range(1, 31) as u8;
                let pre = self.li(r, a);
                if self.emit(&pre).is_empty() {
                    return;
                }
                self.go(pre.len());
                let n = i(o.op, self.s.below(32) as u8, r, if o.fmt == Fmt::Lr { 0 } else { self.s.below(32) as u8 }, 0);
                self.emit(&[(n, false)]);
                self.go(1);
            }
            3 => {
                // an undecodable word
                for _ in 0..50 {
                    let w = match self.s.below(3) {
                        0 => self.s.u64() as u32 | 3,
                        1 => self.s.below(65536) as u32,
                        _ => *self.s.pick(&[0u32, 0xffff_ffff, 0x8000, 0x4002]),
                    };
                    if decode(w, &c).is_none() {
                        let n = if w & 3 == 3 { 4 } else { 2 };
                        if self.free(self.m.pc, 4) {
                            self.put(self.m.pc, &w.to_le_bytes()[..n]);
                        }
                        break;
                    }
                }
                self.go(1);
            }
            4 => {
                // fetch from elsewhere
                let a = match self.s.below(4) {
                    0 => mem - self.s.below(2) * 2,
                    1 => self.s.u64() & !1,
                    2 => self.addr(4) & !1,
                    _ => self.set.code_base + CODE_LEN - 2,
                };
                let r = self.s.range(1, 31) as u8;
                let mut v = self.li(r, a);
                v.push((i(Jalr, self.s.below(32) as u8, r, 0, 0), self.s.bool()));
                let n = v.len();
                self.emit(&v);
                self.go(n);
            }
            5 => {
                let code = *self.s.pick(&[0u64, 1, 92, 94, 3000, u64::MAX, 0x1_0000_005d, 2000, 2007]);
                let mut v = self.li(17, code);
                v.push((i(Ecall, 0, 0, 0, 0), false));
                let n = v.len();
                self.emit(&v);
                self.go(n);
            }
            _ => {
                // run off the end of the code
                let a = self.set.code_base + CODE_LEN - 4;
                if self.free(a, 4) {
                    let nop = i(Addi, 0, 0, 0, 0);
                    let r = self.s.range(1, 31) as u8;
                    let mut v = self.li(r, a);
                    v.push((i(Jalr, 0, r, 0, 0), false));
                    let n = v.len();
                    self.emit(&v);
                    let mut b = vec![];
                    enc_into(&mut b, &nop, false, &c);
                    self.put(a, &b);
                    self.go(n + 2);
                }
            }
        }
    }
}

/// an address in ordinary memory for an access of width w, biased to page and memory edges
pub fn data_addr(s: &mut Src, mem: u64, code_base: u64, w: u64) -> u64 {
    for _ in 0..30 {
        let a = match s.below(8) {
            0 => s.below(mem / PAGE - 1) * PAGE + PAGE - s.range(0, 9),
            1 => mem - w - s.below(10),
            2 if mem > FRAME => (1 + s.below(mem / FRAME - 1)) * FRAME - s.range(0, 9),
            3 => (code_base + CODE_LEN).wrapping_add(s.below(16)),
            4 => code_base.wrapping_sub(w + s.below(9)),
            5 => 0x20000 + s.below(64) * 8,
            6 => s.below(64),
            _ => s.below(mem),
        };
        // version 0 loads may not touch the last byte of memory
        if a < mem && a + w < mem && (a + w <= code_base || a >= code_base + CODE_LEN) {
            return a;
        }
    }
    0x20000
}
/// an address likely to be refused
pub fn wild_addr(s: &mut Src, m: &Mem, code_base: u64) -> u64 {
    let mem = m.size;
    match s.below(7) {
        0 => mem - s.below(9),
        1 => mem + s.below(4096),
        2 => s.u64(),
        3 => 0u64.wrapping_sub(s.range(1, 16)),
        4 => code_base + s.below(CODE_LEN),
        5 => code_base.wrapping_sub(s.range(1, 8)),
        _ => (code_base + CODE_LEN).wrapping_sub(s.range(1, 8)),
    }
}
