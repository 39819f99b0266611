//! Histories of memory operations, by host and guest, over every memory backend, each compared with its
//! own reference memory. Shared by C09 (contents and bounds), C10 (permissions) and C11 (dirty marks).

use crate::isa::*;
use crate::gen::enc_into;
use crate::model::*;
use crate::runner::*;
use crate::src::Src;
use crate::vm::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Aspect {
    Content,
    Perm,
    Dirty,
}

pub struct Back {
    pub name: String,
    pub vm: Box<dyn Vm>,
    pub m: Model,
    pub raw: bool,
    kept: Vec<(Bytes, Vec<u8>, String)>,
}

#[derive(Clone, Debug)]
enum O {
    Load(u64, u64),
    Store(u64, u64, u64),
    LoadBytes(u64, u64),
    StoreBytes(u64, u64, u64),
    Fill(u64, u64, u8),
    Fetch(u64, u64),
    Init { addr: u64, size: u64, flags: u8, src: Option<(u64, u64)>, off: u64 },
    SetFlag(u64, u8),
    ClearFlag(u64, u8),
    Reset,
    Lr(u64),
    /// guest operation k at address with value
    Guest(usize, u64, u64),
    Jump(u64),
    /// run off the end of an executable page; true: through an instruction that straddles it
    Edge(u64, bool, u64),
    CheckPages(u64, u64),
}

pub struct Hist {
    pub size: u64,
    pub backs: Vec<Back>,
    pub ops: u64,
    pub okw: u64,
    pub faults: u64,
    log: Vec<String>,
    hot: Vec<u64>,
    code: u64,
    aspect: Aspect,
    pub stopped: bool,
    /// short history over many frames, most of them untouched before
    fresh: bool,
    /// a memory of more than 4 GB
    vast: bool,
}

const GUEST: [Op; 18] = [
    Op::Lb,
    Op::Lbu,
    Op::Lh,
    Op::Lhu,
    Op::Lw,
    Op::Lwu,
    Op::Ld,
    Op::Sb,
    Op::Sh,
    Op::Sw,
    Op::Sd,
    Op::LrW,
    Op::LrD,
    Op::ScW,
    Op::ScD,
    Op::AmoaddW,
    Op::AmoswapD,
    Op::AmoxorW,
];

fn snippet(op: Op) -> Inst {
    use Op::*;
    match op {
        Sb | Sh | Sw | Sd => Inst::new(op, 0, 10, 11, 0),
        LrW | LrD => Inst::new(op, 12, 10, 0, 0),
        ScW | ScD | AmoaddW | AmoswapD | AmoxorW => Inst::new(op, 12, 10, 11, 0),
        _ => Inst::new(op, 12, 10, 0, 0),
    }
}

fn code_bytes() -> Vec<u8> {
    let c = Cfg { xlen: 64, ver: 2, a: true, b: false };
    let mut v = vec![];
    for op in GUEST {
        enc_into(&mut v, &snippet(op), false, &c);
        enc_into(&mut v, &Inst::new(Op::Ecall, 0, 0, 0, 0), false, &c);
    }
    // at GUEST.len()*8: an indirect jump
    enc_into(&mut v, &Inst::new(Op::Jalr, 0, 10, 0, 0), false, &c);
    v
}
fn pattern(seed: u64, n: u64) -> Vec<u8> {
    let mut r = crate::src::Rng::new(seed);
    let mut v = Vec::with_capacity(n as usize + 8);
    while (v.len() as u64) < n {
        v.extend_from_slice(&r.next().to_le_bytes());
    }
    v.truncate(n as usize);
    v
}

/// pages of [addr, addr+len) that exist
fn in_pages(size: u64, addr: u64, len: u64) -> std::ops::Range<u64> {
    if len == 0 || addr >= size {
        return 0..0;
    }
    let end = addr.saturating_add(len).min(size);
    addr / PAGE..(end + PAGE - 1) / PAGE
}

impl Back {
    pub fn new(kind: Kind, isa: u8, ver: u32, size: u64, raw: bool) -> Back {
        let mut c = VmCfg::new(kind, isa, ver, size);
        c.raw = raw;
        let name = format!("{}{}", kind, if raw { "/unprotected" } else { "" });
        Back { name, vm: build(c), m: Model::new(kind.bits, ver, isa, Mem::new(size, !raw)), raw, kept: vec![] }
    }
    fn mask(&self, v: u64) -> u64 {
        if self.m.xlen == 32 {
            v & 0xffff_ffff
        } else {
            v
        }
    }
}

impl Hist {
    fn err(&self, a: &[Aspect], b: &str, kind: &str, msg: String) -> Option<Fail> {
        if !a.contains(&self.aspect) {
            return None;
        }
        let n = self.log.len();
        let tail: Vec<String> = self.log[n.saturating_sub(60)..].to_vec();
        Some(Fail {
            kind: kind.to_string(),
            msg: format!("backend {b}, memory of {:#x} bytes: {msg}\nhistory ({n} operations, last ones):\n  {}", self.size, tail.join("\n  ")),
            key: None,
        })
    }

    pub fn new(s: &mut Src, aspect: Aspect) -> Hist {
        Hist::with(s, aspect, false)
    }
    /// More than 4 GB, most of them never touched.
    pub fn vast(s: &mut Src, aspect: Aspect) -> Hist {
        let size = (1 << 32) + FRAME * s.range(1, 9);
        let all = [(Engine::Asm, true), (Engine::AsmNaive, true), (Engine::Naive, true), (Engine::Naive, false), (Engine::Trace, true), (Engine::Trace, false)];
        let n = s.range(1, 2);
        let backs = (0..n)
            .map(|_| {
                let (e, flat) = *s.pick(&all);
                Back::new(Kind::new(e, 64, flat), 4, 2, size, false)
            })
            .collect();
        let mut h = Hist { size, backs, ops: 0, okw: 0, faults: 0, log: vec![], hot: vec![], code: 0, aspect, stopped: false, fresh: false, vast: true };
        for _ in 0..s.range(2, 5) {
            let a = h.fresh_addr(s);
            h.hot.push(a);
        }
        h.code = s.below(size / PAGE) * PAGE;
        if s.bool() {
            h.code = (size - PAGE * s.range(1, 100)) / PAGE * PAGE;
        }
        h
    }
    pub fn with(s: &mut Src, aspect: Aspect, fresh: bool) -> Hist {
        let asm = fresh || s.chance(2, 3);
        let size = if fresh {
            FRAME * s.range(2, 9)
        } else if asm { FRAME * *s.pick(&[1, 1, 2, 2, 3]) } else { PAGE * s.range(1, 24) };
        let ver = *s.pick(&[2, 1, 0, 2]);
        let isa = 4;
        let mut kinds: Vec<(Kind, bool)> = vec![];
        if asm {
            kinds.push((Kind::new(Engine::Asm, 64, true), false));
            kinds.push((Kind::new(Engine::AsmNaive, 64, true), false));
            if s.chance(1, 4) {
                kinds.push((Kind::new(*s.pick(&[Engine::AsmMemoFixed, Engine::AsmMemoDyn]), 64, true), false));
            }
        }
        let mut rest = vec![];
        for b in [64, 32] {
            for fl in [true, false] {
                for (e, raw) in [(Engine::Naive, false), (Engine::Trace, false), (Engine::Naive, true)] {
                    rest.push((Kind::new(e, b, fl), raw));
                }
            }
        }
        let n = if fresh { 0 } else { s.range(2, if asm { 3 } else { 6 }) };
        for _ in 0..n {
            let i = s.usize(rest.len());
            kinds.push(rest.swap_remove(i));
        }
        let backs: Vec<Back> = kinds.into_iter().map(|(k, raw)| Back::new(k, isa, ver, size, raw)).collect();
        let mut h = Hist { size, backs, ops: 0, okw: 0, faults: 0, log: vec![], hot: vec![], code: 0, aspect, stopped: false, fresh, vast: false };
        for _ in 0..s.range(1, 4) {
            let a = h.fresh_addr(s);
            h.hot.push(a);
        }
        h.code = s.below(size / PAGE) * PAGE;
        h
    }

    fn fresh_addr(&self, s: &mut Src) -> u64 {
        let near = |s: &mut Src, b: u64| b.wrapping_add(s.below(20)).wrapping_sub(10);
        if self.vast && s.chance(1, 2) {
            // what is beyond 4 GB, and what has the same low 32 bits
            let a = s.below(self.size - (1 << 32) + 64);
            return match s.below(5) {
                0 => a,
                1 => near(s, 1 << 32),
                2 => near(s, 1 << 31),
                _ => a + (1 << 32),
            };
        }
        match s.weighted(&[4, 4, 4, 3, 1, 1, 1, 1]) {
            0 => s.below(self.size),
            1 => {
                let b = s.below(self.size / PAGE + 1) * PAGE;
                near(s, b)
            }
            2 => {
                let b = s.below(self.size / FRAME + 1) * FRAME;
                near(s, b)
            }
            3 => near(s, self.size),
            4 => s.below(16),
            5 => 0u64.wrapping_sub(s.range(1, 20)),
            6 => {
                // far outside, congruent to something inside
                let a = s.below(self.size);
                let k = *s.pick(&[31, 32, 33, 40, 52, 63]);
                a.wrapping_add(1 << k)
            }
            _ => s.val(),
        }
    }
    fn addr(&self, s: &mut Src) -> u64 {
        if !self.hot.is_empty() && s.chance(2, 5) {
            let b = *s.pick(&self.hot);
            return b.wrapping_add(s.below(12)).wrapping_sub(s.below(5));
        }
        self.fresh_addr(s)
    }
    fn len(&self, s: &mut Src, addr: u64) -> u64 {
        let n = self.any_len(s, addr);
        if self.vast && n > 3 * FRAME && self.size.saturating_sub(addr) > 3 * FRAME {
            return n % (3 * FRAME);
        }
        n
    }
    fn any_len(&self, s: &mut Src, addr: u64) -> u64 {
        if self.fresh && s.chance(1, 3) {
            // up to a frame boundary, or near it
            return (FRAME - addr % FRAME + FRAME * s.below(2)).wrapping_add(*s.pick(&[0, 0, 0, 1, 7, PAGE, u64::MAX, 0u64.wrapping_sub(PAGE)]));
        }
        match s.weighted(&[1, 6, 3, 2, 2, 1, 1]) {
            0 => 0,
            1 => s.range(1, 24),
            2 => PAGE - 4 + s.below(9),
            3 => s.below(3 * PAGE),
            4 => self.size.wrapping_sub(addr).min(self.size).wrapping_add(s.below(3)).saturating_sub(s.below(3)),
            5 => s.range(FRAME - 8, FRAME + 8),
            _ => 0u64.wrapping_sub(addr).wrapping_add(s.below(5)).wrapping_sub(2),
        }
    }
    fn page_addr(&self, s: &mut Src) -> u64 {
        if self.fresh && s.chance(2, 3) {
            return s.below(self.size / FRAME) * FRAME + *s.pick(&[0, 1, 1, 2, 3, 31, 62, 63]) * PAGE;
        }
        if !self.hot.is_empty() && s.chance(1, 2) {
            let a = *s.pick(&self.hot) / PAGE * PAGE;
            let d = s.below(3);
            return a.wrapping_sub(d / 2 * PAGE);
        }
        match s.weighted(&[8, 2, 1]) {
            0 => s.below(self.size / PAGE + 1) * PAGE,
            1 => (s.below(self.size / FRAME + 1) * FRAME).wrapping_sub(s.below(2) * PAGE),
            _ => self.fresh_addr(s),
        }
    }
    fn page_index(&self, s: &mut Src) -> u64 {
        if !self.hot.is_empty() && s.chance(1, 2) {
            return (*s.pick(&self.hot)).wrapping_add(s.below(10)) / PAGE;
        }
        match s.weighted(&[12, 2, 1]) {
            0 => s.below(self.size / PAGE),
            1 => self.size / PAGE + s.below(2),
            _ => s.val(),
        }
    }

    fn gen(&self, s: &mut Src) -> O {
        let w: [u32; 15] = match self.aspect {
            Aspect::Content => [10, 10, 5, 6, 5, 3, 4, 2, 2, 1, 1, 14, 2, 1, 4],
            Aspect::Perm => [2, 10, 1, 5, 4, 8, 9, 3, 1, 1, 0, 14, 6, 5, 4],
            Aspect::Dirty => [2, 10, 1, 6, 6, 1, 6, 2, 8, 1, 0, 16, 1, 0, 4],
        };
        match s.weighted(&w) {
            0 => O::Load(1 << s.below(4), self.addr(s)),
            1 => O::Store(1 << s.below(4), self.addr(s), s.u64()),
            2 => {
                let a = self.addr(s);
                O::LoadBytes(a, self.len(s, a))
            }
            3 => {
                let a = self.addr(s);
                O::StoreBytes(a, self.len(s, a).min(3 * FRAME), s.u64())
            }
            4 => {
                let a = self.addr(s);
                O::Fill(a, self.len(s, a), s.below(256) as u8)
            }
            5 => O::Fetch(2 << s.below(2), self.addr(s)),
            6 => {
                let addr = self.page_addr(s);
                let size = match s.weighted(&[6, 3, 1, 1, if self.fresh { 8 } else { 1 }]) {
                    0 => PAGE,
                    1 => PAGE * s.below(5),
                    2 if !self.vast => (self.size.wrapping_sub(addr)).min(self.size),
                    3 => FRAME + PAGE * s.below(3),
                    _ => self.len(s, addr),
                };
                let src = if s.chance(2, 3) { Some((s.u64(), if s.bool() { s.below(2 * PAGE) } else { size.min(2 * FRAME) })) } else { None };
                let off = if s.chance(1, 3) { if s.chance(3, 4) { s.below(PAGE + 2) } else { size.wrapping_add(s.below(3)).wrapping_sub(1) } } else { 0 };
                let flags = *s.pick(&[0, 0, F_EXEC, F_EXEC | F_FREEZE, F_FREEZE, F_EXEC, F_DIRTY, 7]);
                O::Init { addr, size, flags, src, off }
            }
            7 => O::SetFlag(self.page_index(s), *s.pick(&[F_EXEC, F_FREEZE, F_DIRTY, 3, 7, 0])),
            8 => {
                let p = self.page_index(s);
                let mut fl = *s.pick(&[F_DIRTY, F_DIRTY, F_DIRTY, F_FREEZE, F_EXEC, 7, 0]);
                if p == self.code / PAGE {
                    // cached code may keep running on a page whose execute mark the host removes
                    fl &= F_DIRTY;
                }
                O::ClearFlag(p, fl)
            }
            9 if self.vast => O::Lr(s.val()),
            9 => O::Reset,
            10 => O::Lr(s.val()),
            11 => O::Guest(s.usize(GUEST.len()), self.addr(s), s.u64()),
            12 => O::Jump(self.addr(s) & !1),
            13 => O::Edge(s.below(self.size / PAGE), s.bool(), s.below(3)),
            _ => {
                let p = s.below(self.size / PAGE);
                let n = s.range(1, 4);
                O::CheckPages(p, n)
            }
        }
    }

    /// One history; Ok(()) when nothing in the watched aspect went wrong.
    pub fn run(&mut self, s: &mut Src, n: u64) -> CaseRes {
        for _ in 0..n {
            let o = self.gen(s);
            if matches!(o, O::Guest(..) | O::Jump(..)) {
                self.ensure_code()?;
            }
            self.apply(&o)?;
            if self.stopped {
                return Ok(());
            }
        }
        self.finish()
    }

    fn ensure_code(&mut self) -> CaseRes {
        let code = code_bytes();
        let a = self.code as usize;
        let ok = self.backs.iter().all(|b| b.m.mem.data[a..a + code.len()] == code[..] && (b.raw || b.m.mem.flags[a / PAGE as usize] & F_EXEC != 0));
        if !ok {
            let mut fl = F_EXEC | F_FREEZE;
            // a frozen page that is not our code cannot be replaced: unfreeze it first
            for b in 0..self.backs.len() {
                if self.backs[b].m.mem.flags[a / PAGE as usize] & F_FREEZE != 0 {
                    fl = F_EXEC;
                    self.apply(&O::ClearFlag(self.code / PAGE, F_FREEZE))?;
                    if self.stopped {
                        return Ok(());
                    }
                    break;
                }
            }
            self.apply(&O::Init { addr: self.code, size: PAGE, flags: fl, src: Some((u64::MAX, 0)), off: 0 })?;
        }
        Ok(())
    }

    fn apply(&mut self, o: &O) -> CaseRes {
        if self.stopped {
            return Ok(());
        }
        self.ops += 1;
        self.log.push(format!("{o:x?}"));
        if self.log.len() > 400 {
            self.log.drain(..200);
        }
        let mut backs = std::mem::take(&mut self.backs);
        let mut r = Ok(());
        for b in &mut backs {
            match self.one(b, o) {
                Ok(()) => {}
                Err(Some(fl)) => {
                    r = Err(fl);
                    break;
                }
                Err(None) => {
                    self.stopped = true;
                    break;
                }
            }
        }
        self.backs = backs;
        r
    }

    /// Err(None): something outside the watched aspect went wrong; the history ends.
    fn one(&mut self, b: &mut Back, o: &O) -> Result<(), Option<Fail>> {
        use Aspect::*;
        let size = self.size;
        match o {
            O::Load(w, a) => {
                let a = b.mask(*a);
                let want = b.m.mem.load(a, *w);
                let got = b.vm.sm().load(*w, a);
                self.reads(b, o, &want.map(|v| b.mask(v)), &got, a, *w, &[])
            }
            O::Store(w, a, v) => {
                let a = b.mask(*a);
                let v = b.mask(*v);
                let mut new = v.to_le_bytes()[..*w as usize].to_vec();
                new.truncate(*w as usize);
                let causes = self.wcauses(b, a, *w);
                let got = b.vm.sm().store(*w, a, v);
                let ok = b.m.mem.store(a, *w, v).is_ok();
                self.wrote(b, o, ok, &causes, &got, a, *w, &|i| new[i as usize], F_DIRTY)
            }
            O::LoadBytes(a, n) => {
                let want = b.m.mem.load_bytes(*a, *n).map(|v| v.to_vec());
                let got = b.vm.sm().load_bytes(*a, *n);
                match (want, got) {
                    (Ok(w), Ok(g)) => {
                        if w[..] != g[..] {
                            let i = w.iter().zip(g.iter()).position(|(x, y)| x != y);
                            return Err(self.err(
                                &[Content],
                                &b.name,
                                "content",
                                format!("load_bytes({a:#x}, {n:#x}) returned {} bytes, expected {}; first difference at {:x?}", g.len(), w.len(), i.map(|i| a + i as u64)),
                            ));
                        }
                        if b.kept.len() < 12 && *n > 0 {
                            b.kept.push((g, w, format!("load_bytes({a:#x}, {n:#x}) at operation {}", self.ops)));
                        }
                        Ok(())
                    }
                    (Err(_), Err(Error::MemOutOfBound(..))) => {
                        self.faults += 1;
                        Ok(())
                    }
                    (w, g) => Err(self.err(
                        &[Content],
                        &b.name,
                        "bounds",
                        format!("load_bytes({a:#x}, {n:#x}): got {}, expected {}", g.map(|_| "success".to_string()).unwrap_or_else(|e| format!("{e:?}")), w.map(|_| "success".to_string()).unwrap_or_else(|e| format!("{e:?}"))),
                    )),
                }
            }
            O::StoreBytes(a, n, seed) => {
                let v = pattern(*seed, *n);
                let causes = if *n == 0 { vec![] } else { self.wcauses(b, *a, *n) };
                let got = b.vm.sm().store_bytes(*a, &v);
                let ok = b.m.mem.store_bytes(*a, &v).is_ok();
                self.wrote(b, o, ok, &causes, &got, *a, *n, &|i| v[i as usize], F_DIRTY)
            }
            O::Fill(a, n, v) => {
                let causes = if *n == 0 { vec![] } else { self.wcauses(b, *a, *n) };
                let got = b.vm.sm().fill(*a, *n, *v);
                let ok = b.m.mem.fill(*a, *n, *v).is_ok();
                self.wrote(b, o, ok, &causes, &got, *a, *n, &|_| *v, F_DIRTY)
            }
            O::Fetch(w, a) => {
                let want = b.m.mem.fetch(*a, *w).map(|v| v as u64);
                let mut extra = vec![];
                if b.m.mem.wx {
                    for p in in_pages(size, *a, *w) {
                        if b.m.mem.flags[p as usize] & F_EXEC == 0 {
                            extra.push(Fault::Perm(p));
                        }
                    }
                }
                let a = if b.raw { b.mask(*a) } else { *a };
                let want = if b.raw && b.m.xlen == 32 { b.m.mem.load(a, *w) } else { want };
                let got = if *w == 2 { b.vm.sm().fetch16(a).map(|v| v as u64) } else { b.vm.sm().fetch32(a).map(|v| v as u64) };
                self.reads(b, o, &want, &got, a, *w, &extra)
            }
            O::Init { addr, size: n, flags, src, off } => {
                let data = src.map(|(seed, len)| if seed == u64::MAX && len == 0 { code_bytes() } else { pattern(seed, len) });
                let (addr, n, off) = (*addr, *n, *off);
                let mut causes = vec![];
                let src_v: &[u8] = data.as_deref().unwrap_or(&[]);
                let newb = |i: u64| {
                    if i < off || i - off >= src_v.len() as u64 {
                        0
                    } else {
                        src_v[(i - off) as usize]
                    }
                };
                let ok;
                let mut fl = *flags | F_DIRTY;
                if b.raw {
                    fl = F_DIRTY;
                    ok = n == 0 || b.m.mem.inb(addr, n).is_ok();
                    if !ok {
                        causes.push(Fault::Oob(addr, n));
                    } else if n > 0 {
                        let v: Vec<u8> = (0..n).map(newb).collect();
                        b.m.mem.store_bytes(addr, &v).ok();
                    }
                } else {
                    if addr % PAGE != 0 || n % PAGE != 0 {
                        causes.push(Fault::Unaligned);
                    }
                    if addr > size || n > size || addr + n > size || off > n {
                        causes.push(Fault::Oob(addr, n));
                    }
                    for p in in_pages(size, addr, n) {
                        if b.m.mem.flags[p as usize] & F_FREEZE != 0 {
                            causes.push(Fault::Frozen(p));
                        }
                    }
                    ok = b.m.mem.init_pages(addr, n, *flags, src_v, off).is_ok();
                }
                let got = b.vm.sm().init_pages(addr, n, *flags, data.clone().map(Bytes::from), off);
                self.wrote(b, o, ok, &causes, &got, addr, n, &newb, fl)
            }
            O::SetFlag(p, fl) | O::ClearFlag(p, fl) => {
                let set = matches!(o, O::SetFlag(..));
                let got = if set { b.vm.sm().set_flag(*p, *fl) } else { b.vm.sm().clear_flag(*p, *fl) };
                let ok = *p < size / PAGE;
                if ok != got.is_ok() || matches!(&got, Err(e) if !matches!(e, Error::MemOutOfBound(..))) {
                    return Err(self.err(&[Content, Perm, Dirty], &b.name, "flag-bounds", format!("{o:x?} returned {got:?}")));
                }
                if ok {
                    let x = &mut b.m.mem.flags[*p as usize];
                    if set {
                        *x |= *fl
                    } else {
                        *x &= !*fl
                    }
                    self.flags(b, *p..*p + 1, o)
                } else {
                    let g = b.vm.sm().flag(*p);
                    if g.is_ok() {
                        return Err(self.err(&[Content, Perm, Dirty], &b.name, "flag-bounds", format!("page {p:#x} outside the memory has marks")));
                    }
                    Ok(())
                }
            }
            O::Reset => {
                if let Err(e) = b.vm.sm().reset_memory() {
                    return Err(self.err(&[Content, Perm, Dirty], &b.name, "reset", format!("reset_memory failed: {e:?}")));
                }
                b.m.mem.data.fill(0);
                b.m.mem.flags.fill(0);
                b.m.lr = if b.m.xlen == 32 { 0xffff_ffff } else { u64::MAX };
                Ok(())
            }
            O::Lr(v) => {
                let got = b.vm.sm().lr();
                let want = b.mask(b.m.lr);
                let v = b.mask(*v);
                b.vm.sm().set_lr(v);
                b.m.lr = v;
                if got != want {
                    return Err(self.err(&[Content], &b.name, "reservation", format!("the reservation address is {got:#x}, expected {want:#x}")));
                }
                Ok(())
            }
            O::Guest(k, a, v) => self.guest(b, o, *k, *a, *v),
            O::Jump(a) => self.jump(b, o, *a),
            O::Edge(p, straddle, n) => self.edge(b, o, *p, *straddle, *n),
            O::CheckPages(p, n) => {
                let end = (*p + *n).min(size / PAGE);
                self.content(b, *p * PAGE, end * PAGE)?;
                self.flags(b, *p..end, o)
            }
        }
    }

    fn wcauses(&self, b: &Back, a: u64, n: u64) -> Vec<Fault> {
        let mut v = vec![];
        if b.m.mem.inb(a, n).is_err() {
            v.push(Fault::Oob(a, n));
        }
        if b.m.mem.wx {
            for p in in_pages(self.size, a, n) {
                if b.m.mem.flags[p as usize] & F_EXEC != 0 {
                    v.push(Fault::Perm(p));
                }
            }
        }
        v
    }

    fn reads(&mut self, b: &Back, o: &O, want: &Result<u64, Fault>, got: &Result<u64, Error>, a: u64, n: u64, extra: &[Fault]) -> Result<(), Option<Fail>> {
        use Aspect::*;
        match (want, got) {
            (Ok(w), Ok(g)) => {
                if w != g {
                    return Err(self.err(&[Content], &b.name, "content", format!("{o:x?} returned {g:#x}, expected {w:#x}")));
                }
                Ok(())
            }
            (Err(_), Err(e)) => {
                self.faults += 1;
                let oob = b.m.mem.inb(a, n).is_err();
                if (oob && matches!(e, Error::MemOutOfBound(..))) || extra.iter().any(|f| err_matches(f, e)) {
                    Ok(())
                } else {
                    Err(self.err(&[if oob { Content } else { Perm }], &b.name, "error", format!("{o:x?} failed with {e:?}, expected {want:?}")))
                }
            }
            (Ok(_), Err(e)) => {
                let a = if matches!(e, Error::MemOutOfBound(..)) { [Content] } else { [Perm] };
                Err(self.err(&a, &b.name, "refused", format!("{o:x?} failed with {e:?}, expected {want:x?}")))
            }
            (Err(f), Ok(g)) => {
                let a = if matches!(f, Fault::Oob(..)) { [Content] } else { [Perm] };
                Err(self.err(&a, &b.name, "allowed", format!("{o:x?} returned {g:#x}, expected {f:?}")))
            }
        }
    }

    /// After a write-like operation: model state is already updated when ok. newb gives the byte at
    /// offset i of the range.
    #[allow(clippy::too_many_arguments)]
    fn wrote(&mut self, b: &mut Back, o: &O, ok: bool, causes: &[Fault], got: &Result<(), Error>, a: u64, n: u64, newb: &dyn Fn(u64) -> u8, fl: u8) -> Result<(), Option<Fail>> {
        use Aspect::*;
        let cls = |f: &Fault| if matches!(f, Fault::Perm(_) | Fault::Frozen(_)) { Perm } else { Content };
        match (ok, got) {
            (true, Ok(())) => {
                self.okw += 1;
                let pages = in_pages(self.size, a, n);
                if pages.end - pages.start <= 8 {
                    return self.flags(b, pages, o);
                }
                Ok(())
            }
            (true, Err(e)) => {
                let a = if matches!(e, Error::MemWriteOnExecutablePage(_) | Error::MemWriteOnFreezedPage(_)) { [Perm] } else { [Content] };
                Err(self.err(&a, &b.name, "refused", format!("{o:x?} failed with {e:?}, expected success")))
            }
            (false, Ok(())) => {
                let c: Vec<Aspect> = causes.iter().map(cls).collect();
                Err(self.err(&c, &b.name, "allowed", format!("{o:x?} succeeded, expected one of {causes:x?}")))
            }
            (false, Err(e)) => {
                self.faults += 1;
                if !causes.iter().any(|f| err_matches(f, e)) {
                    let c: Vec<Aspect> = causes.iter().map(cls).collect();
                    return Err(self.err(&c, &b.name, "error", format!("{o:x?} failed with {e:?}, expected one of {causes:x?}")));
                }
                self.adopt(b, o, a, n, newb, fl)
            }
        }
    }

    /// A failed write may have written part of its range (never an executable or frozen page) and may
    /// have left marks on its pages: check and take over what is there.
    fn adopt(&mut self, b: &mut Back, o: &O, a: u64, n: u64, newb: &dyn Fn(u64) -> u8, fl: u8) -> Result<(), Option<Fail>> {
        use Aspect::*;
        let init = matches!(o, O::Init { .. });
        for p in in_pages(self.size, a, n) {
            let old = b.m.mem.flags[p as usize];
            let now = match b.vm.sm().flag(p) {
                Ok(v) => v,
                Err(e) => return Err(self.err(&[Content], &b.name, "flag-bounds", format!("marks of page {p:#x} unreadable: {e:?}"))),
            };
            let locked = b.m.mem.wx && old & (if init { F_FREEZE } else { F_EXEC }) != 0;
            let may = if locked { F_DIRTY } else { fl };
            if now & !(old | may) != 0 || old & !now != 0 {
                return Err(self.err(if (now ^ old) & 3 != 0 { &[Perm] } else { &[Dirty] }, &b.name, "marks", format!("after the failed {o:x?}, page {p:#x} has marks {now:#x}, before {old:#x}")));
            }
            b.m.mem.flags[p as usize] = now;
            let lo = a.max(p * PAGE);
            let hi = a.saturating_add(n).min((p + 1) * PAGE).min(self.size);
            if hi <= lo {
                continue;
            }
            let g = match b.vm.sm().load_bytes(lo, hi - lo) {
                Ok(v) => v,
                Err(e) => return Err(self.err(&[Content], &b.name, "bounds", format!("page {p:#x} unreadable: {e:?}"))),
            };
            for i in lo..hi {
                let x = g.get((i - lo) as usize).copied();
                let old = b.m.mem.data[i as usize];
                if x != Some(old) && (locked || x != Some(newb(i - a))) {
                    return Err(self.err(&[Content, Perm], &b.name, "changed", format!("after the failed {o:x?}, the byte at {i:#x} is {x:x?}, before {old:#x}")));
                }
                if let Some(x) = x {
                    b.m.mem.data[i as usize] = x;
                }
            }
        }
        Ok(())
    }

    fn flags(&self, b: &mut Back, r: std::ops::Range<u64>, o: &O) -> Result<(), Option<Fail>> {
        use Aspect::*;
        for p in r {
            let g = match b.vm.sm().flag(p) {
                Ok(g) => g,
                Err(e) => return Err(self.err(&[Content, Perm, Dirty], &b.name, "flag-bounds", format!("marks of page {p:#x} unreadable: {e:?}"))),
            };
            let w = b.m.mem.flags[p as usize];
            if g != w {
                let mut c = vec![];
                if (g ^ w) & F_DIRTY != 0 {
                    c.push(Dirty);
                }
                if (g ^ w) & !F_DIRTY != 0 {
                    c.push(Perm);
                }
                let kind = if c == [Dirty] { "dirty" } else { "marks" };
                return Err(self.err(&c, &b.name, kind, format!("after {o:x?}, page {p:#x} has marks {g:#x} (1 frozen, 2 executable, 4 dirty), expected {w:#x}")));
            }
        }
        Ok(())
    }

    fn content(&self, b: &mut Back, lo: u64, hi: u64) -> Result<(), Option<Fail>> {
        use Aspect::*;
        if hi <= lo {
            return Ok(());
        }
        let g = match b.vm.sm().load_bytes(lo, hi - lo) {
            Ok(g) => g,
            Err(e) => return Err(self.err(&[Content], &b.name, "bounds", format!("load_bytes({lo:#x}, {:#x}) failed: {e:?}", hi - lo))),
        };
        let w = &b.m.mem.data[lo as usize..hi as usize];
        if g[..] != *w {
            let i = g.iter().zip(w).position(|(x, y)| x != y).unwrap_or(0);
            let a = lo + i as u64;
            let fl = b.m.mem.flags[(a / PAGE) as usize];
            let c: &[Aspect] = if fl & 3 != 0 { &[Content, Perm] } else { &[Content] };
            return Err(self.err(c, &b.name, "content", format!("the byte at {a:#x} is {:x?}, expected {:#x}", g.get(i), w[i])));
        }
        Ok(())
    }

    fn start(&self, b: &mut Back, pc: u64, a: u64, v: u64) {
        let sm = b.vm.sm();
        sm.set_reg(10, a);
        sm.set_reg(11, v);
        sm.set_reg(12, 0x55);
        sm.set_reg(17, 93);
        sm.set_pc(pc);
        sm.set_cycles(0);
        b.m.set(10, a);
        b.m.set(11, v);
        b.m.set(12, 0x55);
        b.m.set(17, 93);
        b.m.pc = pc;
        b.m.cycles = 0;
    }

    fn guest(&mut self, b: &mut Back, o: &O, k: usize, a: u64, v: u64) -> Result<(), Option<Fail>> {
        use Aspect::*;
        let op = GUEST[k];
        if b.m.xlen == 32 && matches!(op, Op::Ld | Op::Sd | Op::Lwu | Op::LrD | Op::ScD | Op::AmoswapD) {
            return Ok(());
        }
        let a = b.mask(a);
        let v = b.mask(v);
        let pc = self.code + 8 * k as u64;
        if b.raw && a < self.code + 256 && a.wrapping_add(16) > self.code {
            // would modify the instructions being executed
            return Ok(());
        }
        self.start(b, pc, a, v);
        let w = op.mem_width();
        let writes = !(op.is_load() || matches!(op, Op::LrW | Op::LrD));
        let wc = self.wcauses(b, a, w);
        let old = b.m.mem.load(a, w).unwrap_or(0);
        let before = b.m.mem.clone_range(a, w, self.size);
        let sc = matches!(op, Op::ScW | Op::ScD);
        let sc_hit = sc && b.m.lr == a;
        let r1 = b.m.step();
        // the code is always the same here, so a decoder can be kept (a new one is expensive)
        let got = b.vm.run_kept();
        // the reservation is C22's concern: follow the VM after a fault
        match (&r1, &got) {
            (Ok(_), Ok(_)) => {
                let g = b.vm.sm().reg(12);
                if g != b.m.x[12] && !sc {
                    return Err(self.err(&[Content], &b.name, "content", format!("{} at {a:#x} gave {g:#x}, expected {:#x} (memory held {old:#x})", op.name(), b.m.x[12])));
                }
                if sc && !sc_hit {
                    // nothing to write: either marking is fine
                    for p in in_pages(self.size, a, w) {
                        if let Ok(f) = b.vm.sm().flag(p) {
                            let e = before.1[(p - a / PAGE) as usize];
                            if f == e | F_DIRTY || f == e {
                                b.m.mem.flags[p as usize] = f;
                            }
                        }
                    }
                }
                if writes {
                    self.okw += 1;
                    self.flags(b, in_pages(self.size, a, w), o)?;
                }
                Ok(())
            }
            (Err(f), Err(e)) => {
                self.faults += 1;
                let mut ok = wc.iter().any(|c| err_matches(c, e));
                if !writes {
                    ok = matches!(e, Error::MemOutOfBound(..));
                }
                if op.is_atomic() && b.m.mem.inb(a, w).is_err() && matches!(e, Error::MemOutOfBound(..)) {
                    ok = true;
                }
                if !ok && !err_matches(f, e) {
                    return Err(self.err(&[if matches!(f, Fault::Perm(_)) { Perm } else { Content }], &b.name, "error", format!("{} at {a:#x} failed with {e:?}, expected {f:?}", op.name())));
                }
                b.m.lr = b.vm.sm().lr();
                if writes {
                    // an ordinary store shows exactly what it would have written; a read-modify-write
                    // must not have written at all
                    let nb = v.to_le_bytes();
                    let plain = matches!(op, Op::Sb | Op::Sh | Op::Sw | Op::Sd);
                    let m0 = b.m.mem.data.len() as u64;
                    let data: Vec<u8> = (0..w).map(|i| if plain { nb[i as usize] } else if a.wrapping_add(i) < m0 { b.m.mem.data[a.wrapping_add(i) as usize] } else { 0 }).collect();
                    self.adopt(b, o, a, w, &|i| data[i as usize], F_DIRTY)?;
                }
                Ok(())
            }
            (Ok(_), Err(e)) => {
                let c = if matches!(e, Error::MemWriteOnExecutablePage(_)) { [Perm] } else { [Content] };
                Err(self.err(&c, &b.name, "refused", format!("{} at {a:#x} failed with {e:?}, expected success", op.name())))
            }
            (Err(f), Ok(_)) => {
                let c = if matches!(f, Fault::Perm(_)) { [Perm] } else { [Content] };
                Err(self.err(&c, &b.name, "allowed", format!("{} at {a:#x} succeeded, expected {f:?}", op.name())))
            }
        }
    }

    /// A jump whose first fetch must fail.
    fn jump(&mut self, b: &mut Back, o: &O, t: u64) -> Result<(), Option<Fail>> {
        let t = b.mask(t) & !1;
        let f = match b.m.fetch_decode(t) {
            Err(f @ (Fault::Perm(_) | Fault::Oob(..))) => f,
            _ => return Ok(()),
        };
        if b.m.ver < 2 && t >> 32 != 0 && (t & 0xffff_ffff) / PAGE == self.code / PAGE {
            // versions 0 and 1 look cached blocks up by the low 32 bits of the pc
            return Ok(());
        }
        self.start(b, self.code + 8 * GUEST.len() as u64, t, 0);
        let got = b.vm.run();
        self.fetch_failed(b, o, f, got, t)
    }

    fn fetch_failed(&mut self, b: &mut Back, o: &O, f: Fault, got: Result<i8, Error>, t: u64) -> Result<(), Option<Fail>> {
        use Aspect::*;
        self.faults += 1;
        let ok = match &got {
            Err(e) => {
                err_matches(&f, e)
                    || (matches!(e, Error::MemOutOfBound(..)) && (b.m.mem.inb(t, 4).is_err()))
                    || (b.m.mem.wx && in_pages(self.size, t, 4).any(|p| b.m.mem.flags[p as usize] & F_EXEC == 0 && err_matches(&Fault::Perm(p), e)))
            }
            Ok(_) => false,
        };
        if ok {
            return Ok(());
        }
        let c = if matches!(f, Fault::Perm(_)) { [Perm] } else { [Content] };
        Err(self.err(&c, &b.name, "fetched", format!("{o:x?}: executing at {t:#x} gave {got:?}, expected {f:?}")))
    }

    /// A page of no-operations, executed near its end and running into the next page.
    fn edge(&mut self, b: &mut Back, o: &O, p: u64, straddle: bool, n: u64) -> Result<(), Option<Fail>> {
        if p * PAGE == self.code || b.m.mem.flags[p as usize] & F_FREEZE != 0 {
            return Ok(());
        }
        let mut data = vec![];
        for _ in 0..PAGE / 2 {
            data.extend_from_slice(&[1, 0]); // c.nop
        }
        if straddle {
            data[PAGE as usize - 2..].copy_from_slice(&[0x13, 0x05]); // first half of addi a0, x0, ..
        }
        let init = b.vm.sm().init_pages(p * PAGE, PAGE, F_EXEC, Some(Bytes::from(data.clone())), 0);
        if b.raw {
            b.m.mem.store_bytes(p * PAGE, &data).ok();
        } else {
            b.m.mem.init_pages(p * PAGE, PAGE, F_EXEC, &data, 0).ok();
        }
        if let Err(e) = init {
            return Err(self.err(&[Aspect::Perm], &b.name, "refused", format!("init_pages of the unfrozen page {p:#x} failed: {e:?}")));
        }
        let next = (p + 1) * PAGE;
        let t = if straddle { next - 2 } else { next };
        let f = match b.m.fetch_decode(t) {
            Err(f @ (Fault::Perm(_) | Fault::Oob(..))) => f,
            _ => return Ok(()),
        };
        self.start(b, next - 2 * (1 + n) - if straddle { 2 } else { 0 }, 0, 0);
        let got = b.vm.run();
        self.fetch_failed(b, o, f, got, t)
    }

    pub fn finish(&mut self) -> CaseRes {
        let mut backs = std::mem::take(&mut self.backs);
        let mut r: Result<(), Option<Fail>> = Ok(());
        for b in &mut backs {
            r = self.flags(b, 0..self.size / PAGE, &O::CheckPages(0, self.size / PAGE));
            if r.is_ok() && !self.vast {
                r = self.content(b, 0, self.size);
            }
            if self.vast {
                let mut near: Vec<u64> = (0..self.size / PAGE).filter(|p| b.m.mem.flags[*p as usize] != 0).collect();
                for a in &self.hot {
                    for d in [0, PAGE, 0u64.wrapping_sub(PAGE), 1 << 31, 1 << 32, 0u64.wrapping_sub(1 << 31), 0u64.wrapping_sub(1 << 32)] {
                        let p = a.wrapping_add(d) / PAGE;
                        if p < self.size / PAGE {
                            near.push(p);
                        }
                    }
                }
                for p in near {
                    if r.is_ok() {
                        r = self.content(b, p * PAGE, (p + 1) * PAGE);
                    }
                }
            }
            if r.is_ok() {
                for (g, w, what) in &b.kept {
                    if g[..] != w[..] {
                        r = Err(self.err(&[Aspect::Content], &b.name, "aliased", format!("the bytes returned by {what} changed after they were returned")));
                        break;
                    }
                }
            }
            if r.is_err() {
                break;
            }
        }
        self.backs = backs;
        match r {
            Err(Some(f)) => Err(f),
            Err(None) => {
                self.stopped = true;
                Ok(())
            }
            Ok(()) => Ok(()),
        }
    }

    pub fn render(&self) -> String {
        format!("memory {:#x}: backends {}; {} operations, {} writes accepted, {} refused or out of bounds; e.g. {}", self.size, self.backs.iter().map(|b| b.name.clone()).collect::<Vec<_>>().join(", "), self.ops, self.okw, self.faults, self.log.iter().take(6).cloned().collect::<Vec<_>>().join("; "))
    }
}

impl Mem {
    /// marks of the pages an access touches
    fn clone_range(&self, a: u64, n: u64, size: u64) -> (u64, Vec<u8>) {
        (a, in_pages(size, a, n).map(|p| self.flags[p as usize]).collect())
    }
}
