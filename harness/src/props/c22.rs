//! C22: reservations and atomics over every history.

use crate::exec::*;
use crate::gen::*;
use crate::isa::*;
use crate::model::*;
use crate::online::Setup;
use crate::props::c14::targets;
use crate::runner::*;
use crate::src::Src;
use crate::vm::*;
use std::sync::Arc;

pub static PROP: Prop = Prop {
    id: "C22",
    rule: "at least three atomic instructions complete, with one store-conditional that succeeds or fails against a live reservation",
    assumptions: &["a store-conditional matches a reservation by address alone (the width is not part of it), and stores by this single hart do not end it; addresses need not be aligned"],
    cases: (40_000, 1_500_000),
    fixed: 0,
    preset: no_preset,
    run,
    probes: &[],
};

const AMOS: [(Op, Op); 9] = {
    use Op::*;
    [(AmoswapW, AmoswapD), (AmoaddW, AmoaddD), (AmoxorW, AmoxorD), (AmoandW, AmoandD), (AmoorW, AmoorD), (AmominW, AmominD), (AmomaxW, AmomaxD), (AmominuW, AmominuD), (AmomaxuW, AmomaxuD)]
};
/// registers holding addresses, and registers holding data
const ADDR: [u8; 5] = [8, 9, 18, 19, 20];
const DATA: [u8; 8] = [5, 6, 7, 11, 12, 13, 28, 29];

fn gen(s: &mut Src, vast: bool) -> Setup {
    use Op::*;
    let xlen = if s.chance(1, 5) { 32 } else { 64 };
    let mut p = gen_cfg(s, xlen);
    p.c.a = true;
    p.mem = FRAME * s.range(1, 2);
    if vast {
        p.mem = vast_mem(s, xlen);
    }
    let c = p.c;
    let x64 = xlen == 64;
    let code_base = 0x1000 * s.range(0, 3);
    // how far apart two addresses lie which a truncated one would confuse
    let apart = if p.mem > 1 << 32 && s.chance(2, 3) { 1u64 << 32 } else { 1 << 31 };
    let area = match s.below(8) {
        _ if vast => (if s.chance(2, 3) { apart } else { 0 }) + *s.pick(&[0x10000u64, 0x1fff8, 0x3fffc, 0x40000, 0x20010]),
        0 => p.mem - 16,
        1 => code_base + 8,
        2 => 0x20000 - 8,
        3 => p.mem.min(FRAME) - 4,
        4 => 0x1f000 - 4,
        _ => 0x10000 + 8 * s.below(200),
    };
    let mut regs = [0u64; 32];
    for r in DATA {
        regs[r as usize] = s.val();
    }
    let dirty = s.chance(1, 12);
    for (i, r) in ADDR.iter().enumerate() {
        let w = 4 + 4 * x64 as u64;
        regs[*r as usize] = match s.below(10) {
            1..=4 if vast && s.chance(2, 3) => if area >= apart { area - apart } else { area + apart },
            0..=4 => area,
            5 | 6 => area.wrapping_add(w * s.below(3)),
            7 => area.wrapping_add(s.below(8)),
            8 => regs[ADDR[i.saturating_sub(1)] as usize],
            _ if dirty => match s.below(4) {
                0 => p.mem - s.below(9),
                1 => code_base + 4 * s.below(8),
                2 => u64::MAX - s.below(9),
                _ => s.val(),
            },
            _ => area.wrapping_sub(4 * s.below(3)),
        };
    }
    // the code: linear, with retry loops and skips
    let mut a = Asm::default();
    let n = s.range(2, 24);
    let mut last = 8u8;
    let mut retry: Option<usize> = None;
    let suf = |s: &mut Src| x64 && s.bool();
    for _ in 0..n {
        let ad = if s.chance(2, 3) { last } else { *s.pick(&ADDR) };
        let rd = if s.chance(1, 10) { 0 } else if s.chance(1, 20) { ad } else { *s.pick(&DATA) };
        let v = if s.chance(1, 12) { 0 } else if s.chance(1, 20) { ad } else { *s.pick(&DATA) };
        match s.weighted(&[6, 8, 5, 3, 3, 2, 2, 1, 1]) {
            0 => {
                if s.chance(1, 5) && retry.is_none() {
                    let l = a.label();
                    a.lab(l);
                    retry = Some(l);
                }
                let rd = if rd == ad && s.bool() { 5 } else { rd };
                a.op(if suf(s) { LrD } else { LrW }, rd, ad, 0, 0);
                last = ad;
            }
            1 => {
                a.op(if suf(s) { ScD } else { ScW }, rd, ad, v, 0);
                if let (Some(l), true) = (retry, rd != 0 && !ADDR.contains(&rd) && s.bool()) {
                    // bounded retry
                    a.op(Addi, 30, 30, 0, 1);
                    a.op(Slti, 31, 30, 0, 4);
                    a.op(And, 31, 31, rd, 0);
                    a.br(Inst::new(Bne, 0, 31, 0, 0), l);
                    retry = None;
                }
            }
            2 => {
                let (w, d) = *s.pick(&AMOS);
                a.op(if suf(s) { d } else { w }, rd, ad, v, 0);
            }
            3 => {
                let op = *s.pick(&[Sb, Sh, Sw, if x64 { Sd } else { Sw }]);
                a.op(op, 0, ad, *s.pick(&DATA), s.below(9) as i64 - 4);
            }
            4 => {
                let op = *s.pick(&[Lbu, Lh, Lw, if x64 { Ld } else { Lw }]);
                a.op(op, *s.pick(&DATA), ad, 0, s.below(9) as i64 - 4);
            }
            5 => {
                // move an address
                let b = *s.pick(&ADDR);
                if s.bool() {
                    a.op(Add, b, ad, 0, 0);
                } else {
                    a.op(Addi, b, b, 0, *s.pick(&[4i64, -4, 8, -8, 1, 2]));
                }
            }
            6 => {
                let i = gen_alu(s, &c, &DATA, &DATA);
                a.ic(i, s.bool());
            }
            7 => {
                // the host stores through the same address, or just answers
                let code = *s.pick(&[2001u64, 2001, 2002, 2005]);
                if code == 2002 {
                    a.op(Add, 11, ad, 0, 0);
                }
                a.li(17, code, c.xlen);
                a.op(Ecall, 0, 0, 0, 0);
            }
            _ => {
                let l = a.label();
                a.br(Inst::new(*s.pick(&[Beq, Bne, Blt]), 0, *s.pick(&DATA), *s.pick(&DATA), 0), l);
                for _ in 0..s.range(1, 2) {
                    a.op(if suf(s) { ScD } else { ScW }, *s.pick(&DATA), ad, *s.pick(&DATA), 0);
                }
                a.lab(l);
            }
        }
    }
    a.op(Addi, 17, 0, 0, 93);
    a.op(Ecall, 0, 0, 0, 0);
    let off = *s.pick(&[0u64, 0, 0, 0xff0]);
    let (code, _) = a.assemble(code_base + off, &c);
    let mut v = vec![0u8; off as usize];
    v.extend(code);
    while v.len() as u64 % PAGE != 0 {
        v.push(0);
    }
    let mut blobs = vec![];
    if area >= code_base + v.len() as u64 && area + 24 <= p.mem {
        let k = s.val();
        blobs.push((area, k.to_le_bytes().iter().chain(k.rotate_left(17).to_le_bytes().iter()).copied().collect::<Vec<u8>>()));
    }
    if xlen == 32 {
        for r in regs.iter_mut() {
            *r &= 0xffff_ffff;
        }
    }
    Setup { p, regs, pc: code_base + off, code_base, code: v, blobs, cost: Cost::One, max_cycles: 4000 }
}

/// The statement itself, over what a stepped machine shows.
#[derive(Default)]
struct Tracker {
    resv: Option<u64>,
    live: u64,
    atomics: u64,
}
impl Tracker {
    fn step(&mut self, c: &Cfg, i: Option<Inst>, before: &[u64; 32], b: &dyn Fn(u64, u64) -> Option<u64>, after: &[u64; 32], a: &dyn Fn(u64, u64) -> Option<u64>) -> Result<(), String> {
        let Some(i) = i else { return Ok(()) };
        if !i.op.is_atomic() {
            return Ok(());
        }
        let mask = if c.xlen == 32 { 0xffff_ffff } else { u64::MAX };
        self.atomics += 1;
        let at = before[i.rs1 as usize];
        let w = i.op.mem_width();
        let sx = |v: u64| (if w == 4 { v as u32 as i32 as i64 as u64 } else { v }) & mask;
        let trunc = |v: u64| if w == 4 { v as u32 as u64 } else { v };
        let old = b(at, w).ok_or("an atomic on unreadable memory completes")?;
        let new = a(at, w).ok_or("memory became unreadable")?;
        let src = before[i.rs2 as usize];
        let res = after[i.rd as usize];
        let name = i.op.name();
        match i.op {
            Op::LrW | Op::LrD => {
                self.resv = Some(at);
                if i.rd != 0 && res != sx(old) {
                    return Err(format!("{name} gives {res:#x}, memory holds {old:#x}"));
                }
                if new != old {
                    return Err(format!("{name} changed memory"));
                }
            }
            Op::ScW | Op::ScD => {
                let ok = self.resv == Some(at);
                self.live += self.resv.is_some() as u64;
                self.resv = None;
                if i.rd != 0 && res != !ok as u64 {
                    return Err(format!("{name} at {at:#x} gives {res}, expected {}", !ok as u64));
                }
                let want = if ok { trunc(src) } else { old };
                if new != want {
                    return Err(format!("{name} at {at:#x} leaves {new:#x}, expected {want:#x}"));
                }
            }
            _ => {
                if i.rd != 0 && res != sx(old) {
                    return Err(format!("{name} gives {res:#x}, memory held {old:#x}"));
                }
                let (o, v) = (sx(old), sx(trunc(src)));
                let sg = |x: u64| if c.xlen == 32 { x as u32 as i32 as i64 } else { x as i64 };
                use Op::*;
                let r = match i.op {
                    AmoswapW | AmoswapD => v,
                    AmoaddW | AmoaddD => o.wrapping_add(v),
                    AmoxorW | AmoxorD => o ^ v,
                    AmoandW | AmoandD => o & v,
                    AmoorW | AmoorD => o | v,
                    AmominW | AmominD => if sg(o) < sg(v) { o } else { v },
                    AmomaxW | AmomaxD => if sg(o) > sg(v) { o } else { v },
                    AmominuW => (o as u32).min(v as u32) as u64,
                    AmomaxuW => (o as u32).max(v as u32) as u64,
                    AmominuD => o.min(v),
                    _ => o.max(v),
                };
                if new != trunc(r) {
                    return Err(format!("{name} at {at:#x} of {old:#x} and {v:#x} leaves {new:#x}, expected {:#x}", trunc(r)));
                }
            }
        }
        Ok(())
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    if s.chance(1, 120) {
        return roomy(|| run_in(s, ctx, true));
    }
    run_in(s, ctx, false)
}

fn run_in(s: &mut Src, ctx: &mut Ctx, vast: bool) -> CaseRes {
    let set = gen(s, vast);
    let p = set.p;
    if vast {
        ctx.label("a memory of several gigabytes");
    }
    ctx.sample(|| set.render());
    let mk = |k: Kind| {
        let mut c = vm_cfg(k, &p).cycles(set.max_cycles, set.cost);
        c.syscalls.push(host_sys());
        set.vm_with(c).map_err(h)
    };
    // the reference, watched by the statement itself
    let mut m = set.model();
    let mut t = Tracker::default();
    let mut end = End::Limit;
    while m.steps < 5000 {
        let (before, pc) = (m.x, m.pc);
        let i = m.mem.inst_bits(pc).ok().and_then(|w| decode(w, &m.cfg));
        let rd = |d: &[u8], a: u64, w: u64| {
            let e = a.checked_add(w)?;
            (e <= d.len() as u64).then(|| d[a as usize..e as usize].iter().rev().fold(0u64, |x, b| x << 8 | *b as u64))
        };
        let old = i.filter(|i| i.op.is_atomic()).and_then(|i| rd(&m.mem.data, before[i.rs1 as usize], i.op.mem_width()));
        let e = match m.step() {
            Ok(Ev::Ecall(c)) => model_ecall(&mut m, c).map(|_| Ev::None),
            e => e,
        };
        match e {
            Err(x) => {
                end = End::Fault(x);
                break;
            }
            Ok(Ev::Exit(c)) => {
                end = End::Exit(c);
                break;
            }
            Ok(_) => {
                t.step(&p.c, i, &before, &|_, _| old, &m.x, &|a, w| rd(&m.mem.data, a, w)).map_err(|e| panic!("the reference breaks the rule: {e}")).unwrap();
            }
        }
    }
    if end == End::Limit {
        return Ok(());
    }
    ctx.nt(t.atomics >= 3 && t.live > 0);
    ctx.label_n("atomics", t.atomics);
    ctx.label_n("conditional stores against a reservation", t.live);
    ctx.label(match end {
        End::Exit(_) => "runs through",
        _ => "faults",
    });
    let k = targets(&p, s);
    let say = |x: String| format!("{x} | {}", set.render());
    // run
    let mut vm = mk(k)?;
    let r = vm.run();
    ctx.evals += 1;
    check_end(&m, &end, &mut *vm, &r).map_err(|mut e| {
        e.msg = say(e.msg);
        e
    })?;
    // step beside the reference, cross over to another machine somewhere
    let cut = s.below(t.atomics * 2 + 3);
    let k2 = targets(&p, s);
    let mut vm = mk(k2)?;
    let mut m2 = set.model();
    let e2 = stepwise(&mut m2, &mut *vm, cut).map_err(|mut e| {
        e.msg = say(e.msg);
        e
    })?;
    ctx.evals += 1;
    if e2 != End::Limit {
        return Ok(());
    }
    let k3 = targets(&p, s);
    let mut other = {
        let mut c = vm_cfg(k3, &p).cycles(set.max_cycles, set.cost);
        c.syscalls.push(host_sys());
        build(c)
    };
    let cycles = vm.sm().cycles();
    let how = s.below(2);
    if how == 0 {
        let snap = vm.sm().snap1().map_err(|e| f("snapshot", say(format!("{k2}: {e:?}"))))?;
        other.sm().resume1(&snap).map_err(|e| f("resume", say(format!("{k3}: {e:?}"))))?;
    } else {
        let c0 = Ctx2::new(Source(Arc::new(vec![])));
        let snap = vm.sm().snap2(&c0).map_err(|e| f("snapshot", say(format!("{k2}: {e:?}"))))?;
        other.sm().resume2(&mut Ctx2::new(Source(Arc::new(vec![]))), &snap).map_err(|e| f("resume", say(format!("{k3}: {e:?}"))))?;
    }
    other.sm().set_cycles(cycles);
    let r = other.run();
    ctx.evals += 1;
    if matches!(end, End::Exit(_)) || !k3.engine.decodes_ahead() {
        let why = |e: Fail| Fail { msg: say(format!("{k2} for {cut} steps, snapshot {}, then {}", how + 1, e.msg)), ..e };
        match (&end, &r) {
            (End::Exit(_), Ok(_)) => {
                diff_regs(&m, other.sm()).map_err(|e| why(f("snapshot-state", e)))?;
                diff_mem(&m, other.sm()).map_err(|e| why(f("snapshot-state", e)))?;
                let lr = if p.c.xlen == 32 { m.lr & 0xffff_ffff } else { m.lr };
                ensure!(other.sm().lr() == lr, "snapshot-state", "{}", say(format!("{k2} for {cut} steps, snapshot {}, then {k3}: reservation {:#x}, expected {lr:#x}", how + 1, other.sm().lr())));
            }
            (End::Fault(x), Err(e)) if err_matches(x, e) => {}
            _ => return Err(why(f("snapshot-end", format!("{k3}: ends with {r:?}, expected {end:?}")))),
        }
    }
    Ok(())
}
