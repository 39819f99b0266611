//! C04: every engine ends every program the same way.

use crate::exec::*;
use crate::gen::*;
use crate::isa::*;
use crate::model::*;
use crate::runner::*;
use crate::src::Src;
use crate::vm::*;
use ckb_vm::{Error, FlatMemory, SparseMemory};

pub static PROP: Prop = Prop {
    id: "C04",
    rule: "structured or unstructured whole programs",
    assumptions: &[],
    cases: (25_000, 400_000),
    fixed: 0,
    preset: no_preset,
    run,
    probes: &[],
};

/// the one-call entry points `run` and `run_with_memory`: everything enabled, latest version, no limit, no handlers
fn front_door(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let xlen = if s.bool() { 32 } else { 64 };
    let dflt = s.bool();
    let mem = if dflt { 4096 } else { [256, 512, 1024][s.usize(3)] } * 1024;
    let p = PCfg { c: Cfg { xlen, ver: 2, a: true, b: true }, mop: true, mem };
    let host = s.chance(1, 4);
    let prog = gen_program(s, p, Opts { host, size: 20, wild: 5, big: 10, ..Opts::default() });
    let mut m = load_model(&prog).unwrap_or_else(|e| panic!("generated program does not load: {e}"));
    m.cost = Cost::Zero;
    m.max_cycles = u64::MAX;
    let end = loop {
        if m.steps >= 100_000 {
            break End::Limit;
        }
        match m.step() {
            Ok(Ev::None) | Ok(Ev::Ebreak) => {}
            Ok(Ev::Exit(c)) => break End::Exit(c),
            Ok(Ev::Ecall(code)) => break End::Fault(Fault::Ecall(code)),
            Err(x) => break End::Fault(x),
        }
    };
    ctx.label("entry points");
    if end == End::Limit {
        return Ok(());
    }
    ctx.nt(m.steps > 30 && matches!(end, End::Exit(_)));
    let (bytes, args) = (Bytes::from(prog.bytes.clone()), bargs(&prog));
    let n = mem as usize;
    let rs: Vec<(&str, Result<i8, Error>)> = match (xlen, dflt) {
        (64, true) => vec![
            ("run, 64 bit sparse", ckb_vm::run::<u64, SparseMemory<u64>>(&bytes, &args)),
            ("run, 64 bit flat", ckb_vm::run::<u64, FlatMemory<u64>>(&bytes, &args)),
        ],
        (_, true) => vec![
            ("run, 32 bit sparse", ckb_vm::run::<u32, SparseMemory<u32>>(&bytes, &args)),
            ("run, 32 bit flat", ckb_vm::run::<u32, FlatMemory<u32>>(&bytes, &args)),
        ],
        (64, false) => vec![
            ("run_with_memory, 64 bit sparse", ckb_vm::run_with_memory(&bytes, &args, SparseMemory::<u64>::new_with_memory(n))),
            ("run_with_memory, 64 bit flat", ckb_vm::run_with_memory(&bytes, &args, FlatMemory::<u64>::new_with_memory(n))),
        ],
        (_, false) => vec![
            ("run_with_memory, 32 bit sparse", ckb_vm::run_with_memory(&bytes, &args, SparseMemory::<u32>::new_with_memory(n))),
            ("run_with_memory, 32 bit flat", ckb_vm::run_with_memory(&bytes, &args, FlatMemory::<u32>::new_with_memory(n))),
        ],
    };
    for (k, r) in rs {
        match (&end, &r) {
            (End::Exit(a), Ok(b)) if a == b => {}
            (End::Fault(_), Err(_)) => {}
            _ => return Err(f("entry-point", format!("{k}, memory {mem:#x}: ended with {r:?}, expected {end:?}"))),
        }
    }
    Ok(())
}

/// the compiled programs that come with the repository: (name, image)
pub fn compiled() -> &'static [(String, Vec<u8>)] {
    static ALL: std::sync::OnceLock<Vec<(String, Vec<u8>)>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let mut v = vec![];
        if let Ok(d) = std::fs::read_dir("/repo/tests/programs") {
            for e in d.flatten() {
                match std::fs::read(e.path()) {
                    Ok(b) if b.len() < 2_000_000 && b.starts_with(b"\x7fELF") => v.push((e.file_name().to_string_lossy().into_owned(), b)),
                    _ => {}
                }
            }
        }
        v.sort();
        v
    })
}

/// file ranges of the loadable segments: (offset, size, executable)
pub fn file_ranges(b: &[u8]) -> (u32, Vec<(u64, u64, bool)>) {
    let n = |at: usize, w: usize| -> u64 {
        let mut x = [0u8; 8];
        x[..w].copy_from_slice(b.get(at..at + w).unwrap_or(&[0; 8][..w]));
        u64::from_le_bytes(x)
    };
    let w = if b.get(4) == Some(&1) { 4 } else { 8 };
    let (phoff, phnum, phsz) = if w == 8 { (n(32, 8), n(56, 2), 56) } else { (n(28, 4), n(44, 2), 32) };
    let mut v = vec![];
    for k in 0..phnum as usize {
        let Some(at) = (phoff as usize).checked_add(k * phsz) else { break };
        if at > b.len() || n(at, 4) != 1 {
            continue;
        }
        let (off, fsz, fl) = if w == 8 { (n(at + 8, 8), n(at + 32, 8), n(at + 4, 4)) } else { (n(at + 4, 4), n(at + 16, 4), n(at + 24, 4)) };
        if off.checked_add(fsz).map_or(true, |e| e > b.len() as u64) || fsz == 0 {
            continue;
        }
        v.push((off, fsz, fl & 1 != 0));
    }
    (w as u32 * 8, v)
}

/// a compiled program as it is, or with some of its code or data changed
fn real(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let all = compiled();
    if all.is_empty() {
        return Ok(());
    }
    let (name, orig) = &all[s.usize(all.len())];
    let mut b = orig.clone();
    let (xlen, rs) = file_ranges(orig);
    let mut p = gen_cfg(s, xlen);
    p.mem = [512, 1024, 1024, 4096][s.usize(4)] * 1024;
    if s.chance(3, 4) {
        p.c.a = true;
        p.c.b = true;
    }
    let k = if rs.is_empty() { 0 } else { *s.pick(&[0, 1, 1, 2, 4, 12]) };
    // headers that lie inside the first segment stay as they are
    let hdr = if xlen == 64 { 64 + 56 * 8 } else { 52 + 32 * 8 };
    let mut edits = vec![];
    for _ in 0..k {
        let (off, n, x) = *s.pick(&rs);
        let lo = off.max(hdr);
        if lo >= off + n {
            continue;
        }
        let at = lo + if x && s.bool() { s.below((off + n - lo).min(600)) } else { s.below(off + n - lo) };
        match s.below(5) {
            0 => b[at as usize] = s.below(256) as u8,
            1 => b[at as usize] ^= 1 << s.below(8),
            2 => {
                // one halfword over another
                let from = (lo + s.below(off + n - lo)) & !1;
                let to = at & !1;
                if from + 2 <= off + n && to >= lo {
                    b.copy_within(from as usize..from as usize + 2, to as usize);
                }
            }
            3 => {
                let from = (lo + s.below(off + n - lo)) & !1;
                let to = at & !1;
                if from + 4 <= off + n && to + 4 <= off + n && to >= lo {
                    b.copy_within(from as usize..from as usize + 4, to as usize);
                }
            }
            _ => {
                // another register in an instruction word
                let to = at & !3;
                if to >= lo && to + 4 <= off + n {
                    let w = u32::from_le_bytes(b[to as usize..to as usize + 4].try_into().unwrap());
                    let sh = *s.pick(&[7, 15, 20]);
                    let w = w & !(31 << sh) | (s.below(32) as u32) << sh;
                    b[to as usize..to as usize + 4].copy_from_slice(&w.to_le_bytes());
                }
            }
        }
        edits.push(at);
    }
    let n = s.below(4);
    let args: Vec<Vec<u8>> = (0..n)
        .map(|_| match s.below(3) {
            0 => name.clone().into_bytes(),
            1 => s.below(1000).to_string().into_bytes(),
            _ => (0..s.below(30)).map(|_| s.below(256) as u8).collect(),
        })
        .collect();
    let mut m = Model::new(xlen, p.c.ver, p.isa(), Mem::new(p.mem, true));
    m.cost = [Cost::One, Cost::Published][s.usize(2)];
    m.max_cycles = 1000 * s.range(1, 60);
    let cost = m.cost;
    let limit = m.max_cycles;
    let flat = s.bool();
    if crate::elf::load_program(&mut m, &b, &args).is_err() {
        ctx.label("compiled: does not load");
        return Ok(());
    }
    let end = model_run(&mut m, 100_000);
    ctx.label("compiled programs");
    ctx.label(match &end {
        End::Exit(_) => "compiled: exit",
        End::Fault(Fault::CyclesExceeded) => "compiled: cycles",
        End::Fault(_) => "compiled: fault",
        End::Limit => "compiled: limit",
    });
    if end == End::Limit {
        return Ok(());
    }
    ctx.nt(m.steps > 30);
    ctx.sample(|| format!("{name} changed at {edits:x?}, {p}, {} steps", m.steps));
    let bytes = Bytes::from(b);
    let bargs: Vec<Bytes> = args.iter().map(|a| Bytes::from(a.clone())).collect();
    for k in kinds(&p, flat) {
        let mut c = vm_cfg(k, &p).cycles(limit, cost);
        c.syscalls.push(host_sys());
        let mut vm = build(c);
        vm.load_program(&bytes, &bargs).map_err(|e| f("load", format!("{k}: {name} changed at {edits:x?}: load failed: {e:?}")))?;
        let r = vm.run();
        check_end(&m, &end, &mut *vm, &r).map_err(|mut e| {
            e.msg = format!("{} | {name} changed at {edits:x?} {p} cost {cost:?}", e.msg);
            e
        })?;
    }
    Ok(())
}

pub fn run(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    match s.below(12) {
        0 if s.chance(1, 8) => {
            let xlen = if s.chance(1, 4) { 32 } else { 64 };
            if s.chance(1, 3) {
                return super::vast::twins(s, ctx, xlen);
            }
            return super::vast::run(s, ctx, xlen, false, [6, 3, 6, 4, 2, 1, 1]);
        }
        0 => return front_door(s, ctx),
        1 => return real(s, ctx),
        _ => {}
    }
    let xlen = if s.chance(1, 6) { 32 } else { 64 };
    let p = gen_cfg(s, xlen);
    let cost = [Cost::One, Cost::Published, Cost::Hash(s.below(1000))][s.usize(3)];
    let flat = s.bool();
    let prog = gen_program(s, p, Opts::default());
    let mut m = match load_model(&prog) {
        Ok(m) => m,
        Err(e) => panic!("generated program does not load: {e}"),
    };
    m.cost = cost;
    m.max_cycles = 200_000;
    let end = model_run(&mut m, 100_000);
    for t in &prog.labels {
        ctx.label(t);
    }
    ctx.label(match &end {
        End::Exit(_) => "end:exit",
        End::Fault(Fault::CyclesExceeded) => "end:cycles",
        End::Fault(_) => "end:fault",
        End::Limit => "end:limit",
    });
    if end == End::Limit {
        // operations may be free of charge: nothing bounds the run
        return Ok(());
    }
    ctx.label_n("steps", m.steps);
    ctx.nt(m.steps > 30 && matches!(end, End::Exit(_)));
    ctx.sample(|| prog.render());
    let bytes = Bytes::from(prog.bytes.clone());
    for k in kinds(&p, flat) {
        let mut c = vm_cfg(k, &p).cycles(200_000, cost);
        c.syscalls.push(host_sys());
        let mut vm = build(c);
        vm.load_program(&bytes, &bargs(&prog)).map_err(|e| f("load", format!("{k}: load failed: {e:?}")))?;
        let r = vm.run();
        check_end(&m, &end, &mut *vm, &r).map_err(|mut e| {
            e.msg = format!("{} | {} cost {cost:?}", e.msg, prog.p);
            e
        })?;
    }
    Ok(())
}
