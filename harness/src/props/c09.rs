//! C09, C10, C11: memory histories (see mh.rs) judged for contents and bounds, permissions, and dirty marks.

use crate::exec::*;
use crate::gen::*;
use crate::mh::*;
use crate::model::*;
use crate::runner::*;
use crate::src::Src;
use crate::vm::*;
use ckb_vm::{Memory, SparseMemory, WXorXMemory};

pub static C09: Prop = Prop {
    id: "C09",
    rule: "at least 8 accepted writes and 3 out-of-bound accesses in one history",
    assumptions: &["reference memory: one byte array with page marks"],
    cases: (10_000, 800_000),
    fixed: 2,
    preset: |i| vec![i + 1],
    run: |s, ctx| {
        match s.below(100_000_000) {
            k @ 1..=2 => big(ctx, k - 1),
            _ => hist(s, ctx, Aspect::Content),
        }
    },
    probes: &[],
};
pub static C10: Prop = Prop {
    id: "C10",
    rule: "at least 5 accepted writes and 3 refused accesses in one history",
    assumptions: &["reference memory: one byte array with page marks", "caches of decoded code are fresh for each run (C05 and C17 decide caching)"],
    cases: (12_000, 800_000),
    fixed: 0,
    preset: no_preset,
    run: |s, ctx| hist(s, ctx, Aspect::Perm),
    probes: &[],
};
pub static C11: Prop = Prop {
    id: "C11",
    rule: "histories: at least 8 accepted writes; programs: at least 2 dirty and 2 clean pages at the end of an execution of at least 20 instructions",
    assumptions: &["reference memory: one byte array with page marks"],
    cases: (12_000, 800_000),
    fixed: 0,
    preset: no_preset,
    run: |s, ctx| if s.chance(3, 10) { dirty_program(s, ctx) } else { hist(s, ctx, Aspect::Dirty) },
    probes: &[],
};

fn hist(s: &mut Src, ctx: &mut Ctx, a: Aspect) -> CaseRes {
    if s.chance(1, 100) {
        return roomy(|| {
            ctx.label("memory of more than 4 GB");
            let h = Hist::vast(s, a);
            drive(s, ctx, a, h, false)
        });
    }
    let fresh = s.chance(1, 5);
    let h = Hist::with(s, a, fresh);
    drive(s, ctx, a, h, fresh)
}
fn drive(s: &mut Src, ctx: &mut Ctx, a: Aspect, mut h: Hist, fresh: bool) -> CaseRes {
    let n = if fresh {
        ctx.label("untouched frames");
        s.range(3, 16)
    } else if ctx.thorough { s.range(20, 240) } else { s.range(20, 110) };
    let r = h.run(s, n);
    ctx.evals += h.ops * h.backs.len() as u64;
    for b in &h.backs {
        ctx.label(&b.name);
    }
    if h.stopped {
        ctx.label("ended early: another property's concern");
    }
    ctx.nt(match a {
        Aspect::Content => h.okw >= 8 && h.faults >= 3,
        Aspect::Perm => h.okw >= 5 && h.faults >= 3,
        Aspect::Dirty => h.okw >= 8,
    });
    ctx.sample(|| h.render());
    r
}

/// More pages than 16 bits can count, all of them touched.
fn big(ctx: &mut Ctx, which: u64) -> CaseRes {
    let pages = 65_600u64;
    let size = pages * PAGE;
    let e = |x: ckb_vm::Error| f("bounds", format!("memory of {pages} pages: {x:?}"));
    let mut m = WXorXMemory::new(SparseMemory::<u64>::new_with_memory(size as usize));
    let step = 48_611; // coprime with the number of pages
    let at = |i: u64| if which == 0 { i } else { (i * step) % pages };
    let val = |p: u64| crate::src::mix(p, 9) | 1;
    for i in 0..pages {
        let p = at(i);
        m.store64(&(p * PAGE + 8 * (p % 512)), &val(p)).map_err(e)?;
    }
    for p in 0..pages {
        let v = m.load64(&(p * PAGE + 8 * (p % 512))).map_err(e)?;
        ensure!(v == val(p), "content", "sparse memory of {pages} pages: page {p:#x} holds {v:#x}, {:#x} was stored", val(p));
        let z = m.load64(&(p * PAGE + 8 * ((p + 1) % 512))).map_err(e)?;
        ensure!(z == 0, "content", "sparse memory of {pages} pages: page {p:#x} holds {z:#x} where nothing was stored");
    }
    ensure!(m.load8(&size).is_err(), "bounds", "load at the end of a memory of {pages} pages succeeded");
    ctx.evals += 3 * pages;
    ctx.label("more than 65536 pages");
    ctx.nt(true);
    Ok(())
}

fn dirty_program(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let xlen = *s.pick(&[64, 64, 32]);
    let pc = gen_cfg(s, xlen);
    let p = gen_program(s, pc, Opts { host: true, faults: 4, ..Opts::default() });
    let mut m = match load_model(&p) {
        Ok(m) => m,
        Err(_) => {
            ctx.label("load refused");
            return Ok(());
        }
    };
    // some pages are marked clean before the run
    let np = m.mem.flags.len() as u64;
    let all = s.chance(2, 3);
    let k = s.u64();
    let clean = |pg: u64| all || crate::src::mix(k, pg) & 1 == 0;
    for pg in 0..np {
        if clean(pg) {
            m.mem.flags[pg as usize] &= !F_DIRTY;
        }
    }
    let end = model_run(&mut m, 3000);
    if end == End::Limit {
        ctx.label("step budget");
        return Ok(());
    }
    let dirty = m.mem.flags.iter().filter(|x| **x & F_DIRTY != 0).count();
    ctx.nt(m.steps >= 20 && dirty >= 2 && dirty + 2 <= np as usize);
    let flat = s.bool();
    for kind in kinds(&p.p, flat) {
        let mut c = vm_cfg(kind, &p.p);
        c.syscalls.push(host_sys());
        let mut vm = build(c);
        if let Err(e) = vm.load_program(&Bytes::from(p.bytes.clone()), &bargs(&p)) {
            // C12's concern
            ctx.label(&format!("load differs: {e:?}"));
            return Ok(());
        }
        for pg in 0..np {
            if clean(pg) {
                vm.sm().clear_flag(pg, F_DIRTY).map_err(|e| f("marks", format!("{kind}: clear_flag({pg:#x}): {e:?}")))?;
            }
        }
        let r = vm.run();
        ctx.evals += 1;
        let agree = match (&end, &r) {
            (End::Exit(a), Ok(b)) => a == b,
            (End::Fault(_), Err(_)) => true,
            _ => false,
        };
        if !agree {
            ctx.label("end differs: another property's concern");
            return Ok(());
        }
        let exact = r.is_ok();
        for pg in 0..np {
            let g = vm.sm().flag(pg).map_err(|e| f("marks", format!("{kind}: fetch_flag({pg:#x}): {e:?}")))?;
            let w = m.mem.flags[pg as usize];
            if (g ^ w) & F_DIRTY == 0 {
                continue;
            }
            // a faulting program may have been writing, or have been ended before a block, when it stopped
            if !exact {
                let same = match vm.sm().load_bytes(pg * PAGE, PAGE) {
                    Ok(b) => b[..] == m.mem.data[(pg * PAGE) as usize..((pg + 1) * PAGE) as usize],
                    Err(_) => true,
                };
                if g & F_DIRTY != 0 || !same || kind.engine != Engine::Naive {
                    continue;
                }
            }
            fail!("dirty", "{kind}: page {pg:#x} is {}, and the program {} it\n{}", if g & F_DIRTY != 0 { "dirty" } else { "not dirty" }, if w & F_DIRTY != 0 { "wrote to" } else { "never wrote to" }, p.render());
        }
        ctx.label(&format!("program {kind}"));
    }
    ctx.sample(|| p.render());
    Ok(())
}
