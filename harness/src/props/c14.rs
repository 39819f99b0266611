//! C14: full snapshots restore the machine exactly, at any point.

use crate::exec::*;
use crate::gen::*;
use crate::model::*;
use crate::runner::*;
use crate::src::Src;
use crate::vm::*;
use crate::what::*;
use ckb_vm::snapshot::Snapshot;
use std::sync::atomic::{AtomicU64, Ordering};
use std::collections::BTreeMap;
use std::sync::Arc;

pub static PROP: Prop = Prop {
    id: "C14",
    rule: "programs: at least 10 instructions and at least one snapshot taken before the end; histories: at least 3 pages carried over",
    assumptions: &[
        "the snapshot is resumed on a fresh machine with the same width, extensions, version and memory size",
        "the host carries the cycle count over; page marks set by the host without writing the page, or dirty marks removed by the host, are not generated",
    ],
    cases: (40_000, 1_500_000),
    fixed: 0,
    preset: no_preset,
    run: |s, ctx| match s.weighted(&[750, 249, 1]) {
        0 => program(s, ctx),
        1 => history(s, ctx),
        _ => far(s, ctx, false),
    },
    probes: &[],
};

/// What can be seen of a machine.
pub struct Seen {
    pub regs: [u64; 32],
    pub pc: u64,
    pub lr: u64,
    pub cycles: u64,
    pub mem: Bytes,
    pub flags: Vec<u8>,
}
pub fn see(sm: &mut dyn SM) -> Result<Seen, String> {
    let n = sm.mem_size();
    let mut flags = vec![];
    for p in 0..n / PAGE {
        flags.push(sm.flag(p).map_err(|e| format!("page {p}: {e:?}"))?);
    }
    Ok(Seen { regs: sm.regs(), pc: sm.pc(), lr: sm.lr(), cycles: sm.cycles(), mem: sm.load_bytes(0, n).map_err(|e| format!("memory: {e:?}"))?, flags })
}
impl Seen {
    /// `marks`: page marks to compare
    pub fn diff(&self, o: &Seen, marks: u8) -> Option<String> {
        for i in 0..32 {
            if self.regs[i] != o.regs[i] {
                return Some(format!("register {} was {:#x}, is {:#x}", crate::isa::ABI[i], self.regs[i], o.regs[i]));
            }
        }
        if self.pc != o.pc {
            return Some(format!("pc was {:#x}, is {:#x}", self.pc, o.pc));
        }
        if self.lr != o.lr {
            return Some(format!("reservation was {:#x}, is {:#x}", self.lr, o.lr));
        }
        if self.mem != o.mem {
            let i = (0..self.mem.len()).find(|i| self.mem[*i] != o.mem.get(*i).copied().unwrap_or(0)).unwrap_or(0);
            return Some(format!("memory byte {i:#x} was {:#x}, is {:#x}", self.mem[i], o.mem[i]));
        }
        for (p, (a, b)) in self.flags.iter().zip(&o.flags).enumerate() {
            if a & marks != b & marks {
                return Some(format!("marks of page {p:#x} were {a:#x}, are {b:#x}"));
            }
        }
        None
    }
}

fn json(s: &Snapshot) -> Result<Snapshot, Fail> {
    let t = serde_json::to_string(s).map_err(|e| f("serialise", format!("{e}")))?;
    let r: Snapshot = serde_json::from_str(&t).map_err(|e| f("deserialise", format!("{e}")))?;
    let u = serde_json::to_string(&r).map_err(|e| f("serialise", format!("{e}")))?;
    ensure!(t == u, "serialise", "a snapshot changes when written out and read back");
    Ok(r)
}

/// kinds of the same width and memory size
pub fn targets(p: &PCfg, s: &mut Src) -> Kind {
    let flat = s.bool();
    let k = kinds(p, flat);
    k[s.weighted(if k.len() == 2 { &[1, 1] } else { &[3, 3, 4, 1, 1, 1] })]
}

/// Interrupts the machine when the n-th environment call is made.
pub fn pauser(pause: ckb_vm::machine::Pause, at: Arc<AtomicU64>) -> (Option<InitFn>, SysFn) {
    (
        None,
        Box::new(move |_m: &mut dyn SM| {
            let n = at.load(Ordering::SeqCst);
            if n > 0 {
                at.store(n - 1, Ordering::SeqCst);
                if n == 1 {
                    pause.interrupt();
                }
            }
            Ok(false)
        }),
    )
}
/// Remembers that a host call failed.
pub fn watched_sys(failed: Arc<AtomicU64>) -> (Option<InitFn>, SysFn) {
    let (i, mut g) = host_sys();
    (
        i,
        Box::new(move |m: &mut dyn SM| {
            let r = g(m);
            if r.is_err() {
                failed.store(1, Ordering::SeqCst);
            }
            r
        }),
    )
}

fn program(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let w = What::gen(s, &WOpts::default());
    let p = w.p();
    let cost = [Cost::One, Cost::Published, Cost::Hash(s.below(1000))][s.usize(3)];
    let mut m = w.model(cost, u64::MAX);
    let end = model_run(&mut m, 4000);
    if end == End::Limit {
        ctx.label("not used");
        return Ok(());
    }
    let total = m.cycles;
    ctx.sample(|| w.render());
    ctx.label(match end {
        End::Exit(_) => "program exits",
        _ => "program faults",
    });
    let at = Arc::new(AtomicU64::new(0));
    let failed = Arc::new(AtomicU64::new(0));
    let make = |k: Kind| {
        let pause = ckb_vm::machine::Pause::new();
        let mut c = vm_cfg(k, &p).cycles(u64::MAX, cost);
        c.syscalls.push(pauser(pause.clone(), at.clone()));
        c.syscalls.push(watched_sys(failed.clone()));
        c.pause = Some(pause);
        c
    };
    let mut trail = vec![];
    let k0 = targets(&p, s);
    let mut vm = w.vm_with(make(k0))?;
    trail.push(format!("{k0}"));
    let cuts = s.range(1, 4);
    let mut snaps = 0;
    for _ in 0..cuts {
        let say = |t: &[String], x: String| format!("{} : {x} | cost {cost:?} {}", t.join(" "), w.render());
        let used = vm.sm().cycles();
        let how = s.below(4);
        let r: Option<Res<i8>> = match how {
            0 => {
                let n = s.below(total.saturating_sub(used).min(400) + 2);
                trail.push(format!("limit+{n}"));
                vm.limit(used.saturating_add(n));
                let r = vm.run();
                vm.limit(u64::MAX);
                Some(r)
            }
            1 => {
                let n = s.below(60);
                trail.push(format!("step {n}"));
                let mut r = None;
                vm.sm().set_running(true);
                for _ in 0..n {
                    if let Err(e) = vm.step() {
                        r = Some(Err(e));
                        break;
                    }
                    if !vm.running() {
                        r = Some(Ok(vm.exit_code()));
                        break;
                    }
                }
                r
            }
            2 => {
                trail.push("interrupt".into());
                vm.pause().interrupt();
                Some(vm.run())
            }
            _ => {
                let n = s.range(1, 6);
                trail.push(format!("interrupt at call {n}"));
                at.store(n, Ordering::SeqCst);
                let r = vm.run();
                at.store(0, Ordering::SeqCst);
                // the request may have been made by the call that ended the run
                vm.pause().free();
                Some(r)
            }
        };
        ctx.evals += 1;
        let last = match &r {
            None => false,
            Some(Err(Error::CyclesExceeded)) if how == 0 => failed.load(Ordering::SeqCst) != 0,
            Some(Err(Error::Pause)) if how >= 2 => false,
            Some(r) => {
                check_end(&m, &end, &mut *vm, r).map_err(|mut x| {
                    x.msg = say(&trail, x.msg);
                    x
                })?;
                true
            }
        };
        // whatever state the machine is in, it can be saved
        let before = see(vm.sm()).map_err(|e| f("state", say(&trail, e)))?;
        let mut snap = vm.sm().snap1().map_err(|e| f("snapshot", say(&trail, format!("{e:?}"))))?;
        if s.bool() {
            snap = json(&snap)?;
        }
        let still = see(vm.sm()).map_err(|e| f("state", say(&trail, e)))?;
        if let Some(d) = before.diff(&still, 7) {
            return Err(f("snapshot-changes", say(&trail, format!("taking a snapshot changed the machine: {d}"))));
        }
        let k = targets(&p, s);
        let mut c = make(k);
        if s.chance(1, 40) {
            // another version refuses the snapshot and stays as it was
            c.ver = (p.c.ver + 1) % 3;
            let mut v = build(c);
            let r = v.sm().resume1(&snap);
            ensure!(matches!(r, Err(Error::InvalidVersion)), "version", "{}", say(&trail, format!("resuming on version {} gave {r:?}", (p.c.ver + 1) % 3)));
            c = make(k);
        }
        let mut next = build(c);
        next.sm().resume1(&snap).map_err(|e| f("resume", say(&trail, format!("{k}: {e:?}"))))?;
        let after = see(next.sm()).map_err(|e| f("state", say(&trail, e)))?;
        if let Some(d) = before.diff(&after, 7) {
            return Err(f("restore", say(&trail, format!("resumed on {k}: {d}"))));
        }
        ensure!(next.sm().version() == p.c.ver, "version", "{}", say(&trail, "version changed".into()));
        trail.push(format!("-> {k}"));
        if last {
            ctx.label("snapshot at the end");
            ctx.nt(snaps > 0 && m.steps >= 10);
            return Ok(());
        }
        snaps += 1;
        ctx.label(["cut by limit", "cut by stepping", "cut by pause", "cut by pause at a call"][how as usize]);
        next.sm().set_cycles(before.cycles);
        if s.chance(1, 6) {
            // the machine the snapshot was taken from goes on as well
            let r = vm.run();
            vm.pause().free();
            check_end(&m, &end, &mut *vm, &r).map_err(|mut x| {
                x.msg = say(&trail, format!("original, after the snapshot: {}", x.msg));
                x
            })?;
        }
        vm = next;
    }
    ctx.label_n("snapshots in one chain", snaps);
    ctx.nt(m.steps >= 10);
    let r = vm.run();
    check_end(&m, &end, &mut *vm, &r).map_err(|mut x| {
        x.msg = format!("{} : {} | cost {cost:?} {}", trail.join(" "), x.msg, w.render());
        x
    })
}

/// Machine states a program cannot easily be led to.
fn history(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let xlen = if s.chance(1, 4) { 32 } else { 64 };
    let mut p = gen_cfg(s, xlen);
    p.mem = FRAME * s.range(1, 3);
    // now and then hundreds of pages
    let many = s.chance(1, 300);
    if many {
        p.mem = FRAME * s.range(5, 16);
    }
    let k = targets(&p, s);
    let mut vm = build(vm_cfg(k, &p));
    let sm = vm.sm();
    let mask = if xlen == 32 { 0xffff_ffff } else { u64::MAX };
    let mut log = vec![format!("{p} {k}")];
    if many {
        ctx.label("hundreds of pages");
        let at = s.below(4) * PAGE;
        let sz = p.mem - at - s.below(4) * PAGE;
        let gap = s.below(4);
        let b = bytes(s, sz);
        log.push(format!("write {at:#x}+{sz:#x}, a gap after every {gap} pages (none for 0)"));
        for pg in 0..sz / PAGE {
            if gap == 0 || pg % (gap + 1) != gap {
                let _ = sm.store_bytes(at + pg * PAGE, &b[(pg * PAGE) as usize..((pg + 1) * PAGE) as usize]);
            }
        }
    }
    let n = s.range(1, 20);
    for _ in 0..n {
        let a = match s.below(4) {
            0 => s.below(p.mem / PAGE) * PAGE,
            1 => p.mem - 1 - s.below(2 * PAGE),
            2 => s.below(2 * PAGE),
            _ => s.below(p.mem),
        };
        match s.below(5) {
            0 | 1 => {
                let at = a / PAGE * PAGE;
                let sz = (PAGE * s.range(1, 4)).min(p.mem - at);
                let fl = *s.pick(&[0u8, F_EXEC, F_FREEZE, F_EXEC | F_FREEZE]);
                let b = crate::props::c14::bytes(s, sz);
                let off = s.below(PAGE + 1);
                log.push(format!("map {at:#x}+{sz:#x} marks {fl}"));
                let _ = sm.init_pages(at, sz, fl, Some(b), off);
            }
            2 => {
                let sz = s.range(0, 2 * PAGE).min(p.mem - a);
                let b = bytes(s, sz);
                log.push(format!("write {a:#x}+{sz:#x}"));
                let _ = sm.store_bytes(a, &b);
            }
            3 => {
                let w = 1 << s.below(4);
                let v = s.u64();
                log.push(format!("store{w} {a:#x} {v:#x}"));
                let _ = sm.store(w, a, v & mask);
            }
            _ => {
                let sz = s.range(0, 3 * PAGE).min(p.mem - a);
                let v = s.below(256) as u8;
                log.push(format!("fill {a:#x}+{sz:#x} {v:#x}"));
                let _ = sm.fill(a, sz, v);
            }
        }
    }
    for i in 1..32 {
        let v = s.val() & mask;
        sm.set_reg(i, v);
    }
    let pc = s.val() & mask;
    sm.set_pc(pc);
    let lr = if s.bool() { s.val() & mask } else { mask };
    sm.set_lr(lr);
    let say = |x: String| format!("{}: {x}", log.join("; "));
    let mut vm = vm;
    let mut before = see(vm.sm()).map_err(|e| f("state", say(e)))?;
    // marks on pages nobody wrote are the host's own doing
    for i in 0..before.flags.len() {
        if before.flags[i] & F_DIRTY == 0 {
            let page = i as u64 * PAGE;
            ensure!(before.mem[page as usize..(page + PAGE) as usize].iter().all(|b| *b == 0), "dirty", "{}", say(format!("page {i:#x} was written but is not dirty")));
            before.flags[i] = 0;
        }
    }
    ctx.nt(before.flags.iter().filter(|x| **x & F_DIRTY != 0).count() >= 3);
    ctx.label("state");
    ctx.sample(|| log.join("; "));
    for _ in 0..s.range(1, 3) {
        let mut snap = vm.sm().snap1().map_err(|e| f("snapshot", say(format!("{e:?}"))))?;
        if s.bool() {
            snap = json(&snap)?;
        }
        let k = targets(&p, s);
        vm = build(vm_cfg(k, &p));
        ctx.evals += 1;
        vm.sm().resume1(&snap).map_err(|e| f("resume", say(format!("{k}: {e:?}"))))?;
        let after = see(vm.sm()).map_err(|e| f("state", say(e)))?;
        if let Some(d) = before.diff(&after, 7) {
            return Err(f("restore", say(format!("resumed on {k}: {d}"))));
        }
    }
    Ok(())
}

/// Memories of more than 65536 pages: only some pages are looked at.
pub fn far(s: &mut Src, ctx: &mut Ctx, two: bool) -> CaseRes {
    roomy(|| far_in(s, ctx, two))
}
fn far_in(s: &mut Src, ctx: &mut Ctx, two: bool) -> CaseRes {
    let xlen = if s.chance(1, 4) { 32 } else { 64 };
    let mut p = gen_cfg(s, xlen);
    let top: u64 = match s.below(3) {
        0 => 0x10000,
        1 if xlen == 64 => 0x100000,
        _ => 0x80000,
    };
    if top > 0x10000 {
        ctx.label("memory of several gigabytes");
    }
    p.mem = top * PAGE + FRAME * s.range(1, 3);
    let last = p.mem / PAGE - 1;
    let page = |s: &mut Src| match s.below(4) {
        0 => s.below(6),
        1 => top - 3 + s.below(8),
        2 => last - s.below(3),
        _ => top + s.below(last - top),
    };
    let src = Source(Arc::new(vec![]));
    let mut c2 = Ctx2::new(src.clone());
    let mut k = targets(&p, s);
    let mut vm = build(vm_cfg(k, &p));
    let mut log = vec![format!("{p} {k}")];
    let mut shadow: BTreeMap<u64, (u8, Vec<u8>)> = (0..6).chain(top - 3..=last).map(|q| (q, (0, vec![0; PAGE as usize]))).collect();
    for leg in 0..s.range(1, 2) {
        for _ in 0..s.range(2, 14) {
            let pg = page(s);
            let n = s.range(1, 3).min(last + 1 - pg);
            let free = (pg..pg + n).all(|q| shadow.get(&q).map_or(true, |x| x.0 & (F_EXEC | F_FREEZE) == 0));
            let b = bytes(s, n * PAGE);
            let size_ok = shadow[&5].0 & (F_EXEC | F_FREEZE) == 0;
            let mut put = |at: u64, b: &[u8], fl: u8| {
                for (i, x) in b.iter().enumerate() {
                    if let Some(e) = shadow.get_mut(&((at + i as u64) / PAGE)) {
                        e.1[((at + i as u64) % PAGE) as usize] = *x;
                        e.0 |= fl;
                    }
                }
            };
            let sm = vm.sm();
            let r = match s.below(if two { 4 } else { 3 }) {
                0 if free => {
                    let fl = *s.pick(&[0u8, F_EXEC, F_FREEZE, F_EXEC | F_FREEZE]);
                    log.push(format!("map page {pg:#x}+{n} marks {fl}"));
                    put(pg * PAGE, &b, fl);
                    sm.init_pages(pg * PAGE, n * PAGE, fl, Some(b), 0)
                }
                1 if free => {
                    let at = pg * PAGE + s.below(PAGE);
                    let b = b.slice(..(n * PAGE - at % PAGE) as usize);
                    log.push(format!("write {at:#x}+{:#x}", b.len()));
                    put(at, &b, 0);
                    sm.store_bytes(at, &b)
                }
                2 if free => {
                    let at = pg * PAGE + 8 * s.below(PAGE / 8);
                    let v = s.u64() & 0xffff_ffff;
                    log.push(format!("store4 {at:#x} {v:#x}"));
                    put(at, &(v as u32).to_le_bytes(), 0);
                    sm.store(4, at, v)
                }
                3 if free => {
                    let id = VIRT + s.below(2) as u32;
                    let off = s.below(virt_len(id) / PAGE - 4) * PAGE;
                    log.push(format!("load source {id} offset {off:#x} at page {pg:#x}+{n}"));
                    let d: Vec<u8> = (off..off + n * PAGE).map(|o| virt_byte(id, o)).collect();
                    let full = virt_len(id) - off;
                    let size_at = 5 * PAGE;
                    if !size_ok {
                        continue;
                    }
                    let w = if xlen == 32 { full & 0xffff_ffff } else { full };
                    put(size_at, &w.to_le_bytes(), 0);
                    put(pg * PAGE, &d, 0);
                    let r = sm.s2_store(&mut c2, pg * PAGE, id, off, n * PAGE, size_at);
                    ensure!(matches!(r, Ok((a, b)) if a == n * PAGE && b == full) || r.is_err(), "load", "{}: gave {r:?}", log.join("; "));
                    r.map(|_| ())
                }
                _ => continue,
            };
            r.map_err(|e| f("refused", format!("{}: {e:?}", log.join("; "))))?;
        }
        let to = targets(&p, s);
        log.push(format!("leg {leg}: snapshot, resumed on {to}"));
        let say = |x: String| f("far", format!("{}: {x}", log.join("; ")));
        let mut vm2 = build(vm_cfg(to, &p));
        if two {
            let snap = vm.sm().snap2(&c2).map_err(|e| say(format!("{e:?}")))?;
            c2 = Ctx2::new(src.clone());
            vm2.sm().resume2(&mut c2, &snap).map_err(|e| say(format!("{e:?}")))?;
        } else {
            let mut snap = vm.sm().snap1().map_err(|e| say(format!("{e:?}")))?;
            if s.chance(1, 4) {
                snap = json(&snap)?;
            }
            vm2.sm().resume1(&snap).map_err(|e| say(format!("{e:?}")))?;
        }
        drop(vm);
        vm = vm2;
        k = to;
        ctx.evals += 1;
        for (q, (fl, b)) in &shadow {
            let x = vm.sm().flag(*q).map_err(|e| say(format!("{k}: {e:?}")))?;
            if (x ^ fl) & (F_EXEC | F_FREEZE) != 0 {
                return Err(say(format!("marks of page {q:#x} are {x:#x}, expected {fl:#x}")));
            }
            let d = vm.sm().load_bytes(q * PAGE, PAGE).map_err(|e| say(format!("{k}: {e:?}")))?;
            if let Some(i) = (0..PAGE as usize).find(|i| d[*i] != b[*i]) {
                return Err(say(format!("byte {:#x} is {:#x}, expected {:#x}", q * PAGE + i as u64, d[i], b[i])));
            }
        }
    }
    ctx.label("more than 65536 pages");
    ctx.nt(true);
    ctx.sample(|| log.join("; "));
    Ok(())
}

pub fn bytes(s: &mut Src, n: u64) -> Bytes {
    let mut r = crate::src::Rng::new(s.u64());
    let mut v: Vec<u8> = Vec::with_capacity(n as usize + 8);
    while (v.len() as u64) < n {
        v.extend_from_slice(&r.next().to_le_bytes());
    }
    v.truncate(n as usize);
    Bytes::from(v)
}
