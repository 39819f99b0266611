//! C26: guest faults are precise and leave the machine consistent.

use crate::exec::*;
use crate::gen::*;
use crate::model::*;
use crate::online::*;
use crate::props::c14::{see, targets};
use crate::runner::*;
use crate::src::Src;
use crate::vm::*;

pub static PROP: Prop = Prop {
    id: "C26",
    rule: "at least one fault reported after 5 or more instructions, and the machine used afterwards",
    assumptions: &[
        "to let a program go on, the host sets the program counter, the cycle count and the destination of a faulting atomic",
        "where a block-at-a-time assembly run leaves the program counter and the cycle count after a run-time fault is not compared",
    ],
    cases: (200_000, 6_000_000),
    fixed: 0,
    preset: no_preset,
    run,
    probes: &[],
};

struct Fo {
    m: Model,
    end: Option<End>,
    steps: u64,
    conts: Vec<u64>,
    n: usize,
}
impl Fo {
    fn step(&mut self) {
        let e = match model_group(&mut self.m) {
            Ok(Ev::Ecall(c)) => model_ecall(&mut self.m, c).map(|_| Ev::None),
            e => e,
        };
        self.steps += 1;
        match e {
            Ok(Ev::Exit(c)) => self.end = Some(End::Exit(c)),
            Ok(_) => {}
            Err(x) => self.end = Some(End::Fault(x)),
        }
    }
    fn finish(&mut self, limit: u64) -> bool {
        let mut n = 0;
        while self.end.is_none() && n < limit {
            self.step();
            n += 1;
        }
        self.end.is_some()
    }
    /// The first thing that cannot be decoded in the block starting here.
    fn ahead(&self) -> Option<(u64, Fault)> {
        let mut pc = self.m.pc;
        for _ in 0..4096 {
            match self.m.fetch_decode(pc) {
                Ok((n, _)) if n.op.ends_block() => return None,
                Ok((n, _)) => pc = pc.wrapping_add(n.len as u64),
                Err(x) => return Some((pc, x)),
            }
        }
        None
    }
}

fn name(x: &Fault) -> &'static str {
    match x {
        Fault::Oob(_, _) => "out of bounds",
        Fault::Perm(_) => "permission",
        Fault::Invalid { .. } => "illegal instruction",
        Fault::Ecall(_) => "unknown call",
        Fault::CyclesExceeded | Fault::CyclesOverflow => "cycles",
        _ => "other",
    }
}

/// registers, memory, reservation and marks, but not the place
fn diff_but_place(m: &Model, sm: &mut dyn SM) -> Result<(), String> {
    diff_regs(m, sm)?;
    if sm.lr() != if m.xlen == 32 { m.lr & 0xffff_ffff } else { m.lr } {
        return Err(format!("reservation is {:#x}, expected {:#x}", sm.lr(), m.lr));
    }
    if sm.cycles() < m.cycles {
        return Err(format!("cycles are {}, less than {}", sm.cycles(), m.cycles));
    }
    diff_mem(m, sm)?;
    diff_flags(m, sm, true)
}

/// what the host must do to let the program go on
fn repair(fo: &mut Fo, sm: &mut dyn SM, to: u64) {
    for pg in 0..fo.m.mem.size / PAGE {
        if sm.flag(pg).map(|f| f & F_DIRTY != 0).unwrap_or(false) {
            // a refused write across pages may have marked the first one
            fo.m.mem.flags[pg as usize] |= F_DIRTY;
        }
    }
    if let Some((r, _)) = fo.m.fault_rd.take() {
        sm.set_reg(r as usize, fo.m.x[r as usize]);
    }
    fo.m.pc = to;
    fo.m.grp_left = 0;
    fo.end = None;
    sm.set_pc(to);
    let c = fo.m.cycles;
    sm.set_cycles(c);
}

fn look(s: &mut Src, m: &mut Model, sm: &mut dyn SM, set: &Setup) -> Result<(), String> {
    for _ in 0..s.range(1, 4) {
        let a = if s.bool() { wild_addr(s, &m.mem, set.code_base) } else { data_addr(s, m.mem.size, set.code_base, 16) };
        let w = 1 << s.below(4);
        match s.below(3) {
            0 => {
                let n = s.range(1, 20);
                let (r, x) = (sm.load_bytes(a, n), m.mem.load_bytes(a, n));
                match (r, x) {
                    (Ok(b), Ok(c)) if b[..] == *c => {}
                    (Err(e), Err(x)) if err_matches(&x, &e) => {}
                    (r, x) => return Err(format!("{n} bytes at {a:#x} read as {r:?}, expected {x:?}")),
                }
            }
            1 if m.xlen == 64 || w < 8 => {
                let v = s.val();
                let a = if m.xlen == 32 { a & 0xffff_ffff } else { a };
                let (r, x) = (sm.store(w, a, v), m.mem.store(a, w, v));
                match (r, x) {
                    (Ok(()), Ok(())) => {}
                    (Err(e), Err(x)) if err_matches(&x, &e) => {
                        for pg in 0..m.mem.size / PAGE {
                            if sm.flag(pg).map(|f| f & F_DIRTY != 0).unwrap_or(false) {
                                m.mem.flags[pg as usize] |= F_DIRTY;
                            }
                        }
                    }
                    (r, x) => return Err(format!("storing {w} bytes at {a:#x} gave {r:?}, expected {x:?}")),
                }
            }
            _ => {
                let p = a / PAGE;
                match (sm.flag(p), m.mem.flags.get(p as usize)) {
                    (Ok(x), Some(y)) if x & !F_DIRTY == y & !F_DIRTY => {}
                    (Err(_), None) => {}
                    (r, x) => return Err(format!("marks of page {p:#x} are {r:?}, expected {x:?}")),
                }
            }
        }
    }
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let xlen = if s.chance(1, 5) { 32 } else { 64 };
    let mut p = gen_cfg(s, xlen);
    p.mem = p.mem.min(if s.chance(1, 8) { 1 << 20 } else { 256 * 1024 });
    let on = On {
        steps: s.range(1, 60),
        w: [8, 3, 4, 2, 3, if p.mop { 3 } else { 0 }, 1],
        wild_mem: 12,
        fault: s.range(2, 25),
        hop: *s.pick(&[2, 10]),
        go_on: s.usize(12),
        ..On::default()
    };
    let (mut set, conts) = OnGen::new(s, p, on).generate_conts();
    set.cost = [Cost::One, Cost::Published][s.usize(2)];
    ctx.sample(|| set.render());
    let k = targets(&p, s);
    let mk = |k: Kind| -> Result<Box<dyn Vm>, Fail> {
        let mut c = vm_cfg(k, &p).cycles(u64::MAX, set.cost);
        c.syscalls.push(host_sys());
        set.vm_with(c).map_err(h)
    };
    let mut fo = Fo { m: set.model(), end: None, steps: 0, conts, n: 0 };
    let mut vm = mk(k)?;
    let mut k = k;
    let kept = s.bool();
    let mut log = vec![format!("{k} cost {:?}", set.cost)];
    let say = |log: &[String], x: String| format!("{}: {x} | {}", log.join("; "), set.render());
    let mut used = false;
    let mut faults = 0;
    loop {
        // on to the next end
        let stepping = s.chance(1, 4);
        if stepping {
            log.push("stepping".into());
            if s.chance(1, 4) {
                vm.forget().map_err(|e| h(format!("{e:?}")))?;
            }
            vm.sm().set_running(true);
            let mut i = 0;
            while fo.end.is_none() {
                i += 1;
                if i > 3000 {
                    return Ok(());
                }
                let pc = fo.m.pc;
                fo.step();
                match (&fo.end, vm.step()) {
                    (None, Ok(())) => {}
                    (Some(End::Exit(c)), Ok(())) if !vm.running() && vm.exit_code() == *c => {}
                    (Some(End::Fault(x)), Err(e)) if err_matches(x, &e) => {
                        log.push(format!("{e:?}"));
                    }
                    (x, r) => return Err(f("step", say(&log, format!("step at {pc:#x} gave {r:?}, expected {x:?}")))),
                }
            }
            diff_state(&fo.m, vm.sm(), true).map_err(|d| f("state", say(&log, format!("after stepping: {d}"))))?;
        } else {
            let mut probe = Fo { m: fo.m.clone(), end: None, steps: 0, conts: vec![], n: 0 };
            if !probe.finish(3000) {
                return Ok(());
            }
            let r = if kept { vm.run_kept() } else { vm.run() };
            ctx.evals += 1;
            log.push(format!("run: {r:?}"));
            let end = probe.end.clone().unwrap();
            match (&end, &r) {
                (End::Exit(c), Ok(d)) if c == d => {
                    diff_all(&probe.m, vm.sm()).map_err(|d| f("state", say(&log, d)))?;
                    fo.m = probe.m;
                    fo.end = probe.end;
                    fo.steps += probe.steps;
                }
                (End::Fault(x), Err(e)) => {
                    // at the start of a block that cannot be decoded?
                    let block = k.engine.decodes_ahead() && vm.sm().pc() != probe.m.pc;
                    let runtime = matches!(k.engine, Engine::Naive | Engine::AsmNaive | Engine::Trace);
                    let exact = match () {
                        _ if !err_matches(x, e) => Err(format!("the error is {e:?}, expected {x:?}")),
                        _ if runtime => diff_state(&probe.m, vm.sm(), true),
                        _ => diff_but_place(&probe.m, vm.sm()),
                    };
                    match exact {
                        Ok(()) => {
                            fo.m = probe.m;
                            fo.end = probe.end;
                            fo.steps += probe.steps;
                        }
                        Err(d) if k.engine.decodes_ahead() && block => {
                            let at = vm.sm().cycles();
                            while fo.m.cycles < at && fo.end.is_none() {
                                fo.step();
                            }
                            let early = if fo.end.is_some() || fo.m.cycles != at {
                                Err(format!("at {at} cycles, which is no place in the program before the fault"))
                            } else {
                                match fo.ahead() {
                                    Some((_, x)) if err_matches(&x, e) => diff_all(&fo.m, vm.sm()),
                                    x => Err(format!("the block at {:#x} holds {x:?}", fo.m.pc)),
                                }
                            };
                            if let Err(d2) = early {
                                return Err(f("fault", say(&log, format!("expected {x:?}: {d}; as a block that cannot be decoded: {d2}"))));
                            }
                            ctx.label("undecodable block reported early");
                            // stepping gets to the fault itself
                            vm.sm().set_running(true);
                            log.push("stepping".into());
                            while fo.end.is_none() {
                                let pc = fo.m.pc;
                                fo.step();
                                match (&fo.end, vm.step()) {
                                    (None, Ok(())) => {}
                                    (Some(End::Fault(x)), Err(e)) if err_matches(x, &e) => {
                                        log.push(format!("{e:?}"));
                                    }
                                    (x, r) => return Err(f("step", say(&log, format!("step at {pc:#x} gave {r:?}, expected {x:?}")))),
                                }
                            }
                            diff_state(&fo.m, vm.sm(), true).map_err(|d| f("state", say(&log, format!("after stepping: {d}"))))?;
                        }
                        Err(d) => return Err(f("fault", say(&log, format!("expected {x:?}: {d}")))),
                    }
                }
                _ => return Err(f("end", say(&log, format!("expected {end:?}")))),
            }
        }
        let x = match fo.end.clone().unwrap() {
            End::Fault(x) => x,
            _ => {
                if faults > 0 {
                    used = true;
                    ctx.label("exits after faults");
                }
                break;
            }
        };
        faults += 1;
        ctx.label(name(&x));
        // use the machine after the fault
        match s.weighted(&[12, 4, 2, 3]) {
            _ if fo.n >= fo.conts.len() && s.chance(2, 3) => break,
            0 | 1 if fo.n < fo.conts.len() => {
                let to = fo.conts[fo.n];
                fo.n += 1;
                used = true;
                repair(&mut fo, vm.sm(), to);
                log.push(format!("going on at {to:#x}"));
                if s.chance(1, 5) {
                    look(s, &mut fo.m, vm.sm(), &set).map_err(|e| f("inspect", say(&log, e)))?;
                }
                if s.chance(1, 5) {
                    // on another machine
                    let snap = vm.sm().snap1().map_err(|e| f("snapshot", say(&log, format!("no snapshot after a fault: {e:?}"))))?;
                    let seen = see(vm.sm()).map_err(|e| f("inspect", say(&log, e)))?;
                    let k2 = targets(&p, s);
                    let mut c = vm_cfg(k2, &p).cycles(u64::MAX, set.cost);
                    c.syscalls.push(host_sys());
                    let mut vm2 = build(c);
                    vm2.sm().resume1(&snap).map_err(|e| f("snapshot", say(&log, format!("resuming: {e:?}"))))?;
                    let cyc = vm.sm().cycles();
                    vm2.sm().set_cycles(cyc);
                    log.push(format!("moved to {k2}"));
                    let got = see(vm2.sm()).map_err(|e| f("inspect", say(&log, e)))?;
                    if let Some(d) = seen.diff(&got, F_EXEC | F_DIRTY) {
                        return Err(f("snapshot", say(&log, d)));
                    }
                    for (a, b) in fo.m.mem.flags.iter_mut().zip(&got.flags) {
                        // freezing is not carried over
                        *a = *a & !F_FREEZE | b & F_FREEZE;
                    }
                    vm = vm2;
                    k = k2;
                    ctx.label("moved to another machine");
                }
            }
            2 => {
                // running on regardless must be safe, whatever it does
                let n = vm.sm().cycles().saturating_add(s.range(1, 500));
                vm.limit(n);
                let r = if s.bool() { vm.run_kept() } else { vm.run() };
                log.push(format!("run again: {r:?}"));
                vm.step().ok();
                see(vm.sm()).map_err(|e| f("inspect", say(&log, e)))?;
                let over = vm.sm().cycles() > n;
                ensure!(!over, "limit", "{}", say(&log, format!("over the limit of {n} cycles")));
                fresh(s, ctx, &set, &mut *vm, kept, &log)?;
                used = true;
                break;
            }
            _ => {
                fresh(s, ctx, &set, &mut *vm, kept, &log)?;
                used = true;
                break;
            }
        }
    }
    ctx.label_n("faults", faults);
    ctx.nt(faults > 0 && fo.steps >= 5 && used);
    Ok(())
}

/// Reset the machine and run the program from the beginning.
fn fresh(s: &mut Src, ctx: &mut Ctx, set: &Setup, vm: &mut dyn Vm, kept: bool, log: &[String]) -> CaseRes {
    ctx.label("reset and reused");
    let say = |x: String| format!("{}; reset: {x} | {}", log.join("; "), set.render());
    vm.sm().reset(u64::MAX).map_err(|e| f("reset", say(format!("{e:?}"))))?;
    let mut set2 = set.clone();
    if s.bool() {
        // another program where the first one was
        let on = On { steps: s.range(1, 30), fault: 30, ..On::default() };
        set2 = OnGen::new(s, set.p, on).generate().0;
        set2.cost = set.cost;
    }
    set2.apply(vm.sm()).map_err(|e| f("reload", say(e)))?;
    let mut m = set2.model();
    let end = model_run(&mut m, 3000);
    if end == End::Limit {
        return Ok(());
    }
    let r = if kept { vm.run_kept() } else { vm.run() };
    ctx.evals += 1;
    check_end(&m, &end, vm, &r).map_err(|mut x| {
        x.msg = say(format!("{} | {}", x.msg, set2.render()));
        x
    })
}
