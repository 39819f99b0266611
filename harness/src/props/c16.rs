//! C16: pausing and resuming is transparent.

use crate::exec::*;
use crate::gen::*;
use crate::isa::*;
use crate::model::*;
use crate::online::*;
use crate::props::c14::targets;
use crate::runner::*;
use crate::src::Src;
use crate::vm::*;
use crate::what::*;
use ckb_vm::machine::Pause;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub static PROP: Prop = Prop {
    id: "C16",
    rule: "at least one pause reported before the end of a program of at least 10 instructions",
    assumptions: &[
        "progress of a paused machine is identified by its cycle count (every instruction costs at least one cycle)",
        "a request may wait until the next taken jump or branch, as the assembly engine documents",
    ],
    cases: (150_000, 4_000_000),
    fixed: 0,
    preset: no_preset,
    run: |s, ctx| match s.weighted(&[160, 3, 1]) {
        0 => requests(s, ctx),
        1 => threads(s, ctx),
        _ => endless(s, ctx),
    },
    probes: &[],
};

/// the reference machine, followed group by group
struct Follow {
    m: Model,
    end: Option<End>,
    /// jumps and taken branches since the last request
    taken: u64,
    groups: u64,
}
impl Follow {
    fn step(&mut self) {
        let pc = self.m.pc;
        let n = self.m.fetch_decode(pc);
        let e = match model_group(&mut self.m) {
            Ok(Ev::Ecall(c)) => model_ecall(&mut self.m, c).map(|_| Ev::None),
            e => e,
        };
        self.groups += 1;
        match e {
            Ok(Ev::Exit(c)) => self.end = Some(End::Exit(c)),
            Ok(_) => {
                if let Ok((n, _)) = n {
                    let jump = matches!(n.op, Op::Jal | Op::Jalr);
                    let branch = matches!(n.op, Op::Beq | Op::Bne | Op::Blt | Op::Bge | Op::Bltu | Op::Bgeu);
                    if jump || branch && self.m.pc != pc.wrapping_add(n.len as u64) {
                        self.taken += 1;
                    }
                }
            }
            Err(f) => self.end = Some(End::Fault(f)),
        }
    }
    /// up to where the paused machine says it is
    fn to(&mut self, cycles: u64) -> Result<(), String> {
        while self.m.cycles < cycles {
            if let Some(e) = &self.end {
                return Err(format!("it is at {cycles} cycles, but the program ends before that with {e:?}"));
            }
            self.step();
        }
        if self.m.cycles != cycles {
            return Err(format!("it stopped at {cycles} cycles, which is not an instruction boundary ({} after the next)", self.m.cycles));
        }
        match &self.end {
            Some(e) => Err(format!("it paused after the program had ended with {e:?}")),
            None => Ok(()),
        }
    }
}

fn requests(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let wo = WOpts {
        on: On { steps: 80, hop: 12, w: [6, 2, 3, 4, 1, 0, 6], wild_mem: 2, fault: 4, ..On::default() },
        online: 50,
        ..WOpts::default()
    };
    let w = What::gen(s, &wo);
    let p = w.p();
    let cost = [Cost::One, Cost::Published][s.usize(2)];
    // requests made from within environment calls, by ordinal
    let mut m = w.model(cost, u64::MAX);
    let mut calls = 0u64;
    let end = loop {
        if m.steps > 4000 {
            break End::Limit;
        }
        match m.step() {
            Ok(Ev::Exit(c)) => break End::Exit(c),
            Ok(Ev::Ecall(c)) => {
                calls += 1;
                if let Err(x) = model_ecall(&mut m, c) {
                    break End::Fault(x);
                }
            }
            Ok(_) => {}
            Err(x) => break End::Fault(x),
        }
    };
    if end == End::Limit {
        ctx.label("not used");
        return Ok(());
    }
    // the last call may be the one that fails
    let mut at: Vec<u64> = vec![];
    for _ in 0..s.below(8) {
        if calls > 0 {
            at.push(1 + s.below(calls));
        }
    }
    at.sort();
    at.dedup();
    let k = targets(&p, s);
    let pause = Pause::new();
    // ordinal of the current call, and the cycles at which requests were made
    let st = Arc::new(Mutex::new((0u64, Vec::<u64>::new())));
    let mut c = vm_cfg(k, &p).cycles(u64::MAX, cost);
    let (pz, st2, at2) = (pause.clone(), st.clone(), at.clone());
    c.syscalls.push((
        None,
        Box::new(move |sm: &mut dyn SM| {
            let mut g = st2.lock().unwrap();
            g.0 += 1;
            if at2.contains(&g.0) {
                g.1.push(sm.cycles());
                pz.interrupt();
            }
            Ok(false)
        }),
    ));
    c.syscalls.push(host_sys());
    let how = s.below(3);
    if how == 0 {
        c.pause = Some(pause.clone());
    }
    let mut vm = w.vm_with(c)?;
    // a pause handle can also be taken from the machine, or given to it later on
    let mut pause = if how == 1 { vm.pause() } else { pause };
    if how == 2 {
        vm.set_pause(pause.clone());
    }
    let mut linked = how != 1;
    let mut fo = Follow { m: w.model(cost, u64::MAX), end: None, taken: 0, groups: 0 };
    let kept = s.bool();
    let mut log = vec![format!("{k} cost {cost:?} requests at calls {at:?}{}", if linked { "" } else { " (not linked)" })];
    let (mut asked, mut pauses) = (0u64, 0u64);
    let say = |log: &[String], x: String| format!("{}: {x} | {}", log.join("; "), w.render());
    ctx.sample(|| w.render());
    let mut exited = None;
    let mut counted = 0u64;
    loop {
        // between runs: ask from outside, take steps
        let mut pending = false;
        if s.chance(1, 10) {
            // another handle, perhaps with a request already made on it; the old one has no say any more
            let np = Pause::new();
            if s.bool() {
                np.interrupt();
                asked += 1;
                pending = true;
            }
            vm.set_pause(np.clone());
            ensure!(vm.pause().has_interrupted() == pending, "request", "{}", say(&log, "the request of a handle given to the machine is not seen".into()));
            if s.bool() {
                pause.interrupt();
                ensure!(vm.pause().has_interrupted() == pending, "request", "{}", say(&log, "a request on a handle that was taken away is seen".into()));
                pause.clone().free();
                ensure!(vm.pause().has_interrupted() == pending, "request", "{}", say(&log, "a request is withdrawn by a handle that was taken away".into()));
            }
            log.push(format!("another handle{}", if pending { " with a request" } else { "" }));
            linked = false;
            pause = np;
        }
        if s.chance(1, 3) {
            let n = s.range(1, 2);
            for _ in 0..n {
                pause.interrupt();
            }
            ensure!(pause.has_interrupted() && vm.pause().has_interrupted(), "request", "{}", say(&log, "a request is not seen by every handle".into()));
            if s.chance(1, 6) {
                pause.clone().free();
                ensure!(!vm.pause().has_interrupted(), "request", "{}", say(&log, "a withdrawn request is still there".into()));
                asked -= pending as u64;
                pending = false;
                log.push("request, withdrawn".into());
            } else {
                asked += !pending as u64;
                pending = true;
                log.push(format!("{n} requests before running"));
            }
        }
        if s.chance(1, 6) {
            let n = s.range(1, 6);
            log.push(format!("{n} steps"));
            vm.sm().set_running(true);
            for _ in 0..n {
                if fo.end.is_some() || exited.is_some() {
                    break;
                }
                fo.step();
                let r = vm.step();
                let good = match (&fo.end, &r) {
                    (None, Ok(())) => true,
                    (Some(End::Exit(c)), Ok(())) => {
                        exited = Some(());
                        !vm.running() && vm.exit_code() == *c
                    }
                    (Some(End::Fault(_)), Err(e)) => {
                        exited = Some(());
                        !matches!(e, Error::Pause)
                    }
                    _ => false,
                };
                ensure!(good, "step", "{}", say(&log, format!("a step gave {r:?}, expected {:?}", fo.end)));
            }
            if exited.is_some() {
                break;
            }
            if linked {
                pending |= pause.has_interrupted();
            }
        }
        fo.taken = 0;
        asked += st.lock().unwrap().1.len() as u64 - counted;
        let before = st.lock().unwrap().1.len();
        let r = if kept { vm.run_kept() } else { vm.run() };
        ctx.evals += 1;
        let here = vm.sm().cycles();
        let made: Vec<u64> = st.lock().unwrap().1[before..].to_vec();
        asked += made.len() as u64;
        counted = (before + made.len()) as u64;
        match r {
            Err(Error::Pause) => {
                pauses += 1;
                log.push(format!("paused at {here}"));
                ensure!(pending || linked && !made.is_empty(), "unasked", "{}", say(&log, "paused without a request".into()));
                ensure!(pauses <= asked, "count", "{}", say(&log, format!("{pauses} pauses for {asked} requests")));
                ensure!(!vm.pause().has_interrupted(), "again", "{}", say(&log, "the request is still pending after the pause".into()));
                // where the request became visible
                if !pending {
                    fo.to(made[0].max(fo.m.cycles)).map_err(|_| ()).ok();
                    fo.taken = 0;
                }
                fo.to(here).map_err(|e| f("boundary", say(&log, e)))?;
                ensure!(fo.taken <= 1, "late", "{}", say(&log, format!("paused only after {} jumps", fo.taken)));
                diff_all(&fo.m, vm.sm()).map_err(|e| f("state", say(&log, format!("at the pause: {e}"))))?;
            }
            r => {
                log.push(format!("{r:?} at {here}"));
                if pending || linked && !made.is_empty() {
                    // never noticed: there was no jump on the way to the end
                    let from = if pending { fo.m.cycles } else { made[0].max(fo.m.cycles) };
                    while fo.end.is_none() && fo.m.cycles < from {
                        fo.step();
                    }
                    fo.taken = 0;
                    while fo.end.is_none() {
                        fo.step();
                    }
                    let ended = matches!(fo.end, Some(End::Exit(_)));
                    ensure!(fo.taken == 0 || !ended && k.engine.decodes_ahead(), "missed", "{}", say(&log, format!("ended without pausing, {} jumps after the request", fo.taken)));
                }
                while fo.end.is_none() {
                    fo.step();
                }
                let e = fo.end.clone().unwrap();
                check_end(&fo.m, &e, &mut *vm, &r).map_err(|mut x| {
                    x.msg = say(&log, x.msg);
                    x
                })?;
                break;
            }
        }
    }
    ctx.label_n("pauses", pauses);
    ctx.label(match fo.end {
        Some(End::Exit(_)) => "program exits",
        _ => "program faults",
    });
    ctx.nt(pauses > 0 && fo.groups >= 10);
    Ok(())
}

/// A loop long enough to be interrupted from another thread.
fn long_loop(s: &mut Src, p: PCfg, iters: Option<u64>) -> Setup {
    let c = p.c;
    let mut a = Asm::default();
    let mut regs = [0u64; 32];
    let free = [5u8, 6, 7, 10, 11, 12, 13, 14, 15, 28, 29, 30];
    for r in free {
        regs[r as usize] = s.val();
    }
    regs[8] = 0x20000 + s.below(64) * 8;
    if let Some(n) = iters {
        regs[18] = n;
    }
    let top = a.label();
    let fun = a.label();
    let has_fun = s.chance(1, 2);
    let start = a.label();
    a.jmp(start, 0);
    if has_fun {
        a.lab(fun);
        for _ in 0..s.below(4) {
            let i = gen_alu(s, &c, &free, &free);
            a.ic(i, s.bool());
        }
        a.op(Op::Jalr, 0, 1, 0, 0);
    }
    a.lab(start);
    a.lab(top);
    let n = if iters.is_none() && s.chance(1, 2) { 0 } else { s.range(1, 40) };
    for _ in 0..n {
        match s.weighted(&[8, 2, 2, 1, 1]) {
            0 => {
                let i = gen_alu(s, &c, &free, &free);
                a.ic(i, s.bool());
            }
            1 => a.op(if c.xlen == 64 { Op::Sd } else { Op::Sw }, 0, 8, *s.pick(&free), 8 * s.below(100) as i64),
            2 => a.op(if c.xlen == 64 { Op::Ld } else { Op::Lw }, *s.pick(&free), 8, 0, 8 * s.below(100) as i64),
            3 if has_fun => a.jmp(fun, 1),
            4 => {
                let skip = a.label();
                a.br(Inst::new(*s.pick(&[Op::Beq, Op::Blt, Op::Bgeu]), 0, *s.pick(&free), *s.pick(&free), 0), skip);
                a.op(Op::Addi, 12, 12, 0, 1);
                a.lab(skip);
            }
            _ => {}
        }
    }
    if iters.is_some() {
        a.op(Op::Addi, 18, 18, 0, -1);
        a.br(Inst::new(Op::Bne, 0, 18, 0, 0), top);
        a.op(Op::Addi, 17, 0, 0, 93);
        a.op(Op::Ecall, 0, 0, 0, 0);
    } else if s.bool() {
        a.jmp(top, 0);
    } else {
        a.br(Inst::new(Op::Beq, 0, 0, 0, 0), top);
    }
    let base = 0x1000 * s.range(1, 8);
    let (mut code, _) = a.assemble(base, &c);
    while code.len() as u64 % PAGE != 0 {
        code.push(0);
    }
    for r in regs.iter_mut() {
        if c.xlen == 32 {
            *r &= 0xffff_ffff;
        }
    }
    Setup { p, regs, pc: base, code_base: base, code, blobs: vec![], cost: Cost::One, max_cycles: u64::MAX }
}

fn gen_p(s: &mut Src) -> PCfg {
    let xlen = if s.chance(1, 6) { 32 } else { 64 };
    let mut p = gen_cfg(s, xlen);
    p.mem = 256 * 1024;
    p
}

fn threads(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let p = gen_p(s);
    let n = s.range(100, 4000);
    let set = long_loop(s, p, Some(n));
    let k = targets(&p, s);
    let c = vm_cfg(k, &p).cycles(u64::MAX, Cost::One);
    let mut vm = set.vm_with(c).map_err(h)?;
    let pause = vm.pause();
    let stop = Arc::new(AtomicBool::new(false));
    let asked = Arc::new(AtomicU64::new(0));
    let spin = s.below(400);
    let max = s.range(1, 40);
    let t = {
        let (stop, asked) = (stop.clone(), asked.clone());
        std::thread::spawn(move || {
            let mut r = crate::src::Rng::new(spin);
            for _ in 0..max {
                for _ in 0..r.next() % (spin + 1) {
                    std::hint::spin_loop();
                }
                asked.fetch_add(1, SeqCst);
                pause.interrupt();
                while pause.has_interrupted() {
                    if stop.load(SeqCst) {
                        return;
                    }
                    std::hint::spin_loop();
                }
                if stop.load(SeqCst) {
                    return;
                }
            }
        })
    };
    let mut fo = Follow { m: set.model(), end: None, taken: 0, groups: 0 };
    fo.m.cost = Cost::One;
    let mut places = vec![];
    let mut pauses = 0;
    let r = loop {
        match vm.run_kept() {
            Err(Error::Pause) => {
                pauses += 1;
                let n = asked.load(SeqCst);
                let seen = (vm.sm().cycles(), vm.sm().pc(), vm.sm().regs());
                if pauses > n {
                    stop.store(true, SeqCst);
                    t.join().ok();
                    return Err(f("count", format!("{k}: {pauses} pauses for {n} requests | {}", set.render())));
                }
                places.push(seen);
            }
            r => break r,
        }
    };
    stop.store(true, SeqCst);
    t.join().ok();
    ctx.evals += pauses + 1;
    ctx.label("requests from another thread");
    ctx.label_n("pauses from another thread", pauses);
    ctx.sample(|| set.render());
    for (cyc, pc, regs) in places {
        fo.to(cyc).map_err(|e| f("boundary", format!("{k}: {e} | {}", set.render())))?;
        ensure!(pc == fo.m.pc, "pc", "{k}: paused at {pc:#x}, expected {:#x} | {}", fo.m.pc, set.render());
        ensure!(regs == fo.m.x, "registers", "{k}: registers at the pause after {cyc} cycles are {regs:x?}, expected {:x?} | {}", fo.m.x, set.render());
    }
    while fo.end.is_none() {
        fo.step();
    }
    ctx.nt(pauses > 0);
    let e = fo.end.clone().unwrap();
    check_end(&fo.m, &e, &mut *vm, &r).map_err(|mut x| {
        x.msg = format!("after {pauses} pauses: {} | {}", x.msg, set.render());
        x
    })
}

/// A program that never ends can be stopped.
fn endless(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let p = gen_p(s);
    let set = long_loop(s, p, None);
    let k = targets(&p, s);
    let slice = if k.engine.is_asm() && k.engine != Engine::AsmNaive { 40_000_000 } else { 3_000_000 };
    let mut vm = set.vm_with(vm_cfg(k, &p).cycles(slice, Cost::One)).map_err(h)?;
    let pause = vm.pause();
    let asked = Arc::new(AtomicBool::new(false));
    let a2 = asked.clone();
    let delay = s.below(300);
    ctx.label("endless loop");
    ctx.nt(true);
    let t = std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_micros(delay));
        pause.interrupt();
        a2.store(true, SeqCst);
    });
    let r = loop {
        let was = asked.load(SeqCst);
        match vm.run_kept() {
            Err(Error::CyclesExceeded) if !was => {
                let c = vm.sm().cycles();
                vm.limit(c + slice);
            }
            r => break r,
        }
    };
    t.join().ok();
    ctx.evals += 1;
    ensure!(matches!(r, Err(Error::Pause)), "never", "{k}: a request did not stop an endless loop: {r:?} | {}", set.render());
    Ok(())
}
