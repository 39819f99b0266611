//! C25: single-stepping equals running, in any mixture.

use crate::exec::*;
use crate::gen::*;
use crate::model::*;
use crate::online::*;
use crate::props::c14::{pauser, targets};
use crate::runner::*;
use crate::src::Src;
use crate::vm::*;
use crate::what::*;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

pub static PROP: Prop = Prop {
    id: "C25",
    rule: "the program takes at least 10 steps, and at least one change between stepping and running happened before its end (or it was stepped through completely)",
    assumptions: &["progress of a stopped machine is identified by its cycle count (every instruction costs at least one cycle)"],
    cases: (150_000, 5_000_000),
    fixed: 0,
    preset: no_preset,
    run,
    probes: &[],
};

/// The standard host; notes when a call is refused or ends over the limit.
fn noted_sys(stuck: Arc<AtomicU64>) -> (Option<InitFn>, SysFn) {
    let (i, mut g) = host_sys();
    (
        i,
        Box::new(move |m: &mut dyn SM| {
            let r = g(m);
            if r.is_err() || m.cycles() > m.max_cycles() {
                stuck.store(1, SeqCst);
            }
            r
        }),
    )
}

struct Fo {
    m: Model,
    end: Option<End>,
    steps: u64,
}
impl Fo {
    /// one fused group; Some(true): the cycle limit stopped it before it began
    fn step(&mut self) -> bool {
        let (pc, cycles) = (self.m.pc, self.m.cycles);
        let e = match model_group(&mut self.m) {
            Ok(Ev::Ecall(c)) => model_ecall(&mut self.m, c).map(|_| Ev::None),
            Err(Fault::CyclesExceeded) if self.m.pc == pc && self.m.cycles == cycles => return true,
            e => e,
        };
        self.steps += 1;
        match e {
            Ok(Ev::Exit(c)) => self.end = Some(End::Exit(c)),
            Ok(_) => {}
            Err(x) => self.end = Some(End::Fault(x)),
        }
        false
    }
    fn to(&mut self, cycles: u64) -> Result<(), String> {
        self.m.max_cycles = u64::MAX;
        while self.m.cycles < cycles {
            if let Some(e) = &self.end {
                return Err(format!("it is at {cycles} cycles, but the program ends before that with {e:?}"));
            }
            self.step();
        }
        if self.m.cycles != cycles {
            return Err(format!("it stopped at {cycles} cycles, which is not an instruction boundary ({} after the next)", self.m.cycles));
        }
        match &self.end {
            Some(e) => Err(format!("it stopped after the program had ended with {e:?}")),
            None => Ok(()),
        }
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    if s.chance(1, 600) {
        ctx.label("a memory of several gigabytes");
        return roomy(|| run_in(s, ctx, true));
    }
    run_in(s, ctx, false)
}

fn run_in(s: &mut Src, ctx: &mut Ctx, vast: bool) -> CaseRes {
    let wo = WOpts {
        on: On { steps: 80, hop: 10, w: [6, 2, 3, 4, 2, 0, 4], wild_mem: 3, fault: 5, ..On::default() },
        o: Opts { size: 14, wild: 6, big: 6, faults: 10, ..Opts::default() },
        online: 50,
        max_mem: if vast { u64::MAX } else if s.chance(1, 6) { 4 << 20 } else { 256 * 1024 },
        ..WOpts::default()
    };
    let w = What::gen(s, &wo);
    let p = w.p();
    let cost = [Cost::One, Cost::Published][s.usize(2)];
    let mut whole = w.model(cost, u64::MAX);
    let end = model_run(&mut whole, 4000);
    if end == End::Limit {
        ctx.label("not used");
        return Ok(());
    }
    ctx.sample(|| w.render());
    let k = targets(&p, s);
    ctx.label(match end {
        End::Exit(_) => "program exits",
        _ => "program faults",
    });
    // in one go
    {
        let mut c = vm_cfg(k, &p).cycles(u64::MAX, cost);
        c.syscalls.push(host_sys());
        let mut vm = w.vm_with(c)?;
        let r = vm.run();
        ctx.evals += 1;
        check_end(&whole, &end, &mut *vm, &r).map_err(|mut x| {
            x.msg = format!("in one go: {} | {}", x.msg, w.render());
            x
        })?;
    }
    // in parts
    let at = Arc::new(AtomicU64::new(0));
    let stuck = Arc::new(AtomicU64::new(0));
    let pause = ckb_vm::machine::Pause::new();
    let mut c = vm_cfg(k, &p).cycles(u64::MAX, cost);
    c.syscalls.push((None, pauser(pause.clone(), at.clone()).1));
    c.syscalls.push(noted_sys(stuck.clone()));
    c.pause = Some(pause.clone());
    let mut vm = w.vm_with(c)?;
    let mut fo = Fo { m: w.model(cost, u64::MAX), end: None, steps: 0 };
    let style = s.weighted(&[2, 5, 3]);
    let kept = s.bool();
    let mut log = vec![format!("{k} cost {cost:?}")];
    let mut changes = 0u64;
    let mut last = 9;
    let say = |log: &[String], x: String| format!("{}: {x} | {}", log.join("; "), w.render());
    while fo.end.is_none() {
        // 0: steps, 1: run to a cycle limit, 2: run until paused, 3: run to the end
        let act = match style {
            0 => 0,
            1 => s.weighted(&[6, 4, 3, 0]),
            _ => s.weighted(&[5, 3, 2, 1]),
        };
        if act != last && last != 9 && (act == 0) != (last == 0) {
            changes += 1;
        }
        last = act;
        if s.chance(1, 12) {
            vm.forget().map_err(|e| h(format!("{e:?}")))?;
            log.push("decoder reset".into());
        }
        let limit = if act == 1 || act == 0 && s.chance(1, 5) { fo.m.cycles.saturating_add(s.range(0, 40)) } else { u64::MAX };
        vm.limit(limit);
        fo.m.max_cycles = limit;
        if act == 0 {
            let n = if style == 0 && s.bool() { 5000 } else { s.range(1, 14) };
            log.push(format!("up to {n} steps{}", if limit < u64::MAX { format!(" below {limit} cycles") } else { String::new() }));
            vm.sm().set_running(true);
            let mut i = 0;
            while i < n && fo.end.is_none() {
                i += 1;
                let pc = fo.m.pc;
                let stop = fo.step();
                let r = vm.step();
                ctx.evals += 1;
                if stop {
                    ensure!(matches!(r, Err(Error::CyclesExceeded)), "limit", "{}", say(&log, format!("step {i} at {pc:#x} over the limit of {limit} gave {r:?}")));
                    diff_all(&fo.m, vm.sm()).map_err(|e| f("state", say(&log, format!("step {i} at {pc:#x} refused for cycles: {e}"))))?;
                    ctx.label("step over the limit");
                    break;
                }
                match (&fo.end, &r) {
                    (None, Ok(())) | (Some(End::Exit(_)), Ok(())) => {
                        diff_regs(&fo.m, vm.sm()).map_err(|e| f("state", say(&log, format!("step {i} at {pc:#x}: {e}"))))?;
                        ensure!(vm.sm().pc() == fo.m.pc, "pc", "{}", say(&log, format!("step {i} at {pc:#x}: pc is {:#x}, expected {:#x}", vm.sm().pc(), fo.m.pc)));
                        ensure!(vm.sm().cycles() == fo.m.cycles, "cycles", "{}", say(&log, format!("step {i} at {pc:#x}: {} cycles, expected {}", vm.sm().cycles(), fo.m.cycles)));
                        let ended = matches!(fo.end, Some(_));
                        ensure!(vm.running() == !ended, "running", "{}", say(&log, format!("step {i} at {pc:#x}: running is {}, expected {}", vm.running(), !ended)));
                        if let Some(End::Exit(c)) = fo.end {
                            ensure!(vm.exit_code() == c, "exit-code", "{}", say(&log, format!("exit code {}, expected {c}", vm.exit_code())));
                        }
                    }
                    (Some(End::Fault(x)), Err(e)) if err_matches(x, e) => {
                        diff_state(&fo.m, vm.sm(), true).map_err(|d| f("fault-state", say(&log, format!("step {i} at {pc:#x}, after {e:?}: {d}"))))?;
                    }
                    _ => return Err(f("step", say(&log, format!("step {i} at {pc:#x} gave {r:?}, expected {}", fo.end.as_ref().map(|e| format!("{e:?}")).unwrap_or("success".into()))))),
                }
            }
            if !matches!(fo.end, Some(End::Fault(_))) {
                diff_all(&fo.m, vm.sm()).map_err(|e| f("state", say(&log, format!("after the steps: {e}"))))?;
            }
            continue;
        }
        if act == 2 {
            at.store(s.range(1, 3), SeqCst);
        }
        log.push(match act {
            1 => format!("run to {limit} cycles"),
            2 => format!("run until paused at call {} from here", at.load(SeqCst)),
            _ => "run".into(),
        });
        let r = if kept { vm.run_kept() } else { vm.run() };
        ctx.evals += 1;
        let here = vm.sm().cycles();
        log.push(format!("{r:?} at {here}"));
        match r {
            Err(Error::CyclesExceeded) if stuck.load(SeqCst) != 0 => {
                ctx.label("limit inside a call");
                return Ok(());
            }
            Err(Error::CyclesExceeded) if limit < u64::MAX => {
                ensure!(here <= limit, "limit", "{}", say(&log, format!("over the limit of {limit}")));
                fo.to(here).map_err(|e| f("boundary", say(&log, e)))?;
                diff_all(&fo.m, vm.sm()).map_err(|e| f("state", say(&log, format!("stopped at the limit: {e}"))))?;
            }
            Err(Error::Pause) => {
                ctx.label("paused");
                fo.to(here).map_err(|e| f("boundary", say(&log, e)))?;
                diff_all(&fo.m, vm.sm()).map_err(|e| f("state", say(&log, format!("paused: {e}"))))?;
            }
            r => {
                fo.m.max_cycles = u64::MAX;
                while fo.end.is_none() {
                    fo.step();
                }
                let e = fo.end.clone().unwrap();
                check_end(&fo.m, &e, &mut *vm, &r).map_err(|mut x| {
                    x.msg = say(&log, x.msg);
                    x
                })?;
                ctx.label("ended by running");
                ctx.nt(fo.steps >= 10 && changes > 0);
                return Ok(());
            }
        }
    }
    if fo.end == Some(End::Fault(Fault::CyclesExceeded)) {
        ctx.label("limit inside a call");
        return Ok(());
    }
    ensure!(fo.end.as_ref() == Some(&end), "end", "{}", say(&log, format!("the reference ended with {:?}, expected {end:?}", fo.end)));
    ctx.label(if style == 0 { "stepped all the way" } else { "ended by stepping" });
    ctx.nt(fo.steps >= 10 && (changes > 0 || style == 0));
    Ok(())
}
