//! C07: cycles are exact and the limit is a hard bound.

use crate::exec::*;
use crate::gen::*;
use crate::model::*;
use crate::online::*;
use crate::runner::*;
use crate::src::Src;
use crate::vm::*;
use crate::what::*;

pub static PROP: Prop = Prop {
    id: "C07",
    rule: "programs of at least 15 steps run under at least 4 limits per engine; accounting histories of at least 8 operations",
    assumptions: &["cycle sums of the reference simulator"],
    cases: (20_000, 700_000),
    fixed: 0,
    preset: no_preset,
    run,
    probes: &[],
};

fn run(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    match s.weighted(&[5, 4, 1, 3, 2]) {
        0 => program(s, ctx, false),
        1 => program(s, ctx, true),
        2 => accounting(s, ctx),
        4 => calls(s, ctx),
        _ => overflow(s, ctx),
    }
}

fn gen_what(s: &mut Src, online: bool) -> (What, bool) {
    let xlen = if s.chance(1, 6) { 32 } else { 64 };
    let mut p = gen_cfg(s, xlen);
    p.mem = p.mem.min(512 * 1024);
    let flat = s.bool();
    let w = if online {
        let steps = s.range(1, 60);
        let on = On { steps, hop: 8, fault: 0, w: [8, 4, 3, 4, 1, if p.mop { 5 } else { 0 }, 0], ..On::default() };
        What::S(OnGen::new(s, p, on).generate().0)
    } else {
        What::P(gen_program(s, p, Opts { faults: 0, size: 20, wild: 5, big: 15, ..Opts::default() }))
    };
    (w, flat)
}

fn program(s: &mut Src, ctx: &mut Ctx, online: bool) -> CaseRes {
    let (w, flat) = gen_what(s, online);
    let p = w.p();
    let cost = [Cost::One, Cost::Published, Cost::Hash(s.below(1000))][s.usize(3)];
    let mut m = w.model(cost, u64::MAX);
    // prefix sums at every instruction
    let mut sums = vec![0u64];
    let end;
    loop {
        if m.steps > 3000 {
            end = End::Limit;
            break;
        }
        let e = match m.step() {
            Ok(Ev::Exit(c)) => Err(End::Exit(c)),
            Ok(Ev::Ecall(c)) => model_ecall(&mut m, c).map_err(End::Fault),
            Ok(_) => Ok(()),
            Err(x) => Err(End::Fault(x)),
        };
        sums.push(m.cycles);
        if let Err(e) = e {
            end = e;
            break;
        }
    }
    if end == End::Limit {
        ctx.label("not used");
        return Ok(());
    }
    let total = m.cycles;
    ctx.label(if online { "sequence" } else { "program" });
    ctx.nt(m.steps >= 15);
    ctx.sample(|| format!("total {total}: {}", w.render()));
    let mut limits = vec![total, u64::MAX, total + 1 + s.below(100)];
    if total > 0 {
        limits.push(total - 1);
        limits.push(s.below(total));
        for _ in 0..3 {
            let c = sums[s.usize(sums.len())];
            limits.push(c.saturating_sub(s.below(2)).min(total));
        }
    }
    limits.sort();
    limits.dedup();
    let free_host = matches!(w, What::P(_));
    for k in kinds(&p, flat) {
        for &max in &limits {
            let mut vm = w.vm(k, cost, max)?;
            let r = vm.run();
            ctx.evals += 1;
            let say = |x: String| format!("{k}: limit {max} of {total}: {x} | cost {cost:?} {}", w.render());
            let used = vm.sm().cycles();
            match (&end, &r) {
                (End::Exit(c), Ok(d)) if max >= total => {
                    if c != d {
                        return Err(f("exit-code", say(format!("exit code {d}, expected {c}"))));
                    }
                    if used != total {
                        return Err(f("total", say(format!("{used} cycles"))));
                    }
                }
                (End::Fault(_), Err(e)) if max >= total => {
                    if matches!(e, Error::CyclesExceeded) && !k.engine.decodes_ahead() {
                        return Err(f("early-limit", say(format!("{e:?}, expected {end:?}"))));
                    }
                }
                (_, _) if max >= total => return Err(f("early-limit", say(format!("{r:?}, expected {end:?}")))),
                (_, Ok(_)) => return Err(f("limit-ignored", say(format!("succeeded with {used} cycles")))),
                (_, Err(e)) => {
                    let exits = matches!(end, End::Exit(_));
                    if !matches!(e, Error::CyclesExceeded) && (exits || !k.engine.decodes_ahead()) {
                        return Err(f("wrong-error", say(format!("{e:?} instead of CyclesExceeded"))));
                    }
                    // the host may add cycles beyond the limit without checking
                    if used > max && !free_host {
                        return Err(f("over-limit", say(format!("{used} cycles"))));
                    }
                    // with a larger limit the run continues where it stopped
                    if exits && matches!(e, Error::CyclesExceeded) && !free_host {
                        vm.limit(total);
                        let r = vm.run();
                        if let (End::Exit(c), Ok(d)) = (&end, &r) {
                            if c == d && vm.sm().cycles() == total {
                                continue;
                            }
                        }
                        return Err(f("not-resumable", say(format!("continued with limit {total}: {r:?}, {} cycles, expected {end:?}", vm.sm().cycles()))));
                    }
                }
            }
            // the plain interpreter stops at exactly the instruction that does not fit
            if matches!(k.engine, Engine::Naive | Engine::AsmNaive) && max < total {
                let mut m2 = w.model(cost, max);
                let e2 = model_run(&mut m2, 4000);
                let mut vm2 = w.vm(k, cost, max)?;
                let r2 = vm2.run();
                check_end(&m2, &e2, &mut *vm2, &r2).map_err(|mut x| {
                    x.msg = say(x.msg);
                    x
                })?;
            }
        }
    }
    Ok(())
}

/// the host's accounting interface
fn accounting(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let xlen = if s.chance(1, 3) { 32 } else { 64 };
    let p = { let mut p = gen_cfg(s, xlen); p.mem = 256 * 1024; p };
    let ks = kinds(&p, s.bool());
    let k = ks[s.usize(ks.len())];
    let max = match s.below(3) {
        0 => u64::MAX,
        1 => s.below(1000),
        _ => s.u64(),
    };
    let mut vm = build(vm_cfg(k, &p).cycles(max, Cost::One));
    let (mut c, mut mx) = (0u64, max);
    let n = s.range(8, 30);
    ctx.nt(true);
    ctx.label("accounting");
    for _ in 0..n {
        let amount = match s.below(5) {
            0 => s.below(10),
            1 => mx.saturating_sub(c),
            2 => mx.saturating_sub(c).saturating_add(1),
            3 => u64::MAX - c,
            _ => s.u64(),
        };
        ctx.evals += 1;
        let sm = vm.sm();
        match s.below(5) {
            0 | 1 => {
                let r = sm.add_cycles(amount);
                let say = |x: &str| format!("{k}: add_cycles({amount}) at {c} of {mx}: {x}, got {r:?}");
                match c.checked_add(amount) {
                    None => ensure!(matches!(r, Err(Error::CyclesOverflow)), "overflow", "{}", say("expected overflow")),
                    Some(t) if t > mx => ensure!(matches!(r, Err(Error::CyclesExceeded)), "exceeded", "{}", say("expected exceeded")),
                    Some(t) => {
                        ensure!(r.is_ok(), "spurious", "{}", say("expected success"));
                        c = t;
                    }
                }
            }
            2 => {
                let r = sm.add_cycles_nc(amount);
                match c.checked_add(amount) {
                    None => ensure!(matches!(r, Err(Error::CyclesOverflow)), "overflow", "{k}: add_cycles_no_checking({amount}) at {c}: {r:?}"),
                    Some(t) => {
                        ensure!(r.is_ok(), "spurious", "{k}: add_cycles_no_checking({amount}) at {c}: {r:?}");
                        c = t;
                    }
                }
            }
            3 => {
                mx = if s.bool() { s.u64() } else { c.saturating_add(s.below(50)) };
                sm.set_max_cycles(mx);
            }
            _ => {
                c = if s.bool() { s.u64() } else { s.below(1000) };
                sm.set_cycles(c);
            }
        }
        ensure!(vm.sm().cycles() == c, "cycles", "{k}: cycles are {}, expected {c}", vm.sm().cycles());
        ensure!(vm.sm().max_cycles() == mx, "limit", "{k}: limit is {}, expected {mx}", vm.sm().max_cycles());
    }
    Ok(())
}

/// near the top of the counter
fn overflow(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let online = s.bool();
    let (w, flat) = gen_what(s, online);
    let p = w.p();
    let cost = match s.below(3) {
        0 => Cost::Published,
        1 => Cost::One,
        _ => Cost::Huge(s.range(1, 62)),
    };
    let mut m = w.model(cost, u64::MAX);
    let mut sums = vec![];
    loop {
        if m.steps > 3000 {
            return Ok(());
        }
        let e = match m.step() {
            Ok(Ev::Exit(_)) => false,
            Ok(Ev::Ecall(c)) => model_ecall(&mut m, c).is_ok(),
            Ok(_) => true,
            Err(_) => false,
        };
        sums.push(m.cycles);
        if !e {
            break;
        }
    }
    ctx.label("counter near its end");
    ctx.nt(m.steps >= 15);
    let total = m.cycles;
    // start so that the counter ends just below, at, or above its end
    let start = match s.below(6) {
        0 => u64::MAX - total,
        1 => (u64::MAX - total).saturating_add(1),
        2 => u64::MAX - s.below(total.max(1).min(1 << 40)),
        3 | 4 => (u64::MAX - *s.pick(&sums)).saturating_add(s.below(2)),
        _ => 0,
    };
    let mut m = w.model(cost, u64::MAX);
    m.cycles = start;
    let end = model_run(&mut m, 3000);
    ctx.label(match &end {
        End::Fault(Fault::CyclesOverflow) => "overflow",
        _ => "no overflow",
    });
    for k in kinds(&p, flat) {
        let mut vm = w.vm(k, cost, u64::MAX)?;
        vm.sm().set_cycles(start);
        let r = vm.run();
        ctx.evals += 1;
        let say = |x: String| format!("{x} | start {start:#x} total {total:#x} cost {cost:?} {}", w.render());
        if end == End::Fault(Fault::CyclesOverflow) {
            if let Ok(c) = r {
                return Err(f("wrapped", say(format!("{k}: ended with {c} and {:#x} cycles", vm.sm().cycles()))));
            }
        }
        check_end(&m, &end, &mut *vm, &r).map_err(|mut x| {
            x.msg = say(x.msg);
            x
        })?;
    }
    Ok(())
}

/// Calls that add cycles, some of which stop the machine; the host then runs it on.
fn calls(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    use crate::isa::{Inst, Op};
    use std::sync::{Arc, Mutex};
    let xlen = if s.chance(1, 4) { 32 } else { 64 };
    let mut p = gen_cfg(s, xlen);
    p.mem = 256 * 1024;
    let cost = [Cost::One, Cost::Published][s.usize(2)];
    // straight code between calls
    let n = s.range(1, 5) as usize;
    let segs: Vec<u64> = (0..n).map(|_| if s.bool() { s.below(14) } else { s.below(60) }).collect();
    #[derive(Clone, Copy, Debug)]
    struct Call {
        add: u64,
        check: bool,
        stop: bool,
    }
    let mut code = vec![];
    let mut emit = |i: Inst| {
        let w = crate::isa::encode_for(&i, xlen);
        code.extend_from_slice(&w.to_le_bytes());
    };
    emit(Inst::new(Op::Addi, 17, 0, 0, 1000));
    for g in &segs {
        for _ in 0..*g {
            emit(Inst::new(Op::Addi, 5, 5, 0, 1));
        }
        emit(Inst::new(Op::Ecall, 0, 0, 0, 0));
    }
    emit(Inst::new(Op::Addi, 17, 0, 0, 93));
    emit(Inst::new(Op::Ecall, 0, 0, 0, 0));
    // what one call instruction costs
    let call_cost = if matches!(cost, Cost::One) { 1 } else { 500 };
    let start = match s.below(5) {
        0 => u64::MAX - s.below(3000),
        1 => s.u64(),
        _ => 0,
    };
    let calls: Vec<Call> = (0..n)
        .map(|_| Call {
            add: match s.below(6) {
                0 => 0,
                1 => u64::MAX - s.below(3000),
                2 => u64::MAX - start,
                _ => s.below(3000),
            },
            check: s.chance(1, 3),
            stop: s.chance(1, 3),
        })
        .collect();
    let mut at = vec![];
    let mut t = start as u128;
    for (i, g) in segs.iter().enumerate() {
        t += (*g + (i == 0) as u64 + call_cost) as u128;
        at.push(t);
        t += calls[i].add as u128;
        at.push(t);
    }
    let max = match s.below(3) {
        0 => u64::MAX,
        1 => s.u64(),
        _ => {
            let x = *s.pick(&at);
            (x.min(u64::MAX as u128) as u64).saturating_add(s.below(3)).saturating_sub(1)
        }
    };
    let start = start.min(max);
    ctx.label("calls");
    ctx.nt(n >= 2 && code.len() > 60);
    let flat = s.bool();
    for k in kinds(&p, flat) {
        let left = Arc::new(Mutex::new(0usize));
        let (l2, cs) = (left.clone(), calls.clone());
        let mut c = vm_cfg(k, &p).cycles(max, cost);
        c.syscalls.push((
            None,
            Box::new(move |sm: &mut dyn SM| {
                let mut i = l2.lock().unwrap();
                let c = cs[*i];
                *i += 1;
                if c.check {
                    sm.add_cycles(c.add)?;
                } else {
                    sm.add_cycles_nc(c.add)?;
                }
                if c.stop {
                    sm.set_running(false);
                }
                Ok(true)
            }),
        ));
        let mut vm = build(c);
        let sm = vm.sm();
        sm.init_pages(0x1000, (code.len() as u64 + PAGE - 1) / PAGE * PAGE, F_EXEC | F_FREEZE, Some(Bytes::from(code.clone())), 0).map_err(|e| h(format!("{e:?}")))?;
        sm.set_pc(0x1000);
        sm.set_cycles(start);
        // expected: how each run ends
        let mut cyc = start;
        let mut i = 0;
        loop {
            let r = vm.run();
            ctx.evals += 1;
            let mut want: Result<(), Fault> = Ok(());
            let mut over = false;
            let mut exact = true;
            loop {
                // the straight code up to and with the call, then what the handler adds
                let seg = if i < n { segs[i] + (i == 0) as u64 + call_cost } else { 1 + call_cost };
                match cyc.checked_add(seg) {
                    None => want = Err(Fault::CyclesOverflow),
                    Some(x) if x > max => want = Err(Fault::CyclesExceeded),
                    Some(x) => cyc = x,
                }
                if want.is_err() {
                    // a block is charged as a whole
                    exact = false;
                    break;
                }
                if i == n {
                    over = true;
                    break;
                }
                let c = calls[i];
                match cyc.checked_add(c.add) {
                    None => want = Err(Fault::CyclesOverflow),
                    Some(x) if x > max => {
                        if !c.check {
                            cyc = x;
                        }
                        want = Err(Fault::CyclesExceeded);
                    }
                    Some(x) => cyc = x,
                }
                i += 1;
                if want.is_err() {
                    over = true;
                    break;
                }
                if c.stop {
                    break;
                }
            }
            let say = |x: String| format!("{k}: {x} | {xlen} bits, cost {cost:?}, start {start:#x}, limit {max:#x}, segments {segs:?}, calls {calls:?}");
            match (&want, &r) {
                (Ok(()), Ok(_)) => {}
                // where blocks straddle both ends, which end is met first depends on their size
                (Err(Fault::CyclesOverflow), Err(Error::CyclesOverflow | Error::CyclesExceeded)) if !exact => {}
                (Err(Fault::CyclesOverflow), Err(Error::CyclesOverflow)) => {}
                (Err(Fault::CyclesExceeded), Err(Error::CyclesExceeded)) => {}
                (Err(Fault::CyclesExceeded), Err(Error::CyclesOverflow)) if !exact => {}
                _ => return Err(f("call-limit", say(format!("run up to call {i} ended with {r:?}, expected {want:?}; {:#x} cycles", vm.sm().cycles())))),
            }
            if exact && vm.sm().cycles() != cyc {
                return Err(f("call-cycles", say(format!("{:#x} cycles after call {i}, expected {cyc:#x}", vm.sm().cycles()))));
            }
            if r.is_ok() && vm.sm().cycles() > max {
                return Err(f("over-limit", say(format!("ended well with {:#x} cycles", vm.sm().cycles()))));
            }
            if over || want.is_err() {
                break;
            }
        }
    }
    Ok(())
}
