//! C17: a reset machine is as good as new.

use crate::exec::*;
use crate::gen::*;
use crate::model::*;
use crate::online::*;
use crate::props::c14::{see, targets};
use crate::runner::*;
use crate::src::Src;
use crate::vm::*;
use crate::what::*;
use ckb_vm::machine::Pause;
use ckb_vm::snapshot::Snapshot;
use std::sync::{Arc, Mutex};

pub static PROP: Prop = Prop {
    id: "C17",
    rule: "the program before the reset ran at least 5 instructions and the one after it at least 10",
    assumptions: &["whoever steps a machine drops the decoder's cached instructions after a reset, as the run loops do"],
    cases: (40_000, 1_500_000),
    fixed: 0,
    preset: no_preset,
    run,
    probes: &[],
};

/// how the machine is given its next program
#[derive(Clone)]
enum How {
    /// the whole loading sequence, handlers included
    Program,
    /// image and stack, as a handler does
    Parts,
    /// the state another machine was in
    Resume(Arc<Snapshot>, u64),
}
#[derive(Clone)]
struct Next {
    w: What,
    how: How,
    max: u64,
}

fn parts(sm: &mut dyn SM, w: &What) -> Result<(), String> {
    match w {
        What::P(g) => {
            sm.load_elf(&Bytes::from(g.bytes.clone()), true).map_err(|e| format!("load_elf: {e:?}"))?;
            let n = sm.mem_size();
            sm.init_stack(&bargs(g), n - n / 4, n / 4).map_err(|e| format!("init_stack: {e:?}"))?;
            Ok(())
        }
        What::S(x) => x.apply(sm),
    }
}
fn put(vm: &mut dyn Vm, n: &Next) -> Result<(), String> {
    match (&n.how, &n.w) {
        (How::Program, What::P(g)) => vm.load_program(&Bytes::from(g.bytes.clone()), &bargs(g)).map(|_| ()).map_err(|e| format!("load_program: {e:?}")),
        _ => put_sm(vm.sm(), n),
    }
}
fn put_sm(sm: &mut dyn SM, n: &Next) -> Result<(), String> {
    match &n.how {
        How::Resume(s, c) => {
            sm.resume1(s).map_err(|e| format!("resume: {e:?}"))?;
            sm.set_cycles(*c);
            Ok(())
        }
        _ => parts(sm, &n.w),
    }
}

/// Nothing is left of what the machine did. Looking at all memory might itself
/// clean it, so single places are looked at first, and sometimes only these.
fn clean(sm: &mut dyn SM, max: u64, spots: &[(u64, u64)]) -> Result<(), String> {
    for &(w, a) in spots {
        match w {
            1 | 2 | 4 | 8 => match sm.load(w, a) {
                Ok(0) => {}
                r => return Err(format!("a load of {w} bytes at {a:#x} gives {r:x?}")),
            },
            _ => match sm.load_bytes(a, w) {
                Ok(b) if b.iter().all(|x| *x == 0) && b.len() as u64 == w => {}
                r => return Err(format!("{w} bytes at {a:#x} are {r:x?}")),
            },
        }
    }
    if !spots.is_empty() && spots[0].1 % 3 != 0 {
        return Ok(());
    }
    let x = see(sm)?;
    if x.regs != [0; 32] {
        return Err(format!("registers are {:x?}", x.regs));
    }
    if x.pc != 0 {
        return Err(format!("pc is {:#x}", x.pc));
    }
    if x.cycles != 0 || sm.max_cycles() != max {
        return Err(format!("{} of {} cycles, expected none of {max}", x.cycles, sm.max_cycles()));
    }
    let none = if sm.lr() == 0xffff_ffff { 0xffff_ffff } else { u64::MAX };
    if x.lr != none {
        return Err(format!("reservation is {:#x}", x.lr));
    }
    if let Some(i) = x.flags.iter().position(|f| *f != 0) {
        return Err(format!("marks of page {i:#x} are {:#x}", x.flags[i]));
    }
    if let Some(i) = x.mem.iter().position(|b| *b != 0) {
        return Err(format!("memory byte {i:#x} is {:#x}", x.mem[i]));
    }
    Ok(())
}

fn gen_spots(s: &mut Src, mem: u64) -> Vec<(u64, u64)> {
    let mut v = vec![];
    if s.bool() {
        for _ in 0..s.range(1, 4) {
            let w = (*s.pick(&[1u64, 2, 4, 8, 3, 16, 5000])).min(mem);
            let a = match s.below(3) {
                0 => s.below(mem),
                1 => ((s.below(mem / PAGE) + 1) * PAGE).saturating_sub(s.below(w + 1)),
                _ => ((s.below(mem / FRAME) + 1) * FRAME).saturating_sub(s.below(w + 1)),
            };
            v.push((w, a.min(mem - w)));
        }
    }
    v
}

fn gen(s: &mut Src, p: Option<PCfg>, prev: Option<&[u64]>, w: &WOpts) -> (What, Vec<u64>) {
    // the same choices with a few changes give a program alike in layout but not in content
    let mut v = vec![];
    if let Some(r) = prev {
        v = r.to_vec();
        let n = s.range(1, 6);
        for _ in 0..n {
            let i = s.usize(v.len().max(1));
            if i < v.len() {
                v[i] = if s.bool() { s.below(16) } else { s.u64() };
            }
        }
    }
    let mut t = Src::preset(v, s.u64());
    let g = gen_with(&mut t, p, w);
    (g, t.rec)
}
fn gen_with(s: &mut Src, p: Option<PCfg>, w: &WOpts) -> What {
    let p0 = {
        let xlen = if s.chance(w.rv32, 100) { 32 } else { 64 };
        let mut q = gen_cfg(s, xlen);
        q.mem = q.mem.min(w.max_mem);
        q
    };
    let p = p.unwrap_or(p0);
    if s.chance(w.online, 100) {
        let mut on = w.on;
        on.steps = s.range(1, w.on.steps);
        if p.mop {
            on.w[5] = 3;
        }
        What::S(OnGen::new(s, p, on).generate().0)
    } else {
        What::P(gen_program(s, p, w.o))
    }
}

struct Plan {
    k: Kind,
    cost: Cost,
    kept: bool,
}
impl Plan {
    fn go(&self, sh: &Mutex<Shared>, vm: &mut dyn Vm, steps: u64) -> Result<Res<i8>, u64> {
        if steps == 0 {
            loop {
                let r = if self.kept { vm.run_kept() } else { vm.run() };
                // a pause asked for along with the reset
                if !matches!(r, Err(Error::Pause)) {
                    return Ok(r);
                }
            }
        }
        vm.sm().set_running(true);
        for _ in 0..steps {
            if std::mem::take(&mut sh.lock().unwrap().forget) {
                vm.forget().ok();
            }
            if let Err(e) = vm.step() {
                return Ok(Err(e));
            }
            if !vm.running() {
                return Ok(Ok(vm.exit_code()));
            }
        }
        Err(steps)
    }
}

/// what the interrupting handler shares with the test
#[derive(Default)]
struct Shared {
    /// calls to go before the machine is reset by the handler
    left: u64,
    next: Option<Next>,
    problem: Option<String>,
    done: bool,
    forget: bool,
    spots: Vec<(u64, u64)>,
    /// the handler also asks for a pause
    pause: bool,
}

fn run(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let wo = WOpts {
        on: On { steps: 60, hop: 8, w: [6, 3, 3, 4, 2, 0, 3], wild_mem: 3, fault: 8, ..On::default() },
        o: Opts { size: 14, wild: 5, big: 8, ..Opts::default() },
        max_mem: if s.chance(1, 4) { 1 << 20 } else { 256 * 1024 },
        ..WOpts::default()
    };
    let (a, mut rec) = gen(s, None, None, &wo);
    let p = a.p();
    let k = targets(&p, s);
    let pl = Plan { k, cost: *s.pick(&[Cost::One, Cost::Published]), kept: s.bool() };
    let sh = Arc::new(Mutex::new(Shared::default()));
    let sh2 = sh.clone();
    let pause = Pause::default();
    let pause2 = pause.clone();
    let mut c = vm_cfg(k, &p).cycles(s.range(1, 4000), pl.cost);
    c.pause = Some(pause.clone());
    c.syscalls.push((
        None,
        Box::new(move |sm: &mut dyn SM| {
            let mut g = sh2.lock().unwrap();
            if g.left == 0 {
                return Ok(false);
            }
            g.left -= 1;
            if g.left > 0 {
                return Ok(false);
            }
            let n = g.next.take().unwrap();
            sm.reset(n.max)?;
            if g.pause {
                pause2.interrupt();
            }
            if g.problem.is_none() {
                g.problem = clean(sm, n.max, &g.spots).err();
            }
            if let Err(e) = put_sm(sm, &n) {
                g.problem.get_or_insert(e);
            }
            g.done = true;
            g.forget = true;
            Ok(true)
        }),
    ));
    c.syscalls.push(host_sys());
    let mut vm = a.vm_with(c)?;
    let mut log = vec![format!("{k} {}", a.render())];
    let mut cur = a;
    let rounds = s.weighted(&[0, 5, 3, 1]);
    let mut before = 0;
    for round in 0..rounds {
        let last = round + 1 == rounds;
        // the next program
        let prev = if s.chance(2, 3) { Some(&rec[..]) } else { None };
        let (w, r2) = gen(s, Some(p), prev, &wo);
        rec = r2;
        let mut max = s.range(1, 4000);
        let mut how = *s.pick(&[0, 0, 1, 1, 2]);
        if matches!(w, What::S(_)) && how == 0 {
            how = 1;
        }
        let how = match how {
            0 => How::Program,
            1 => How::Parts,
            _ => {
                let mut c = vm_cfg(targets(&p, s), &p).cycles(u64::MAX, pl.cost);
                c.syscalls.push(host_sys());
                let mut o = w.vm_with(c)?;
                for _ in 0..s.below(30) {
                    if o.step().is_err() {
                        break;
                    }
                }
                let c = o.sm().cycles();
                max += c;
                How::Resume(Arc::new(o.sm().snap1().map_err(|e| f("snapshot", format!("{e:?}")))?), c)
            }
        };
        let name = match &how {
            How::Program => "loaded",
            How::Parts => "loaded in parts",
            How::Resume(..) => "resumed",
        };
        let n = Next { w: w.clone(), how: how.clone(), max };
        // how far the current one gets
        let m0 = {
            let mut m = cur.model(pl.cost, vm.sm().max_cycles());
            model_run(&mut m, 5000);
            m.steps
        };
        let guest = s.chance(1, 3);
        let mut by_guest = false;
        if guest {
            let mut g = sh.lock().unwrap();
            g.left = s.range(1, 4);
            g.next = Some(Next { how: if matches!(how, How::Program) { How::Parts } else { how.clone() }, ..n.clone() });
            g.done = false;
            g.spots = gen_spots(s, p.mem);
            g.pause = s.chance(1, 3);
        }
        let steps = if s.chance(1, 3) { s.range(1, 60) } else { 0 };
        let mut result = None;
        if guest || s.chance(5, 6) {
            match pl.go(&sh, &mut *vm, steps) {
                Ok(r) => result = Some(r),
                Err(_) => {}
            }
            log.push(format!("ran {}: {result:?}", if steps > 0 { format!("{steps} steps") } else { "on".into() }));
        }
        if guest {
            let mut g = sh.lock().unwrap();
            by_guest = g.done;
            g.left = 0;
            g.next = None;
            if let Some(e) = g.problem.take() {
                return Err(f("reset", format!("after a reset by a handler: {e} | {}", log.join("; "))));
            }
        }
        before = before.max(m0);
        // a fresh machine for comparison
        let mut c = vm_cfg(k, &p).cycles(max, pl.cost);
        c.syscalls.push(host_sys());
        let mut fresh = build(c);
        if by_guest {
            put_sm(fresh.sm(), &n).map_err(h)?;
            log.push(format!("reset by the handler, {name}: {}", w.render()));
            ctx.label("reset by a handler");
        } else {
            sh.lock().unwrap().forget = true;
            vm.sm().reset(max).map_err(|e| f("reset", format!("{e:?}")))?;
            let spots = gen_spots(s, p.mem);
            clean(vm.sm(), max, &spots).map_err(|e| f("reset", format!("after a reset: {e} | {}", log.join("; "))))?;
            if s.chance(1, 5) {
                pause.interrupt();
            }
            put(&mut *vm, &n).map_err(|e| f("load", format!("after a reset: {e} | {}", log.join("; "))))?;
            put(&mut *fresh, &n).map_err(h)?;
            log.push(format!("reset, {name}: {}", w.render()));
            ctx.label("reset by the host");
            if s.bool() {
                let (x, y) = (see(vm.sm()).map_err(h)?, see(fresh.sm()).map_err(h)?);
                if let Some(d) = y.diff(&x, 0xff) {
                    return Err(f("load", format!("a program loaded after a reset differs: {d} | {}", log.join("; "))));
                }
            }
            result = None;
        }
        ctx.label(name);
        ctx.evals += 1;
        cur = w.clone();
        // the reference, where the program is run from its start
        let model = match &how {
            How::Resume(..) => None,
            _ => {
                let mut m = w.model(pl.cost, max);
                let e = model_run(&mut m, 5000);
                Some((m, e))
            }
        };
        if last || by_guest || s.bool() {
            // a machine reset within stepping has taken an unknown number of steps since
            if by_guest && steps > 0 && result.is_none() {
                result = pl.go(&sh, &mut *vm, 0).ok();
            } else if !by_guest {
                let st = if s.chance(1, 4) { 20_000 } else { 0 };
                result = pl.go(&sh, &mut *vm, st).ok();
                let other = pl.go(&sh, &mut *fresh, st).ok();
                same(&result, &other, &mut *vm, &mut *fresh, true).map_err(|e| f("differs", format!("after a reset: {e} | {}", log.join("; "))))?;
                check(&model, &mut *vm, &result, &log)?;
                if let Some((m, _)) = &model {
                    if before >= 5 && m.steps >= 10 {
                        ctx.nt(true);
                    }
                }
                continue;
            }
            let other = pl.go(&sh, &mut *fresh, if steps > 0 { 20_000 } else { 0 }).ok();
            // stepped machines are not charged for blocks they do not finish
            let exact = steps == 0 || matches!(other, Some(Ok(_)));
            same(&result, &other, &mut *vm, &mut *fresh, exact).map_err(|e| f("differs", format!("after a reset by a handler: {e} | {}", log.join("; "))))?;
            check(&model, &mut *vm, &result, &log)?;
            if let Some((m, _)) = &model {
                ctx.nt(before >= 5 && m.steps >= 10);
            }
        }
    }
    ctx.sample(|| log.join("; "));
    Ok(())
}


fn same(a: &Option<Res<i8>>, b: &Option<Res<i8>>, vm: &mut dyn Vm, fresh: &mut dyn Vm, exact: bool) -> Result<(), String> {
    let (x, y) = (format!("{a:?}"), format!("{b:?}"));
    let both = matches!((a, b), (Some(Err(_)), Some(Err(_))));
    if x != y && (exact || !both) {
        return Err(format!("ended with {x}, on a new machine with {y}"));
    }
    if !exact && both {
        return Ok(());
    }
    let (u, v) = (see(vm.sm())?, see(fresh.sm())?);
    if u.cycles != v.cycles {
        return Err(format!("took {} cycles, on a new machine {}", u.cycles, v.cycles));
    }
    match v.diff(&u, 0xff) {
        Some(d) => Err(format!("after {x}, compared with a new machine: {d}")),
        None => Ok(()),
    }
}
fn check(m: &Option<(Model, End)>, vm: &mut dyn Vm, r: &Option<Res<i8>>, log: &[String]) -> CaseRes {
    let (Some((m, e)), Some(r)) = (m, r) else { return Ok(()) };
    check_end(m, e, vm, r).map_err(|mut x| {
        x.msg = format!("after a reset: {} | {}", x.msg, log.join("; "));
        x
    })
}

