//! C21: runs repeat exactly.

use crate::alloc;
use crate::exec::*;
use crate::gen::*;
use crate::model::*;
use crate::runner::*;
use crate::src::{mix, Src};
use crate::vm::*;
use crate::what::*;

pub static PROP: Prop = Prop {
    id: "C21",
    rule: "the program runs more than 20 instructions and ends, or randomised memory was used with more than a frame left undefined, or at least two writes went to fresh frames",
    assumptions: &["reading argc when there are no arguments (version 1 and later) counts as reading memory the program never defined"],
    cases: (12_000, 250_000),
    fixed: 0,
    preset: no_preset,
    run,
    probes: &[],
};

#[derive(PartialEq, Clone)]
struct Out {
    end: String,
    regs: [u64; 32],
    pc: u64,
    cycles: u64,
    lr: u64,
    mem: Vec<u8>,
    flags: Vec<u8>,
}
impl Out {
    fn of(vm: &mut dyn Vm, r: &Res<i8>) -> Result<Out, Fail> {
        let k = vm.kind();
        let sm = vm.sm();
        let n = sm.mem_size();
        let mem = sm.load_bytes(0, n).map_err(|e| f("inspect", format!("{k}: memory cannot be read after {r:?}: {e:?}")))?;
        let flags = (0..n / PAGE).map(|p| sm.flag(p).unwrap_or(0xff)).collect();
        Ok(Out { end: format!("{r:?}"), regs: sm.regs(), pc: sm.pc(), cycles: sm.cycles(), lr: sm.lr(), mem: mem.to_vec(), flags })
    }
    fn diff(&self, o: &Out) -> Option<String> {
        if self.end != o.end {
            return Some(format!("{} against {}", self.end, o.end));
        }
        if let Some(i) = (0..32).find(|i| self.regs[*i] != o.regs[*i]) {
            return Some(format!("register {} is {:#x} against {:#x}", crate::isa::ABI[i], self.regs[i], o.regs[i]));
        }
        if (self.pc, self.cycles, self.lr) != (o.pc, o.cycles, o.lr) {
            return Some(format!("pc {:#x} cycles {} reservation {:#x} against {:#x} {} {:#x}", self.pc, self.cycles, self.lr, o.pc, o.cycles, o.lr));
        }
        if let Some(i) = (0..self.mem.len()).find(|i| self.mem[*i] != o.mem[*i]) {
            return Some(format!("memory byte {i:#x} is {:#x} against {:#x}", self.mem[i], o.mem[i]));
        }
        if let Some(i) = (0..self.flags.len()).find(|i| self.flags[*i] != o.flags[*i]) {
            return Some(format!("flags of page {i:#x} are {:#x} against {:#x}", self.flags[i], o.flags[i]));
        }
        None
    }
}

fn go(w: &What, k: Kind, cost: Cost, max: u64, chaos: Option<u32>) -> Result<Out, Fail> {
    let mut c = vm_cfg(k, &w.p()).cycles(max, cost);
    c.chaos = chaos;
    c.syscalls.push(host_sys());
    let mut vm = w.vm_with(c)?;
    let r = vm.run();
    Out::of(&mut *vm, &r)
}

/// the reference over memory with other initial contents
fn model_bg(w: &What, cost: Cost, max: u64, bg: u64) -> Model {
    let mut m = new_model(&w.p());
    for (i, c) in m.mem.data.chunks_mut(8).enumerate() {
        let v = mix(i as u64, bg >> 1).to_le_bytes();
        for (a, b) in c.iter_mut().zip(v) {
            *a = if bg & 1 == 1 { !b } else { b };
        }
    }
    match w {
        What::P(g) => {
            crate::elf::load_program(&mut m, &g.bytes, &g.args).expect("generated program loads");
        }
        What::S(x) => m = x.model_on(m),
    }
    m.cost = cost;
    m.max_cycles = max;
    m
}

const MAX: u64 = 40_000;

fn run(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let mode = s.weighted(&[3, 3, 4, 2]);
    if mode == 3 {
        return frames(s, ctx);
    }
    let mut o = WOpts { online: 25, o: Opts { size: 14, wild: 10, big: 8, faults: 15, ..Opts::default() }, max_mem: 1024 * 1024, ..WOpts::default() };
    if mode == 2 {
        o.rv32 = 0;
        o.online = 50;
        if s.chance(3, 4) {
            // short programs read less of what they did not write
            o.on.steps = 12;
            o.o.size = 4;
        }
    }
    let w = What::gen(s, &o);
    let p = w.p();
    let cost = [Cost::One, Cost::Published][s.usize(2)];
    let max = if s.chance(1, 6) { s.range(1, 2000) } else { MAX };
    let mut m = w.model(cost, max);
    let end = model_run(&mut m, 3 * MAX);
    if end == End::Limit {
        return Ok(());
    }
    ctx.sample(|| w.render());
    ctx.nt(m.steps > 20 && matches!(end, End::Exit(_)));
    let ks = kinds(&p, s.bool());
    let k = ks[s.usize(ks.len())];
    // in ordinary memory
    let one = go(&w, k, cost, max, None)?;
    let say = |t: &str, d: String| format!("{k}: {t}: {d} | {}", w.render());
    match mode {
        0 => {
            ctx.label("dirty host memory");
            for _ in 0..2 {
                let fill = *s.pick(&[0xffu8, 0xaa, 0x01, 0x80, 0x13, 0x73]);
                let two = alloc::fenced(Some(fill), || go(&w, k, cost, max, None))?;
                ctx.evals += 1;
                if let Some(d) = two.diff(&one) {
                    return Err(f("dirty", say(&format!("over host memory filled with {fill:#x}"), d)));
                }
            }
        }
        1 => {
            ctx.label("threads");
            let w2 = What::gen(s, &o);
            let ks2 = kinds(&w2.p(), s.bool());
            let mut jobs: Vec<(&What, Kind, bool)> = vec![];
            for _ in 0..s.range(2, 4) {
                if s.chance(2, 3) {
                    jobs.push((&w, k, true));
                } else {
                    jobs.push((&w2, ks2[s.usize(ks2.len())], false));
                }
            }
            let rounds = s.range(1, 2);
            let got: Vec<Result<Vec<Out>, Fail>> = std::thread::scope(|sc| {
                let hs: Vec<_> = jobs
                    .iter()
                    .map(|(w, k, _)| sc.spawn(move || (0..rounds).map(|_| go(w, *k, cost, max, None)).collect::<Result<Vec<_>, _>>()))
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(f("thread", "a machine panicked on its thread".into())))).collect()
            });
            let mut other: std::collections::HashMap<String, Out> = Default::default();
            for ((w3, k3, same), g) in jobs.iter().zip(got) {
                for o in g? {
                    ctx.evals += 1;
                    let want = if *same { &one } else { other.entry(k3.to_string()).or_insert_with(|| o.clone()) };
                    if let Some(d) = o.diff(want) {
                        return Err(f("threads", format!("{k3}: beside other machines: {d} | {}", w3.render())));
                    }
                }
            }
        }
        _ => {
            ctx.label("randomised memory");
            let k = Kind::new(*s.pick(&[Engine::Asm, Engine::AsmMemoFixed, Engine::AsmMemoDyn, Engine::AsmNaive]), 64, true);
            let say = |t: &str, d: String| format!("{k}: {t}: {d} | {}", w.render());
            let seed = s.u64() as u32;
            let a = go(&w, k, cost, max, Some(seed))?;
            let b = alloc::fenced(Some(0x55), || go(&w, k, cost, max, Some(seed)))?;
            ctx.evals += 2;
            if let Some(d) = b.diff(&a) {
                return Err(f("seed", say("two runs with the same seed", d)));
            }
            let bg = s.u64() & !1;
            let mut ma = model_bg(&w, cost, max, bg);
            let mut mb = model_bg(&w, cost, max, bg | 1);
            let start = (ma.mem.data.clone(), mb.mem.data.clone());
            let (ea, eb) = (model_run(&mut ma, 3 * MAX), model_run(&mut mb, 3 * MAX));
            let blind = ea == eb && ea == end && ma.x == mb.x && ma.x == m.x && (ma.pc, ma.cycles, ma.steps, ma.lr) == (mb.pc, mb.cycles, mb.steps, mb.lr) && ma.steps == m.steps;
            let undef = (0..ma.mem.data.len()).filter(|i| ma.mem.data[*i] != mb.mem.data[*i]).count();
            if undef as u64 > FRAME / 4 {
                ctx.nt(true);
            }
            if undef > 16 * 1024 {
                // the feature does something
                let diff = go(&w, k, cost, max, Some(seed ^ 0x5555))?;
                let same = (0..a.mem.len()).filter(|i| ma.mem.data[*i] != mb.mem.data[*i] && a.mem[*i] == diff.mem[*i]).count();
                ensure!(same < undef / 2, "same", "{}", say("other seed", format!("{same} of {undef} undefined bytes are the same under another seed")));
            }
            if !blind {
                ctx.label("reads undefined memory");
            }
            if !blind || s.chance(1, 4) {
                // once looked at, randomised memory is memory like any other
                let mut c = vm_cfg(k, &p).cycles(max, cost);
                c.chaos = Some(seed);
                c.syscalls.push(host_sys());
                let mut vm = w.vm_with(c)?;
                let all = vm.sm().load_bytes(0, p.mem).map_err(|e| f("inspect", say("randomised memory", format!("cannot be read: {e:?}"))))?;
                let mut n = w.model(cost, max);
                for i in 0..all.len() {
                    let def = start.0[i] == start.1[i];
                    ensure!(!def || all[i] == start.0[i], "chaos", "{}", say("randomised memory", format!("byte {i:#x} defined by loading is {:#x}, expected {:#x}", all[i], start.0[i])));
                }
                n.mem.data.copy_from_slice(&all);
                let e = model_run(&mut n, 3 * MAX);
                if e != End::Limit {
                    let r = vm.run();
                    check_end(&n, &e, &mut *vm, &r).map_err(|mut x| {
                        x.msg = say("over randomised memory", x.msg);
                        x
                    })?;
                }
            }
            if !blind {
                return Ok(());
            }
            if !matches!(end, End::Exit(_)) && k.engine.block_at_a_time() {
                // where in its block a fault shows is not part of the reference
                ensure!(a.end == one.end || one.end.starts_with("Ok") == a.end.starts_with("Ok"), "chaos", "{}", say("randomised memory", format!("ends with {} against {}", a.end, one.end)));
                return Ok(());
            }
            ctx.label("compared with the reference");
            ensure!(a.end.starts_with("Ok") == matches!(end, End::Exit(_)), "chaos", "{}", say("randomised memory", format!("ends with {}, expected {end:?}", a.end)));
            if let End::Exit(c) = end {
                ensure!(a.end == format!("Ok({c})"), "chaos", "{}", say("randomised memory", format!("ends with {}, expected {c}", a.end)));
            }
            if let Some(i) = (0..32).find(|i| a.regs[*i] != m.x[*i] && m.fault_rd.is_none()) {
                return Err(f("chaos", say("randomised memory", format!("register {} is {:#x}, expected {:#x}", crate::isa::ABI[i], a.regs[i], m.x[i]))));
            }
            ensure!(a.pc == m.pc && a.cycles == m.cycles && a.lr == m.lr, "chaos", "{}", say("randomised memory", format!("pc {:#x} cycles {} expected {:#x} {}", a.pc, a.cycles, m.pc, m.cycles)));
            for i in 0..a.mem.len() {
                if ma.mem.data[i] == mb.mem.data[i] && a.mem[i] != ma.mem.data[i] {
                    return Err(f("chaos", say("randomised memory", format!("defined byte {i:#x} is {:#x}, expected {:#x}", a.mem[i], ma.mem.data[i]))));
                }
            }
        }
    }
    Ok(())
}

/// Host and guest accesses to frames nothing has touched, over host memory that was used before.
fn frames(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    use crate::mh::*;
    ctx.label("untouched frames");
    let fill = *s.pick(&[0xffu8, 0xaa, 0x01, 0x80, 0x13, 0x73]);
    let mut h = alloc::fenced(Some(fill), || Hist::with(s, Aspect::Content, true));
    let n = s.range(2, 12);
    let r = h.run(s, n);
    ctx.evals += h.ops * h.backs.len() as u64;
    ctx.nt(h.okw >= 2);
    r
}
