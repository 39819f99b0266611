//! C05: caching of instructions and traces is invisible.
//!
//! A maze: a dispatcher jumps through a table of addresses into blocks spread over the memory so that
//! they share cache slots; entries are also in the middle of blocks that were visited before. The table
//! is the visiting history. Every engine and decoder runs it, possibly several programs in a row on one
//! machine with one decoder (reset in between).

use crate::exec::*;
use crate::gen::*;
use crate::isa::*;
use crate::model::*;
use crate::online::*;
use crate::runner::*;
use crate::src::Src;
use crate::vm::*;

pub static PROP: Prop = Prop {
    id: "C05",
    rule: "mazes with at least 8 block visits, of which at least one repeated and one colliding or mid-block, and generated programs with at least 30 steps",
    assumptions: &["the reference simulator decodes every instruction afresh"],
    cases: (12_000, 400_000),
    fixed: 0,
    preset: no_preset,
    run,
    probes: &[],
};

fn run(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    if s.chance(1, 60) {
        let xlen = if s.chance(1, 4) { 32 } else { 64 };
        return super::vast::twins(s, ctx, xlen);
    }
    match s.weighted(&[6, 2, 2]) {
        0 => maze(s, ctx),
        1 => online(s, ctx),
        _ => programs(s, ctx),
    }
}

/// pieces of a maze
#[derive(Clone)]
struct Maze {
    p: PCfg,
    segs: Vec<(u64, Vec<u8>)>,
    table: u64,
    visits: Vec<u64>,
    entry: u64,
    stats: (u64, u64, u64, u64),
}

/// far above what any generated program needs; a program that never ends is stopped
const LIMIT: u64 = 1 << 26;
const S0: u8 = 8;
const S1: u8 = 9;
const T6: u8 = 31;

fn gen_maze(s: &mut Src, p: PCfg, broken: bool) -> Maze {
    use Op::*;
    let i = Inst::new;
    let c = p.c;
    let mem = p.mem;
    // data pages for the table at the top of memory
    let table = mem - 3 * PAGE;
    let code_top = mem - 4 * PAGE;
    let regs: Vec<u8> = (0..32u8).filter(|r| ![1, S0, S1, T6].contains(r)).collect();
    let entry = *s.pick(&[0u64, 0x1000, 0x8000]) + 2 * s.below(3);
    let mut code: Vec<u8> = vec![];
    let (ld, w) = if c.xlen == 64 { (Ld, 8) } else { (Lw, 4) };
    // dispatcher
    enc_into(&mut code, &i(ld, T6, S0, 0, 0), false, &c);
    enc_into(&mut code, &i(Addi, S0, S0, 0, w), false, &c);
    enc_into(&mut code, &i(Jalr, 1, T6, 0, 0), false, &c);
    let back = -(code.len() as i64);
    enc_into(&mut code, &i(Bne, 0, S0, S1, back), false, &c);
    enc_into(&mut code, &i(Addi, 17, 0, 0, 93), false, &c);
    enc_into(&mut code, &i(Ecall, 0, 0, 0, 0), false, &c);
    let mut taken: Vec<(u64, u64)> = vec![(entry, entry + code.len() as u64)];
    let mut segs = vec![(entry, code)];
    let mut entries: Vec<Vec<u64>> = vec![];
    let n = s.range(2, 10);
    let mut anchor = entry;
    for _ in 0..n {
        // block body
        let top = if s.chance(1, 4) { 60 } else { 18 };
        // now and then longer than 64 KB
        let long = p.mem > 512 * 1024 && segs.len() == 1 && s.chance(1, 60);
        let long_mop = long && s.chance(1, 3);
        let k = if long { s.range(17_000, 24_000) } else { s.range(1, top) };
        let mut b: Vec<u8> = vec![];
        let mut offs = vec![0u64];
        for _ in 0..k {
            let ins = if p.mop && (!long || long_mop) && s.chance(1, 4) {
                mop_window(s, &c, &regs)
            } else if long {
                // auipc ends a block here, as the branches do
                let q = gen_alu(s, &c, &regs, &regs);
                vec![if q.op == Auipc { i(Addi, q.rd, 5, 0, 1) } else { q }]
            } else if s.chance(1, 12) {
                // a branch over the next instruction, or a short forward jump
                vec![i(*s.pick(&[Beq, Bne, Blt, Bgeu]), 0, *s.pick(&regs), *s.pick(&regs), 8), i(Addi, 5, 5, 0, 1)]
            } else {
                let n = if s.chance(1, 40) {
                    i(Ebreak, 0, 0, 0, 0)
                } else if s.chance(1, 60) && c.xlen == 64 {
                    i(Divu, 5, 5, 6, 0)
                } else {
                    gen_alu(s, &c, &regs, &regs)
                };
                vec![n]
            };
            let br = ins[0].op.info().fmt == Fmt::B;
            for q in ins {
                let comp = !br && !long && s.chance(2, 5);
                enc_into(&mut b, &q, comp, &c);
                offs.push(b.len() as u64);
            }
        }
        let end = match s.below(4) {
            _ if long => i(Jalr, 5, 1, 0, 0),
            0 => i(Jalr, 0, 1, 0, 0),
            1 => i(Jalr, 5, 1, 0, 0),
            _ => i(Jalr, 0, 1, 0, 0),
        };
        let comp = s.bool();
        enc_into(&mut b, &end, comp, &c);
        let len = b.len() as u64;
        // where: colliding with an earlier block in one of the caches, at page ends, or anywhere
        let mut at = 0;
        let mut ok = false;
        for _ in 0..40 {
            let base = if s.bool() { anchor } else { taken[s.usize(taken.len())].0 };
            let a = match s.below(7) {
                _ if long => s.below((code_top.saturating_sub(len)) / 2) * 2,
                0 => base + 0x8000 * s.range(1, (code_top / 0x8000).max(1)),
                1 => base.wrapping_sub(0x8000 * s.range(1, 8)),
                2 => (1 + s.below(code_top / PAGE)) * PAGE - 2 * s.range(1, 20),
                3 => base + 512 * s.range(1, 64),
                4 => base + 0x2000 * 16 * s.range(1, 8),
                5 => base + 0x8000 * s.range(1, 8) + 2,
                _ => s.below(code_top / 2) * 2,
            };
            if a.checked_add(len).map(|e| e <= code_top).unwrap_or(false) && taken.iter().all(|(x, y)| a + len <= *x || a >= *y) {
                at = a;
                ok = true;
                break;
            }
        }
        if !ok {
            continue;
        }
        anchor = at;
        taken.push((at, at + len));
        // an entry in the middle of an instruction whose bytes there are no legal instruction would end
        // the maze early: only instruction starts
        entries.push(offs.iter().map(|o| at + o).collect());
        segs.push((at, b));
    }
    // blocks that cannot be decoded to their end, where good ones are cached
    let mut bad: Vec<Vec<u64>> = vec![];
    if broken {
        for _ in 0..s.range(1, 4) {
            let mut b: Vec<u8> = vec![];
            let mut offs = vec![0u64];
            for _ in 0..s.below(14) {
                let n = gen_alu(s, &c, &regs, &regs);
                let comp = s.chance(1, 4);
                enc_into(&mut b, &n, comp, &c);
                offs.push(b.len() as u64);
            }
            b.extend_from_slice(&[0, 0, 0, 0]);
            let len = b.len() as u64;
            for _ in 0..20 {
                let base = if entries.is_empty() { entry } else { entries[s.usize(entries.len())][0] };
                let a = match s.below(4) {
                    0 | 1 => base + 0x8000 * s.range(1, (code_top / 0x8000).max(1)),
                    2 => base.wrapping_sub(0x8000 * s.range(1, 8)),
                    _ => base + 0x20000 * s.range(1, 8),
                };
                if a.checked_add(len).map(|e| e <= code_top).unwrap_or(false) && taken.iter().all(|(x, y)| a + len <= *x || a >= *y) {
                    taken.push((a, a + len));
                    bad.push(offs.iter().map(|o| a + o).collect());
                    segs.push((a, b));
                    break;
                }
            }
        }
    }
    let mut visits = vec![];
    let mut st = (0, 0, 0, 0);
    if !entries.is_empty() {
        let m = s.range(2, 30);
        let mut seen: std::collections::BTreeSet<u64> = Default::default();
        for _ in 0..m {
            let e = if entries[0].len() > 16_000 && s.chance(1, 3) { &entries[0] } else { &entries[s.usize(entries.len())] };
            let a = if s.chance(3, 5) { e[0] } else { e[s.usize(e.len())] };
            let a = if s.chance(1, 4) { *visits.last().unwrap_or(&a) } else { a };
            if seen.contains(&a) {
                st.0 += 1;
            }
            if seen.iter().any(|q| *q != a && (q >> 2) & 8191 == (a >> 2) & 8191) {
                st.1 += 1;
            }
            if !entries.iter().any(|e| e[0] == a) {
                st.2 += 1;
            }
            seen.insert(a);
            visits.push(a);
            if e.len() > 16_000 && s.bool() {
                // what a long block leaves behind is looked at
                break;
            }
            if !bad.is_empty() && s.chance(1, 5) {
                let e = &bad[s.usize(bad.len())];
                visits.push(if s.bool() { e[0] } else { e[s.usize(e.len())] });
                // and back to what was there, often
                if s.bool() {
                    let q = seen.iter().copied().find(|q| (q >> 2) & 8191 == (visits[visits.len() - 1] >> 2) & 8191);
                    visits.push(q.unwrap_or(a));
                }
            }
            if !bad.is_empty() && c.xlen == 64 && c.ver >= 2 && s.chance(1, 20) {
                visits.push(a | (1 + s.below(3)) << *s.pick(&[32u64, 33, 48, 62]));
                visits.push(a);
                st.3 += 1;
            }
        }
        // an address that is a cached one in its low half: nothing is mapped there
        if c.xlen == 64 && c.ver >= 2 && s.chance(1, 8) {
            let a = visits[s.usize(visits.len())] | (1 + s.below(3)) << *s.pick(&[32u64, 33, 48, 62]);
            visits.push(a);
            st.3 += 1;
        }
    }
    Maze { p, segs, table, visits, entry, stats: st }
}

impl Maze {
    fn w(&self) -> u64 {
        self.p.c.xlen as u64 / 8
    }
    fn table_bytes(&self) -> Vec<u8> {
        let w = self.w() as usize;
        self.visits.iter().flat_map(|v| v.to_le_bytes()[..w].to_vec()).collect()
    }
    /// code is mapped page by page
    fn pages(&self) -> Vec<(u64, Vec<u8>)> {
        let mut m: std::collections::BTreeMap<u64, Vec<u8>> = Default::default();
        for (a, b) in &self.segs {
            for (k, x) in b.iter().enumerate() {
                let q = a + k as u64;
                m.entry(q / PAGE).or_insert_with(|| vec![0; PAGE as usize])[(q % PAGE) as usize] = *x;
            }
        }
        m.into_iter().map(|(p, b)| (p * PAGE, b)).collect()
    }
    fn model_setup(&self, m: &mut Model, regs: &[u64; 32]) {
        for (a, b) in self.pages() {
            m.mem.init_pages(a, PAGE, F_EXEC | F_FREEZE, &b, 0).expect("maze code");
        }
        m.mem.store_bytes(self.table, &self.table_bytes()).expect("maze table");
        for i in 1..32 {
            m.set(i, regs[i as usize]);
        }
        m.set(S0, self.table);
        m.set(S1, self.table + self.w() * self.visits.len() as u64);
        m.pc = self.entry;
    }
    fn vm_setup(&self, sm: &mut dyn SM, regs: &[u64; 32]) -> Result<(), String> {
        for (a, b) in self.pages() {
            sm.init_pages(a, PAGE, F_EXEC | F_FREEZE, Some(Bytes::from(b)), 0).map_err(|e| format!("maze code: {e:?}"))?;
        }
        sm.store_bytes(self.table, &self.table_bytes()).map_err(|e| format!("maze table: {e:?}"))?;
        for i in 1..32 {
            sm.set_reg(i, regs[i]);
        }
        sm.set_reg(S0 as usize, self.table);
        sm.set_reg(S1 as usize, self.table + self.w() * self.visits.len() as u64);
        sm.set_pc(self.entry);
        Ok(())
    }
    fn render(&self) -> String {
        format!(
            "{} entry {:#x}, blocks {:?}, visits {:x?}",
            self.p,
            self.entry,
            self.segs.iter().skip(1).map(|(a, b)| format!("{a:#x}+{}", b.len())).collect::<Vec<_>>(),
            self.visits
        )
    }
}

/// The host carries on after failures: nothing that failed leaves a trace.
fn detours(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let xlen = if s.chance(1, 6) { 32 } else { 64 };
    let mut p = gen_cfg(s, xlen);
    p.mem = [512, 1024][s.weighted(&[4, 1])] * 1024;
    let flat = s.bool();
    let z = gen_maze(s, p, true);
    let mut regs = [0u64; 32];
    for r in regs.iter_mut() {
        *r = operand(s);
    }
    let end_of_table = z.table + z.w() * z.visits.len() as u64;
    let mut failures = 0;
    let mut first = true;
    for k in kinds(&p, flat) {
        let mut m = new_model(&p);
        m.cost = Cost::One;
        z.model_setup(&mut m, &regs);
        let mut c = vm_cfg(k, &p).cycles(LIMIT, Cost::One);
        c.syscalls.push(host_sys());
        let mut vm = build(c);
        z.vm_setup(vm.sm(), &regs).map_err(h)?;
        let mut leg = 0;
        loop {
            let e = model_run(&mut m, 20_000);
            ctx.evals += 1;
            if e == End::Limit {
                break;
            }
            let r = vm.run_kept();
            check_end(&m, &e, &mut *vm, &r).map_err(|mut x| {
                x.msg = format!("leg {leg}: {} | {}", x.msg, z.render());
                x
            })?;
            let s0 = m.x[S0 as usize];
            if !matches!(e, End::Fault(_)) || s0 >= end_of_table {
                break;
            }
            leg += 1;
            failures += first as u64;
            // the host starts over behind the failed visit
            for i in 1..32 {
                let v = if i == S0 as usize { s0 } else if i == S1 as usize { end_of_table } else { regs[i] };
                m.set(i as u8, v);
                vm.sm().set_reg(i, v);
            }
            m.pc = z.entry;
            m.cycles = 0;
            m.fault_rd = None;
            m.grp_left = 0;
            vm.sm().set_pc(z.entry);
            vm.sm().set_cycles(0);
        }
        first = false;
    }
    ctx.label("detours");
    ctx.label_n("failed visits", failures);
    ctx.nt(failures > 0 && z.visits.len() >= 4);
    ctx.sample(|| z.render());
    Ok(())
}

fn maze(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    if s.chance(1, 4) {
        return detours(s, ctx);
    }
    let xlen = if s.chance(1, 6) { 32 } else { 64 };
    let mut p = gen_cfg(s, xlen);
    p.mem = [512, 1024, 2048, 4096][s.weighted(&[4, 3, 2, 1])] * 1024;
    let flat = s.bool();
    let cost = [Cost::One, Cost::Published, Cost::Hash(5)][s.usize(3)];
    let rounds = if s.chance(1, 3) { s.range(2, 3) } else { 1 };
    let mazes: Vec<Maze> = (0..rounds).map(|_| gen_maze(s, p, false)).collect();
    let mut regs = [0u64; 32];
    for r in regs.iter_mut() {
        *r = operand(s);
    }
    let mut want = vec![];
    for z in &mazes {
        let mut m = new_model(&p);
        m.cost = cost;
        z.model_setup(&mut m, &regs);
        let e = model_run(&mut m, 150_000);
        ctx.evals += m.steps;
        ctx.label_n("visits", z.visits.len() as u64);
        ctx.label_n("revisits", z.stats.0);
        ctx.label_n("colliding visits", z.stats.1);
        ctx.label_n("mid-block visits", z.stats.2);
        ctx.label_n("visits of an unmapped alias", z.stats.3);
        let big: Vec<_> = z.segs.iter().filter(|x| x.1.len() > 65536).map(|x| (x.0, x.0 + x.1.len() as u64 - 65536)).collect();
        ctx.label_n("blocks over 64 KB", big.len() as u64);
        ctx.label_n("visits of more than 64 KB of code", z.visits.iter().filter(|v| big.iter().any(|b| b.0 <= **v && **v < b.1)).count() as u64);
        ctx.nt(z.visits.len() >= 8 && z.stats.0 > 0 && z.stats.1 + z.stats.2 > 0);
        want.push((m, e));
    }
    ctx.label(if rounds > 1 { "maze: decoder reused" } else { "maze" });
    ctx.sample(|| mazes[0].render());
    for k in kinds(&p, flat) {
        let mut c = vm_cfg(k, &p).cycles(LIMIT, cost);
        c.syscalls.push(host_sys());
        let mut vm = build(c);
        for (n, (z, (m, e))) in mazes.iter().zip(&want).enumerate() {
            if n > 0 {
                vm.sm().reset(LIMIT).map_err(|e| f("reset", format!("{k}: {e:?}")))?;
            }
            z.vm_setup(vm.sm(), &regs).map_err(h)?;
            let r = vm.run_kept();
            if *e == End::Limit {
                continue;
            }
            check_end(m, e, &mut *vm, &r).map_err(|mut x| {
                x.msg = format!("round {n}: {} | {}", x.msg, z.render());
                x
            })?;
        }
        // one decoder and one instruction cache, step by step
        if rounds == 1 && matches!(k.engine, Engine::Naive | Engine::Asm) && want[0].1 != End::Limit {
            let mut c = vm_cfg(k, &p).cycles(LIMIT, cost);
            c.syscalls.push(host_sys());
            let mut vm = build(c);
            mazes[0].vm_setup(vm.sm(), &regs).map_err(h)?;
            let mut m = new_model(&p);
            m.cost = cost;
            mazes[0].model_setup(&mut m, &regs);
            stepwise(&mut m, &mut *vm, 600).map_err(|mut x| {
                x.msg = format!("stepping: {} | {}", x.msg, mazes[0].render());
                x
            })?;
        }
    }
    Ok(())
}

fn online(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let xlen = if s.chance(1, 6) { 32 } else { 64 };
    let p = gen_cfg(s, xlen);
    let flat = s.bool();
    let steps = s.range(10, 120);
    let (set, _) = OnGen::new(s, p, On { steps, hop: 12, fault: 5, w: [8, 6, 2, 6, 1, if p.mop { 2 } else { 0 }, 0], ..On::default() }).generate();
    let mut m = set.model();
    let end = model_run(&mut m, 5000);
    ctx.label("jumpy code");
    ctx.nt(m.steps >= 30);
    ctx.evals += m.steps;
    if end == End::Limit {
        return Ok(());
    }
    ctx.sample(|| set.render());
    for k in kinds(&p, flat) {
        let mut vm = set.vm(k).map_err(h)?;
        let r = vm.run_kept();
        check_end(&m, &end, &mut *vm, &r).map_err(|mut x| {
            x.msg = format!("{} | {}", x.msg, set.render());
            x
        })?;
    }
    Ok(())
}

/// whole programs one after another on one machine with one decoder
fn programs(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let xlen = if s.chance(1, 6) { 32 } else { 64 };
    let mut p = gen_cfg(s, xlen);
    if p.mem < 512 * 1024 {
        p.mem = 512 * 1024;
    }
    let flat = s.bool();
    let n = s.range(1, 2);
    let mut progs = vec![];
    for _ in 0..n {
        let g = gen_program(s, p, Opts { big: 70, size: 25, ..Opts::default() });
        let mut m = load_model(&g).unwrap_or_else(|e| panic!("generated program does not load: {e}"));
        m.cost = Cost::One;
        m.max_cycles = 100_000;
        let e = model_run(&mut m, 100_000);
        ctx.evals += m.steps;
        ctx.nt(m.steps >= 30);
        progs.push((g, m, e));
    }
    ctx.label(if n > 1 { "programs in a row" } else { "program" });
    ctx.sample(|| progs[0].0.render());
    for k in kinds(&p, flat) {
        let mut c = vm_cfg(k, &p).cycles(100_000, Cost::One);
        c.syscalls.push(host_sys());
        let mut vm = build(c);
        for (i, (g, m, e)) in progs.iter().enumerate() {
            if i > 0 {
                vm.sm().reset(100_000).map_err(|e| f("reset", format!("{k}: {e:?}")))?;
            }
            vm.load_program(&Bytes::from(g.bytes.clone()), &bargs(g)).map_err(|e| f("load", format!("{k}: load failed: {e:?}")))?;
            let r = vm.run_kept();
            check_end(m, e, &mut *vm, &r).map_err(|mut x| {
                x.msg = format!("program {i}: {} | {}", x.msg, g.render());
                x
            })?;
        }
    }
    Ok(())
}
