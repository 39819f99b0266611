//! C18: no guest input can crash, hang or corrupt the host.

use crate::alloc;
use crate::elf::*;
use crate::exec::*;
use crate::gen::*;
use crate::isa::*;
use crate::model::*;
use crate::props::c04::{compiled, file_ranges};
use crate::props::c12::{filler, gen_spec, mutate};
use crate::props::c14::targets;
use crate::runner::*;
use crate::src::Src;
use crate::vm::*;
use crate::what::*;
use ckb_vm::snapshot::Snapshot;
use ckb_vm::snapshot2::Snapshot2;

pub static PROP: Prop = Prop {
    id: "C18",
    rule: "an input that was accepted and ran at least one instruction, or was refused by the code under test after its header was accepted",
    assumptions: &[
        "every instruction costs at least one cycle and the cycle limit is finite",
        "arithmetic overflow checks are on, so an overflow shows as a panic",
        "memory, page marks and frame marks of the assembly machine lie between inaccessible pages; the allocator of the harness checks that blocks are freed as they were allocated",
    ],
    cases: (150_000, 5_000_000),
    fixed: 0,
    preset: no_preset,
    run: |s, ctx| {
        let bad = alloc::bad_frees();
        match s.weighted(&[6, 10, 3, 2, 3]) {
            0 => image(s, ctx),
            1 => code(s, ctx),
            2 => snapshot(s, ctx),
            4 => requests(s, ctx),
            _ => arguments(s, ctx),
        }?;
        ensure!(
            alloc::bad_frees() == bad,
            "free",
            "a block of {} bytes was returned to the allocator as one of {} bytes",
            alloc::last_bad().0,
            alloc::last_bad().1
        );
        Ok(())
    },
    probes: &[],
};

fn fenced_build(c: VmCfg) -> Box<dyn Vm> {
    // stale content of the host's memory must not matter either
    let b = (c.isa as u64 ^ c.mem ^ c.max_cycles) as u8;
    alloc::fenced(Some(b | 1), || build(c))
}

fn gen_kind(s: &mut Src, p: &PCfg) -> Kind {
    if p.mem % FRAME != 0 {
        return Kind::new(if s.bool() { Engine::Naive } else { Engine::Trace }, p.c.xlen, s.bool());
    }
    targets(p, s)
}
fn cfg(s: &mut Src, k: Kind, p: &PCfg, max: u64) -> VmCfg {
    let cost = [Cost::One, Cost::Published][s.usize(2)];
    let mut c = vm_cfg(k, p).cycles(max, cost);
    if s.bool() {
        c.syscalls.push(host_sys());
    }
    if s.chance(1, 8) && k.engine.is_asm() {
        c.chaos = Some(s.below(100) as u32);
    }
    if s.chance(1, 10) {
        c.raw = true;
    }
    c
}
fn gen_p(s: &mut Src) -> PCfg {
    let xlen = if s.chance(1, 5) { 32 } else { 64 };
    let mut p = gen_cfg(s, xlen);
    p.mem = match s.below(10) {
        0 => FRAME * s.range(1, 16),
        1 => PAGE * s.range(1, 70),
        2 => FRAME * 2,
        _ => FRAME,
    };
    p
}

/// Run, inspect, reuse.
fn use_it(s: &mut Src, ctx: &mut Ctx, vm: &mut dyn Vm, max: u64) -> CaseRes {
    let k = vm.kind();
    let mut how = vec![];
    for _ in 0..s.range(1, 2) {
        let r = match s.below(4) {
            0 => {
                vm.sm().set_running(true);
                let mut r = Ok(0);
                let n = s.range(1, 300);
                for _ in 0..n {
                    if let Err(e) = vm.step() {
                        r = Err(e);
                        break;
                    }
                    if !vm.running() {
                        break;
                    }
                }
                r
            }
            1 => vm.run(),
            _ => vm.run_kept(),
        };
        ctx.evals += 1;
        how.push(match r {
            Ok(_) => "ends".to_string(),
            Err(e) => format!("{e:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string(),
        });
        ctx.label(how.last().unwrap());
        let c = vm.sm().cycles();
        // a host call may have charged up to 63 before its check
        ensure!(c <= max + 63, "cycles", "{k}: {c} cycles used of {max} ({how:?})");
    }
    // the machine can still be looked at
    let sm = vm.sm();
    let n = sm.mem_size();
    sm.load_bytes(0, n).map_err(|e| f("inspect", format!("{k}: memory cannot be read: {e:?}")))?;
    for pg in 0..n / PAGE {
        sm.flag(pg).map_err(|e| f("inspect", format!("{k}: {e:?}")))?;
    }
    if s.chance(1, 4) {
        let _ = sm.snap1().map_err(|e| f("inspect", format!("{k}: no snapshot: {e:?}")))?;
        let c = Ctx2::default();
        let _ = sm.snap2(&c).map_err(|e| f("inspect", format!("{k}: no snapshot: {e:?}")))?;
    }
    if s.chance(1, 6) {
        sm.reset(max).map_err(|e| f("inspect", format!("{k}: no reset: {e:?}")))?;
        let _ = vm.run_kept();
    }
    Ok(())
}

fn hostile_args(s: &mut Src) -> Vec<Vec<u8>> {
    match s.weighted(&[5, 5, 1, 1]) {
        0 => vec![],
        1 => gen_args(s),
        2 => {
            let n = s.range(1, 40_000) as usize;
            vec![vec![]; n]
        }
        _ => (0..s.range(1, 4)).map(|_| filler(s.below(100), s.below(400_000))).collect(),
    }
}

fn image(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let mut p = gen_p(s);
    let all = compiled();
    let mut steps = 6000;
    let mut b = match s.weighted(&[5, 4, 2, 1, if all.is_empty() { 0 } else { 1 }]) {
        4 => {
            // a compiled program, its words exchanged here and there
            let (_, orig) = &all[s.usize(all.len())];
            p.mem = FRAME * s.range(2, 8);
            let mut b = orig.clone();
            let (xlen, rs) = file_ranges(orig);
            if s.chance(9, 10) && xlen as u32 != p.c.xlen {
                p = gen_cfg(s, xlen);
                p.mem = FRAME * 4;
            }
            for _ in 0..*s.pick(&[0, 1, 2, 5, 20, 100]) {
                if rs.is_empty() {
                    break;
                }
                let r = &rs[s.usize(rs.len())];
                let i = (r.0 + s.below(r.1)) as usize & !1;
                match s.below(4) {
                    0 => b[i] ^= 1 << s.below(8),
                    1 => b[i] = s.below(256) as u8,
                    _ => {
                        let w = random_code(s, &p.c, 4);
                        for (k, x) in w.into_iter().take(4).enumerate() {
                            if i + k < b.len() {
                                b[i + k] = x;
                            }
                        }
                    }
                }
            }
            ctx.label("compiled program");
            steps = 60_000;
            b
        }
        0 => {
            let mut q = p;
            q.mem = q.mem.max(FRAME) / FRAME * FRAME;
            let g = gen_program(s, q, Opts { size: 12, wild: 30, big: 3, ..Opts::default() });
            g.bytes
        }
        1 => gen_spec(s, p.c.xlen, p.mem).0.bytes(),
        2 => {
            // a header and then anything
            let bits = if s.chance(1, 8) { 96 - p.c.xlen } else { p.c.xlen };
            let n = s.below(3000);
            let mut v = Spec { bits, be: s.chance(1, 10), entry: s.val(), phs: vec![], phnum: s.below(70) as u16, phoff: s.val(), blobs: vec![] }.bytes();
            v.extend(filler(s.below(1000), n));
            v
        }
        _ => filler(s.below(1000), s.below(300)),
    };
    if s.chance(3, 4) {
        mutate(s, &mut b);
    }
    if s.chance(1, 4) && !b.is_empty() {
        // damage the content
        for _ in 0..s.range(1, 30) {
            let i = s.usize(b.len());
            b[i] = s.below(256) as u8;
        }
    }
    let args = hostile_args(s);
    let k = gen_kind(s, &p);
    let max = s.range(1, steps);
    let c = cfg(s, k, &p, max);
    let mut vm = fenced_build(c);
    let bytes = Bytes::from(b);
    let args: Vec<Bytes> = args.into_iter().map(Bytes::from).collect();
    ctx.label("image");
    ctx.evals += 1;
    let ok = match s.below(3) {
        0 => {
            // the parts, as hosts with their own loaders use them
            match ckb_vm::elf::parse_elf::<u64>(&bytes, p.c.ver) {
                Ok(m) => {
                    let r = vm.load_with_metadata(&bytes, &m, &args);
                    let src = Source(std::sync::Arc::new(vec![bytes.to_vec()]));
                    let mut c2 = Ctx2::new(src);
                    if r.is_ok() {
                        let _ = vm.sm().s2_mark(&mut c2, &m, s.below(2) as u32, s.below(3));
                        let _ = vm.sm().snap2(&c2);
                    }
                    r.is_ok()
                }
                Err(_) => false,
            }
        }
        _ => vm.load_program(&bytes, &args).is_ok(),
    };
    ctx.label(if ok { "image accepted" } else { "image refused" });
    ctx.nt(ok);
    if ok || s.bool() {
        use_it(s, ctx, &mut *vm, max)?;
    }
    alloc::fenced(None, || drop(vm));
    Ok(())
}

fn edge(s: &mut Src, size: u64) -> u64 {
    match s.below(8) {
        0 => s.below(16),
        1 => size.wrapping_sub(s.below(32)),
        2 => size.wrapping_add(s.below(32)),
        3 => 0u64.wrapping_sub(s.below(40)),
        4 => (s.below(size / PAGE + 2) * PAGE).wrapping_sub(8).wrapping_add(s.below(16)),
        5 => s.below(size),
        6 => s.val().wrapping_add(s.below(size)),
        _ => (1u64 << s.range(30, 63)).wrapping_add(s.below(32)).wrapping_sub(16),
    }
}

fn random_code(s: &mut Src, c: &Cfg, n: u64) -> Vec<u8> {
    let mut out = vec![];
    let style = s.below(4);
    while (out.len() as u64) < n {
        match if style == 3 { s.below(4) } else { style } {
            0 => {
                let w = s.below(1 << 32) as u32;
                out.extend_from_slice(&w.to_le_bytes());
            }
            1 => {
                // memory and control operations with all-edge operands
                let o = s.pick(&OPS);
                if !avail(o, c) {
                    continue;
                }
                let wide = o.op.is_load() || o.op.is_store() || o.op.is_atomic() || o.op.ends_block();
                if !wide && s.chance(2, 3) {
                    continue;
                }
                let imm = gen_imm(s, o.op, c.xlen);
                let i = Inst::new(o.op, s.below(32) as u8, s.below(32) as u8, s.below(32) as u8, imm);
                enc_into(&mut out, &i, s.bool(), c);
            }
            2 => {
                // compressed words
                let h = s.below(0x10000) as u16;
                let h = if h & 3 == 3 { h & !1 } else { h };
                out.extend_from_slice(&h.to_le_bytes());
            }
            _ => {
                // a valid word with a bit or two changed
                let o = s.pick(&OPS);
                let imm = gen_imm(s, o.op, c.xlen);
                let i = Inst::new(o.op, s.below(32) as u8, s.below(32) as u8, s.below(32) as u8, imm);
                let mut w = encode_for(&i, c.xlen);
                if s.bool() {
                    w ^= 1 << s.below(32);
                }
                out.extend_from_slice(&w.to_le_bytes());
            }
        }
    }
    if s.chance(1, 2) {
        // leave some zeros or a loop at the end
        let i = Inst::new(Op::Jal, 0, 0, 0, -(out.len() as i64 & !3));
        enc_into(&mut out, &i, false, c);
    }
    out
}

fn code(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let p = gen_p(s);
    let k = gen_kind(s, &p);
    let max = s.range(1, 3000);
    let c = cfg(s, k, &p, max);
    let size = p.mem;
    let mut vm = fenced_build(c);
    ctx.label("code");
    let sm = vm.sm();
    let pages = size / PAGE;
    let mut pc = 0;
    for _ in 0..s.range(1, 3) {
        let n = *s.pick(&[40, 200, 1000, 4096, 9000]);
        let b = random_code(s, &p.c, n);
        let at = match s.below(4) {
            0 => size.saturating_sub(b.len() as u64),
            1 => s.below(size),
            _ => s.below(pages) * PAGE,
        };
        let (a0, a1) = (at / PAGE * PAGE, (at + b.len() as u64 + PAGE - 1) / PAGE * PAGE);
        let len = (a1.min(size)) - a0;
        let cut = b.len().min((size - at) as usize);
        let src = Bytes::from(b[..cut].to_vec());
        let flags = if s.chance(5, 6) { F_EXEC | F_FREEZE } else { s.below(256) as u8 };
        let _ = sm.init_pages(a0, len, flags, Some(src), at - a0);
        pc = at + if s.chance(1, 4) { s.below(cut as u64 + 4) } else { 0 };
        if s.chance(1, 10) {
            // marks the machine would not set by itself
            let _ = sm.set_flag(s.below(pages), s.below(256) as u8);
        }
    }
    let edges = s.range(20, 100);
    for i in 1..32 {
        let v = if s.below(100) < edges { edge(s, size) } else { s.val() };
        sm.set_reg(i, v);
    }
    let pc = if s.chance(1, 8) { edge(s, size) } else { pc };
    sm.set_pc(pc);
    if s.chance(1, 10) {
        sm.set_lr(edge(s, size));
    }
    ctx.nt(sm.fetch16(pc).is_ok());
    ctx.sample(|| format!("{k} {p} pc={pc:#x}"));
    use_it(s, ctx, &mut *vm, max)?;
    alloc::fenced(None, || drop(vm));
    Ok(())
}

fn snapshot(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let w = What::gen(s, &WOpts { max_mem: FRAME, ..WOpts::default() });
    let p = w.p();
    let mut c = vm_cfg(targets(&p, s), &p).cycles(3000, Cost::One);
    c.syscalls.push(host_sys());
    let mut o = w.vm_with(c)?;
    for _ in 0..s.below(60) {
        if o.step().is_err() {
            break;
        }
    }
    ctx.label("snapshot");
    let k = targets(&p, s);
    let max = s.range(1, 3000);
    let c = cfg(s, k, &p, max);
    let mut vm = fenced_build(c);
    if s.bool() {
        let mut x: Snapshot = o.sm().snap1().map_err(|e| f("snapshot", format!("{e:?}")))?;
        for _ in 0..s.range(1, 3) {
            match s.below(9) {
                0 => x.version = s.below(4) as u32,
                1 => x.registers[s.usize(32)] = edge(s, p.mem),
                2 => x.pc = edge(s, p.mem),
                3 => {
                    let v = edge(s, p.mem);
                    let e = s.below(200);
                    if let Some(i) = pick_mut(s, &mut x.page_indices) {
                        *i = if e < 100 { v } else { e };
                    }
                }
                4 => {
                    let v = s.below(256) as u8;
                    if let Some(i) = pick_mut(s, &mut x.page_flags) {
                        *i = v;
                    }
                }
                5 => {
                    let n = s.below(9000);
                    let b = filler(s.below(50), n);
                    if let Some(i) = pick_mut(s, &mut x.pages) {
                        *i = b;
                    }
                }
                6 => match s.below(3) {
                    0 => drop(x.pages.pop()),
                    1 => drop(x.page_flags.pop()),
                    _ => drop(x.page_indices.pop()),
                },
                7 => match s.below(3) {
                    0 => x.pages.push(vec![1; 4096]),
                    1 => x.page_flags.push(s.below(8) as u8),
                    _ => x.page_indices.push(s.below(100)),
                },
                _ => x.load_reservation_address = edge(s, p.mem),
            }
        }
        // as it arrives in practice
        let t = serde_json::to_string(&x).map_err(|e| f("serialise", format!("{e}")))?;
        let x: Snapshot = serde_json::from_str(&t).map_err(|e| f("deserialise", format!("{e}")))?;
        let r = vm.sm().resume1(&x);
        ctx.nt(r.is_ok());
        ctx.label(if r.is_ok() { "snapshot accepted" } else { "snapshot refused" });
        if r.is_ok() || s.bool() {
            use_it(s, ctx, &mut *vm, max)?;
        }
    } else {
        let src = Source(std::sync::Arc::new(vec![filler(1, 20_000), filler(2, 8192), vec![]]));
        let mut c2 = Ctx2::new(src.clone());
        for _ in 0..s.below(3) {
            let _ = o.sm().s2_store(&mut c2, edge(s, p.mem), s.below(4) as u32, s.below(10_000), edge(s, p.mem), edge(s, p.mem));
        }
        let mut x: Snapshot2<u32> = o.sm().snap2(&c2).map_err(|e| f("snapshot", format!("{e:?}")))?;
        for _ in 0..s.range(1, 3) {
            match s.below(9) {
                0 => x.version = s.below(4) as u32,
                1 => x.registers[s.usize(32)] = edge(s, p.mem),
                2 => x.pc = edge(s, p.mem),
                3 => {
                    let e = (edge(s, p.mem) / PAGE * PAGE, s.below(256) as u8, s.below(4) as u32, s.below(9000), s.below(9000) / 4096 * 4096);
                    x.pages_from_source.push(e);
                }
                4 => {
                    let (v, l, o) = (edge(s, p.mem), edge(s, p.mem), s.val());
                    if let Some(i) = pick_mut(s, &mut x.pages_from_source) {
                        match v % 3 {
                            0 => i.0 = v,
                            1 => i.4 = l,
                            _ => i.3 = o,
                        }
                    }
                }
                5 => {
                    let (v, l) = (edge(s, p.mem), s.below(9000));
                    if let Some(i) = pick_mut(s, &mut x.dirty_pages) {
                        match l % 3 {
                            0 => i.0 = v,
                            1 => i.2.truncate(l as usize),
                            _ => i.1 = v as u8,
                        }
                    }
                }
                6 => x.cycles = s.val(),
                7 => x.load_reservation_address = edge(s, p.mem),
                _ => {
                    let n = s.below(3) * 4096;
                    x.dirty_pages.push((edge(s, p.mem) / PAGE * PAGE, s.below(256) as u8, filler(3, n)));
                }
            }
        }
        x.max_cycles = max;
        let mut c3 = Ctx2::new(src);
        let r = vm.sm().resume2(&mut c3, &x);
        ctx.nt(r.is_ok());
        ctx.label(if r.is_ok() { "snapshot accepted" } else { "snapshot refused" });
        if x.cycles > max {
            vm.sm().set_cycles(0);
        }
        vm.limit(max);
        if r.is_ok() || s.bool() {
            use_it(s, ctx, &mut *vm, max)?;
            let _ = vm.sm().snap2(&c3);
        }
    }
    alloc::fenced(None, || drop(vm));
    Ok(())
}
fn pick_mut<'a, T>(s: &mut Src, v: &'a mut [T]) -> Option<&'a mut T> {
    if v.is_empty() {
        return None;
    }
    let i = s.usize(v.len());
    Some(&mut v[i])
}

/// Argument lists against memories of every size.
fn arguments(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let mut p = gen_p(s);
    if s.bool() {
        p.mem = PAGE * s.range(1, 12);
    }
    let k = gen_kind(s, &p);
    let max = s.range(1, 2000);
    let c = cfg(s, k, &p, max);
    let mut vm = fenced_build(c);
    let code = random_code(s, &p.c, 60);
    let n = ehsize(p.c.xlen) + phsize(p.c.xlen);
    let sp = Spec {
        bits: p.c.xlen,
        be: false,
        entry: 0,
        phs: vec![Ph { typ: 1, flags: 5, offset: n, vaddr: 0, paddr: 0, filesz: code.len() as u64, memsz: code.len() as u64, align: 4096 }],
        phnum: 1,
        phoff: ehsize(p.c.xlen),
        blobs: vec![(n, code)],
    };
    let args: Vec<Bytes> = hostile_args(s).into_iter().map(Bytes::from).collect();
    ctx.label("arguments");
    let r = vm.load_program(&Bytes::from(sp.bytes()), &args);
    ctx.label(if r.is_ok() { "arguments accepted" } else { "arguments refused" });
    ctx.nt(r.is_ok() && !args.is_empty());
    use_it(s, ctx, &mut *vm, max)?;
    alloc::fenced(None, || drop(vm));
    Ok(())
}

/// System calls that hand the guest's register values to the memory interface.
fn requests(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let p = gen_p(s);
    let k = gen_kind(s, &p);
    let max = s.range(100, 3000);
    let mut c = cfg(s, k, &p, max);
    let size = p.mem;
    c.syscalls.insert(
        0,
        (
            None,
            Box::new(move |sm: &mut dyn SM| {
                let (what, a, b, v) = (sm.reg(17), sm.reg(10), sm.reg(11), sm.reg(12));
                let r = request(sm, what, a, b, v);
                sm.set_reg(10, r.is_ok() as u64);
                Ok(true)
            }),
        ),
    );
    let mut vm = fenced_build(c);
    ctx.label("requests");
    let mut used = 0;
    if s.bool() {
        // directly
        for _ in 0..s.range(3, 20) {
            let (what, a, b, v) = (s.below(64), operand(s, size), operand(s, size), operand(s, size));
            let r = request(vm.sm(), what, a, b, v);
            ctx.evals += 1;
            used += 1;
            ctx.label(if r.is_ok() { "request granted" } else { "request refused" });
        }
    } else {
        // from a program, whose operands lie in registers
        let mut out = vec![];
        for _ in 0..s.range(3, 12) {
            for rd in [10, 11, 12] {
                let i = Inst::new(Op::Addi, rd, s.range(18, 31) as u8, 0, s.below(64) as i64 - 32);
                enc_into(&mut out, &i, false, &p.c);
            }
            enc_into(&mut out, &Inst::new(Op::Addi, 17, 0, 0, s.below(64) as i64), false, &p.c);
            enc_into(&mut out, &Inst::new(Op::Ecall, 0, 0, 0, 0), false, &p.c);
            used += 1;
        }
        let at = s.below(size / PAGE) * PAGE;
        let sm = vm.sm();
        let _ = sm.init_pages(at, PAGE, F_EXEC | F_FREEZE, Some(Bytes::from(out)), 0);
        for i in 18..32 {
            sm.set_reg(i, operand(s, size));
        }
        sm.set_pc(at);
    }
    ctx.nt(used >= 3);
    use_it(s, ctx, &mut *vm, max)?;
    alloc::fenced(None, || drop(vm));
    Ok(())
}

fn operand(s: &mut Src, size: u64) -> u64 {
    match s.below(4) {
        0 => s.below(size),
        1 => s.below(300),
        _ => edge(s, size),
    }
}

fn request(sm: &mut dyn SM, what: u64, a: u64, b: u64, v: u64) -> Res<()> {
    match what % 16 {
        0 => sm.load_bytes(a, b).map(|_| ()),
        1 => sm.fill(a, b, v as u8),
        2 => sm.load(1 << (b & 3), a).map(|_| ()),
        3 => sm.store(1 << (b & 3), a, v),
        4 => sm.store_bytes(a, &vec![v as u8; (b & 0x3fff) as usize]),
        5 => sm.fetch16(a).map(|_| ()),
        6 => sm.fetch32(a).map(|_| ()),
        7 => sm.flag(a >> (b & 31)).map(|_| ()),
        // pages of the program's own memory may be marked by the host, any by mistake
        8 => sm.set_flag(a >> (b & 31), v as u8 & F_DIRTY),
        9 => sm.clear_flag(a >> (b & 31), v as u8 & F_DIRTY),
        10 => sm.init_pages(a, b, v as u8, None, 0),
        11 => sm.init_pages(a & !0xfff, b & 0xf000, v as u8 & 3, Some(Bytes::from(vec![1; (v & 0x1fff) as usize])), v & 0xfff),
        12 => sm.init_pages(a, b, 0, Some(Bytes::from(vec![1; 100])), v),
        13 => sm.add_cycles(a & 63),
        14 => sm.load_bytes(a, b & 0xffff).map(|_| ()),
        _ => sm.fill(a, b & 0xffff, v as u8),
    }
}
