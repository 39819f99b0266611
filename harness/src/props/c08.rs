//! C08: the published cost model.

use crate::dec::*;
use crate::exec::*;
use crate::gen::*;
use crate::isa::*;
use crate::model::*;
use crate::online::*;
use crate::runner::*;
use crate::src::Src;
use crate::vm::*;
use ckb_vm::cost_model::{constant_cycles, estimate_cycles};

pub static PROP: Prop = Prop {
    id: "C08",
    rule: "encodings: at least 20 operations decoded and costed; executions: at least 20 instructions whose cost was observed on an engine",
    assumptions: &["the documented cost table, transcribed independently"],
    cases: (60_000, 3_000_000),
    fixed: 64,
    preset: |i| vec![0, i],
    run,
    probes: &[],
};

fn run(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    match s.weighted(&[1, 3, 3]) {
        0 => encodings(s, ctx),
        1 => micro(s, ctx),
        _ => flow(s, ctx),
    }
}

fn check(i: ckb_vm::Instruction, want: u64, what: &dyn Fn() -> String) -> CaseRes {
    let c = estimate_cycles(i);
    ensure!(c == want, "cost", "{}: costs {c}, documented {want}", what());
    ensure!(constant_cycles(i) == 1, "cost", "{}: constant cost is {}", what(), constant_cycles(i));
    Ok(())
}

/// decoded encodings against the table: a share of all compressed words, every operation, fused windows
fn encodings(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let part = s.below(64);
    let xlen = *s.pick(&[64, 64, 32]);
    let mut p = gen_cfg(s, xlen);
    p.c.a = true;
    p.c.b = true;
    let mut words: Vec<Vec<u8>> = vec![];
    for h in (part * 1024)..(part * 1024 + 1024) {
        words.push((h as u16).to_le_bytes().to_vec());
    }
    for o in OPS.iter().filter(|o| avail(o, &p.c)) {
        for _ in 0..3 {
            let mut n = Inst::new(o.op, 0, 0, 0, gen_imm(s, o.op, xlen));
            n.rd = s.below(32) as u8;
            n.rs1 = s.below(32) as u8;
            n.rs2 = s.below(32) as u8;
            match o.fmt {
                Fmt::Fix | Fmt::Fence => n = Inst::new(o.op, 0, 0, 0, 0),
                Fmt::Un | Fmt::Lr | Fmt::I | Fmt::Ld | Fmt::Sh5 | Fmt::Sh6 | Fmt::Jalr => n.rs2 = 0,
                Fmt::S | Fmt::B => n.rd = 0,
                Fmt::U | Fmt::J => {
                    n.rs1 = 0;
                    n.rs2 = 0
                }
                _ => {}
            }
            let mut b = vec![];
            enc_into(&mut b, &n, false, &p.c);
            words.push(b);
        }
    }
    let mut d = Dec::new(p.c, false);
    let mut n = 0;
    let mut data = vec![0u8; 8 * words.len()];
    for (k, b) in words.iter().enumerate() {
        data[8 * k..8 * k + b.len()].copy_from_slice(b);
    }
    let mut m = M::new(xlen, &data).map_err(|e| f("memory", format!("{e:?}")))?;
    for (k, b) in words.iter().enumerate() {
        let w = if b.len() == 2 { u16::from_le_bytes([b[0], b[1]]) as u32 } else { u32::from_le_bytes([b[0], b[1], b[2], b[3]]) };
        if b.len() == 2 && w & 3 == 3 {
            continue;
        }
        let want = match decode(w, &p.c) {
            Some(i) => i,
            None => continue,
        };
        if let Ok(i) = d.at(&mut m, 8 * k as u64) {
            ctx.evals += 1;
            n += 1;
            ctx.label(want.op.name());
            check(i, published_cost(want.op), &|| format!("{p}: {want} ({w:#x})"))?;
        }
    }
    // fused
    if p.c.ver > 0 {
        let regs: Vec<u8> = (1..32).collect();
        for _ in 0..60 {
            let w = if s.chance(1, 8) {
                vec![Inst::new(*s.pick(&[Op::Lui, Op::Auipc]), 1, 0, 0, imm_u(s)), Inst::new(Op::Jalr, 1, 1, 0, imm12(s))]
            } else {
                mop_window(s, &p.c, &regs)
            };
            let mut b = vec![];
            for x in &w {
                let comp = s.chance(1, 3);
                enc_into(&mut b, x, comp, &p.c);
            }
            if let Some((fu, _)) = fuse(&w, p.c.ver, 0, xlen) {
                let mut m = M::new(xlen, &b).map_err(|e| f("memory", format!("{e:?}")))?;
                if let Ok(i) = Dec::new(p.c, true).at(&mut m, 0) {
                    ctx.evals += 1;
                    ctx.label(fu.name());
                    check(i, fu.published_cost(), &|| format!("{p}: fused {}", fu.name()))?;
                }
            }
        }
    }
    ctx.nt(n >= 20);
    ctx.sample(|| format!("{p}: compressed words {:#x}.. and {n} encodings", part * 1024));
    Ok(())
}

/// the cost observed while executing: same instruction, many operands
fn micro(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let xlen = *s.pick(&[64, 64, 32]);
    let mut p = gen_cfg(s, xlen);
    p.mop = false;
    p.mem = 512 * 1024;
    let code_base = 0x10000u64;
    let mut code = vec![0u8; 4096];
    let mut insts = vec![];
    let ops: Vec<&OpInfo> = OPS.iter().filter(|o| avail(o, &p.c) && o.op != Op::Ecall).collect();
    for k in 0..60usize {
        let o = ops[s.usize(ops.len())];
        let mut n = Inst::new(o.op, 0, 0, 0, gen_imm(s, o.op, xlen));
        n.rd = s.below(32) as u8;
        n.rs1 = s.below(32) as u8;
        n.rs2 = s.below(32) as u8;
        match o.fmt {
            Fmt::Fix | Fmt::Fence => n = Inst::new(o.op, 0, 0, 0, 0),
            Fmt::Un | Fmt::Lr | Fmt::I | Fmt::Ld | Fmt::Sh5 | Fmt::Sh6 | Fmt::Jalr => n.rs2 = 0,
            Fmt::S | Fmt::B => n.rd = 0,
            Fmt::U | Fmt::J => {
                n.rs1 = 0;
                n.rs2 = 0
            }
            _ => {}
        }
        let mut b = vec![];
        let comp = s.bool();
        enc_into(&mut b, &n, comp, &p.c);
        code[16 * k..16 * k + b.len()].copy_from_slice(&b);
        insts.push(n);
    }
    let set = Setup { p, regs: [0; 32], pc: code_base, code_base, code, blobs: vec![], cost: Cost::Published, max_cycles: u64::MAX };
    let mut vms = vec![set.vm(Kind::new(Engine::Naive, xlen, s.bool())).map_err(h)?];
    if xlen == 64 {
        vms.push(set.vm(Kind::new(Engine::Asm, 64, true)).map_err(h)?);
    }
    for (k, n) in insts.iter().enumerate() {
        let want = published_cost(n.op);
        for _ in 0..3 {
            let (a, b) = (operand(s), operand(s));
            let base = s.below(1 << 40);
            let t = data_addr(s, p.mem, code_base, 8) & !7;
            for vm in vms.iter_mut() {
                let kd = vm.kind();
                let sm = vm.sm();
                if n.rs2 != 0 {
                    sm.set_reg(n.rs2 as usize, b);
                }
                if n.rs1 != 0 {
                    let v = if n.op.mem_width() > 0 { t.wrapping_sub(if n.op.is_atomic() { 0 } else { n.imm as u64 }) } else { a };
                    sm.set_reg(n.rs1 as usize, v);
                }
                sm.set_pc(code_base + 16 * k as u64);
                sm.set_cycles(base);
                let r = vm.step();
                if r.is_err() {
                    continue;
                }
                ctx.evals += 1;
                let d = vm.sm().cycles().wrapping_sub(base);
                ensure!(d == want, "cost", "{kd} {p}: {n} with {a:#x}, {b:#x} cost {d}, documented {want}");
            }
        }
        ctx.label(n.op.name());
    }
    ctx.nt(true);
    ctx.label("micro");
    ctx.sample(|| format!("{p}: {}", insts.iter().take(10).map(|i| i.to_string()).collect::<Vec<_>>().join("; ")));
    Ok(())
}

/// sums over blocks on every engine
fn flow(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let xlen = if s.chance(1, 4) { 32 } else { 64 };
    let p = { let mut p = gen_cfg(s, xlen); p.mem = p.mem.min(512 * 1024); p };
    let flat = s.bool();
    let steps = s.range(10, 70);
    let on = On { steps, hop: 6, fault: 0, w: [8, 6, 4, 3, 3, if p.mop { 6 } else { 0 }, 0], ..On::default() };
    let mut set = OnGen::new(s, p, on).generate().0;
    set.cost = Cost::Published;
    let mut m = set.model();
    let end = model_run(&mut m, 4000);
    ctx.nt(m.steps >= 20);
    ctx.label("flow");
    let c = match end {
        End::Exit(c) => c,
        _ => return Ok(()),
    };
    ctx.sample(|| set.render());
    for k in kinds(&p, flat) {
        let mut vm = set.vm(k).map_err(h)?;
        let r = vm.run();
        ctx.evals += m.steps;
        match r {
            Ok(d) if d == c => {}
            r => return Err(f("result", format!("{k}: {r:?}, expected exit {c} | {}", set.render()))),
        }
        let t = vm.sm().cycles();
        ensure!(t == m.cycles, "cost", "{k}: {t} cycles, documented {} | {}", m.cycles, set.render());
    }
    Ok(())
}
