//! C01, C02: instruction semantics on 64- and 32-bit machines.

use crate::exec::*;
use crate::gen::*;
use crate::isa::*;
use crate::model::*;
use crate::online::*;
use crate::runner::*;
use crate::src::Src;
use crate::vm::*;

pub static C01: Prop = Prop {
    id: "C01",
    rule: "micro cases execute 48 random instructions on 8 operand sets each; flow cases execute generated sequences of at least 20 instructions; distinct by choice sequence",
    assumptions: &["the reference simulator implements the RISC-V manual"],
    cases: (60_000, 3_000_000),
    fixed: 0,
    preset: no_preset,
    run: |s, c| run(s, c, 64),
    probes: &[],
};
pub static C02: Prop = Prop {
    id: "C02",
    rule: "micro cases execute 48 random instructions on 8 operand sets each; flow cases execute generated sequences of at least 20 instructions; distinct by choice sequence",
    assumptions: &["the reference simulator implements the RISC-V manual"],
    cases: (60_000, 3_000_000),
    fixed: 0,
    preset: no_preset,
    run: |s, c| run(s, c, 32),
    probes: &[],
};

fn run(s: &mut Src, ctx: &mut Ctx, xlen: u32) -> CaseRes {
    if s.chance(1, 3) {
        flow(s, ctx, xlen)
    } else {
        micro(s, ctx, xlen)
    }
}

/// single instructions on many operand sets
fn micro(s: &mut Src, ctx: &mut Ctx, xlen: u32) -> CaseRes {
    let mut p = gen_cfg(s, xlen);
    p.mop = false;
    p.mem = 512 * 1024;
    let flat = s.bool();
    let n = 48u64;
    let code_base = 0x10000u64;
    let mut code = vec![0u8; 4096];
    let mut insts: Vec<Inst> = vec![];
    let reg = |s: &mut Src| if s.chance(1, 12) { 0 } else { s.below(32) as u8 };
    for k in 0..n {
        let mut ins;
        let mut b = vec![];
        if s.chance(1, 4) {
            let mut g = 0;
            loop {
                g += 1;
                let h = if g > 100 { 1 } else { s.below(65536) as u16 };
                if h & 3 == 3 {
                    continue;
                }
                if let Some(i) = decode16(h, &p.c) {
                    ins = i;
                    b.extend_from_slice(&h.to_le_bytes());
                    break;
                }
            }
        } else {
            let mut g = 0;
            let o = loop {
                g += 1;
                let o = if g > 100 { Op::Addi.info() } else { &OPS[s.usize(OPS.len())] };
                if avail(o, &p.c) && o.op != Op::Ecall {
                    break o;
                }
            };
            ins = Inst::new(o.op, 0, 0, 0, gen_imm(s, o.op, xlen));
            match o.fmt {
                Fmt::R | Fmt::Amo => {
                    ins.rd = reg(s);
                    ins.rs1 = reg(s);
                    ins.rs2 = if s.chance(1, 8) { ins.rs1 } else { reg(s) };
                    if s.chance(1, 8) {
                        ins.rd = ins.rs1
                    } else if s.chance(1, 8) {
                        ins.rd = ins.rs2
                    }
                }
                Fmt::S | Fmt::B => {
                    ins.rs1 = reg(s);
                    ins.rs2 = if s.chance(1, 8) { ins.rs1 } else { reg(s) };
                }
                Fmt::U | Fmt::J => ins.rd = reg(s),
                Fmt::Fence | Fmt::Fix => {}
                _ => {
                    ins.rd = reg(s);
                    ins.rs1 = if s.chance(1, 6) { ins.rd } else { reg(s) };
                }
            }
            enc_into(&mut b, &ins, false, &p.c);
            if matches!(o.fmt, Fmt::Amo | Fmt::Lr) {
                // acquire and release bits have no effect here
                let w = u32::from_le_bytes(b[..4].try_into().unwrap()) | (s.below(4) as u32) << 25;
                b = w.to_le_bytes().to_vec();
            }
            if o.fmt == Fmt::Fence {
                let w = u32::from_le_bytes(b[..4].try_into().unwrap()) | (s.below(4096) as u32) << 20;
                b = w.to_le_bytes().to_vec();
            }
        }
        if matches!(ins.op.info().fmt, Fmt::B | Fmt::J) && ins.imm == 0 {
            // a jump to itself is a loop, not a step
            ins = Inst::new(Op::Addi, 0, 0, 0, 0);
            b = encode(&ins).to_le_bytes().to_vec();
        }
        let o = (k * 16) as usize;
        code[o..o + b.len()].copy_from_slice(&b);
        insts.push(ins);
    }
    let mut regs = [0u64; 32];
    for r in regs.iter_mut().skip(1) {
        *r = operand(s);
        if xlen == 32 {
            *r &= 0xffff_ffff;
        }
    }
    let set = Setup { p, regs, pc: code_base, code_base, code, blobs: vec![], cost: Cost::Zero, max_cycles: u64::MAX };
    let mut m = set.model();
    let mut vms: Vec<Box<dyn Vm>> = vec![];
    vms.push(set.vm(Kind::new(Engine::Naive, xlen, flat)).map_err(h)?);
    if xlen == 64 {
        vms.push(set.vm(Kind::new(Engine::Asm, 64, true)).map_err(h)?);
    }
    for (k, ins) in insts.iter().enumerate() {
        let pc = code_base + 16 * k as u64;
        for _ in 0..8 {
            let a = operand(s);
            let b = operand(s);
            let mut put = |r: u8, v: u64, m: &mut Model, vms: &mut Vec<Box<dyn Vm>>| {
                if r != 0 {
                    m.set(r, v);
                    for vm in vms.iter_mut() {
                        vm.sm().set_reg(r as usize, v);
                    }
                }
            };
            put(ins.rs2, b, &mut m, &mut vms);
            let w = ins.op.mem_width();
            if w > 0 {
                // mostly inside memory
                let t = if s.chance(1, 12) { wild_addr(s, &m.mem, code_base) } else { data_addr(s, p.mem, code_base, w) };
                let off = if ins.op.is_atomic() { 0 } else { ins.imm as u64 };
                put(ins.rs1, t.wrapping_sub(off), &mut m, &mut vms);
                if ins.op == Op::ScW || ins.op == Op::ScD {
                    let lr = if s.bool() { m.x[ins.rs1 as usize] } else { operand(s) };
                    m.lr = if xlen == 32 { lr & 0xffff_ffff } else { lr };
                    for vm in vms.iter_mut() {
                        vm.sm().set_lr(lr);
                    }
                }
            } else {
                put(ins.rs1, if s.chance(1, 16) { b } else { a }, &mut m, &mut vms);
            }
            m.pc = pc;
            ctx.evals += 1;
            let before = m.x;
            let e = m.step();
            if m.pc == pc && e.is_ok() {
                // an indirect jump to itself
                m.pc = pc;
                m.x = before;
                continue;
            }
            for vm in vms.iter_mut() {
                let kd = vm.kind();
                vm.sm().set_pc(pc);
                let r = vm.step();
                let what = || format!("{kd}: {ins} at {pc:#x} with rs1={:#x} rs2={:#x} rd={:#x}", before[ins.rs1 as usize], before[ins.rs2 as usize], before[ins.rd as usize]);
                match (&e, r) {
                    (Ok(_), Ok(())) => {}
                    (Err(x), Err(er)) => {
                        if !err_matches(x, &er) {
                            return Err(f("wrong-error", format!("{}: failed with {er:?}, expected {x:?}", what())));
                        }
                    }
                    (Ok(_), Err(er)) => return Err(f("spurious-error", format!("{}: failed with {er:?}", what()))),
                    (Err(x), Ok(())) => return Err(f("missed-fault", format!("{}: did not fail with {x:?}", what()))),
                }
                diff_regs(&m, vm.sm()).map_err(|d| f("result", format!("{}: {d}", what())))?;
                if let Some((rd, _)) = m.fault_rd {
                    vm.sm().set_reg(rd as usize, m.x[rd as usize]);
                }
                if vm.sm().pc() != m.pc {
                    return Err(f("pc", format!("{}: pc is {:#x}, expected {:#x}", what(), vm.sm().pc(), m.pc)));
                }
                if w > 0 {
                    let t = before[ins.rs1 as usize].wrapping_add(if ins.op.is_atomic() { 0 } else { ins.imm as u64 });
                    let t = if xlen == 32 { t & 0xffff_ffff } else { t };
                    let lo = t.saturating_sub(8).min(p.mem - 32);
                    let got = vm.sm().load_bytes(lo, 32).map_err(|er| f("load", format!("{}: memory unreadable: {er:?}", what())))?;
                    let want = &m.mem.data[lo as usize..lo as usize + 32];
                    if &got[..] != want {
                        return Err(f("memory", format!("{}: memory around {t:#x} is {:x?}, expected {:x?}", what(), &got[..], want)));
                    }
                    let lr = if xlen == 32 { m.lr & 0xffff_ffff } else { m.lr };
                    if vm.sm().lr() != lr {
                        return Err(f("reservation", format!("{}: reservation {:#x}, expected {lr:#x}", what(), vm.sm().lr())));
                    }
                }
            }
        }
        ctx.label(ins.op.name());
    }
    for vm in vms.iter_mut() {
        let kd = vm.kind();
        diff_mem(&m, vm.sm()).map_err(|d| f("memory", format!("{kd}: at the end: {d}")))?;
        diff_flags(&m, vm.sm(), true).map_err(|d| f("flags", format!("{kd}: at the end: {d}")))?;
    }
    ctx.nt(true);
    ctx.sample(|| format!("{p}: {}", insts.iter().take(12).map(|i| i.to_string()).collect::<Vec<_>>().join("; ")));
    Ok(())
}

/// sequences with any control flow, on every engine
fn flow(s: &mut Src, ctx: &mut Ctx, xlen: u32) -> CaseRes {
    let mut p = gen_cfg(s, xlen);
    p.mop = false;
    let flat = s.bool();
    let steps = s.range(5, 60);
    let fault = 4;
    let (set, _) = OnGen::new(s, p, On { steps, fault, ..Default::default() }).generate();
    let m0 = set.model();
    let mut m = m0.clone();
    let end = model_run(&mut m, 5000);
    ctx.evals += m.steps;
    ctx.nt(m.steps >= 20);
    ctx.label(match &end {
        End::Exit(_) => "flow:exit",
        End::Fault(_) => "flow:fault",
        End::Limit => "flow:limit",
    });
    ctx.sample(|| set.render());
    let mut ks = vec![(Kind::new(Engine::Naive, xlen, flat), true), (Kind::new(Engine::Trace, xlen, flat), false)];
    if xlen == 64 {
        ks.push((Kind::new(Engine::Asm, 64, flat), false));
        match s.below(3) {
            0 => ks.push((Kind::new(Engine::Asm, 64, flat), true)),
            1 => ks.push((Kind::new(Engine::AsmMemoFixed, 64, flat), false)),
            _ => ks.push((Kind::new(Engine::AsmMemoDyn, 64, flat), false)),
        }
    }
    for (k, step) in ks {
        let mut vm = set.vm(k).map_err(h)?;
        if step {
            stepwise(&mut m0.clone(), &mut *vm, 5000).map_err(|mut e| {
                e.msg = format!("{} | {}", e.msg, set.render());
                e
            })?;
        } else if end != End::Limit {
            let r = vm.run();
            check_end(&m, &end, &mut *vm, &r).map_err(|mut e| {
                e.msg = format!("{} | {}", e.msg, set.render());
                e
            })?;
        }
    }
    Ok(())
}
