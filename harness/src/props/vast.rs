//! Programs that run far up in a memory of several gigabytes.

use crate::exec::*;
use crate::gen::*;
use crate::isa::*;
use crate::model::*;
use crate::online::*;
use crate::runner::*;
use crate::src::Src;
use crate::vm::*;

pub fn run(s: &mut Src, ctx: &mut Ctx, xlen: u32, fused: bool, w: [u32; 7]) -> CaseRes {
    ctx.label("memory of several gigabytes");
    roomy(|| {
        let mut p = gen_cfg(s, xlen);
        if fused {
            p.mop = true;
            p.c.ver = *s.pick(&[1, 2, 2]);
        }
        p.mem = vast_mem(s, xlen);
        let flat = s.bool();
        let mut ks = kinds(&p, flat);
        while ks.len() > 3 {
            let k = s.usize(ks.len());
            ks.remove(k);
        }
        if s.bool() {
            let prog = gen_program(s, p, Opts { size: 30, ..Opts::default() });
            let mut m = load_model(&prog).unwrap_or_else(|e| panic!("generated program does not load: {e}"));
            let cost = [Cost::One, Cost::Published, Cost::Hash(s.below(1000))][s.usize(3)];
            m.cost = cost;
            m.max_cycles = 200_000;
            let end = model_run(&mut m, 50_000);
            if end == End::Limit {
                return Ok(());
            }
            ctx.nt(m.steps > 30);
            ctx.evals += m.steps;
            ctx.sample(|| prog.render());
            let bytes = Bytes::from(prog.bytes.clone());
            for k in ks {
                let mut c = vm_cfg(k, &p).cycles(200_000, cost);
                c.syscalls.push(host_sys());
                let mut vm = build(c);
                vm.load_program(&bytes, &bargs(&prog)).map_err(|e| f("load", format!("{k}: load failed: {e:?}")))?;
                let r = vm.run();
                check_end(&m, &end, &mut *vm, &r).map_err(|mut e| {
                    e.msg = format!("{} | {p} code at {:#x} cost {cost:?}", e.msg, prog.code_base);
                    e
                })?;
            }
            return Ok(());
        }
        let steps = s.range(5, 80);
        let (set, _) = OnGen::new(s, p, On { steps, hop: 8, fault: 10, w, ..On::default() }).generate();
        let mut m = set.model();
        let end = model_run(&mut m, 5000);
        if end == End::Limit {
            return Ok(());
        }
        ctx.nt(m.steps > 10);
        ctx.evals += m.steps;
        ctx.sample(|| set.render());
        for k in ks {
            let step = s.chance(1, 4);
            let mut vm = set.vm(k).map_err(h)?;
            if step {
                let mut m = set.model();
                stepwise(&mut m, &mut *vm, 5000).map_err(|mut x| {
                    x.msg = format!("{} | {}", x.msg, set.render());
                    x
                })?;
                continue;
            }
            let r = vm.run();
            check_end(&m, &end, &mut *vm, &r).map_err(|mut x| {
                x.msg = format!("{} | {}", x.msg, set.render());
                x
            })?;
        }
        Ok(())
    })
}

/// Two pieces of code whose addresses agree in their low half, run in turn.
pub fn twins(s: &mut Src, ctx: &mut Ctx, xlen: u32) -> CaseRes {
    ctx.label("code at addresses with equal low halves");
    roomy(|| {
        let mut p = gen_cfg(s, xlen);
        p.mem = if xlen == 64 { (1 << 32) + 16 * FRAME } else { (1 << 32) - FRAME };
        let dist: u64 = if xlen == 64 && p.c.ver >= 2 { *s.pick(&[1 << 32, 1 << 32, 1 << 31]) } else { 1 << 31 };
        let low = PAGE * s.below(200);
        let i = Inst::new;
        let rs = [5u8, 6, 7, 10, 11, 12, 13, 14, 15, 16, 17];
        let lead = 2 * s.below(24);
        let n = s.range(2, 24);
        let mut code: Vec<Vec<u8>> = vec![];
        let shared: Vec<Inst> = (0..n).map(|_| gen_alu(s, &p.c, &rs, &rs)).collect();
        for k in 0..2u64 {
            let at = low + k * dist;
            let mut a = Asm::default();
            for _ in 0..lead / 2 {
                a.i(i(Op::Addi, 0, 0, 0, 0));
            }
            for j in 0..n as usize {
                // mostly the same code, so that confusing the two is not just an early crash
                let c = s.chance(1, 3);
                let x = if k == 1 && s.chance(1, 3) { gen_alu(s, &p.c, &rs, &rs) } else { shared[j] };
                a.ic(x, c && k == 0);
            }
            let out = a.label();
            if k == 1 {
                a.op(Op::Addi, 9, 9, 0, -1);
                a.br(i(Op::Beq, 0, 9, 0, 0), out);
            }
            let r = *s.pick(&[31u8, 1, 30]);
            a.li(r, if k == 0 { low + dist } else { low }, xlen);
            let link = *s.pick(&[0u8, 0, 1, 29]);
            a.op(Op::Jalr, link, r, 0, 0);
            a.lab(out);
            a.op(Op::Addi, 17, 0, 0, 93);
            a.op(Op::Ecall, 0, 0, 0, 0);
            code.push(a.assemble(at, &p.c).0);
        }
        let rounds = s.range(1, 5);
        let mut m = new_model(&p);
        m.cost = Cost::One;
        m.max_cycles = 100_000;
        for k in 0..2u64 {
            m.mem.init_pages(low + k * dist, PAGE, F_EXEC | F_FREEZE, &code[k as usize], 0).expect("setup code");
        }
        let vals: Vec<(u8, u64)> = rs.iter().map(|r| (*r, operand(s))).chain([(9, rounds)]).collect();
        for (r, v) in &vals {
            m.set(*r, *v);
        }
        m.pc = low;
        let end = model_run(&mut m, 5000);
        ctx.nt(m.steps > 10 && matches!(end, End::Exit(_)));
        ctx.evals += m.steps;
        let flat = s.bool();
        for k in kinds(&p, flat) {
            let what = |mut x: Fail| {
                x.msg = format!("{} | {p} code at {low:#x} and {:#x}", x.msg, low + dist);
                x
            };
            let mut vm = build(vm_cfg(k, &p).cycles(100_000, Cost::One));
            for j in 0..2u64 {
                vm.sm().init_pages(low + j * dist, PAGE, F_EXEC | F_FREEZE, Some(Bytes::from(code[j as usize].clone())), 0).map_err(|e| f("setup", format!("{k}: {e:?}")))?;
            }
            for (r, v) in &vals {
                let v = if xlen == 32 { *v & 0xffff_ffff } else { *v };
                vm.sm().set_reg(*r as usize, v);
            }
            vm.sm().set_pc(low);
            let r = vm.run();
            check_end(&m, &end, &mut *vm, &r).map_err(what)?;
        }
        Ok(())
    })
}
