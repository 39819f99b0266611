//! C06: macro-operation fusion changes nothing but cycles.

use crate::exec::*;
use crate::gen::*;
use crate::isa::*;
use crate::model::*;
use crate::online::*;
use crate::runner::*;
use crate::src::Src;
use crate::vm::*;

pub static PROP: Prop = Prop {
    id: "C06",
    rule: "window cases: at least one window that is fused and one near miss; flow cases: at least one fused group executed",
    assumptions: &["without fusion the reference simulator executes instructions one by one"],
    cases: (80_000, 2_500_000),
    fixed: 0,
    preset: no_preset,
    run,
    probes: &[],
};

fn run(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    if s.chance(1, 150) {
        let xlen = if s.chance(1, 4) { 32 } else { 64 };
        super::vast::run(s, ctx, xlen, true, [4, 2, 1, 3, 0, 12, 0])
    } else if s.chance(1, 4) {
        flow(s, ctx)
    } else {
        windows(s, ctx)
    }
}

/// a window: usually from the templates, sometimes a far jump pair
fn window(s: &mut Src, c: &Cfg) -> Vec<Inst> {
    use Op::*;
    let i = Inst::new;
    let few: Vec<u8> = match s.below(4) {
        0 => (0..32).collect(),
        1 => vec![5, 6, 7],
        2 => vec![0, 5, 6, 7, 10],
        _ => (1..32).collect(),
    };
    if s.chance(1, 5) {
        let r = if s.chance(3, 4) { 1 } else { *s.pick(&few) };
        let l = if s.chance(3, 4) { 1 } else { *s.pick(&few) };
        let q = if s.chance(5, 6) { r } else { *s.pick(&few) };
        return vec![i(*s.pick(&[Lui, Auipc]), r, 0, 0, imm_u(s)), i(Jalr, l, q, 0, imm12(s))];
    }
    if s.chance(1, 12) {
        return vec![i(Lui, *s.pick(&few), 0, 0, imm_u(s)), i(*s.pick(&[Addi, Addiw]), *s.pick(&few), *s.pick(&few), 0, imm12(s))];
    }
    mop_window(s, c, &few)
}

/// single windows, entered at every instruction, on many operand sets
fn windows(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let xlen = if s.chance(1, 4) { 32 } else { 64 };
    let mut p = gen_cfg(s, xlen);
    p.c.ver = *s.pick(&[1, 2, 2]);
    p.mop = true;
    p.mem = 512 * 1024;
    let flat = s.bool();
    let code_base = *s.pick(&[0u64, 0x10000]);
    let mut code = vec![0u8; 2 * PAGE as usize];
    let mut wins: Vec<(u64, Vec<Inst>, Vec<u64>)> = vec![];
    for k in 0..24u64 {
        let mut w: Vec<Inst> = window(s, &p.c).into_iter().filter(|n| avail(n.op.info(), &p.c)).collect();
        let mut b = vec![];
        let mut offs = vec![];
        for n in &w {
            offs.push(b.len() as u64);
            let comp = s.chance(1, 3);
            enc_into(&mut b, n, comp, &p.c);
        }
        // what follows: nothing decodable, or a no-op
        if k != 23 && s.bool() {
            let n = Inst::new(Op::Addi, 0, 0, 0, 0);
            offs.push(b.len() as u64);
            enc_into(&mut b, &n, s.bool(), &p.c);
            w.push(n);
        }
        offs.push(b.len() as u64);
        b.extend_from_slice(&[0, 0]);
        let at = if k == 23 {
            // at the end of the executable region
            2 * PAGE - *offs.last().unwrap()
        } else if k == 22 {
            PAGE - 2 * s.range(1, 8)
        } else {
            k * 64 + 2 * s.below(2)
        };
        let a = at as usize;
        let n = b.len().min(code.len() - a);
        code[a..a + n].copy_from_slice(&b[..n]);
        wins.push((code_base + at, w, offs));
    }
    let mut regs = [0u64; 32];
    for r in regs.iter_mut().skip(1) {
        *r = operand(s);
    }
    let set = Setup { p, regs, pc: code_base, code_base, code, blobs: vec![], cost: Cost::One, max_cycles: u64::MAX };
    // the same code without fusion
    let mut m0 = set.model();
    m0.mop = false;
    let probe = set.model();
    let mut vms = vec![set.vm(Kind::new(Engine::Naive, xlen, flat)).map_err(h)?];
    if xlen == 64 {
        vms.push(set.vm(Kind::new(Engine::Asm, 64, true)).map_err(h)?);
    }
    let (mut hit, mut miss) = (0, 0);
    // where exactly a jump out of memory leads is not observable: it fails
    let outside = |pc: u64| pc >= p.mem;
    for (at, w, offs) in &wins {
        let end = at + offs.last().unwrap();
        for o in &offs[..offs.len() - 1] {
            let pc = at + o;
            let fu = probe.fuse_at(pc);
            // version 1 far jumps do not write the first instruction's register: frozen behaviour
            if let Some((x, _)) = fu {
                ctx.label(x.name());
                hit += 1;
                if x.ends_block() && p.c.ver < 2 {
                    continue;
                }
            } else if *o == 0 {
                miss += 1;
            }
            for _ in 0..3 {
                let mut m = m0.clone_small(&regs, pc);
                for n in w {
                    for r in [n.rs1, n.rs2, n.rd] {
                        if r != 0 && s.chance(1, 2) {
                            m.set(r, operand(s));
                        }
                    }
                }
                let start = m.x;
                // states the one-by-one execution goes through
                let mut states = vec![(m.x, m.pc)];
                let mut fault = None;
                // until control leaves the window or jumps within it
                let mut seen = pc;
                while m.pc >= seen && m.pc < end && offs.contains(&(m.pc - at)) && states.len() < 8 {
                    seen = m.pc + 2;
                    match m.step_in(&m0.mem) {
                        Ok(_) => states.push((m.x, m.pc)),
                        Err(e) => {
                            fault = Some(e);
                            break;
                        }
                    }
                }
                ctx.evals += 1;
                for vm in vms.iter_mut() {
                    let kd = vm.kind();
                    for r in 1..32 {
                        vm.sm().set_reg(r, start[r]);
                    }
                    vm.sm().set_pc(pc);
                    vm.sm().set_cycles(0);
                    let mut at_state = 0;
                    let what = |r: &dyn std::fmt::Debug| {
                        let v: Vec<String> = w.iter().map(|n| n.to_string()).collect();
                        format!("{kd} {p}: {} entered at +{o} with {:x?}: {r:?}", v.join("; "), w.iter().map(|n| (start[n.rs1 as usize], start[n.rs2 as usize])).collect::<Vec<_>>())
                    };
                    while at_state + 1 < states.len() {
                        if let Err(e) = vm.step() {
                            return Err(f("error", format!("{}: after {at_state} instructions", what(&e))));
                        }
                        let got = (vm.sm().regs(), vm.sm().pc());
                        match (at_state + 1..states.len().min(at_state + 6)).find(|k| states[*k].0 == got.0 && (states[*k].1 == got.1 || outside(states[*k].1) && outside(got.1))) {
                            Some(k) => at_state = k,
                            None => {
                                let (x, y) = &states[states.len().min(at_state + 6) - 1];
                                let d: Vec<String> = (0..32).filter(|k| got.0[*k] != x[*k]).map(|k| format!("{}={:#x} not {:#x}", ABI[k], got.0[k], x[k])).collect();
                                return Err(f("state", format!("{}: after instruction {at_state} no state of the unfused execution; at its end pc {:#x} not {y:#x}", what(&d), got.1)));
                            }
                        }
                    }
                    if let Some(x) = &fault {
                        match vm.step() {
                            Ok(()) => return Err(f("missed-fault", format!("{}: expected {x:?}", what(&"no error")))),
                            Err(e) if !err_matches(x, &e) => return Err(f("wrong-error", format!("{}: expected {x:?}", what(&e)))),
                            _ => {}
                        }
                    }
                }
            }
        }
    }
    ctx.nt(hit > 0 && miss > 0);
    ctx.label("windows");
    ctx.sample(|| format!("{p}: {}", wins.iter().take(6).map(|(_, w, _)| w.iter().map(|n| n.to_string()).collect::<Vec<_>>().join("; ")).collect::<Vec<_>>().join(" | ")));
    Ok(())
}

/// code rich in fusable windows: with and without fusion, all engines
fn flow(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let xlen = if s.chance(1, 5) { 32 } else { 64 };
    let mut p = gen_cfg(s, xlen);
    p.c.ver = *s.pick(&[1, 2, 2]);
    p.mop = true;
    let flat = s.bool();
    let steps = s.range(5, 60);
    let (set, _) = OnGen::new(s, p, On { steps, hop: 8, fault: 6, w: [4, 2, 1, 3, 0, 12, 0], ..On::default() }).generate();
    let mut m = set.model();
    let end = model_run(&mut m, 5000);
    if end == End::Limit {
        return Ok(());
    }
    ctx.evals += m.steps;
    ctx.nt(!m.fused.is_empty());
    ctx.label("flow");
    ctx.label_n("fused groups executed", m.fused.len() as u64);
    ctx.sample(|| set.render());
    let far1 = p.c.ver < 2 && m.fused.iter().any(|(_, x)| x.ends_block());
    // the oracle: the very same machine without fusion
    let mut plain = set.clone();
    plain.p.mop = false;
    let k0 = Kind::new(Engine::Naive, xlen, flat);
    let mut v0 = plain.vm(k0).map_err(h)?;
    let r0 = v0.run();
    let (r0regs, r0pc) = (v0.sm().regs(), v0.sm().pc());
    let m0 = v0.sm().load_bytes(0, p.mem).map_err(|e| f("memory", format!("{e:?}")))?;
    for k in kinds(&p, flat) {
        let mut vm = set.vm(k).map_err(h)?;
        let r = vm.run();
        let what = || format!("{k} | {}", set.render());
        if far1 {
            check_end(&m, &end, &mut *vm, &r).map_err(|mut x| {
                x.msg = format!("{} | {}", x.msg, set.render());
                x
            })?;
            continue;
        }
        match (&r0, &r) {
            (Ok(a), Ok(b)) if a == b => {
                let regs = vm.sm().regs();
                if regs != r0regs || vm.sm().pc() != r0pc {
                    let d: Vec<String> = (0..32).filter(|i| regs[*i] != r0regs[*i]).map(|i| format!("{}={:#x} not {:#x}", ABI[i], regs[i], r0regs[i])).collect();
                    return Err(f("state", format!("{}: registers differ from the unfused run: {d:?}", what())));
                }
                let mm = vm.sm().load_bytes(0, p.mem).map_err(|e| f("memory", format!("{e:?}")))?;
                if mm != m0 {
                    return Err(f("memory", format!("{}: memory differs from the unfused run", what())));
                }
            }
            (Err(a), Err(b)) => {
                if matches!(k.engine, Engine::Naive | Engine::AsmNaive) && std::mem::discriminant(a) != std::mem::discriminant(b) {
                    return Err(f("wrong-error", format!("{}: {b:?}, without fusion {a:?}", what())));
                }
            }
            (a, b) => return Err(f("result", format!("{}: {b:?}, without fusion {a:?}", what()))),
        }
    }
    Ok(())
}
