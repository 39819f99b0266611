//! Running whole programs on the reference machine and on the engines, and comparing.

use crate::elf;
use crate::gen::*;
use crate::model::*;
use crate::runner::Fail;
use crate::src::mix;
use crate::vm::*;

/// The standard test host, shared by both sides through this view.
pub trait Host {
    fn get(&mut self, i: usize) -> u64;
    fn put(&mut self, i: usize, v: u64);
    fn st(&mut self, w: u64, a: u64, v: u64) -> Result<(), HErr>;
    fn ldb(&mut self, a: u64, n: u64) -> Result<Vec<u8>, HErr>;
    fn fillb(&mut self, a: u64, n: u64, v: u8) -> Result<(), HErr>;
    fn cyc(&mut self, n: u64, check: bool) -> Result<(), HErr>;
}
pub enum HErr {
    F(Fault),
    E(Error),
}
impl Host for Model {
    fn get(&mut self, i: usize) -> u64 {
        self.x[i]
    }
    fn put(&mut self, i: usize, v: u64) {
        self.set(i as u8, v)
    }
    fn st(&mut self, w: u64, a: u64, v: u64) -> Result<(), HErr> {
        self.mem.store(a, w, v).map_err(HErr::F)
    }
    fn ldb(&mut self, a: u64, n: u64) -> Result<Vec<u8>, HErr> {
        self.mem.load_bytes(a, n).map(|b| b.to_vec()).map_err(HErr::F)
    }
    fn fillb(&mut self, a: u64, n: u64, v: u8) -> Result<(), HErr> {
        self.mem.fill(a, n, v).map_err(HErr::F)
    }
    fn cyc(&mut self, n: u64, check: bool) -> Result<(), HErr> {
        if check {
            self.charge(n).map_err(HErr::F)
        } else {
            self.cycles = self.cycles.checked_add(n).ok_or(HErr::F(Fault::CyclesOverflow))?;
            Ok(())
        }
    }
}
pub struct VmHost<'a>(pub &'a mut dyn SM);
impl Host for VmHost<'_> {
    fn get(&mut self, i: usize) -> u64 {
        self.0.reg(i)
    }
    fn put(&mut self, i: usize, v: u64) {
        self.0.set_reg(i, v)
    }
    fn st(&mut self, w: u64, a: u64, v: u64) -> Result<(), HErr> {
        self.0.store(w, a, v).map_err(HErr::E)
    }
    fn ldb(&mut self, a: u64, n: u64) -> Result<Vec<u8>, HErr> {
        self.0.load_bytes(a, n).map(|b| b.to_vec()).map_err(HErr::E)
    }
    fn fillb(&mut self, a: u64, n: u64, v: u8) -> Result<(), HErr> {
        self.0.fill(a, n, v).map_err(HErr::E)
    }
    fn cyc(&mut self, n: u64, check: bool) -> Result<(), HErr> {
        if check { self.0.add_cycles(n) } else { self.0.add_cycles_nc(n) }.map_err(HErr::E)
    }
}

pub fn host_call(h: &mut dyn Host, code: u64) -> Result<bool, HErr> {
    let (a0, a1, a2) = (h.get(10), h.get(11), h.get(12));
    match code {
        2001 => h.put(10, mix(a0, a1)),
        2002 => h.st(1 << (a2 & 2), a1, a0)?,
        2003 => h.cyc(a0 & 63, true)?,
        2004 => h.fillb(a0, a1 & 0x1fff, a2 as u8)?,
        2005 => h.cyc(a0 & 63, false)?,
        2006 => {
            let b = h.ldb(a0, a1 & 255)?;
            let mut v = 7u64;
            for x in b {
                v = v.wrapping_mul(31).wrapping_add(x as u64);
            }
            h.put(10, v);
        }
        _ => return Ok(false),
    }
    Ok(true)
}

pub fn host_sys() -> (Option<InitFn>, SysFn) {
    (
        None,
        Box::new(|m: &mut dyn SM| {
            let code = m.reg(17);
            match host_call(&mut VmHost(m), code) {
                Ok(b) => Ok(b),
                Err(HErr::E(e)) => Err(e),
                Err(HErr::F(_)) => unreachable!(),
            }
        }),
    )
}

/// Complete an environment call on the reference machine.
pub fn model_ecall(m: &mut Model, code: u64) -> Result<(), Fault> {
    match host_call(m, code) {
        Ok(true) => {
            if m.cycles > m.max_cycles {
                return Err(Fault::CyclesExceeded);
            }
            Ok(())
        }
        Ok(false) => Err(Fault::Ecall(code)),
        Err(HErr::F(f)) => Err(f),
        Err(HErr::E(_)) => unreachable!(),
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Exit(i8),
    Fault(Fault),
    /// model step budget used up
    Limit,
}

pub fn model_run(m: &mut Model, limit: u64) -> End {
    let stop = m.steps + limit;
    loop {
        if m.steps >= stop {
            return End::Limit;
        }
        match m.step() {
            Ok(Ev::None) | Ok(Ev::Ebreak) => {}
            Ok(Ev::Exit(c)) => return End::Exit(c),
            Ok(Ev::Ecall(code)) => {
                if let Err(f) = model_ecall(m, code) {
                    return End::Fault(f);
                }
            }
            Err(f) => return End::Fault(f),
        }
    }
}

pub fn new_model(p: &PCfg) -> Model {
    Model::new(p.c.xlen, p.c.ver, p.isa(), Mem::new(p.mem, true))
}

pub fn load_model(p: &Prog) -> Result<Model, String> {
    let mut m = new_model(&p.p);
    elf::load_program(&mut m, &p.bytes, &p.args)?;
    Ok(m)
}

pub fn bargs(p: &Prog) -> Vec<Bytes> {
    p.args.iter().map(|a| Bytes::from(a.clone())).collect()
}

pub fn vm_cfg(k: Kind, p: &PCfg) -> VmCfg {
    VmCfg::new(k, p.isa(), p.c.ver, p.mem)
}

/// engines that can run a configuration, with the memory backend the case selects
pub fn kinds(p: &PCfg, flat: bool) -> Vec<Kind> {
    if p.c.xlen == 64 {
        ENGINES64.iter().map(|e| Kind::new(*e, 64, flat)).collect()
    } else {
        vec![Kind::new(Engine::Naive, 32, flat), Kind::new(Engine::Trace, 32, flat)]
    }
}

pub fn f(kind: &str, msg: String) -> Fail {
    Fail { kind: kind.to_string(), msg, key: None }
}

pub fn diff_regs(m: &Model, vm: &mut dyn SM) -> Result<(), String> {
    let r = vm.regs();
    for i in 0..32 {
        if r[i] != m.x[i] && m.fault_rd != Some((i as u8, r[i])) {
            return Err(format!("register {} is {:#x}, expected {:#x}", crate::isa::ABI[i], r[i], m.x[i]));
        }
    }
    Ok(())
}
pub fn diff_mem(m: &Model, vm: &mut dyn SM) -> Result<(), String> {
    if m.mem.size > 1 << 30 {
        // only what the program touched, and what a truncated address would confuse with it
        let mut ps = std::collections::BTreeSet::new();
        for p in (0..m.mem.size / PAGE).filter(|p| m.mem.flags[*p as usize] != 0) {
            for d in [0, 1, 1 << 19, 1 << 20] {
                ps.insert(p.wrapping_add(d));
                ps.insert(p.wrapping_sub(d));
            }
        }
        for p in ps.into_iter().filter(|p| *p < m.mem.size / PAGE) {
            let b = vm.load_bytes(p * PAGE, PAGE).map_err(|e| format!("memory unreadable: {e:?}"))?;
            let w = &m.mem.data[(p * PAGE) as usize..((p + 1) * PAGE) as usize];
            if b[..] != w[..] {
                let i = (0..b.len()).find(|i| b[*i] != w[*i]).unwrap();
                return Err(format!("memory byte {:#x} is {:#x}, expected {:#x}", p * PAGE + i as u64, b[i], w[i]));
            }
        }
        return Ok(());
    }
    let b = vm.load_bytes(0, m.mem.size).map_err(|e| format!("memory unreadable: {e:?}"))?;
    if b[..] != m.mem.data[..] {
        let i = (0..b.len()).find(|i| b[*i] != m.mem.data[*i]).unwrap();
        return Err(format!("memory byte {i:#x} is {:#x}, expected {:#x}", b[i], m.mem.data[i]));
    }
    Ok(())
}
pub fn diff_flags(m: &Model, vm: &mut dyn SM, faulted: bool) -> Result<(), String> {
    for pg in 0..m.mem.size / PAGE {
        let x = vm.flag(pg).map_err(|e| format!("flag of page {pg}: {e:?}"))?;
        // a write that failed on its later pages may have marked its earlier ones
        let slack = if faulted && x & F_DIRTY != 0 { F_DIRTY } else { 0 };
        if x != m.mem.flags[pg as usize] | slack {
            return Err(format!("flags of page {pg:#x} are {x:#x}, expected {:#x}", m.mem.flags[pg as usize]));
        }
    }
    Ok(())
}
pub fn diff_all(m: &Model, vm: &mut dyn SM) -> Result<(), String> {
    diff_state(m, vm, false)
}
pub fn diff_state(m: &Model, vm: &mut dyn SM, faulted: bool) -> Result<(), String> {
    diff_regs(m, vm)?;
    if vm.pc() != m.pc {
        return Err(format!("pc is {:#x}, expected {:#x}", vm.pc(), m.pc));
    }
    if vm.cycles() != m.cycles {
        return Err(format!("cycles are {}, expected {}", vm.cycles(), m.cycles));
    }
    if vm.lr() != if m.xlen == 32 { m.lr & 0xffff_ffff } else { m.lr } {
        return Err(format!("reservation is {:#x}, expected {:#x}", vm.lr(), m.lr));
    }
    diff_mem(m, vm)?;
    diff_flags(m, vm, faulted)
}

/// Compare how a program ended on an engine with how it ends on the reference machine.
/// Faults: the plain interpreters must report the modelled fault; block engines must fault.
pub fn check_end(m: &Model, end: &End, vm: &mut dyn Vm, r: &Res<i8>) -> Result<(), Fail> {
    let k = vm.kind();
    match (end, r) {
        (End::Exit(c), Ok(d)) => {
            if c != d {
                return Err(f("exit-code", format!("{k}: exit code {d}, expected {c}")));
            }
            diff_all(m, vm.sm()).map_err(|e| f("state", format!("{k}: after exit {c}: {e}")))
        }
        (End::Exit(c), Err(e)) => Err(f("spurious-error", format!("{k}: failed with {e:?}, expected exit code {c}"))),
        (End::Fault(x), Ok(d)) => Err(f("missed-fault", format!("{k}: exited with {d}, expected fault {x:?}"))),
        (End::Fault(x), Err(e)) => {
            let plain = matches!(k.engine, Engine::Naive | Engine::AsmNaive);
            if plain && !err_matches(x, e) {
                return Err(f("wrong-error", format!("{k}: failed with {e:?}, expected {x:?}")));
            }
            if plain {
                diff_state(m, vm.sm(), true).map_err(|d| f("fault-state", format!("{k}: after {e:?}: {d}")))?;
            }
            Ok(())
        }
        (End::Limit, _) => Ok(()),
    }
}

/// Run the model to the end of its current fused group.
pub fn model_group(m: &mut Model) -> Result<Ev, Fault> {
    loop {
        let e = m.step()?;
        if e != Ev::None || m.grp_left == 0 {
            return Ok(e);
        }
    }
}

/// Single-step an engine beside the reference machine, comparing after every step.
/// Returns how the program ended (Limit when `max` steps did not end it).
pub fn stepwise(m: &mut Model, vm: &mut dyn Vm, max: u64) -> Result<End, Fail> {
    let k = vm.kind();
    for n in 0..max {
        let pc = m.pc;
        let e = model_group(m);
        let e = match e {
            Ok(Ev::Ecall(c)) => model_ecall(m, c).map(|_| Ev::None),
            e => e,
        };
        let r = vm.step();
        match (&e, r) {
            (Ok(ev), Ok(())) => {
                diff_regs(m, vm.sm()).map_err(|d| f("state", format!("{k}: step {n} at {pc:#x}: {d}")))?;
                if vm.sm().pc() != m.pc {
                    return Err(f("pc", format!("{k}: step {n} at {pc:#x}: pc is {:#x}, expected {:#x}", vm.sm().pc(), m.pc)));
                }
                if vm.sm().cycles() != m.cycles {
                    return Err(f("cycles", format!("{k}: step {n} at {pc:#x}: cycles are {}, expected {}", vm.sm().cycles(), m.cycles)));
                }
                if let Ev::Exit(c) = ev {
                    if vm.exit_code() != *c || vm.running() {
                        return Err(f("exit-code", format!("{k}: exit code {} running {}, expected exit code {c}", vm.exit_code(), vm.running())));
                    }
                    diff_all(m, vm.sm()).map_err(|d| f("state", format!("{k}: after exit: {d}")))?;
                    return Ok(End::Exit(*c));
                }
            }
            (Ok(_), Err(e)) => return Err(f("spurious-error", format!("{k}: step {n} at {pc:#x} failed with {e:?}"))),
            (Err(x), Ok(())) => return Err(f("missed-fault", format!("{k}: step {n} at {pc:#x} did not fail with {x:?}"))),
            (Err(x), Err(e)) => {
                if !err_matches(x, &e) {
                    return Err(f("wrong-error", format!("{k}: step {n} at {pc:#x} failed with {e:?}, expected {x:?}")));
                }
                diff_state(m, vm.sm(), true).map_err(|d| f("fault-state", format!("{k}: step {n} at {pc:#x} after {e:?}: {d}")))?;
                return Ok(End::Fault(x.clone()));
            }
        }
    }
    diff_all(m, vm.sm()).map_err(|d| f("state", format!("{k}: after {max} steps: {d}")))?;
    Ok(End::Limit)
}

pub fn h(e: String) -> Fail {
    f("setup", e)
}
