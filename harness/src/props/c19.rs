//! C19: environment calls and breakpoints reach the host as documented.

use crate::exec::*;
use crate::gen::*;
use crate::isa::*;
use crate::model::*;
use crate::online::*;
use crate::props::c14::targets;
use crate::runner::*;
use crate::src::{mix, Src};
use crate::vm::*;
use std::sync::{Arc, Mutex};

pub static PROP: Prop = Prop {
    id: "C19",
    rule: "at least two environment calls or breakpoints reached, or a call that no handler claimed",
    assumptions: &["a handler moves the program counter with update_pc and commit_pc; the program counter it sees is that of the call or of the next instruction"],
    cases: (50_000, 2_000_000),
    fixed: 0,
    preset: no_preset,
    run,
    probes: &[],
};

#[derive(Clone, Debug)]
enum Act {
    Reg(usize, u64),
    Mix(usize, usize),
    St(u64, u64, u64),
    Fill(u64, u64, u8),
    Ld(u64, u64),
    Cyc(u64, bool),
    Pc(u64),
    Lr(u64),
}
#[derive(Clone, Debug, PartialEq)]
enum Out {
    Decline,
    Claim,
    Fail(u64),
}
#[derive(Clone, Debug)]
struct Beh {
    acts: Vec<Act>,
    out: Out,
    look: bool,
}
fn error(k: u64) -> Error {
    match k {
        0 => Error::Yield,
        1 => Error::InvalidEcall(7),
        2 => Error::Unexpected("handler".into()),
        3 => Error::CyclesExceeded,
        k => Error::External(format!("stop {k}")),
    }
}

/// what a handler sees
#[derive(Clone, Debug, PartialEq)]
struct Rec {
    what: String,
    regs: [u64; 32],
    pcs: Vec<u64>,
    cycles: u64,
    lr: u64,
    mem: Option<u64>,
}
fn digest(b: &[u8]) -> u64 {
    let mut h = 0u64;
    for c in b.chunks(8) {
        let mut w = [0; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23);
    }
    h
}
trait Side: Host {
    fn rec(&mut self, what: String, look: bool) -> Rec;
    fn jump(&mut self, pc: u64);
    fn reserve(&mut self, a: u64);
}
struct ModelSide<'a>(&'a mut Model, Vec<u64>);
impl Host for ModelSide<'_> {
    fn get(&mut self, i: usize) -> u64 {
        self.0.get(i)
    }
    fn put(&mut self, i: usize, v: u64) {
        Host::put(self.0, i, v)
    }
    fn st(&mut self, w: u64, a: u64, v: u64) -> Result<(), HErr> {
        self.0.st(w, a, v)
    }
    fn ldb(&mut self, a: u64, n: u64) -> Result<Vec<u8>, HErr> {
        self.0.ldb(a, n)
    }
    fn fillb(&mut self, a: u64, n: u64, v: u8) -> Result<(), HErr> {
        self.0.fillb(a, n, v)
    }
    fn cyc(&mut self, n: u64, check: bool) -> Result<(), HErr> {
        self.0.cyc(n, check)
    }
}
fn trunc(m: &Model, v: u64) -> u64 {
    if m.xlen == 32 {
        v & 0xffff_ffff
    } else {
        v
    }
}
impl Side for ModelSide<'_> {
    fn rec(&mut self, what: String, look: bool) -> Rec {
        let m = &*self.0;
        Rec { what, regs: m.x, pcs: self.1.clone(), cycles: m.cycles, lr: trunc(m, m.lr), mem: look.then(|| digest(&m.mem.data)) }
    }
    fn jump(&mut self, pc: u64) {
        self.0.pc = trunc(self.0, pc);
    }
    fn reserve(&mut self, a: u64) {
        self.0.lr = trunc(self.0, a);
    }
}
impl Side for VmHost<'_> {
    fn rec(&mut self, what: String, look: bool) -> Rec {
        let n = self.0.mem_size();
        Rec {
            what,
            regs: self.0.regs(),
            pcs: vec![self.0.pc()],
            cycles: self.0.cycles(),
            lr: self.0.lr(),
            mem: look.then(|| self.0.load_bytes(0, n).map(|b| digest(&b)).unwrap_or(0)),
        }
    }
    fn jump(&mut self, pc: u64) {
        self.0.set_pc(pc)
    }
    fn reserve(&mut self, a: u64) {
        self.0.set_lr(a)
    }
}

fn act(h: &mut dyn Side, b: &Beh) -> Result<(), HErr> {
    for a in &b.acts {
        match a {
            Act::Reg(i, v) => h.put(*i, *v),
            Act::Mix(i, j) => {
                let v = mix(h.get(*i), h.get(*j));
                h.put(*i, v)
            }
            Act::St(w, a, v) => h.st(*w, *a, *v)?,
            Act::Fill(a, n, v) => h.fillb(*a, *n, *v)?,
            Act::Ld(a, n) => {
                let d = digest(&h.ldb(*a, *n)?);
                h.put(11, d)
            }
            Act::Cyc(n, c) => h.cyc(*n, *c)?,
            Act::Pc(p) => h.jump(*p),
            Act::Lr(p) => h.reserve(*p),
        }
    }
    Ok(())
}

struct Plan {
    /// what each handler does at the n-th call
    calls: Vec<Vec<Beh>>,
    breaks: Vec<Beh>,
    inits: Vec<Beh>,
    dbg: bool,
}
impl Plan {
    fn at<'a>(v: &'a [Vec<Beh>], n: usize, h: usize) -> &'a Beh {
        &v[n % v.len()][h]
    }
}
/// one side's progress
#[derive(Default)]
struct State {
    n: usize,
    brk: usize,
    log: Vec<Rec>,
}

fn gen_beh(s: &mut Src, outs: &[u32], set: &Spots) -> Beh {
    let n = s.weighted(&[4, 3, 2, 1]);
    let mut acts = vec![];
    for _ in 0..n {
        let any = |s: &mut Src| if s.chance(1, 8) { s.range(1, 31) as usize } else { *s.pick(&[5usize, 6, 7, 10, 11, 12, 13, 14, 17, 28]) };
        acts.push(match s.weighted(&[4, 3, 3, 2, 2, 2, 1, 1]) {
            0 => {
                let v = s.val();
                Act::Reg(any(s), v)
            }
            1 => {
                let i = any(s);
                Act::Mix(i, any(s))
            }
            2 => {
                let w = 1 << s.below(4);
                let a = if s.chance(1, 12) { set.size - s.below(10) } else { set.data + s.below(8000) };
                let v = s.val();
                Act::St(w, a, if set.xlen == 32 { v & 0xffff_ffff } else { v })
            }
            3 => {
                let a = if s.chance(1, 12) { set.code } else { set.data + s.below(8000) };
                Act::Fill(a, s.below(5000), s.below(256) as u8)
            }
            4 => Act::Ld(s.below(set.size), s.below(300)),
            5 => Act::Cyc(if s.chance(1, 8) { s.val() } else { s.below(1000) }, s.bool()),
            6 => Act::Pc(if set.labels.is_empty() || s.chance(1, 10) { (s.val() >> if set.ver < 2 { 33 } else { 0 }) & !1 } else { *s.pick(&set.labels) }),
            _ => Act::Lr(set.data + s.below(100)),
        });
    }
    let out = match s.weighted(outs) {
        0 => Out::Decline,
        1 => Out::Claim,
        _ => Out::Fail(s.below(8)),
    };
    Beh { acts, out, look: s.chance(1, 5) }
}
struct Spots {
    data: u64,
    code: u64,
    size: u64,
    xlen: u32,
    ver: u32,
    labels: Vec<u64>,
}

fn gen_code(s: &mut Src, p: &PCfg) -> (Setup, Vec<u64>) {
    let c = p.c;
    let mut a = Asm::default();
    let free = [5u8, 6, 7, 10, 11, 12, 13, 14, 15, 28, 29, 30];
    let mut regs = [0u64; 32];
    for r in free {
        regs[r as usize] = s.val();
    }
    let data = 0x20000 + s.below(64) * 8;
    regs[8] = data;
    regs[18] = s.range(1, 5);
    regs[17] = s.val();
    let top = a.label();
    let mut labs = vec![top];
    a.lab(top);
    let parts = s.range(1, 6);
    for _ in 0..parts {
        for _ in 0..s.weighted(&[3, 3, 3, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]) {
            match s.weighted(&[8, 1, 1]) {
                0 => {
                    let i = gen_alu(s, &c, &free, &free);
                    a.ic(i, s.bool());
                }
                1 => a.op(if c.xlen == 64 { Op::Sd } else { Op::Sw }, 0, 8, *s.pick(&free), 8 * s.below(100) as i64),
                _ => a.op(if c.xlen == 64 { Op::Ld } else { Op::Lw }, *s.pick(&free), 8, 0, 8 * s.below(100) as i64),
            }
        }
        if s.chance(1, 6) {
            let l = a.label();
            labs.push(l);
            a.br(Inst::new(*s.pick(&[Op::Beq, Op::Blt, Op::Bgeu]), 0, *s.pick(&free), *s.pick(&free), 0), l);
            a.op(Op::Addi, 12, 12, 0, 1);
            a.lab(l);
        } else if s.chance(1, 3) {
            let l = a.label();
            labs.push(l);
            a.lab(l);
        }
        if s.chance(2, 3) {
            let v = match s.below(6) {
                0 => 93,
                1 => *s.pick(&[93 + (1u64 << 32), 92, 94, 0, u64::MAX, 93 | 1 << 63, 0x5d00]),
                2 => s.val(),
                _ => s.range(2000, 2010),
            };
            if v != 93 || s.chance(1, 4) {
                a.li(17, v, c.xlen);
            }
        }
        if s.chance(1, 4) {
            a.ic(Inst::new(Op::Ebreak, 0, 0, 0, 0), s.bool());
        } else {
            a.op(Op::Ecall, 0, 0, 0, 0);
        }
    }
    a.op(Op::Addi, 18, 18, 0, -1);
    a.br(Inst::new(Op::Blt, 0, 0, 18, 0), top);
    a.op(Op::Addi, 17, 0, 0, 93);
    a.op(Op::Ecall, 0, 0, 0, 0);
    let base = 0x1000 * s.range(1, 8) + *s.pick(&[0u64, 0, 0, 0xff0, 0xffa, 0x100]);
    let (code, l) = a.assemble(base, &c);
    let labels = labs.iter().map(|i| l[*i]).collect();
    let page = base / PAGE * PAGE;
    let mut v = vec![0u8; (base - page) as usize];
    v.extend(code);
    while v.len() as u64 % PAGE != 0 {
        v.push(0);
    }
    for r in regs.iter_mut() {
        if c.xlen == 32 {
            *r &= 0xffff_ffff;
        }
    }
    (Setup { p: *p, regs, pc: base, code_base: page, code: v, blobs: vec![], cost: Cost::One, max_cycles: u64::MAX }, labels)
}

#[derive(Debug, Clone)]
enum Fin {
    Exit(i8),
    Fault(Fault),
    Handler(String),
    /// the same, raised while an environment call or breakpoint was served
    Served(Fault),
    Limit,
}

fn model_side(m: &mut Model, pl: &Plan, n_handlers: usize, st: &mut State) -> Fin {
    loop {
        if m.steps > 3000 || st.n > 200 {
            return Fin::Limit;
        }
        let pc = m.pc;
        let e = m.step();
        match e {
            Ok(Ev::None) => {}
            Ok(Ev::Exit(c)) => return Fin::Exit(c),
            Err(x) => return Fin::Fault(x),
            Ok(Ev::Ecall(code)) => {
                let n = st.n;
                st.n += 1;
                let mut claimed = false;
                for h in 0..n_handlers {
                    let b = Plan::at(&pl.calls, n, h);
                    let pcs = vec![pc, m.pc];
                    let mut side = ModelSide(m, pcs);
                    let r = side.rec(format!("call {n} handler {h}"), b.look);
                    st.log.push(r);
                    match act(&mut side, b) {
                        Ok(()) => {}
                        Err(HErr::F(x)) => return Fin::Served(x),
                        Err(HErr::E(_)) => unreachable!(),
                    }
                    match b.out {
                        Out::Decline => {}
                        Out::Claim => {
                            claimed = true;
                            break;
                        }
                        Out::Fail(k) => return Fin::Handler(format!("{:?}", error(k))),
                    }
                }
                if !claimed {
                    return Fin::Served(Fault::Ecall(code));
                }
                if m.cycles > m.max_cycles {
                    return Fin::Served(Fault::CyclesExceeded);
                }
            }
            Ok(Ev::Ebreak) => {
                if !pl.dbg {
                    continue;
                }
                let n = st.brk;
                st.brk += 1;
                let b = &pl.breaks[n % pl.breaks.len()];
                let pcs = vec![pc, m.pc];
                let mut side = ModelSide(m, pcs);
                let r = side.rec(format!("breakpoint {n}"), b.look);
                st.log.push(r);
                match act(&mut side, b) {
                    Ok(()) => {}
                    Err(HErr::F(x)) => return Fin::Served(x),
                    Err(HErr::E(_)) => unreachable!(),
                }
                if let Out::Fail(k) = b.out {
                    return Fin::Handler(format!("{:?}", error(k)));
                }
            }
        }
    }
}

fn vm_act(sm: &mut dyn SM, b: &Beh) -> Result<bool, Error> {
    match act(&mut VmHost(sm), b) {
        Ok(()) => {}
        Err(HErr::E(e)) => return Err(e),
        Err(HErr::F(_)) => unreachable!(),
    }
    match b.out {
        Out::Decline => Ok(false),
        Out::Claim => Ok(true),
        Out::Fail(k) => Err(error(k)),
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let xlen = if s.chance(1, 5) { 32 } else { 64 };
    let mut p = gen_cfg(s, xlen);
    p.mem = FRAME;
    let (mut set, labels) = gen_code(s, &p);
    let cost = [Cost::One, Cost::Published, Cost::Zero][s.usize(3)];
    let spots = Spots { data: set.regs[8], code: set.code_base, size: p.mem, xlen: xlen as u32, ver: p.c.ver as u32, labels };
    let nh = if s.chance(1, 40) { s.range(5, 12) as usize } else { s.weighted(&[1, 3, 4, 3, 1]) };
    let rounds = s.range(1, 8);
    let mut calls = vec![];
    for _ in 0..rounds {
        let mut v = vec![];
        for h in 0..nh {
            let last = h + 1 == nh;
            v.push(gen_beh(s, if last { &[1, 24, 1] } else { &[12, 12, 1] }, &spots));
        }
        calls.push(v);
    }
    let dbg = s.chance(2, 3);
    let breaks: Vec<Beh> = (0..s.range(1, 4)).map(|_| gen_beh(s, &[1, 16, 1], &spots)).collect();
    // start-up: the program comes from an image for some cases
    let loaded = s.chance(1, 3);
    let mut inits: Vec<Beh> = vec![];
    for _ in 0..nh + dbg as usize {
        let mut b = gen_beh(s, &[1, 30, 1], &spots);
        b.acts.retain(|a| !matches!(a, Act::Pc(_)));
        inits.push(b);
    }
    let pl = Arc::new(Plan { calls, breaks, inits, dbg });
    let max = if s.chance(1, 6) { s.range(1, 3000) } else { u64::MAX };
    set.max_cycles = max;
    set.cost = cost;
    // the reference
    let mut st = State::default();
    let mut init_fin = None;
    let (m0, bytes) = if loaded {
        let img = crate::elf::Image {
            bits: xlen,
            entry: set.pc,
            segs: vec![crate::elf::Seg { vaddr: set.code_base, memsz: set.code.len() as u64, data: set.code.clone(), flags: 5 }],
        };
        let b = img.bytes();
        let mut m = new_model(&p);
        m.cost = cost;
        m.max_cycles = max;
        crate::elf::load(&mut m, &b).map_err(|e| h(format!("image: {e}")))?;
        for (i, b) in pl.inits.iter().enumerate() {
            let pc = m.pc;
            let mut side = ModelSide(&mut m, vec![pc]);
            let r = side.rec(format!("init {i}"), b.look);
            st.log.push(r);
            match act(&mut side, b) {
                Ok(()) => {}
                Err(HErr::F(x)) => {
                    init_fin = Some(Fin::Served(x));
                    break;
                }
                Err(HErr::E(_)) => unreachable!(),
            }
            if let Out::Fail(k) = b.out {
                init_fin = Some(Fin::Handler(format!("{:?}", error(k))));
                break;
            }
        }
        if init_fin.is_none() {
            let n = p.mem;
            crate::elf::stack(&mut m, &[], n - n / 4, n / 4).map_err(|e| h(format!("stack: {e:?}")))?;
        }
        (m, Some(b))
    } else {
        (set.model(), None)
    };
    let mut m = m0;
    m.cost = cost;
    m.max_cycles = max;
    let fin = match &init_fin {
        Some(x) => x.clone(),
        None => model_side(&mut m, &pl, nh, &mut st),
    };
    if matches!(fin, Fin::Limit) {
        ctx.label("not used");
        return Ok(());
    }
    ctx.nt(st.n + st.brk >= 2 || matches!(fin, Fin::Served(Fault::Ecall(_))));
    ctx.label(match &fin {
        Fin::Exit(_) => "exit",
        Fin::Fault(_) => "fault outside handlers",
        Fin::Handler(_) if init_fin.is_some() => "refused by an initialiser",
        Fin::Handler(_) => "stopped by a handler",
        Fin::Served(Fault::Ecall(_)) => "unclaimed call",
        _ => "fault within a handler",
    });
    ctx.label_n("calls", st.n as u64);
    ctx.label_n("breakpoints", st.brk as u64);
    let rend = || format!("{nh} handlers, calls {:?}, breaks {:?}, inits {:?} | {}", pl.calls, if dbg { &pl.breaks[..] } else { &[] }, if loaded { &pl.inits[..] } else { &[] }, set.render());
    ctx.sample(rend);
    let mut ks = vec![targets(&p, s)];
    if xlen == 64 {
        ks.push(Kind::new(*s.pick(&[Engine::Asm, Engine::AsmMemoDyn, Engine::AsmMemoFixed]), 64, true));
    }
    for k in ks {
        let mode = s.below(3);
        let sh = Arc::new(Mutex::new(State::default()));
        let mut c = vm_cfg(k, &p).cycles(max, cost);
        for hd in 0..nh {
            let (pl2, sh2) = (pl.clone(), sh.clone());
            let (pl3, sh3) = (pl.clone(), sh.clone());
            let init: InitFn = Box::new(move |sm| {
                let b = &pl3.inits[hd];
                let r = VmHost(sm).rec(format!("init {hd}"), b.look);
                sh3.lock().unwrap().log.push(r);
                vm_act(sm, b).map(|_| ())
            });
            let call: SysFn = Box::new(move |sm| {
                let mut g = sh2.lock().unwrap();
                if hd == 0 {
                    g.n += 1;
                }
                let n = g.n.max(1) - 1;
                let b = Plan::at(&pl2.calls, n, hd);
                let r = VmHost(sm).rec(format!("call {n} handler {hd}"), b.look);
                g.log.push(r);
                vm_act(sm, b)
            });
            c.syscalls.push((Some(init), call));
        }
        if dbg {
            let (pl2, sh2) = (pl.clone(), sh.clone());
            let (pl3, sh3) = (pl.clone(), sh.clone());
            let init: InitFn = Box::new(move |sm| {
                let b = &pl3.inits[nh];
                let r = VmHost(sm).rec(format!("init {nh}"), b.look);
                sh3.lock().unwrap().log.push(r);
                vm_act(sm, b).map(|_| ())
            });
            let brk: BrkFn = Box::new(move |sm| {
                let mut g = sh2.lock().unwrap();
                g.brk += 1;
                let n = g.brk - 1;
                let b = &pl2.breaks[n % pl2.breaks.len()];
                let r = VmHost(sm).rec(format!("breakpoint {n}"), b.look);
                g.log.push(r);
                vm_act(sm, b).map(|_| ())
            });
            c.debugger = Some((Some(init), brk));
        }
        let mut vm = build(c);
        let r = match &bytes {
            Some(b) => vm.load_program(&Bytes::from(b.clone()), &[]).map(|_| ()),
            None => {
                set.apply(vm.sm()).map_err(h)?;
                Ok(())
            }
        };
        let how = ["run", "run on one decoder", "steps"][mode as usize];
        let r = match r {
            Err(e) => Err(e),
            Ok(()) => match mode {
                0 => vm.run(),
                1 => vm.run_kept(),
                _ => {
                    vm.sm().set_running(true);
                    loop {
                        if let Err(e) = vm.step() {
                            break Err(e);
                        }
                        if !vm.running() {
                            break Ok(vm.exit_code());
                        }
                    }
                }
            },
        };
        ctx.evals += 1;
        let say = |x: String| format!("{k} {how}: {x} | {}", rend());
        // what the handlers saw
        let got = sh.lock().unwrap();
        let early = matches!(r, Err(Error::CyclesExceeded)) && max != u64::MAX && mode != 2 && matches!(k.engine, Engine::Asm | Engine::AsmMemoFixed | Engine::AsmMemoDyn);
        let lookahead = matches!(fin, Fin::Fault(_)) && k.engine.decodes_ahead();
        for (i, w) in st.log.iter().enumerate() {
            match got.log.get(i) {
                None if early || lookahead => break,
                None => return Err(f("missing", say(format!("{} was not reached; {r:?}", w.what)))),
                Some(g) => {
                    let mut g = g.clone();
                    let ok = w.pcs.contains(&g.pcs[0]);
                    if ok {
                        g.pcs = w.pcs.clone();
                    }
                    if g != *w {
                        let d = (0..32).find(|i| g.regs[*i] != w.regs[*i]);
                        let t = match d {
                            _ if g.what != w.what => format!("{} instead of {}", g.what, w.what),
                            Some(i) => format!("{} saw register {} as {:#x}, expected {:#x}", w.what, ABI[i], g.regs[i], w.regs[i]),
                            None if !ok => format!("{} saw pc {:#x}, expected {:x?}", w.what, g.pcs[0], w.pcs),
                            None if g.cycles != w.cycles => format!("{} saw {} cycles, expected {}", w.what, g.cycles, w.cycles),
                            None if g.lr != w.lr => format!("{} saw reservation {:#x}, expected {:#x}", w.what, g.lr, w.lr),
                            _ => format!("{} saw other memory than expected", w.what),
                        };
                        return Err(f("seen", say(t)));
                    }
                }
            }
        }
        ensure!(got.log.len() <= st.log.len(), "extra", "{}", say(format!("unexpected {}", got.log[st.log.len()].what)));
        drop(got);
        let plain = |e: &Error| format!("{e:?}");
        match (&fin, &r) {
            (Fin::Handler(w), Err(e)) => ensure!(*w == plain(e) || early, "error", "{}", say(format!("ended with {e:?}, expected {w}"))),
            (Fin::Served(x), Err(e)) => ensure!(err_matches(x, e) || early, "error", "{}", say(format!("ended with {e:?}, expected {x:?}"))),
            (Fin::Exit(c), r) => check_end(&m, &End::Exit(*c), &mut *vm, r).map_err(|mut x| {
                x.msg = say(x.msg);
                x
            })?,
            (Fin::Fault(x), r) => check_end(&m, &End::Fault(x.clone()), &mut *vm, r).map_err(|mut x| {
                x.msg = say(x.msg);
                x
            })?,
            (_, Ok(c)) => return Err(f("error", say(format!("exited with {c}, expected {fin:?}")))),
            (Fin::Limit, _) => {}
        }
        if matches!(fin, Fin::Handler(_) | Fin::Served(_)) && !early {
            // everything up to the call has happened, nothing after it
            diff_state(&m, vm.sm(), true).map_err(|e| f("state", say(format!("after {r:?}: {e}"))))?;
        }
    }
    Ok(())
}
