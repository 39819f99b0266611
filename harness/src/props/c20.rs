//! C20: every VM version keeps its own rules, on every engine.

use crate::elf;
use crate::exec::*;
use crate::gen::*;
use crate::isa::*;
use crate::model::*;
use crate::runner::*;
use crate::src::Src;
use crate::vm::*;

pub static PROP: Prop = Prop {
    id: "C20",
    rule: "the reference gives at least two different outcomes under the three versions (end, cycles, registers other than sp, memory below the stack)",
    assumptions: &["versions before 2 look up cached blocks by the low 32 bits of the program counter (kept behaviour of some engines): jumps beyond 4 GiB that alias cached code are not generated for them"],
    cases: (60_000, 1_500_000),
    fixed: 0,
    preset: no_preset,
    run,
    probes: &[],
};

const REGS: [u8; 10] = [5, 6, 7, 28, 29, 30, 31, 8, 9, 15];

/// halfwords that some versions accept and others do not, per width
fn differing(xlen: u32) -> &'static Vec<u16> {
    use std::sync::OnceLock;
    static T: [OnceLock<Vec<u16>>; 2] = [OnceLock::new(), OnceLock::new()];
    T[(xlen == 64) as usize].get_or_init(|| {
        let c = |ver| Cfg { xlen, ver, a: true, b: true };
        (0..=u16::MAX).filter(|h| h & 3 != 3 && decode16(*h, &c(0)).is_none() && decode16(*h, &c(1)).is_some()).collect()
    })
}

struct Src2 {
    code: Vec<u8>,
    base: u64,
    bytes: Vec<u8>,
    args: Vec<Vec<u8>>,
}

fn gen_quirks(s: &mut Src, p: &PCfg, labels: &mut Vec<&'static str>) -> Src2 {
    use Op::*;
    let c = Cfg { ver: 2, ..p.c };
    let x64 = c.xlen == 64;
    let (ld, sd) = if x64 { (Ld, Sd) } else { (Lw, Sw) };
    let mut a = Asm::default();
    let base = 0x10000 + PAGE * s.below(3) + *s.pick(&[0u64, 0, 2, 0x120, 0xff8, 0xffe]);
    let data = 0x18000 + *s.pick(&[0u64, 0, 4, 0x800, 0xfe8]);
    let ro = 0x1c000u64;
    // values to play with
    for r in REGS {
        if s.bool() {
            let v = s.val();
            let v = if x64 { v } else { v as u32 as i32 as i64 as u64 };
            a.li(r, v, c.xlen);
        }
    }
    let any = |s: &mut Src| *s.pick(&REGS);
    let n = s.range(1, 5);
    for _ in 0..n {
        match s.weighted(&[3, 3, 3, 4, 3, 3, 2, 2]) {
            0 => {
                labels.push("load at the end of memory");
                let mut ops = vec![(Lb, 1), (Lbu, 1), (Lh, 2), (Lhu, 2), (Lw, 4)];
                if x64 {
                    ops.extend([(Ld, 8), (Lwu, 4)]);
                }
                let (op, w) = *s.pick(&ops);
                let end = p.mem - w;
                let at = if s.chance(1, 4) { end - s.range(1, 9) } else { end };
                let imm = gen_imm(s, Lw, c.xlen);
                let r = any(s);
                a.li(r, at.wrapping_sub(imm as u64), c.xlen);
                a.ic(Inst::new(op, any(s), r, 0, imm), s.bool());
            }
            1 => {
                labels.push("indirect jump");
                let l = a.label();
                let link = *s.pick(&[1u8, 1, 5, 0, 6]);
                let b = if s.chance(2, 3) { link.max(1) } else { 7 };
                a.items.push(It::La(b, l, 0, s.bool()));
                let far = s.chance(1, 3);
                let d = if far { imm12(s) & !1 } else { 0 };
                if d != 0 {
                    a.op(Addi, b, b, 0, -d.max(-2047));
                }
                let d = if d == -2048 { -2047 & !1 } else { d };
                a.ic(Inst::new(Jalr, link, b, 0, d), s.bool());
                for _ in 0..s.below(3) {
                    a.op(Addi, 15, 15, 0, 1);
                }
                a.lab(l);
            }
            2 => {
                labels.push("compressed hint");
                let h = if s.chance(1, 6) { s.u64() as u16 & !3 | 1 } else { *s.pick(differing(c.xlen)) };
                if h & 3 == 3 || s.chance(1, 3) {
                    // skipped at run time, met only by engines that read ahead
                    let l = a.label();
                    a.jmp(l, 0);
                    a.items.push(It::Raw(h.to_le_bytes().to_vec()));
                    a.lab(l);
                } else {
                    a.items.push(It::Raw(h.to_le_bytes().to_vec()));
                }
            }
            3 => {
                labels.push("fusible window");
                let w = mop_window(s, &c, &REGS);
                for i in w {
                    a.ic(i, s.chance(1, 3));
                }
            }
            4 => {
                labels.push("far jump");
                let l = a.label();
                let hi = *s.pick(&[1u8, 5, 6, 15, 0]);
                let link = if s.chance(3, 5) { hi } else { *s.pick(&[0u8, 1, 7]) };
                if hi == 0 {
                    a.jmp(l, link);
                } else {
                    a.items.push(It::Far(hi, link, l, s.bool()));
                }
                for _ in 0..s.below(3) {
                    a.op(Addi, 28, 28, 0, 1);
                }
                a.lab(l);
                // the high part shows afterwards
                if hi != 0 && s.bool() {
                    a.op(Add, 9, 9, hi, 0);
                }
            }
            5 => {
                labels.push("store to data");
                let at = match s.below(4) {
                    0 => ro + s.below(256) * 8,
                    1 => data.next_multiple_of(PAGE) - 8,
                    _ => (data + s.below(3000)) & !7,
                };
                let r = any(s);
                a.li(r, at, c.xlen);
                a.op(sd, 0, r, any(s), 0);
                a.op(ld, any(s), r, 0, 0);
            }
            6 => {
                labels.push("arguments");
                // argc and argv as the program sees them, and what lies around
                let n = s.below(12) as i64;
                a.op(ld, any(s), 2, 0, n * (c.xlen as i64 / 8));
                a.op(Lw, any(s), 2, 0, n * 4);
                a.op(Add, 9, 9, 2, 0);
            }
            _ => {
                labels.push("constant");
                let r = any(s);
                let hi = imm_u(s);
                let lo = imm12(s);
                if s.bool() {
                    a.op(Lui, r, 0, 0, hi);
                    a.ic(Inst::new(if x64 && s.bool() { Addiw } else { Addi }, if s.chance(1, 5) { any(s) } else { r }, r, 0, lo), s.bool());
                } else {
                    a.op(Auipc, r, 0, 0, hi);
                    a.ic(Inst::new(Addi, if s.chance(1, 5) { any(s) } else { r }, r, 0, lo), s.bool());
                }
            }
        }
    }
    a.op(Andi, 10, *s.pick(&REGS), 0, 127);
    a.op(Addi, 17, 0, 0, 93);
    a.op(Ecall, 0, 0, 0, 0);
    let (code, _) = a.assemble(base, &c);
    let blob = |s: &mut Src, n: u64| -> Vec<u8> {
        let k = s.u64();
        (0..n).map(|i| (k.rotate_left((i % 61) as u32) >> (i % 7)) as u8).collect()
    };
    let fl = s.below(4);
    let mut segs = vec![elf::Seg { vaddr: base, memsz: code.len() as u64, data: code.clone(), flags: 5 }];
    let n = s.range(0, 2000);
    let d = blob(s, n);
    let extra = *s.pick(&[0u64, 0, 100, 5000]);
    segs.push(elf::Seg { vaddr: data, memsz: n + extra, data: d, flags: if fl == 0 { 4 } else { 6 } });
    if s.chance(1, 3) {
        let d = blob(s, 64);
        segs.push(elf::Seg { vaddr: ro + *s.pick(&[0u64, 0x10, 0xff0]), memsz: 64, data: d, flags: 4 });
    }
    if s.chance(1, 4) {
        // a segment on the page the previous one ended on: zero-filling differs
        let d = blob(s, 32);
        let i = 1 + s.usize(segs.len() - 1);
        let e = segs[i].vaddr + segs[i].memsz;
        segs.push(elf::Seg { vaddr: e + s.below(40), memsz: 32, data: d, flags: *s.pick(&[4u32, 6]) });
    }
    let mut order: Vec<elf::Seg> = vec![];
    while !segs.is_empty() {
        let i = s.usize(segs.len());
        order.push(segs.remove(i));
    }
    let bytes = elf::Image { bits: c.xlen, entry: base, segs: order }.bytes();
    let args = if s.chance(1, 3) { vec![] } else { gen_args(s) };
    Src2 { code, base, bytes, args }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let xlen = if s.chance(1, 5) { 32 } else { 64 };
    let mut p = gen_cfg(s, xlen);
    p.mop = xlen == 64 && s.chance(1, 2) || s.chance(1, 8);
    p.mem = FRAME;
    let mut labels = vec![];
    let prog = if s.chance(1, 6) {
        labels.push("general program");
        gen_program(s, p, Opts { size: 6, big: 0, ..Opts::default() })
    } else {
        let q = gen_quirks(s, &p, &mut labels);
        Prog { p, bytes: q.bytes, args: q.args, code_base: q.base, code: q.code, labels: Default::default() }
    };
    let cost = [Cost::One, Cost::Published][s.usize(2)];
    let flat = s.bool();
    let bytes = Bytes::from(prog.bytes.clone());
    let mut all = vec![];
    let which = s.below(4);
    ctx.sample(|| prog.render());
    for ver in 0..3u32 {
        let mut q = prog.p;
        q.c.ver = ver;
        let mut m = new_model(&q);
        m.cost = cost;
        m.max_cycles = 60_000;
        let loaded = elf::load_program(&mut m, &prog.bytes, &prog.args);
        let start = m.clone();
        let refused = q.mop && ver == 0;
        let end = match &loaded {
            Ok(_) if refused => None,
            Ok(_) => Some(model_run(&mut m, 60_000)),
            Err(_) => None,
        };
        if end == Some(End::Limit) {
            continue;
        }
        let mut ks = kinds(&q, flat);
        if xlen == 64 {
            // one interpreter, the block interpreter, one fast engine, in turn
            let i = which as usize;
            ks = vec![ks[(i * 5) % 6], ks[1], ks[2 + i % 3]];
            ks.dedup();
        }
        for k in ks {
            let say = |x: String| format!("version {ver}: {x} | {}", prog.render());
            let mut c = vm_cfg(k, &q).cycles(60_000, cost);
            c.syscalls.push(host_sys());
            let mut vm = build(c);
            let r = vm.load_program(&bytes, &bargs(&prog));
            match (&loaded, &r) {
                (Ok(a), Ok(b)) => ensure!(a == b, "loaded-bytes", "{}", say(format!("{k}: loading reports {b} bytes, expected {a}"))),
                (Err(_), Err(_)) => continue,
                (Err(e), Ok(_)) => return Err(f("load", say(format!("{k}: loads, expected {e}")))),
                (Ok(_), Err(e)) => return Err(f("load", say(format!("{k}: load failed with {e:?}")))),
            }
            diff_state(&start, vm.sm(), false).map_err(|e| f("start", say(format!("{k}: after loading: {e}"))))?;
            let r = vm.run();
            ctx.evals += 1;
            if refused {
                ensure!(matches!(r, Err(Error::InvalidVersion)), "refused", "{}", say(format!("{k}: macro-operations under version 0 give {r:?}")));
                continue;
            }
            check_end(&m, end.as_ref().unwrap(), &mut *vm, &r).map_err(|mut e| {
                e.msg = say(e.msg);
                e
            })?;
        }
        m.x[2] = 0;
        let digest = m.mem.data[..(p.mem - p.mem / 4) as usize].iter().fold(0u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3));
        all.push(format!("{loaded:?} {end:?} {:?} {} {digest}", m.x, m.cycles));
    }
    for l in labels {
        ctx.label(l);
    }
    let differ = all.windows(2).any(|w| w[0] != w[1]);
    if differ {
        ctx.label("versions differ");
    }
    ctx.nt(differ);
    Ok(())
}
