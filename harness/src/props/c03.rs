//! C03 and C23: decoding is exact, and decoded instructions describe themselves.

use crate::dec::*;
use crate::exec::*;
use crate::gen::*;
use crate::isa::*;
use crate::model::*;
use crate::online::*;
use crate::runner::*;
use crate::src::*;
use crate::vm::*;
use ckb_vm::instructions::{instruction_length, Instruction};

const C16: u64 = 64;
const C32: u64 = 1024;

pub static C03: Prop = Prop {
    id: "C03",
    rule: "enumerated blocks: all 65536 compressed words and all opcode/funct3/funct7/rs2 combinations under every register width, version and extension set; random blocks of legal, bit-flipped and random words; machine cases execute 12 words on every engine",
    assumptions: &["RV32 shift immediates with shamt[5] set are reserved: both rejecting them and dropping the bit is accepted", "hints may be represented by any instruction without effect"],
    cases: (5000, 300_000),
    fixed: C16 + C32,
    preset,
    run: run03,
    probes: &[],
};
pub static C23: Prop = Prop {
    id: "C23",
    rule: "enumerated blocks: all 65536 compressed words and all opcode/funct3/funct7/rs2 combinations; random blocks of legal words; fused windows: 24 generated instruction groups each",
    assumptions: &["the unused register field of unary operations is not part of the comparison"],
    cases: (5000, 300_000),
    fixed: C16 + C32,
    preset,
    run: run23,
    probes: &[],
};

fn preset(i: u64) -> Vec<u64> {
    if i < C16 {
        vec![0, i]
    } else {
        vec![1, i - C16]
    }
}

fn cfgs() -> Vec<Cfg> {
    let mut v = vec![];
    for xlen in [64, 32] {
        for ver in [2, 1, 0] {
            for k in 0..4 {
                v.push(Cfg { xlen, ver, a: k & 1 == 1, b: k & 2 == 2 });
            }
        }
    }
    v
}

fn block(s: &mut Src, m: u64) -> (Vec<u32>, &'static str) {
    match m {
        0 => {
            let b = s.below(C16) as u32 * 1024;
            ((b..b + 1024).filter(|w| w & 3 != 3).collect(), "compressed words")
        }
        1 => {
            let b = s.below(C32);
            let k = s.u64();
            let v = (b * 1024..b * 1024 + 1024)
                .map(|i| {
                    // 5 bits opcode, 3 funct3, 7 funct7, 5 rs2; rd and rs1 vary, often zero
                    let i = i as u32;
                    let h = mix(k, i as u64);
                    let rd = if h & 7 == 0 { 0 } else { (h >> 8) as u32 & 31 };
                    let rs1 = if h & 56 == 0 { 0 } else { (h >> 16) as u32 & 31 };
                    (i & 31) << 2 | 3 | (i >> 5 & 7) << 12 | (i >> 8 & 127) << 25 | (i >> 15 & 31) << 20 | rd << 7 | rs1 << 15
                })
                .collect();
            (v, "32-bit skeletons")
        }
        _ => {
            let n = 256;
            let mut v = vec![];
            for _ in 0..n {
                let o = &OPS[s.usize(OPS.len())];
                let k = s.u64() as u32;
                let w = match s.below(4) {
                    0 => k,
                    1 => o.mat | (k & !o.mask),
                    2 => (o.mat | (k & !o.mask)) ^ (1 << s.below(32)),
                    _ => (k & 0xffff) | if s.bool() { k & 0xffff_0000 } else { 0 },
                };
                v.push(w);
            }
            (v, "random words")
        }
    }
}

/// each word alone in an 8-byte slot, so that nothing follows it
fn slots(w: &[u32]) -> Vec<u8> {
    let mut d = vec![0u8; w.len() * 8];
    for (i, x) in w.iter().enumerate() {
        let b = x.to_le_bytes();
        let n = if x & 3 == 3 { 4 } else { 2 };
        d[i * 8..i * 8 + n].copy_from_slice(&b[..n]);
    }
    d
}

fn each(s: &mut Src, ctx: &mut Ctx, m: u64, f: &mut dyn FnMut(&Cfg, u32, u64, Result<Instruction, Error>, Option<Inst>, &mut Ctx) -> CaseRes) -> CaseRes {
    let (words, label) = block(s, m);
    let d = slots(&words);
    let mop = s.bool();
    for c in cfgs() {
        let mut mem = M::new(c.xlen, &d).map_err(|e| h(format!("{e:?}")))?;
        let mut dec = Dec::new(c, mop);
        for (i, w) in words.iter().enumerate() {
            let pc = i as u64 * 8;
            let r = dec.at(&mut mem, pc);
            let e = decode(*w, &c);
            ctx.evals += 1;
            if c.xlen == 32 && reserved_shift32(*w) {
                continue;
            }
            if e.is_some() {
                ctx.label_n("legal", 1);
            }
            f(&c, *w, pc, r, e, ctx)?;
        }
    }
    ctx.label_n(label, words.len() as u64);
    ctx.nt(true);
    ctx.sample(|| format!("{label}: {:08x} {:08x} {:08x} ...", words[0], words[words.len() / 2], words[words.len() - 1]));
    Ok(())
}

fn show(w: u32, c: &Cfg) -> String {
    let n = if w & 3 == 3 { format!("{w:08x}") } else { format!("{:04x}", w & 0xffff) };
    let k = decode(w, c).map(|i| i.to_string()).unwrap_or("illegal".into());
    format!("word {n} ({k}) on rv{} version {} A={} B={}", c.xlen, c.ver, c.a, c.b)
}

fn bits_of(w: u32) -> u32 {
    if w & 3 == 3 {
        w
    } else {
        w & 0xffff
    }
}

fn run03(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let m = s.below(4);
    if m == 3 {
        return machine(s, ctx);
    }
    each(s, ctx, m, &mut |c, w, pc, r, e, _| match (r, e) {
        (Ok(i), Some(n)) => same(i, &n).map_err(|x| f("wrong-decode", format!("{}: {x}", show(w, c)))),
        (Ok(i), None) => Err(f("accepts-illegal", format!("{}: decoded as {} {:?}", show(w, c), op_name(i), view(i).ok().map(|v| v.0)))),
        (Err(x), Some(_)) => Err(f("rejects-legal", format!("{}: {x:?}", show(w, c)))),
        (Err(Error::InvalidInstruction { pc: p, instruction }), None) if p == pc && instruction == bits_of(w) => Ok(()),
        (Err(x), None) => Err(f("wrong-error", format!("{} at {pc:#x}: {x:?}", show(w, c)))),
    })
}

/// words executed by the engines
fn machine(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let xlen = if s.chance(1, 3) { 32 } else { 64 };
    let mut p = gen_cfg(s, xlen);
    p.mem = 256 * 1024;
    let flat = s.bool();
    let (words, _) = block(s, 2);
    let cost = Cost::One;
    let mut legal = 0;
    let mut done = 0;
    for k in 0..12usize {
        let w = words[k * 7];
        let e = decode(w, &p.c);
        if xlen == 32 && reserved_shift32(w) {
            continue;
        }
        done += 1;
        legal += e.is_some() as u64;
        let base = 0x10000u64;
        let off = *s.pick(&[0u64, 2, 4092, 4094, 4098]);
        let mut code = vec![0u8; 8192];
        let b = bits_of(w).to_le_bytes();
        let n = if w & 3 == 3 { 4 } else { 2 };
        code[off as usize..off as usize + n].copy_from_slice(&b[..n]);
        let mut regs = [0u64; 32];
        for r in regs.iter_mut().skip(1) {
            *r = 0x2000 + s.below(64) * 8;
        }
        let pc = base + off;
        let set = Setup { p, regs, pc, code_base: base, code, blobs: vec![], cost, max_cycles: 40 };
        for kd in kinds(&p, flat) {
            if p.mop && p.c.ver == 0 {
                continue;
            }
            let mut vm = set.vm(kd).map_err(h)?;
            let r = vm.run();
            ctx.evals += 1;
            let inv = match &r {
                Err(Error::InvalidInstruction { pc: q, instruction }) if *q == pc => Some(*instruction),
                _ => None,
            };
            match (e, inv) {
                (Some(_), None) => {}
                (None, Some(x)) if x == bits_of(w) => {}
                _ => return Err(f("machine", format!("{kd}: {} at {pc:#x}: ended with {r:?}", show(w, &p.c)))),
            }
        }
    }
    ctx.label_n("executed words", done);
    ctx.label_n("executed legal words", legal);
    ctx.nt(true);
    Ok(())
}

fn run23(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let m = s.below(4);
    if m == 3 {
        return fused(s, ctx);
    }
    each(s, ctx, m, &mut |c, w, _, r, e, _| {
        let (i, n) = match (r, e) {
            (Ok(i), Some(n)) => (i, n),
            _ => return Ok(()), // C03
        };
        describe(i, &n).map_err(|x| f("description", format!("{}: {x}", show(w, c))))?;
        if n.op == Op::Fence {
            // mode, predecessor set and successor set
            let e = [(w >> 28) as usize, (w >> 24 & 15) as usize, (w >> 20 & 15) as usize];
            let (v, _) = view(i).map_err(|x| h(format!("{x:?}")))?;
            if v.shape != "R" || v.regs != e {
                return Err(f("description", format!("{}: fence operands {v:?} instead of {e:?}", show(w, c))));
            }
        }
        Ok(())
    })
}

fn describe(i: Instruction, n: &Inst) -> Result<(), String> {
    same(i, n)?;
    let (v, t) = view(i).map_err(|e| format!("{e:?}"))?;
    let back: Instruction = t.clone().into();
    if back != i {
        return Err(format!("structured view {t:?} converts back to {back:#x}, not {i:#x}"));
    }
    let text = t.to_string();
    if n.len == 2 && n.rd == 0 && n.op == Op::Addi {
        return Ok(());
    }
    let full = ckb_vm::instructions::instruction_opcode_name(ckb_vm::instructions::extract_opcode(i));
    if let Some(ts) = texts(n, full) {
        let fmt = n.op.info().fmt;
        let open = matches!(fmt, Fmt::Un | Fmt::Fence | Fmt::Fix);
        let ok = ts.iter().any(|x| if open { text.starts_with(x.trim_end_matches(',').trim_end()) } else { &text == x });
        if !ok {
            return Err(format!("text {text:?} instead of {:?}", ts[0]));
        }
    }
    let _ = v;
    rebuilt(i)
}

/// groups of instructions under fusion: what the fused operation says of itself
fn fused(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let xlen = if s.chance(1, 4) { 32 } else { 64 };
    let ver = 1 + s.below(2) as u32;
    let c = Cfg { xlen, ver, a: s.bool(), b: s.bool() };
    let n = 24;
    let mut code = vec![];
    let mut starts = vec![];
    let regs: Vec<u8> = vec![0, 1, 2, 5, 6, 7, 8, 10, 11, 12, 31];
    for _ in 0..n {
        let w = if s.chance(1, 5) {
            let hi = imm_u(s);
            let lo = imm12(s);
            let a = *s.pick(&regs);
            let l = if s.chance(3, 4) { 1 } else { a };
            let a = if s.chance(3, 4) { 1 } else { a };
            vec![Inst::new(if s.bool() { Op::Lui } else { Op::Auipc }, a, 0, 0, hi), Inst::new(Op::Jalr, l, a, 0, lo)]
        } else {
            mop_window(s, &c, &regs)
        };
        starts.push(code.len() as u64);
        let comp = s.bool();
        for i in &w {
            enc_into(&mut code, i, comp, &c);
        }
        // nothing fuses with the separator
        code.extend_from_slice(&[0; 12]);
    }
    let mut mem = M::new(xlen, &code).map_err(|e| h(format!("{e:?}")))?;
    let mut dec = Dec::new(c, true);
    let mut model = Model::new(xlen, ver, isa_bits(&c, true), Mem::new(((code.len() as u64 + 4095) / 4096 * 4096).max(4096), false));
    model.mem.data[..code.len()].copy_from_slice(&code);
    let mut got = 0;
    for pc in starts {
        ctx.evals += 1;
        let i = match dec.at(&mut mem, pc) {
            Ok(i) => i,
            Err(_) => continue, // C03
        };
        let head = model.fetch_decode(pc);
        let ctxs = |x: String| f("description", format!("group at {pc:#x} of rv{xlen} version {ver}: {x}"));
        match model.fuse_at(pc) {
            Some((fu, k)) => {
                let mut v = vec![];
                let mut q = pc;
                for _ in 0..k {
                    if let Ok((n, _)) = model.fetch_decode(q) {
                        q += n.len as u64;
                        v.push(n);
                    }
                }
                let group = v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("; ");
                if op_name(i) != fu.name() {
                    // fused differently or not at all: whether that is right is for C06 and C20
                    if let Ok((n, _)) = head {
                        if op_name(i) == n.op.name() {
                            describe(i, &n).map_err(ctxs)?;
                        }
                    }
                    continue;
                }
                got += 1;
                ctx.label(fu.name());
                let len = q - pc;
                if instruction_length(i) as u64 != len {
                    return Err(ctxs(format!("{group}: length {} instead of {len}", instruction_length(i))));
                }
                let (w, t) = view(i).map_err(|e| ctxs(format!("{group}: no structured view: {e:?}")))?;
                let e = fused_expected(fu, &v, pc);
                if w != e {
                    return Err(ctxs(format!("{group}: {} {w:?} instead of {e:?}", op_name(i))));
                }
                let back: Instruction = t.clone().into();
                if back != i {
                    return Err(ctxs(format!("{group}: view {t:?} converts back to {back:#x}, not {i:#x}")));
                }
                rebuilt(i).map_err(|x| ctxs(format!("{group}: {x}")))?;
                if t.to_string() != fused_text(fu, &e) {
                    return Err(ctxs(format!("{group}: text {:?} instead of {:?}", t.to_string(), fused_text(fu, &e))));
                }
            }
            None => {
                if let Ok((n, _)) = head {
                    if op_name(i) == n.op.name() {
                        describe(i, &n).map_err(ctxs)?;
                    }
                }
            }
        }
    }
    ctx.nt(got >= 4);
    ctx.sample(|| format!("{n} groups, {got} fused, rv{xlen} version {ver}"));
    Ok(())
}
