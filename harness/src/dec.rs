//! View of decoded instructions, and their comparison with the independent decoder.

use crate::isa::*;
use crate::model::*;
use ckb_vm::decoder::{build_decoder, Decoder, InstDecoder};
use ckb_vm::instructions::tagged::TaggedInstruction;
use ckb_vm::instructions::{extract_opcode, instruction_length, instruction_opcode_name, Instruction};
use ckb_vm::{Error, FlatMemory, Memory};
use std::convert::TryFrom;

pub struct Dec {
    pub cfg: Cfg,
    pub mop: bool,
    d: Decoder,
}

pub fn isa_bits(c: &Cfg, mop: bool) -> u8 {
    (c.b as u8) | (mop as u8) << 1 | (c.a as u8) << 2
}

pub enum M {
    M32(FlatMemory<u32>),
    M64(FlatMemory<u64>),
}
impl M {
    pub fn new(xlen: u32, data: &[u8]) -> Result<M, Error> {
        let size = ((data.len() + 4095) / 4096 * 4096).max(4096);
        Ok(if xlen == 32 {
            let mut m = FlatMemory::<u32>::new_with_memory(size);
            m.store_bytes(0, data)?;
            M::M32(m)
        } else {
            let mut m = FlatMemory::<u64>::new_with_memory(size);
            m.store_bytes(0, data)?;
            M::M64(m)
        })
    }
}

impl Dec {
    pub fn new(cfg: Cfg, mop: bool) -> Self {
        let isa = isa_bits(&cfg, mop);
        let d = if cfg.xlen == 32 { build_decoder::<u32>(isa, cfg.ver) } else { build_decoder::<u64>(isa, cfg.ver) };
        Dec { cfg, mop, d }
    }
    pub fn at(&mut self, m: &mut M, pc: u64) -> Result<Instruction, Error> {
        match m {
            M::M32(m) => self.d.decode(m, pc),
            M::M64(m) => self.d.decode(m, pc),
        }
    }
}

/// operation mnemonic without its version suffix
pub fn op_name(i: Instruction) -> &'static str {
    let n = instruction_opcode_name(extract_opcode(i));
    n.strip_suffix("_VERSION0").or_else(|| n.strip_suffix("_VERSION1")).unwrap_or(n)
}

/// registers and immediate of the structured view, in the order of the text form
#[derive(Debug, PartialEq, Clone)]
pub struct View {
    pub shape: &'static str,
    pub regs: Vec<usize>,
    pub imm: Option<i32>,
}

pub fn view(i: Instruction) -> Result<(View, TaggedInstruction), Error> {
    let t = TaggedInstruction::try_from(i)?;
    let v = match &t {
        TaggedInstruction::Rtype(x) => View { shape: "R", regs: vec![x.rd(), x.rs1(), x.rs2()], imm: None },
        TaggedInstruction::Itype(x) => View { shape: "I", regs: vec![x.rd(), x.rs1()], imm: Some(x.immediate_s()) },
        TaggedInstruction::Stype(x) => View { shape: "S", regs: vec![x.rs1(), x.rs2()], imm: Some(x.immediate_s()) },
        TaggedInstruction::Utype(x) => View { shape: "U", regs: vec![x.rd()], imm: Some(x.immediate_s()) },
        TaggedInstruction::R4type(x) => View { shape: "R4", regs: vec![x.rd(), x.rs1(), x.rs2(), x.rs3()], imm: None },
        TaggedInstruction::R5type(x) => View { shape: "R5", regs: vec![x.rd(), x.rs1(), x.rs2(), x.rs3(), x.rs4()], imm: None },
    };
    Ok((v, t))
}

/// the view the encoded instruction should have; the third register of a unary operation is not
/// compared, the operands of a fence are left to C23
pub fn expected(n: &Inst) -> (View, usize) {
    let (d, a, b, m) = (n.rd as usize, n.rs1 as usize, n.rs2 as usize, Some(n.imm as i32));
    let v = |shape, regs: Vec<usize>, imm| View { shape, regs, imm };
    match n.op.info().fmt {
        Fmt::R | Fmt::Amo => (v("R", vec![d, a, b], None), 3),
        Fmt::Lr => (v("R", vec![d, a, 0], None), 3),
        Fmt::Un => (v("R", vec![d, a, 0], None), 2),
        Fmt::I | Fmt::Ld | Fmt::Sh5 | Fmt::Sh6 | Fmt::Jalr => (v("I", vec![d, a], m), 2),
        Fmt::S | Fmt::B => (v("S", vec![a, b], m), 2),
        Fmt::U | Fmt::J => (v("U", vec![d], m), 1),
        Fmt::Fence | Fmt::Fix => (v("R", vec![0, 0, 0], None), 0),
    }
}

fn is_noop(n: &Inst) -> bool {
    n.rd == 0 && !n.op.is_load() && !n.op.is_store() && !n.op.ends_block() && !n.op.is_atomic()
}

/// is the decoded instruction the encoded one?
pub fn same(i: Instruction, n: &Inst) -> Result<(), String> {
    if instruction_length(i) != n.len {
        return Err(format!("length {} instead of {}", instruction_length(i), n.len));
    }
    let (v, _) = view(i).map_err(|e| format!("no structured view: {e:?}"))?;
    let name = op_name(i);
    if is_noop(n) && n.len == 2 {
        // a hint may be represented by any operation without effect
        let o = OPS.iter().find(|o| o.name == name).ok_or_else(|| format!("operation {name} for a hint"))?;
        let alu = !o.op.is_load() && !o.op.is_store() && !o.op.ends_block() && !o.op.is_atomic();
        if alu && v.regs.first() == Some(&0) {
            return Ok(());
        }
        return Err(format!("{name} {v:?} instead of a no-op"));
    }
    if name != n.op.name() {
        return Err(format!("operation {name} instead of {}", n.op.name()));
    }
    let (e, k) = expected(n);
    if v.shape != e.shape || v.regs[..k] != e.regs[..k] || v.imm != e.imm {
        return Err(format!("operands {v:?} instead of {e:?}"));
    }
    Ok(())
}

/// the text forms an instruction may have
pub fn texts(n: &Inst, version_name: &str) -> Option<Vec<String>> {
    let (d, a, b) = (ABI[n.rd as usize], ABI[n.rs1 as usize], ABI[n.rs2 as usize]);
    let m = n.imm as i32;
    let mut out = vec![];
    for name in [n.op.name().to_lowercase(), version_name.to_lowercase()] {
        out.push(match n.op.info().fmt {
            Fmt::R | Fmt::Amo => format!("{name} {d},{a},{b}"),
            Fmt::Lr => format!("{name} {d},{a},zero"),
            Fmt::Un => format!("{name} {d},{a},"),
            Fmt::I | Fmt::Ld | Fmt::Sh5 | Fmt::Sh6 | Fmt::Jalr => format!("{name} {d},{m}({a})"),
            Fmt::S => format!("{name} {b},{m}({a})"),
            Fmt::B => format!("{name} {a},{b},{m}"),
            Fmt::U | Fmt::J => format!("{name} {d},{m}"),
            Fmt::Fence | Fmt::Fix => format!("{name} "),
        });
    }
    Some(out)
}

/// operands of a fused operation, from the instructions it stands for
pub fn fused_expected(f: Fused, v: &[Inst], pc: u64) -> View {
    let r = |k: usize| (v[k].rd as usize, v[k].rs1 as usize, v[k].rs2 as usize);
    let h = r(0);
    let n = r(1);
    let rr = |shape, regs: Vec<usize>| View { shape, regs, imm: None };
    match f {
        Fused::Adc => rr("R", vec![h.0, n.0, r(3).0]),
        Fused::Sbb => rr("R4", vec![h.1, h.2, r(2).2, n.0]),
        Fused::Adcs => {
            let (a, b) = if h.0 == h.1 && h.0 != h.2 { (h.2, h.1) } else { (h.1, h.2) };
            rr("R4", vec![h.0, a, b, n.0])
        }
        Fused::Sbbs => rr("R4", vec![h.0, h.1, h.2, n.0]),
        Fused::Add3a => rr("R5", vec![h.0, h.1, n.0, r(2).0, r(2).2]),
        Fused::Add3b => rr("R5", vec![h.0, h.1, h.2, r(2).0, r(2).2]),
        Fused::Add3c => rr("R5", vec![h.0, h.1, h.2, r(2).0, r(2).2]),
        Fused::WideMul | Fused::WideMulu | Fused::WideMulsu | Fused::WideDiv | Fused::WideDivu => rr("R4", vec![h.0, h.1, h.2, n.0]),
        Fused::LoadImm => {
            let at = if v[0].op == Op::Auipc { pc as i32 } else { 0 };
            View { shape: "U", regs: vec![h.0], imm: Some(at.wrapping_add(v[0].imm as i32).wrapping_add(v[1].imm as i32)) }
        }
        Fused::FarJumpAbs | Fused::FarJumpRel => View { shape: "U", regs: vec![1], imm: Some((v[0].imm as i32).wrapping_add(v[1].imm as i32)) },
    }
}

pub fn fused_text(f: Fused, v: &View) -> String {
    let mut t = format!("{} {}", f.name().to_lowercase(), v.regs.iter().map(|r| ABI[*r]).collect::<Vec<_>>().join(","));
    if let Some(i) = v.imm {
        t.push_str(&format!(",{i}"));
    }
    t
}

/// Putting an instruction together from the parts its view shows gives the same instruction again.
pub fn rebuilt(i: Instruction) -> Result<(), String> {
    use ckb_vm::instructions::{set_instruction_length_n, Itype, R4type, R5type, Rtype, Stype, Utype};
    use TaggedInstruction as T;
    let (v, t) = view(i).map_err(|e| format!("{e:?}"))?;
    let op = extract_opcode(i);
    let seen = match &t {
        T::Rtype(x) => (x.op(), None),
        T::Itype(x) => (x.op(), Some(x.immediate_u())),
        T::Stype(x) => (x.op(), Some(x.immediate_u())),
        T::Utype(x) => (x.op(), Some(x.immediate_u())),
        T::R4type(x) => (x.op(), None),
        T::R5type(x) => (x.op(), None),
    };
    if seen.0 != op {
        return Err(format!("view {t:?} has operation {:#x}, not {op:#x}", seen.0));
    }
    if seen.1 != v.imm.map(|x| x as u32) {
        return Err(format!("view {t:?} has unsigned immediate {:x?}, signed immediate {:x?}", seen.1, v.imm));
    }
    let r = &v.regs;
    if op == ckb_vm::instructions::insts::OP_FENCE {
        let x = ckb_vm::instructions::i::FenceType::new(r[0] as u8, r[1] as u8, r[2] as u8);
        if (x.fm() as usize, x.pred() as usize, x.succ() as usize) != (r[0], r[1], r[2]) {
            return Err(format!("the fence operands {r:?} read back as {} {} {}", x.fm(), x.pred(), x.succ()));
        }
    }
    let all: Vec<Instruction> = match &t {
        T::Rtype(_) => vec![Rtype::new(op, r[0], r[1], r[2]).0],
        T::Itype(_) => vec![Itype::new_s(op, r[0], r[1], v.imm.unwrap()).0, Itype::new_u(op, r[0], r[1], v.imm.unwrap() as u32).0],
        T::Stype(_) => vec![Stype::new_s(op, v.imm.unwrap(), r[0], r[1]).0, Stype::new_u(op, v.imm.unwrap() as u32, r[0], r[1]).0],
        T::Utype(_) => vec![Utype::new_s(op, r[0], v.imm.unwrap()).0, Utype::new(op, r[0], v.imm.unwrap() as u32).0],
        T::R4type(_) => vec![R4type::new(op, r[0], r[1], r[2], r[3]).0],
        T::R5type(_) => vec![R5type::new(op, r[0], r[1], r[2], r[3], r[4]).0],
    };
    for j in all {
        let n = instruction_length(i);
        let j = set_instruction_length_n(j, n);
        if instruction_length(j) != n || extract_opcode(j) != op {
            return Err(format!("{t:?} put together again has length {} and operation {:#x}", instruction_length(j), extract_opcode(j)));
        }
        match view(j) {
            Ok((w, _)) if w == v => {}
            w => return Err(format!("{t:?} put together again is {w:?}")),
        }
    }
    Ok(())
}
