//! Independent RISC-V instruction table, decoder and encoder (RV32/RV64 IMCAB), written from the ISA
//! manual. Nothing here is shared with /repo.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Fmt {
    R,     // rd rs1 rs2
    Un,    // rd rs1
    I,     // rd rs1 imm12
    Ld,    // rd imm(rs1)
    Sh6,   // rd rs1 shamt6
    Sh5,   // rd rs1 shamt5
    S,     // rs2 imm(rs1)
    B,
    U,
    J,
    Jalr,
    Fence,
    Fix,   // no operands
    Lr,    // rd rs1, aq/rl ignored
    Amo,   // rd rs1 rs2, aq/rl ignored
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ext {
    I,
    M,
    A,
    B,
}

pub struct OpInfo {
    pub op: Op,
    pub name: &'static str,
    pub fmt: Fmt,
    pub mask: u32,
    pub mat: u32,
    pub x64: bool,
    pub ext: Ext,
}

macro_rules! ops {
    ($( $id:ident $name:literal $fmt:ident $mask:expr, $mat:expr, $x64:literal $ext:ident; )*) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
        #[repr(u8)]
        pub enum Op { $($id),* }
        pub static OPS: &[OpInfo] = &[ $( OpInfo { op: Op::$id, name: $name, fmt: Fmt::$fmt, mask: $mask, mat: $mat, x64: $x64 != 0, ext: Ext::$ext } ),* ];
    }
}

const M_R: u32 = 0xfe00707f;
const M_I: u32 = 0x0000707f;
const M_U: u32 = 0x0000007f;
const M_UN: u32 = 0xfff0707f;
const M_S6: u32 = 0xfc00707f;
const M_AMO: u32 = 0xf800707f;
const M_LR: u32 = 0xf9f0707f;
const fn r(op: u32, f3: u32, f7: u32) -> u32 {
    op | f3 << 12 | f7 << 25
}
const fn un(op: u32, f3: u32, f7: u32, rs2: u32) -> u32 {
    op | f3 << 12 | f7 << 25 | rs2 << 20
}
const fn amo(f5: u32, f3: u32) -> u32 {
    0x2f | f3 << 12 | f5 << 27
}

ops! {
    Lui "LUI" U M_U, 0x37, 0 I;
    Auipc "AUIPC" U M_U, 0x17, 0 I;
    Jal "JAL" J M_U, 0x6f, 0 I;
    Jalr "JALR" Jalr M_I, 0x67, 0 I;
    Beq "BEQ" B M_I, r(0x63,0,0), 0 I;
    Bne "BNE" B M_I, r(0x63,1,0), 0 I;
    Blt "BLT" B M_I, r(0x63,4,0), 0 I;
    Bge "BGE" B M_I, r(0x63,5,0), 0 I;
    Bltu "BLTU" B M_I, r(0x63,6,0), 0 I;
    Bgeu "BGEU" B M_I, r(0x63,7,0), 0 I;
    Lb "LB" Ld M_I, r(3,0,0), 0 I;
    Lh "LH" Ld M_I, r(3,1,0), 0 I;
    Lw "LW" Ld M_I, r(3,2,0), 0 I;
    Ld "LD" Ld M_I, r(3,3,0), 1 I;
    Lbu "LBU" Ld M_I, r(3,4,0), 0 I;
    Lhu "LHU" Ld M_I, r(3,5,0), 0 I;
    Lwu "LWU" Ld M_I, r(3,6,0), 1 I;
    Sb "SB" S M_I, r(0x23,0,0), 0 I;
    Sh "SH" S M_I, r(0x23,1,0), 0 I;
    Sw "SW" S M_I, r(0x23,2,0), 0 I;
    Sd "SD" S M_I, r(0x23,3,0), 1 I;
    Addi "ADDI" I M_I, r(0x13,0,0), 0 I;
    Slti "SLTI" I M_I, r(0x13,2,0), 0 I;
    Sltiu "SLTIU" I M_I, r(0x13,3,0), 0 I;
    Xori "XORI" I M_I, r(0x13,4,0), 0 I;
    Ori "ORI" I M_I, r(0x13,6,0), 0 I;
    Andi "ANDI" I M_I, r(0x13,7,0), 0 I;
    Slli "SLLI" Sh6 M_S6, r(0x13,1,0), 0 I;
    Srli "SRLI" Sh6 M_S6, r(0x13,5,0), 0 I;
    Srai "SRAI" Sh6 M_S6, r(0x13,5,0x20), 0 I;
    Add "ADD" R M_R, r(0x33,0,0), 0 I;
    Sub "SUB" R M_R, r(0x33,0,0x20), 0 I;
    Sll "SLL" R M_R, r(0x33,1,0), 0 I;
    Slt "SLT" R M_R, r(0x33,2,0), 0 I;
    Sltu "SLTU" R M_R, r(0x33,3,0), 0 I;
    Xor "XOR" R M_R, r(0x33,4,0), 0 I;
    Srl "SRL" R M_R, r(0x33,5,0), 0 I;
    Sra "SRA" R M_R, r(0x33,5,0x20), 0 I;
    Or "OR" R M_R, r(0x33,6,0), 0 I;
    And "AND" R M_R, r(0x33,7,0), 0 I;
    // this VM requires rd = rs1 = 0 in a fence
    Fence "FENCE" Fence 0x000fffff, 0x0f, 0 I;
    Fencei "FENCEI" Fix 0xffffffff, 0x100f, 0 I;
    Ecall "ECALL" Fix 0xffffffff, 0x73, 0 I;
    Ebreak "EBREAK" Fix 0xffffffff, 0x100073, 0 I;
    Addiw "ADDIW" I M_I, r(0x1b,0,0), 1 I;
    Slliw "SLLIW" Sh5 M_R, r(0x1b,1,0), 1 I;
    Srliw "SRLIW" Sh5 M_R, r(0x1b,5,0), 1 I;
    Sraiw "SRAIW" Sh5 M_R, r(0x1b,5,0x20), 1 I;
    Addw "ADDW" R M_R, r(0x3b,0,0), 1 I;
    Subw "SUBW" R M_R, r(0x3b,0,0x20), 1 I;
    Sllw "SLLW" R M_R, r(0x3b,1,0), 1 I;
    Srlw "SRLW" R M_R, r(0x3b,5,0), 1 I;
    Sraw "SRAW" R M_R, r(0x3b,5,0x20), 1 I;
    Mul "MUL" R M_R, r(0x33,0,1), 0 M;
    Mulh "MULH" R M_R, r(0x33,1,1), 0 M;
    Mulhsu "MULHSU" R M_R, r(0x33,2,1), 0 M;
    Mulhu "MULHU" R M_R, r(0x33,3,1), 0 M;
    Div "DIV" R M_R, r(0x33,4,1), 0 M;
    Divu "DIVU" R M_R, r(0x33,5,1), 0 M;
    Rem "REM" R M_R, r(0x33,6,1), 0 M;
    Remu "REMU" R M_R, r(0x33,7,1), 0 M;
    Mulw "MULW" R M_R, r(0x3b,0,1), 1 M;
    Divw "DIVW" R M_R, r(0x3b,4,1), 1 M;
    Divuw "DIVUW" R M_R, r(0x3b,5,1), 1 M;
    Remw "REMW" R M_R, r(0x3b,6,1), 1 M;
    Remuw "REMUW" R M_R, r(0x3b,7,1), 1 M;
    LrW "LR_W" Lr M_LR, amo(2,2), 0 A;
    ScW "SC_W" Amo M_AMO, amo(3,2), 0 A;
    AmoswapW "AMOSWAP_W" Amo M_AMO, amo(1,2), 0 A;
    AmoaddW "AMOADD_W" Amo M_AMO, amo(0,2), 0 A;
    AmoxorW "AMOXOR_W" Amo M_AMO, amo(4,2), 0 A;
    AmoandW "AMOAND_W" Amo M_AMO, amo(12,2), 0 A;
    AmoorW "AMOOR_W" Amo M_AMO, amo(8,2), 0 A;
    AmominW "AMOMIN_W" Amo M_AMO, amo(16,2), 0 A;
    AmomaxW "AMOMAX_W" Amo M_AMO, amo(20,2), 0 A;
    AmominuW "AMOMINU_W" Amo M_AMO, amo(24,2), 0 A;
    AmomaxuW "AMOMAXU_W" Amo M_AMO, amo(28,2), 0 A;
    LrD "LR_D" Lr M_LR, amo(2,3), 1 A;
    ScD "SC_D" Amo M_AMO, amo(3,3), 1 A;
    AmoswapD "AMOSWAP_D" Amo M_AMO, amo(1,3), 1 A;
    AmoaddD "AMOADD_D" Amo M_AMO, amo(0,3), 1 A;
    AmoxorD "AMOXOR_D" Amo M_AMO, amo(4,3), 1 A;
    AmoandD "AMOAND_D" Amo M_AMO, amo(12,3), 1 A;
    AmoorD "AMOOR_D" Amo M_AMO, amo(8,3), 1 A;
    AmominD "AMOMIN_D" Amo M_AMO, amo(16,3), 1 A;
    AmomaxD "AMOMAX_D" Amo M_AMO, amo(20,3), 1 A;
    AmominuD "AMOMINU_D" Amo M_AMO, amo(24,3), 1 A;
    AmomaxuD "AMOMAXU_D" Amo M_AMO, amo(28,3), 1 A;
    Adduw "ADDUW" R M_R, r(0x3b,0,4), 1 B;
    Andn "ANDN" R M_R, r(0x33,7,0x20), 0 B;
    Bclr "BCLR" R M_R, r(0x33,1,0x24), 0 B;
    Bclri "BCLRI" Sh6 M_S6, r(0x13,1,0x24), 0 B;
    Bext "BEXT" R M_R, r(0x33,5,0x24), 0 B;
    Bexti "BEXTI" Sh6 M_S6, r(0x13,5,0x24), 0 B;
    Binv "BINV" R M_R, r(0x33,1,0x34), 0 B;
    Binvi "BINVI" Sh6 M_S6, r(0x13,1,0x34), 0 B;
    Bset "BSET" R M_R, r(0x33,1,0x14), 0 B;
    Bseti "BSETI" Sh6 M_S6, r(0x13,1,0x14), 0 B;
    Clmul "CLMUL" R M_R, r(0x33,1,5), 0 B;
    Clmulh "CLMULH" R M_R, r(0x33,3,5), 0 B;
    Clmulr "CLMULR" R M_R, r(0x33,2,5), 0 B;
    Clz "CLZ" Un M_UN, un(0x13,1,0x30,0), 0 B;
    Clzw "CLZW" Un M_UN, un(0x1b,1,0x30,0), 1 B;
    Cpop "CPOP" Un M_UN, un(0x13,1,0x30,2), 0 B;
    Cpopw "CPOPW" Un M_UN, un(0x1b,1,0x30,2), 1 B;
    Ctz "CTZ" Un M_UN, un(0x13,1,0x30,1), 0 B;
    Ctzw "CTZW" Un M_UN, un(0x1b,1,0x30,1), 1 B;
    Max "MAX" R M_R, r(0x33,6,5), 0 B;
    Maxu "MAXU" R M_R, r(0x33,7,5), 0 B;
    Min "MIN" R M_R, r(0x33,4,5), 0 B;
    Minu "MINU" R M_R, r(0x33,5,5), 0 B;
    Orcb "ORCB" Un M_UN, un(0x13,5,0x14,7), 0 B;
    Orn "ORN" R M_R, r(0x33,6,0x20), 0 B;
    Rev8 "REV8" Un M_UN, un(0x13,5,0x35,0x18), 0 B;
    Rol "ROL" R M_R, r(0x33,1,0x30), 0 B;
    Rolw "ROLW" R M_R, r(0x3b,1,0x30), 1 B;
    Ror "ROR" R M_R, r(0x33,5,0x30), 0 B;
    Rori "RORI" Sh6 M_S6, r(0x13,5,0x30), 0 B;
    Roriw "RORIW" Sh5 M_R, r(0x1b,5,0x30), 1 B;
    Rorw "RORW" R M_R, r(0x3b,5,0x30), 1 B;
    Sextb "SEXTB" Un M_UN, un(0x13,1,0x30,4), 0 B;
    Sexth "SEXTH" Un M_UN, un(0x13,1,0x30,5), 0 B;
    Sh1add "SH1ADD" R M_R, r(0x33,2,0x10), 0 B;
    Sh1adduw "SH1ADDUW" R M_R, r(0x3b,2,0x10), 1 B;
    Sh2add "SH2ADD" R M_R, r(0x33,4,0x10), 0 B;
    Sh2adduw "SH2ADDUW" R M_R, r(0x3b,4,0x10), 1 B;
    Sh3add "SH3ADD" R M_R, r(0x33,6,0x10), 0 B;
    Sh3adduw "SH3ADDUW" R M_R, r(0x3b,6,0x10), 1 B;
    Slliuw "SLLIUW" Sh6 M_S6, r(0x1b,1,4), 1 B;
    Xnor "XNOR" R M_R, r(0x33,4,0x20), 0 B;
    Zexth "ZEXTH" Un M_UN, un(0x3b,4,4,0), 0 B;
}

impl Op {
    pub fn info(self) -> &'static OpInfo {
        &OPS[self as usize]
    }
    pub fn name(self) -> &'static str {
        self.info().name
    }
    pub fn ends_block(self) -> bool {
        matches!(self.info().fmt, Fmt::B | Fmt::J | Fmt::Jalr)
            || matches!(self, Op::Ecall | Op::Ebreak | Op::Fencei | Op::Fence)
    }
    pub fn is_load(self) -> bool {
        self.info().fmt == Fmt::Ld
    }
    pub fn is_store(self) -> bool {
        self.info().fmt == Fmt::S
    }
    pub fn is_atomic(self) -> bool {
        self.info().ext == Ext::A
    }
    pub fn mem_width(self) -> u64 {
        use Op::*;
        match self {
            Lb | Lbu | Sb => 1,
            Lh | Lhu | Sh => 2,
            Lw | Lwu | Sw => 4,
            Ld | Sd => 8,
            _ if self.is_atomic() => {
                if self.name().ends_with("_D") {
                    8
                } else {
                    4
                }
            }
            _ => 0,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Inst {
    pub op: Op,
    pub rd: u8,
    pub rs1: u8,
    pub rs2: u8,
    pub imm: i64,
    pub len: u8,
}

impl Inst {
    pub fn new(op: Op, rd: u8, rs1: u8, rs2: u8, imm: i64) -> Self {
        Inst { op, rd, rs1, rs2, imm, len: 4 }
    }
}

pub const ABI: [&str; 32] = [
    "zero", "ra", "sp", "gp", "tp", "t0", "t1", "t2", "s0", "s1", "a0", "a1", "a2", "a3", "a4",
    "a5", "a6", "a7", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "t3", "t4",
    "t5", "t6",
];

impl std::fmt::Display for Inst {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let n = self.op.name().to_lowercase();
        let c = if self.len == 2 { "c:" } else { "" };
        let (d, a, b) = (ABI[self.rd as usize], ABI[self.rs1 as usize], ABI[self.rs2 as usize]);
        match self.op.info().fmt {
            Fmt::R | Fmt::Amo => write!(f, "{c}{n} {d},{a},{b}"),
            Fmt::Un | Fmt::Lr => write!(f, "{c}{n} {d},{a}"),
            Fmt::I | Fmt::Sh5 | Fmt::Sh6 => write!(f, "{c}{n} {d},{a},{}", self.imm),
            Fmt::Ld | Fmt::Jalr => write!(f, "{c}{n} {d},{}({a})", self.imm),
            Fmt::S => write!(f, "{c}{n} {b},{}({a})", self.imm),
            Fmt::B => write!(f, "{c}{n} {a},{b},{}", self.imm),
            Fmt::U => write!(f, "{c}{n} {d},{:#x}", self.imm),
            Fmt::J => write!(f, "{c}{n} {d},{}", self.imm),
            Fmt::Fence | Fmt::Fix => write!(f, "{c}{n}"),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Cfg {
    pub xlen: u32,
    pub ver: u32,
    pub a: bool,
    pub b: bool,
}

fn bits(w: u32, lo: u32, n: u32) -> u32 {
    (w >> lo) & ((1u32 << n) - 1)
}
fn sext(v: u32, n: u32) -> i64 {
    ((v << (32 - n)) as i32 >> (32 - n)) as i64
}

/// Decode one instruction from raw bits (upper half ignored for compressed words).
pub fn decode(w: u32, c: &Cfg) -> Option<Inst> {
    if w & 3 != 3 {
        return decode16(w as u16, c);
    }
    decode32(w, c)
}

fn index() -> &'static Vec<Vec<u8>> {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![vec![]; 128];
        for (i, o) in OPS.iter().enumerate() {
            v[(o.mat & 0x7f) as usize].push(i as u8);
        }
        v
    })
}

/// rev8 and zext.h are the two instructions whose encoding depends on the register width
fn match_value(o: &OpInfo, xlen: u32) -> u32 {
    match (o.op, xlen) {
        (Op::Rev8, 32) => un(0x13, 5, 0x34, 0x18),
        (Op::Zexth, 32) => un(0x33, 4, 4, 0),
        _ => o.mat,
    }
}

pub fn decode32(w: u32, c: &Cfg) -> Option<Inst> {
    let extra: &[u8] = if w & 0x7f == 0x33 { &[Op::Zexth as u8] } else { &[] };
    for &i in index()[(w & 0x7f) as usize].iter().chain(extra) {
        let o = &OPS[i as usize];
        if w & o.mask != match_value(o, c.xlen) {
            continue;
        }
        if o.x64 && c.xlen == 32 {
            continue;
        }
        if (o.ext == Ext::A && !c.a) || (o.ext == Ext::B && !c.b) {
            continue;
        }
        let (rd, rs1, rs2) = (bits(w, 7, 5) as u8, bits(w, 15, 5) as u8, bits(w, 20, 5) as u8);
        let i12 = sext(w >> 20, 12);
        let mut n = Inst::new(o.op, 0, 0, 0, 0);
        match o.fmt {
            Fmt::R | Fmt::Amo => {
                n.rd = rd;
                n.rs1 = rs1;
                n.rs2 = rs2;
            }
            Fmt::Un | Fmt::Lr => {
                n.rd = rd;
                n.rs1 = rs1;
            }
            Fmt::I | Fmt::Ld | Fmt::Jalr => {
                n.rd = rd;
                n.rs1 = rs1;
                n.imm = i12;
            }
            Fmt::Sh6 => {
                n.rd = rd;
                n.rs1 = rs1;
                n.imm = bits(w, 20, 6) as i64;
                if c.xlen == 32 {
                    // shamt[5] = 1 is reserved on RV32; this VM drops the bit
                    n.imm &= 31;
                }
            }
            Fmt::Sh5 => {
                n.rd = rd;
                n.rs1 = rs1;
                n.imm = bits(w, 20, 5) as i64;
            }
            Fmt::S => {
                n.rs1 = rs1;
                n.rs2 = rs2;
                n.imm = sext(bits(w, 25, 7) << 5 | bits(w, 7, 5), 12);
            }
            Fmt::B => {
                n.rs1 = rs1;
                n.rs2 = rs2;
                n.imm = sext(
                    bits(w, 31, 1) << 12 | bits(w, 7, 1) << 11 | bits(w, 25, 6) << 5 | bits(w, 8, 4) << 1,
                    13,
                );
            }
            Fmt::U => {
                n.rd = rd;
                n.imm = (w & 0xfffff000) as i32 as i64;
            }
            Fmt::J => {
                n.rd = rd;
                n.imm = sext(
                    bits(w, 31, 1) << 20 | bits(w, 12, 8) << 12 | bits(w, 20, 1) << 11 | bits(w, 21, 10) << 1,
                    21,
                );
            }
            Fmt::Fence | Fmt::Fix => {}
        }
        return Some(n);
    }
    None
}

pub fn decode16(h: u16, c: &Cfg) -> Option<Inst> {
    let w = h as u32;
    let rv64 = c.xlen == 64;
    let v0 = c.ver == 0;
    let f3 = bits(w, 13, 3);
    let rdp = 8 + bits(w, 2, 3) as u8;
    let rs1p = 8 + bits(w, 7, 3) as u8;
    let rd = bits(w, 7, 5) as u8;
    let rs2 = bits(w, 2, 5) as u8;
    let imm6 = sext(bits(w, 12, 1) << 5 | bits(w, 2, 5), 6);
    let sh6 = (bits(w, 12, 1) << 5 | bits(w, 2, 5)) as i64;
    // shamt[5] = 1 is reserved on RV32; this VM drops the bit
    let shm = if rv64 { 63 } else { 31 };
    let mk = |op, rd, rs1, rs2, imm| Some(Inst { op, rd, rs1, rs2, imm, len: 2 });
    let nop = mk(Op::Addi, 0, 0, 0, 0);
    // hints are rejected by version 0 and no-ops afterwards
    let hint = if v0 { None } else { nop };
    match (w & 3, f3) {
        (0, 0) => {
            let imm = bits(w, 11, 2) << 4 | bits(w, 7, 4) << 6 | bits(w, 6, 1) << 2 | bits(w, 5, 1) << 3;
            if imm == 0 {
                None
            } else {
                mk(Op::Addi, rdp, 2, 0, imm as i64)
            }
        }
        (0, 2) | (0, 6) => {
            let imm = (bits(w, 10, 3) << 3 | bits(w, 6, 1) << 2 | bits(w, 5, 1) << 6) as i64;
            if f3 == 2 {
                mk(Op::Lw, rdp, rs1p, 0, imm)
            } else {
                mk(Op::Sw, 0, rs1p, rdp, imm)
            }
        }
        (0, 3) | (0, 7) if rv64 => {
            let imm = (bits(w, 10, 3) << 3 | bits(w, 5, 2) << 6) as i64;
            if f3 == 3 {
                mk(Op::Ld, rdp, rs1p, 0, imm)
            } else {
                mk(Op::Sd, 0, rs1p, rdp, imm)
            }
        }
        (0, _) => None,
        (1, 0) => {
            if rd == 0 {
                // c.nop; a non-zero immediate is a hint
                if imm6 == 0 {
                    nop
                } else {
                    hint
                }
            } else if imm6 == 0 {
                hint
            } else {
                mk(Op::Addi, rd, rd, 0, imm6)
            }
        }
        (1, 1) => {
            if rv64 {
                if rd == 0 {
                    None
                } else {
                    mk(Op::Addiw, rd, rd, 0, imm6)
                }
            } else {
                mk(Op::Jal, 1, 0, 0, cj_imm(w))
            }
        }
        (1, 2) => {
            if rd == 0 {
                hint
            } else {
                mk(Op::Addi, rd, 0, 0, imm6)
            }
        }
        (1, 3) => {
            if rd == 2 {
                let imm = sext(
                    bits(w, 12, 1) << 9
                        | bits(w, 6, 1) << 4
                        | bits(w, 5, 1) << 6
                        | bits(w, 3, 2) << 7
                        | bits(w, 2, 1) << 5,
                    10,
                );
                if imm == 0 {
                    None
                } else {
                    mk(Op::Addi, 2, 2, 0, imm)
                }
            } else if imm6 == 0 {
                None
            } else if rd == 0 {
                hint
            } else {
                mk(Op::Lui, rd, 0, 0, imm6 << 12)
            }
        }
        (1, 4) => {
            let r = rs1p;
            match bits(w, 10, 2) {
                k @ (0 | 1) => {
                    if sh6 == 0 {
                        // hint, accepted by every version
                        return nop;
                    }
                    mk(if k == 0 { Op::Srli } else { Op::Srai }, r, r, 0, sh6 & shm)
                }
                2 => mk(Op::Andi, r, r, 0, imm6),
                _ => {
                    let op = match (bits(w, 12, 1), bits(w, 5, 2)) {
                        (0, 0) => Op::Sub,
                        (0, 1) => Op::Xor,
                        (0, 2) => Op::Or,
                        (0, 3) => Op::And,
                        (1, 0) if rv64 => Op::Subw,
                        (1, 1) if rv64 => Op::Addw,
                        _ => return None,
                    };
                    mk(op, r, r, rdp, 0)
                }
            }
        }
        (1, 5) => mk(Op::Jal, 0, 0, 0, cj_imm(w)),
        (1, 6) | (1, 7) => {
            let imm = sext(
                bits(w, 12, 1) << 8
                    | bits(w, 10, 2) << 3
                    | bits(w, 5, 2) << 6
                    | bits(w, 3, 2) << 1
                    | bits(w, 2, 1) << 5,
                9,
            );
            mk(if f3 == 6 { Op::Beq } else { Op::Bne }, 0, rs1p, 0, imm)
        }
        (2, 0) => {
            if rd == 0 || sh6 == 0 {
                hint
            } else {
                mk(Op::Slli, rd, rd, 0, sh6 & shm)
            }
        }
        (2, 2) => {
            if rd == 0 {
                return None;
            }
            let imm = bits(w, 12, 1) << 5 | bits(w, 4, 3) << 2 | bits(w, 2, 2) << 6;
            mk(Op::Lw, rd, 2, 0, imm as i64)
        }
        (2, 3) if rv64 => {
            if rd == 0 {
                return None;
            }
            let imm = bits(w, 12, 1) << 5 | bits(w, 5, 2) << 3 | bits(w, 2, 3) << 6;
            mk(Op::Ld, rd, 2, 0, imm as i64)
        }
        (2, 4) => match (bits(w, 12, 1), rd, rs2) {
            (0, 0, 0) => None,
            (0, _, 0) => mk(Op::Jalr, 0, rd, 0, 0),
            (0, 0, _) => hint,
            (0, _, _) => mk(Op::Add, rd, 0, rs2, 0),
            (1, 0, 0) => mk(Op::Ebreak, 0, 0, 0, 0),
            (1, _, 0) => mk(Op::Jalr, 1, rd, 0, 0),
            (1, 0, _) => hint,
            _ => mk(Op::Add, rd, rd, rs2, 0),
        },
        (2, 6) => {
            let imm = bits(w, 9, 4) << 2 | bits(w, 7, 2) << 6;
            mk(Op::Sw, 0, 2, rs2, imm as i64)
        }
        (2, 7) if rv64 => {
            let imm = bits(w, 10, 3) << 3 | bits(w, 7, 3) << 6;
            mk(Op::Sd, 0, 2, rs2, imm as i64)
        }
        _ => None,
    }
}

fn cj_imm(w: u32) -> i64 {
    sext(
        bits(w, 12, 1) << 11
            | bits(w, 11, 1) << 4
            | bits(w, 9, 2) << 8
            | bits(w, 8, 1) << 10
            | bits(w, 7, 1) << 6
            | bits(w, 6, 1) << 7
            | bits(w, 3, 3) << 1
            | bits(w, 2, 1) << 5,
        12,
    )
}

/// Encode in the 32-bit form.
pub fn encode(n: &Inst) -> u32 {
    encode_for(n, 64)
}
pub fn encode_for(n: &Inst, xlen: u32) -> u32 {
    let o = n.op.info();
    let (rd, rs1, rs2) = ((n.rd as u32) << 7, (n.rs1 as u32) << 15, (n.rs2 as u32) << 20);
    let i = n.imm as u32;
    match_value(o, xlen)
        | match o.fmt {
            Fmt::R | Fmt::Amo => rd | rs1 | rs2,
            Fmt::Un | Fmt::Lr => rd | rs1,
            Fmt::I | Fmt::Ld | Fmt::Jalr => rd | rs1 | (i & 0xfff) << 20,
            Fmt::Sh6 => rd | rs1 | (i & 0x3f) << 20,
            Fmt::Sh5 => rd | rs1 | (i & 0x1f) << 20,
            Fmt::S => rs1 | rs2 | bits(i, 5, 7) << 25 | bits(i, 0, 5) << 7,
            Fmt::B => {
                rs1 | rs2 | bits(i, 12, 1) << 31 | bits(i, 5, 6) << 25 | bits(i, 1, 4) << 8 | bits(i, 11, 1) << 7
            }
            Fmt::U => rd | i & 0xfffff000,
            Fmt::J => {
                rd | bits(i, 20, 1) << 31 | bits(i, 1, 10) << 21 | bits(i, 11, 1) << 20 | bits(i, 12, 8) << 12
            }
            Fmt::Fence | Fmt::Fix => 0,
        }
}

/// All legal compressed words of a configuration by the op they decode to, used to pick compressed
/// forms when generating.
pub fn find_compressed(n: &Inst, c: &Cfg) -> Option<u16> {
    // candidates are constructed, then checked with the decoder
    use Op::*;
    let p = |r: u8| (8..16).contains(&r);
    let pr = |r: u8| (r.wrapping_sub(8) & 7) as u32;
    let i = n.imm as u32;
    let (rd, rs1, rs2) = (n.rd as u32, n.rs1 as u32, n.rs2 as u32);
    let ci = |f3: u32, q: u32| f3 << 13 | bits(i, 5, 1) << 12 | rd << 7 | bits(i, 0, 5) << 2 | q;
    let mut cand: Vec<u32> = vec![];
    match n.op {
        Addi => {
            if n.rd == n.rs1 {
                cand.push(ci(0, 1));
            }
            if n.rs1 == 0 {
                cand.push(ci(2, 1));
            }
            if n.rd == 2 && n.rs1 == 2 {
                cand.push(
                    3 << 13 | bits(i, 9, 1) << 12 | 2 << 7 | bits(i, 4, 1) << 6 | bits(i, 6, 1) << 5 | bits(i, 7, 2) << 3 | bits(i, 5, 1) << 2 | 1,
                );
            }
            if n.rs1 == 2 && p(n.rd) {
                cand.push(bits(i, 4, 2) << 11 | bits(i, 6, 4) << 7 | bits(i, 2, 1) << 6 | bits(i, 3, 1) << 5 | pr(n.rd) << 2);
            }
        }
        Addiw if n.rd == n.rs1 => cand.push(ci(1, 1)),
        Lui => cand.push(3 << 13 | bits(i, 17, 1) << 12 | rd << 7 | bits(i, 12, 5) << 2 | 1),
        Slli if n.rd == n.rs1 => cand.push(ci(0, 2)),
        Srli | Srai | Andi if n.rd == n.rs1 && p(n.rd) => {
            let k = match n.op {
                Srli => 0,
                Srai => 1,
                _ => 2,
            };
            cand.push(4 << 13 | bits(i, 5, 1) << 12 | k << 10 | pr(n.rd) << 7 | bits(i, 0, 5) << 2 | 1);
        }
        Sub | Xor | Or | And | Subw | Addw if n.rd == n.rs1 && p(n.rd) && p(n.rs2) => {
            let (a, b) = match n.op {
                Sub => (0, 0),
                Xor => (0, 1),
                Or => (0, 2),
                And => (0, 3),
                Subw => (1, 0),
                _ => (1, 1),
            };
            cand.push(4 << 13 | a << 12 | 3 << 10 | pr(n.rd) << 7 | b << 5 | pr(n.rs2) << 2 | 1);
        }
        Add => {
            if n.rd == n.rs1 {
                cand.push(4 << 13 | 1 << 12 | rd << 7 | rs2 << 2 | 2);
            }
            if n.rs1 == 0 {
                cand.push(4 << 13 | rd << 7 | rs2 << 2 | 2);
            }
        }
        Jalr if n.imm == 0 => {
            cand.push(4 << 13 | (n.rd as u32 & 1) << 12 | rs1 << 7 | 2);
        }
        Ebreak => cand.push(4 << 13 | 1 << 12 | 2),
        Jal => {
            let im = bits(i, 11, 1) << 12
                | bits(i, 4, 1) << 11
                | bits(i, 8, 2) << 9
                | bits(i, 10, 1) << 8
                | bits(i, 6, 1) << 7
                | bits(i, 7, 1) << 6
                | bits(i, 1, 3) << 3
                | bits(i, 5, 1) << 2;
            cand.push(5 << 13 | im | 1);
            cand.push(1 << 13 | im | 1);
        }
        Beq | Bne if p(n.rs1) => {
            let im = bits(i, 8, 1) << 12 | bits(i, 3, 2) << 10 | bits(i, 6, 2) << 5 | bits(i, 1, 2) << 3 | bits(i, 5, 1) << 2;
            cand.push((if n.op == Beq { 6 } else { 7 }) << 13 | im | pr(n.rs1) << 7 | 1);
        }
        Lw | Sw => {
            let r = if n.op == Lw { n.rd } else { n.rs2 };
            if p(n.rs1) && p(r) {
                cand.push((if n.op == Lw { 2 } else { 6 }) << 13 | bits(i, 3, 3) << 10 | pr(n.rs1) << 7 | bits(i, 2, 1) << 6 | bits(i, 6, 1) << 5 | pr(r) << 2);
            }
            if n.rs1 == 2 {
                if n.op == Lw {
                    cand.push(2 << 13 | bits(i, 5, 1) << 12 | rd << 7 | bits(i, 2, 3) << 4 | bits(i, 6, 2) << 2 | 2);
                } else {
                    cand.push(6 << 13 | bits(i, 2, 4) << 9 | bits(i, 6, 2) << 7 | rs2 << 2 | 2);
                }
            }
        }
        Ld | Sd => {
            let r = if n.op == Ld { n.rd } else { n.rs2 };
            if p(n.rs1) && p(r) {
                cand.push((if n.op == Ld { 3 } else { 7 }) << 13 | bits(i, 3, 3) << 10 | pr(n.rs1) << 7 | bits(i, 6, 2) << 5 | pr(r) << 2);
            }
            if n.rs1 == 2 {
                if n.op == Ld {
                    cand.push(3 << 13 | bits(i, 5, 1) << 12 | rd << 7 | bits(i, 3, 2) << 5 | bits(i, 6, 3) << 2 | 2);
                } else {
                    cand.push(7 << 13 | bits(i, 3, 3) << 10 | bits(i, 6, 3) << 7 | rs2 << 2 | 2);
                }
            }
        }
        _ => {}
    }
    let mut want = *n;
    want.len = 2;
    for k in cand {
        if decode16(k as u16, c) == Some(want) {
            return Some(k as u16);
        }
    }
    None
}

/// RV32 shift-immediate words with shamt[5] = 1 (reserved by the manual, masked by this VM).
pub fn reserved_shift32(w: u32) -> bool {
    if w & 3 != 3 {
        let f3 = bits(w, 13, 3);
        return bits(w, 12, 1) == 1 && ((w & 3 == 2 && f3 == 0) || (w & 3 == 1 && f3 == 4 && bits(w, 10, 2) < 2));
    }
    w & 0x7f == 0x13
        && bits(w, 25, 1) == 1
        && match bits(w, 12, 3) {
            1 => matches!(bits(w, 26, 6), 0 | 0x12 | 0x1a | 0x0a),
            5 => matches!(bits(w, 26, 6), 0 | 0x10 | 0x12 | 0x18),
            _ => false,
        }
}
