//! C24: register arithmetic, concrete and symbolic.

use crate::exec::*;
use crate::gen::*;
use crate::isa::*;
use crate::model::*;
use crate::online::*;
use crate::runner::*;
use crate::src::Src;
use ckb_vm::decoder::{build_decoder, InstDecoder};
use ckb_vm::instructions::ast::{ActionOp1, ActionOp2, SignActionOp2, Value};
use ckb_vm::instructions::execute;
use ckb_vm::memory::{flat::FlatMemory, Memory};
use ckb_vm::{Bytes, CoreMachine, Error, Machine, Register};
use std::collections::HashMap;
use std::rc::Rc;

pub static PROP: Prop = Prop {
    id: "C24",
    rule: "operations on operands that are not both below 2; programs of at least 5 instructions evaluated symbolically",
    assumptions: &["shift amounts are below the register width, extension starts at bit 1 or later, and conditions are 0 or 1, as the register interface requires; rotation amounts are taken modulo the width"],
    cases: (120_000, 4_000_000),
    fixed: 0,
    preset: no_preset,
    run,
    probes: &[],
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum R {
    Not, LNot, Clz, Ctz, Cpop, Orcb, Rev8,
    Add, Sub, Mul, Div, Rem, DivS, RemS, Mulh, Mulhu, Mulhsu,
    Clmul, Clmulh, Clmulr, Rol, Ror,
    And, Or, Xor, Shl, Shr, SShl, SShr,
    Eq, Ne, Lt, LtS, Ge, GeS,
    Zext, Sext, Cond,
}
const UN: [R; 7] = [R::Not, R::LNot, R::Clz, R::Ctz, R::Cpop, R::Orcb, R::Rev8];
const BIN: [R; 30] = [
    R::Add, R::Sub, R::Mul, R::Div, R::Rem, R::DivS, R::RemS, R::Mulh, R::Mulhu, R::Mulhsu,
    R::Clmul, R::Clmulh, R::Clmulr, R::Rol, R::Ror,
    R::And, R::Or, R::Xor, R::Shl, R::Shr, R::SShl, R::SShr,
    R::Eq, R::Ne, R::Lt, R::LtS, R::Ge, R::GeS,
    R::Zext, R::Sext,
];

/// What the operation means, over integers.
fn means(op: R, a: u64, b: u64, c: u64, w: u32) -> u64 {
    let m: u128 = (1u128 << w) - 1;
    let (ua, ub) = (a as u128 & m, b as u128 & m);
    let s = |x: u128| -> i128 {
        if x >> (w - 1) & 1 == 1 {
            x as i128 - (1i128 << w)
        } else {
            x as i128
        }
    };
    let (sa, sb) = (s(ua), s(ub));
    let cl = || (0..w).fold(0u128, |x, i| if ub >> i & 1 == 1 { x ^ (ua << i) } else { x });
    let bit = |i: u32| (ua >> i) & 1;
    let r: u128 = match op {
        R::Not => !ua,
        R::LNot => (ua == 0) as u128,
        R::Clz => (0..w).rev().take_while(|i| bit(*i) == 0).count() as u128,
        R::Ctz => (0..w).take_while(|i| bit(*i) == 0).count() as u128,
        R::Cpop => (0..w).map(bit).sum(),
        R::Orcb => (0..w / 8).map(|i| if ua >> (8 * i) & 255 != 0 { 255u128 << (8 * i) } else { 0 }).sum(),
        R::Rev8 => (0..w / 8).map(|i| (ua >> (8 * i) & 255) << (w - 8 - 8 * i)).sum(),
        R::Add => ua + ub,
        R::Sub => (sa - sb) as u128,
        R::Mul => ua.wrapping_mul(ub),
        R::Div => ua.checked_div(ub).unwrap_or(m),
        R::Rem => ua.checked_rem(ub).unwrap_or(ua),
        // truncating division of the integers; the one overflow wraps by itself
        R::DivS => if sb == 0 { m } else { (sa / sb) as u128 },
        R::RemS => if sb == 0 { ua } else { (sa % sb) as u128 },
        R::Mulh => ((sa * sb) >> w) as u128,
        R::Mulhu => (ua * ub) >> w,
        R::Mulhsu => ((sa * ub as i128) >> w) as u128,
        R::Clmul => cl(),
        R::Clmulh => cl() >> w,
        R::Clmulr => cl() >> (w - 1),
        R::Rol => { let k = (b % w as u64) as u32; ua << k | ua >> (w - k) }
        R::Ror => { let k = (b % w as u64) as u32; ua >> k | ua << (w - k) }
        R::And => ua & ub,
        R::Or => ua | ub,
        R::Xor => ua ^ ub,
        R::Shl | R::SShl => ua << ub,
        R::Shr => ua >> ub,
        R::SShr => (sa >> ub) as u128,
        R::Eq => (ua == ub) as u128,
        R::Ne => (ua != ub) as u128,
        R::Lt => (ua < ub) as u128,
        R::LtS => (sa < sb) as u128,
        R::Ge => (ua >= ub) as u128,
        R::GeS => (sa >= sb) as u128,
        R::Zext => { let k = ub.min(w as u128); ua & ((1u128 << k) - 1) }
        R::Sext => {
            let k = ub.min(w as u128) as u32;
            let lo = ua & ((1u128 << k) - 1);
            if lo >> (k - 1) & 1 == 1 { lo | (m & !((1u128 << k) - 1)) } else { lo }
        }
        R::Cond => if ua == 1 { ub } else { c as u128 },
    };
    (r & m) as u64
}

fn apply<T: Register>(op: R, a: &T, b: &T, c: &T) -> T {
    match op {
        R::Not => !a.clone(),
        R::LNot => a.logical_not(),
        R::Clz => a.clz(),
        R::Ctz => a.ctz(),
        R::Cpop => a.cpop(),
        R::Orcb => a.orcb(),
        R::Rev8 => a.rev8(),
        R::Add => a.overflowing_add(b),
        R::Sub => a.overflowing_sub(b),
        R::Mul => a.overflowing_mul(b),
        R::Div => a.overflowing_div(b),
        R::Rem => a.overflowing_rem(b),
        R::DivS => a.overflowing_div_signed(b),
        R::RemS => a.overflowing_rem_signed(b),
        R::Mulh => a.overflowing_mul_high_signed(b),
        R::Mulhu => a.overflowing_mul_high_unsigned(b),
        R::Mulhsu => a.overflowing_mul_high_signed_unsigned(b),
        R::Clmul => a.clmul(b),
        R::Clmulh => a.clmulh(b),
        R::Clmulr => a.clmulr(b),
        R::Rol => a.rol(b),
        R::Ror => a.ror(b),
        R::And => a.clone() & b.clone(),
        R::Or => a.clone() | b.clone(),
        R::Xor => a.clone() ^ b.clone(),
        R::Shl => a.clone() << b.clone(),
        R::Shr => a.clone() >> b.clone(),
        R::SShl => a.signed_shl(b),
        R::SShr => a.signed_shr(b),
        R::Eq => Register::eq(a, b),
        R::Ne => Register::ne(a, b),
        R::Lt => Register::lt(a, b),
        R::LtS => a.lt_s(b),
        R::Ge => Register::ge(a, b),
        R::GeS => a.ge_s(b),
        R::Zext => a.zero_extend(b),
        R::Sext => a.sign_extend(b),
        R::Cond => a.cond(b, c),
    }
}

/// bring operands into the domain the interface asks for
fn domain(op: R, a: u64, b: u64, w: u32) -> (u64, u64) {
    match op {
        R::LNot | R::Cond => (a & 1, b),
        R::Shl | R::Shr | R::SShl | R::SShr => (a, b % w as u64),
        R::Rol | R::Ror => (a, b & 0xffff_ffff),
        R::Zext | R::Sext => (a, if b % 9 == 0 { w as u64 + b % 100 } else { b % w as u64 + 1 }),
        _ => (a, b),
    }
}

// ---- evaluation of expressions

#[derive(Default)]
struct Env {
    regs: [u64; 32],
    lr: u64,
    /// values of loads, in program order
    ext: Vec<u64>,
    memo: HashMap<*const Value, (Rc<Value>, u64)>,
}
impl Env {
    fn rc(&mut self, v: &Rc<Value>) -> u64 {
        let k = Rc::as_ptr(v);
        if let Some((_, r)) = self.memo.get(&k) {
            return *r;
        }
        let r = self.eval(v);
        self.memo.insert(k, (v.clone(), r));
        r
    }
    fn eval(&mut self, v: &Value) -> u64 {
        match v {
            Value::Lr => self.lr,
            Value::Imm(i) => *i,
            Value::Register(i) => self.regs[*i],
            Value::Op1(o, a) => {
                let a = self.rc(a);
                let o = match o {
                    ActionOp1::Not => R::Not,
                    ActionOp1::LogicalNot => R::LNot,
                    ActionOp1::Clz => R::Clz,
                    ActionOp1::Ctz => R::Ctz,
                    ActionOp1::Cpop => R::Cpop,
                    ActionOp1::Orcb => R::Orcb,
                    ActionOp1::Rev8 => R::Rev8,
                };
                means(o, a, 0, 0, 64)
            }
            Value::Op2(o, a, b) => {
                let (a, b) = (self.rc(a), self.rc(b));
                let o = match o {
                    ActionOp2::Add => R::Add,
                    ActionOp2::Sub => R::Sub,
                    ActionOp2::Mul => R::Mul,
                    ActionOp2::Mulhsu => R::Mulhsu,
                    ActionOp2::Bitand => R::And,
                    ActionOp2::Bitor => R::Or,
                    ActionOp2::Bitxor => R::Xor,
                    ActionOp2::Shl => R::Shl,
                    ActionOp2::Eq => R::Eq,
                    ActionOp2::Clmul => R::Clmul,
                    ActionOp2::Clmulh => R::Clmulh,
                    ActionOp2::Clmulr => R::Clmulr,
                    ActionOp2::Rol => R::Rol,
                    ActionOp2::Ror => R::Ror,
                };
                means(o, a, b, 0, 64)
            }
            Value::SignOp2(o, a, b, signed) => {
                let (a, b) = (self.rc(a), self.rc(b));
                let o = match (o, signed) {
                    (SignActionOp2::Mulh, true) => R::Mulh,
                    (SignActionOp2::Mulh, false) => R::Mulhu,
                    (SignActionOp2::Div, true) => R::DivS,
                    (SignActionOp2::Div, false) => R::Div,
                    (SignActionOp2::Rem, true) => R::RemS,
                    (SignActionOp2::Rem, false) => R::Rem,
                    (SignActionOp2::Shr, true) => R::SShr,
                    (SignActionOp2::Shr, false) => R::Shr,
                    (SignActionOp2::Lt, true) => R::LtS,
                    (SignActionOp2::Lt, false) => R::Lt,
                    (SignActionOp2::Extend, true) => R::Sext,
                    (SignActionOp2::Extend, false) => R::Zext,
                };
                means(o, a, b, 0, 64)
            }
            Value::Cond(c, a, b) => {
                let (c, a, b) = (self.rc(c), self.rc(a), self.rc(b));
                means(R::Cond, c, a, b, 64)
            }
            Value::External(_, i) => self.ext[*i as usize],
            Value::Load(..) => panic!("no such expression is built"),
        }
    }
}

// ---- a machine over symbolic registers

enum Ev1 {
    Load(Value, u64),
    Store(Value, u64, Value),
}
struct SymMem {
    lr: Value,
    log: Vec<Ev1>,
    loads: u64,
}
impl SymMem {
    fn ld(&mut self, a: &Value, w: u64) -> Result<Value, Error> {
        self.log.push(Ev1::Load(a.clone(), w));
        self.loads += 1;
        Ok(Value::External(Rc::new(a.clone()), self.loads - 1))
    }
    fn st(&mut self, a: &Value, w: u64, v: &Value) -> Result<(), Error> {
        self.log.push(Ev1::Store(a.clone(), w, v.clone()));
        Ok(())
    }
}
fn no<T>() -> Result<T, Error> {
    Err(Error::Unexpected("not a symbolic operation".into()))
}
impl Memory for SymMem {
    type REG = Value;
    fn reset_memory(&mut self) -> Result<(), Error> {
        no()
    }
    fn init_pages(&mut self, _: u64, _: u64, _: u8, _: Option<Bytes>, _: u64) -> Result<(), Error> {
        no()
    }
    fn fetch_flag(&mut self, _: u64) -> Result<u8, Error> {
        no()
    }
    fn set_flag(&mut self, _: u64, _: u8) -> Result<(), Error> {
        no()
    }
    fn clear_flag(&mut self, _: u64, _: u8) -> Result<(), Error> {
        no()
    }
    fn memory_size(&self) -> usize {
        1 << 22
    }
    fn store_byte(&mut self, _: u64, _: u64, _: u8) -> Result<(), Error> {
        no()
    }
    fn store_bytes(&mut self, _: u64, _: &[u8]) -> Result<(), Error> {
        no()
    }
    fn load_bytes(&mut self, _: u64, _: u64) -> Result<Bytes, Error> {
        no()
    }
    fn execute_load16(&mut self, _: u64) -> Result<u16, Error> {
        no()
    }
    fn execute_load32(&mut self, _: u64) -> Result<u32, Error> {
        no()
    }
    fn load8(&mut self, a: &Value) -> Result<Value, Error> {
        self.ld(a, 1)
    }
    fn load16(&mut self, a: &Value) -> Result<Value, Error> {
        self.ld(a, 2)
    }
    fn load32(&mut self, a: &Value) -> Result<Value, Error> {
        self.ld(a, 4)
    }
    fn load64(&mut self, a: &Value) -> Result<Value, Error> {
        self.ld(a, 8)
    }
    fn store8(&mut self, a: &Value, v: &Value) -> Result<(), Error> {
        self.st(a, 1, v)
    }
    fn store16(&mut self, a: &Value, v: &Value) -> Result<(), Error> {
        self.st(a, 2, v)
    }
    fn store32(&mut self, a: &Value, v: &Value) -> Result<(), Error> {
        self.st(a, 4, v)
    }
    fn store64(&mut self, a: &Value, v: &Value) -> Result<(), Error> {
        self.st(a, 8, v)
    }
    fn lr(&self) -> &Value {
        &self.lr
    }
    fn set_lr(&mut self, v: &Value) {
        self.lr = v.clone();
    }
}
struct Sym {
    regs: Vec<Value>,
    pc: Value,
    next: Value,
    mem: SymMem,
    ver: u32,
    isa: u8,
}
impl CoreMachine for Sym {
    type REG = Value;
    type MEM = SymMem;
    fn pc(&self) -> &Value {
        &self.pc
    }
    fn update_pc(&mut self, pc: Value) {
        self.next = pc;
    }
    fn commit_pc(&mut self) {
        self.pc = self.next.clone();
    }
    fn memory(&self) -> &SymMem {
        &self.mem
    }
    fn memory_mut(&mut self) -> &mut SymMem {
        &mut self.mem
    }
    fn registers(&self) -> &[Value] {
        &self.regs
    }
    fn set_register(&mut self, i: usize, v: Value) {
        self.regs[i] = v;
    }
    fn version(&self) -> u32 {
        self.ver
    }
    fn isa(&self) -> u8 {
        self.isa
    }
}
impl Machine for Sym {
    fn ecall(&mut self) -> Result<(), Error> {
        no()
    }
    fn ebreak(&mut self) -> Result<(), Error> {
        Ok(())
    }
}

fn concrete(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    let (mut a, mut b, c) = (s.val(), s.val(), s.val());
    if s.chance(1, 8) {
        b = a;
    }
    if s.chance(1, 8) {
        a = s.below(4).wrapping_sub(2);
    }
    ctx.label("single operations");
    ctx.nt(a > 1 || b > 1);
    ctx.sample(|| format!("all operations on {a:#x} {b:#x} {c:#x}"));
    for op in UN.iter().chain(&BIN).chain(&[R::Cond]) {
        let (x, y) = domain(*op, a, b, 64);
        let want = means(*op, x, y, c, 64);
        let got = apply::<u64>(*op, &x, &y, &c);
        ctx.evals += 1;
        ensure!(got == want, "u64", "{op:?} on {x:#x} {y:#x} {c:#x} is {got:#x}, expected {want:#x}");
        let (x, y, z) = (a as u32, b as u32, c as u32);
        let (x, y) = domain(*op, x as u64, y as u64, 32);
        let want = means(*op, x, y, z as u64, 32);
        let got = apply::<u32>(*op, &(x as u32), &(y as u32), &z);
        ensure!(got as u64 == want, "u32", "{op:?} on {x:#x} {y:#x} {z:#x} is {got:#x}, expected {want:#x}");
        // symbolic: both constant, one constant, none
        let (x, y) = domain(*op, a, b, 64);
        let want = means(*op, x, y, c, 64);
        for f in 0..8u32 {
            let leaf = |i: usize, v: u64| if f >> i & 1 == 1 { Value::Imm(v) } else { Value::Register(i + 1) };
            let e = apply::<Value>(*op, &leaf(0, x), &leaf(1, y), &leaf(2, c));
            let mut env = Env::default();
            env.regs[1] = x;
            env.regs[2] = y;
            env.regs[3] = c;
            let got = env.eval(&e);
            ensure!(got == want, "symbolic", "{op:?} on {x:#x} {y:#x} {c:#x} (constants {f:03b}) builds {e:?}, which is {got:#x}, expected {want:#x}");
        }
    }
    // conversions
    let v = a;
    let w = a as u32;
    let s32 = |x: i64| x as i32 as u32;
    let ok = [
        (u64::zero(), 0), (u64::one(), 1), (<u64 as Register>::min_value(), 0), (<u64 as Register>::max_value(), u64::MAX),
        (<u64 as Register>::BITS as u64, 64), (<u64 as Register>::SHIFT_MASK as u64, 63),
        (<u32 as Register>::BITS as u64, 32), (<u32 as Register>::SHIFT_MASK as u64, 31),
        (<Value as Register>::BITS as u64, 64), (<Value as Register>::SHIFT_MASK as u64, 63),
        (u32::zero() as u64, 0), (u32::one() as u64, 1), (<u32 as Register>::min_value() as u64, 0), (<u32 as Register>::max_value() as u64, u32::MAX as u64),
        (Register::to_i8(&v) as u64, v as i8 as u64), (Register::to_i16(&v) as u64, v as i16 as u64), (Register::to_i32(&v) as u64, v as i32 as u64), (Register::to_i64(&v) as u64, v),
        (Register::to_u8(&v) as u64, v & 0xff), (Register::to_u16(&v) as u64, v & 0xffff), (Register::to_u32(&v) as u64, v & 0xffff_ffff), (Register::to_u64(&v), v),
        (Register::to_i8(&w) as u64, w as i8 as u64), (Register::to_i16(&w) as u64, w as i16 as u64), (Register::to_i32(&w) as u64, w as i32 as u64), (Register::to_i64(&w) as u64, w as i32 as i64 as u64),
        (Register::to_u8(&w) as u64, v & 0xff), (Register::to_u16(&w) as u64, v & 0xffff), (Register::to_u32(&w) as u64, w as u64), (Register::to_u64(&w), w as u64),
        (u64::from_i8(v as i8), v as i8 as i64 as u64), (u64::from_i16(v as i16), v as i16 as i64 as u64), (u64::from_i32(v as i32), v as i32 as i64 as u64), (u64::from_i64(v as i64), v),
        (u64::from_u8(v as u8), v & 0xff), (u64::from_u16(v as u16), v & 0xffff), (u64::from_u32(v as u32), v & 0xffff_ffff), (u64::from_u64(v), v),
        (u32::from_i8(v as i8) as u64, s32(v as i8 as i64) as u64), (u32::from_i16(v as i16) as u64, s32(v as i16 as i64) as u64), (u32::from_i32(v as i32) as u64, w as u64), (u32::from_i64(v as i64) as u64, w as u64),
        (u32::from_u8(v as u8) as u64, v & 0xff), (u32::from_u16(v as u16) as u64, v & 0xffff), (u32::from_u32(v as u32) as u64, w as u64), (u32::from_u64(v) as u64, w as u64),
    ];
    for (i, (g, w)) in ok.iter().enumerate() {
        ensure!(g == w, "conversion", "conversion {i} of {v:#x} gives {g:#x}, expected {w:#x}");
    }
    let sym = [
        (Value::zero(), 0), (Value::one(), 1), (Value::min_value(), 0), (Value::max_value(), u64::MAX), (Value::default(), 0),
        (Value::from_i8(v as i8), v as i8 as i64 as u64), (Value::from_i16(v as i16), v as i16 as i64 as u64), (Value::from_i32(v as i32), v as i32 as i64 as u64), (Value::from_i64(v as i64), v),
        (Value::from_u8(v as u8), v & 0xff), (Value::from_u16(v as u16), v & 0xffff), (Value::from_u32(v as u32), v & 0xffff_ffff), (Value::from_u64(v), v),
    ];
    for (i, (g, w)) in sym.iter().enumerate() {
        let g = Env::default().eval(g);
        ensure!(g == *w, "conversion", "symbolic constant {i} of {v:#x} is {g:#x}, expected {w:#x}");
    }
    // rounding
    let k = s.below(40);
    let r = 1u64 << if k < 32 { k } else { 12 };
    let near = match s.below(3) {
        0 => v,
        1 => (v / r).wrapping_mul(r).wrapping_add(s.below(5)).wrapping_sub(2),
        _ => u64::MAX - s.below(3 * r.min(1 << 20)),
    };
    let up = (near as u128).div_ceil(r as u128) * r as u128;
    let g = ckb_vm::bits::roundup(near, r);
    ensure!(g == up as u64, "rounding", "roundup({near:#x}, {r:#x}) is {g:#x}, expected {:#x}", up as u64);
    let g = ckb_vm::bits::rounddown(near, r);
    ensure!(g == near / r * r, "rounding", "rounddown({near:#x}, {r:#x}) is {g:#x}");
    let g = (ckb_vm::memory::round_page_up(near), ckb_vm::memory::round_page_down(near));
    let up = (near as u128).div_ceil(PAGE as u128) * PAGE as u128;
    ensure!(g == (up as u64, near / PAGE * PAGE), "rounding", "page rounding of {near:#x} is {g:x?}");
    Ok(())
}

/// expression trees, against the same tree over integers
fn tree(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    ctx.label("expressions");
    let mut env = Env::default();
    for i in 1..32 {
        env.regs[i] = s.val();
    }
    let mut pool: Vec<(Value, u64, u64)> = vec![];
    for _ in 0..4 {
        if s.bool() {
            let v = s.val();
            pool.push((Value::Imm(v), v, v));
        } else {
            let i = s.range(1, 31) as usize;
            pool.push((Value::Register(i), env.regs[i], env.regs[i]));
        }
    }
    let n = s.range(1, 25);
    for _ in 0..n {
        let op = if s.chance(1, 5) { *s.pick(&UN) } else if s.chance(1, 12) { R::Cond } else { *s.pick(&BIN) };
        let x = pool[s.usize(pool.len())].clone();
        let y = pool[s.usize(pool.len())].clone();
        let z = pool[s.usize(pool.len())].clone();
        // reduce operands to the domain the way the interpreter does
        let small = |v: &(Value, u64, u64), m: u64| (v.0.clone() & Value::Imm(m), v.1 & m, v.2 & m);
        let (x, y) = match op {
            R::LNot | R::Cond => (small(&x, 1), y),
            R::Shl | R::Shr | R::SShl | R::SShr | R::Rol | R::Ror => (x, small(&y, 63)),
            R::Zext | R::Sext => {
                let k = s.range(1, 64);
                (x, (Value::Imm(k), k, k))
            }
            _ => (x, y),
        };
        let e = apply::<Value>(op, &x.0, &y.0, &z.0);
        let c = apply::<u64>(op, &x.2, &y.2, &z.2);
        let m = means(op, x.1, y.1, z.1, 64);
        ensure!(c == m, "u64", "{op:?} on {:#x} {:#x} {:#x} is {c:#x}, expected {m:#x}", x.2, y.2, z.2);
        let g = env.eval(&e);
        ensure!(g == m, "symbolic", "{op:?} builds {e:?}, which is {g:#x}, expected {m:#x}");
        pool.push((e, m, c));
    }
    ctx.nt(n >= 3);
    ctx.evals += n;
    Ok(())
}

/// run on symbolic registers along the path of the reference
fn program(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    ctx.label("programs");
    let p = gen_cfg(s, 64);
    let straight = s.chance(1, 3);
    let set = if straight {
        let c = p.c;
        let mut a = Asm::default();
        let regs: Vec<u8> = if s.bool() { vec![5, 6, 7, 28, 29] } else { (1..32).collect() };
        for _ in 0..s.range(1, 20) {
            if p.mop && s.chance(1, 3) {
                for i in mop_window(s, &c, &regs) {
                    a.ic(i, s.chance(1, 3));
                }
            } else {
                let i = gen_alu(s, &c, &regs, &regs);
                a.ic(i, s.bool());
            }
        }
        a.op(Op::Ecall, 0, 0, 0, 0);
        let (code, _) = a.assemble(0x1000, &c);
        let mut v = code;
        while v.len() as u64 % PAGE != 0 {
            v.push(0);
        }
        let mut r = [0; 32];
        for x in r.iter_mut().skip(1) {
            *x = s.val();
        }
        Setup { p, regs: r, pc: 0x1000, code_base: 0x1000, code: v, blobs: vec![], cost: Cost::Zero, max_cycles: u64::MAX }
    } else {
        let on = On { steps: s.range(1, 40), w: [10, 4, 4, 3, 4, if p.mop { 4 } else { 0 }, 0], wild_mem: 3, ..On::default() };
        OnGen::new(s, p, on).generate().0
    };
    ctx.sample(|| set.render());
    let mut code = FlatMemory::<u64>::new_with_memory(set.p.mem as usize);
    code.init_pages(set.code_base, set.code.len() as u64, 0, Some(Bytes::from(set.code.clone())), 0).map_err(|e| h(format!("{e:?}")))?;
    let mut dec = build_decoder::<u64>(set.p.isa(), set.p.c.ver);
    let mut m = set.model();
    m.max_cycles = u64::MAX;
    let mem0 = m.mem.data.clone();
    let init = m.x;
    // some registers are known constants
    let known: u64 = if s.bool() { s.u64() } else { 0 };
    let regs = (0..32).map(|i| if i == 0 { Value::Imm(0) } else if known >> i & 1 == 1 { Value::Imm(init[i]) } else { Value::Register(i) }).collect();
    let mut sym = Sym { regs, pc: Value::Imm(m.pc), next: Value::Imm(m.pc), mem: SymMem { lr: Value::Lr, log: vec![], loads: 0 }, ver: set.p.c.ver, isa: set.p.isa() };
    let mut env = Env { regs: init, lr: m.lr, ..Env::default() };
    let mut smem = mem0;
    let mut steps = 0u64;
    let mut done = 0;
    while steps < 300 {
        let pc = m.pc;
        let inst = match dec.decode(&mut code, pc) {
            Ok(i) => i,
            Err(_) => break,
        };
        let e = model_group(&mut m);
        match e {
            Ok(Ev::None) | Ok(Ev::Ebreak) => {}
            _ => break,
        }
        execute(inst, &mut sym).map_err(|e| f("symbolic-run", format!("at {pc:#x}: {e:?} | {}", set.render())))?;
        steps += 1;
        while done < sym.mem.log.len() {
            match &sym.mem.log[done] {
                Ev1::Load(a, w) => {
                    let a = env.eval(a);
                    ensure!(a.checked_add(*w).map(|e| e <= smem.len() as u64).unwrap_or(false), "symbolic-address", "at {pc:#x}: a load from {a:#x} | {}", set.render());
                    let v = (0..*w).rev().fold(0u64, |x, i| x << 8 | smem[(a + i) as usize] as u64);
                    env.ext.push(v);
                }
                Ev1::Store(a, w, v) => {
                    let a = env.eval(a);
                    let v = env.eval(v);
                    ensure!(a.checked_add(*w).map(|e| e <= smem.len() as u64).unwrap_or(false), "symbolic-address", "at {pc:#x}: a store to {a:#x} | {}", set.render());
                    for i in 0..*w {
                        smem[(a + i) as usize] = (v >> (8 * i)) as u8;
                    }
                }
            }
            done += 1;
        }
        let g = env.eval(&sym.pc);
        ensure!(g == m.pc, "symbolic-pc", "after {pc:#x} the program counter is {g:#x}, expected {:#x} | {}", m.pc, set.render());
        sym.pc = Value::Imm(m.pc);
    }
    ctx.evals += 1;
    ctx.nt(steps >= 5);
    for i in 0..32 {
        let g = env.eval(&sym.regs[i]);
        // a faulting instruction ends the comparison before it
        if g != m.x[i] && m.fault_rd.is_none() {
            return Err(f("symbolic-register", format!("{} evaluates to {g:#x}, expected {:#x} after {steps} steps | {}", ABI[i], m.x[i], set.render())));
        }
    }
    let g = env.eval(&sym.mem.lr);
    ensure!(g == m.lr || m.fault_rd.is_some(), "symbolic-reservation", "reservation evaluates to {g:#x}, expected {:#x} | {}", m.lr, set.render());
    if let Some(i) = (0..smem.len()).find(|i| smem[*i] != m.mem.data[*i]) {
        return Err(f("symbolic-memory", format!("byte {i:#x} is {:#x}, expected {:#x} | {}", smem[i], m.mem.data[i], set.render())));
    }
    if straight && known == 0 {
        // the same expressions under other values
        for _ in 0..3 {
            let mut set2 = set.clone();
            for x in set2.regs.iter_mut().skip(1) {
                *x = s.val();
            }
            let mut m2 = set2.model();
            let mut n = 0;
            while n < steps {
                if model_group(&mut m2).is_err() {
                    return Ok(());
                }
                n += 1;
            }
            let mut env = Env { regs: set2.regs, lr: m2.lr, ..Env::default() };
            env.regs[0] = 0;
            ctx.evals += 1;
            for i in 0..32 {
                let g = env.eval(&sym.regs[i]);
                if g != m2.x[i] {
                    return Err(f("symbolic-register", format!("under other values {} evaluates to {g:#x}, expected {:#x} | {}", ABI[i], m2.x[i], set2.render())));
                }
            }
        }
    }
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    match s.weighted(&[5, 2, 4]) {
        0 => concrete(s, ctx),
        1 => tree(s, ctx),
        _ => program(s, ctx),
    }
}
