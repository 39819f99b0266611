//! Uniform handle over every execution engine and memory backend of ckb-vm.

use crate::model::{Cost, Fault};
use ckb_vm::decoder::{build_decoder, Decoder, InstDecoder};
use ckb_vm::elf::ProgramMetadata;
use ckb_vm::instructions::{extract_opcode, instruction_opcode_name, Instruction};
use ckb_vm::machine::asm::traces::{
    MemoizedDynamicTraceDecoder, MemoizedFixedTraceDecoder, SimpleFixedTraceDecoder,
};
use ckb_vm::machine::asm::{AsmCoreMachine, AsmMachine};
use ckb_vm::machine::Pause;
use ckb_vm::snapshot::{make_snapshot, resume, Snapshot};
use ckb_vm::snapshot2::{DataSource, Snapshot2, Snapshot2Context};
pub use ckb_vm::{Bytes, Error};
use ckb_vm::{
    Debugger, DefaultCoreMachine, DefaultMachine, DefaultMachineBuilder, FlatMemory, Memory,
    Register, SparseMemory, SupportMachine, Syscalls, TraceMachine, WXorXMemory,
};
use std::sync::Arc;

pub type Res<T> = Result<T, Error>;

/// Sources from this number on are of many gigabytes; their content is computed.
pub const VIRT: u32 = 1000;
pub fn virt_len(id: u32) -> u64 {
    ((id - VIRT) as u64 + 1 << 33) + 0x123
}
pub fn virt_byte(id: u32, o: u64) -> u8 {
    ((o / 8).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(17) ^ (id as u64) << 40).wrapping_mul(0xd6e8_feb8_6659_fd93).to_le_bytes()[(o % 8) as usize]
}

/// External data for data-source snapshots.
#[derive(Clone, Default)]
pub struct Source(pub Arc<Vec<Vec<u8>>>);
impl DataSource<u32> for Source {
    fn load_data(&self, id: &u32, offset: u64, length: u64) -> Option<(Bytes, u64)> {
        if *id >= VIRT {
            let full = virt_len(*id).saturating_sub(offset);
            let n = full.min(length).min(64 << 20);
            return Some((Bytes::from((offset..offset + n).map(|o| virt_byte(*id, o)).collect::<Vec<u8>>()), full));
        }
        let d = self.0.get(*id as usize)?;
        let len = d.len() as u64;
        let off = offset.min(len);
        let full = len - off;
        let n = full.min(length);
        Some((Bytes::copy_from_slice(&d[off as usize..(off + n) as usize]), full))
    }
}
pub type Ctx2 = Snapshot2Context<u32, Source>;

/// Object-safe view of any SupportMachine.
pub trait SM {
    fn regs(&self) -> [u64; 32];
    fn reg(&self, i: usize) -> u64;
    fn set_reg(&mut self, i: usize, v: u64);
    fn pc(&self) -> u64;
    fn set_pc(&mut self, v: u64);
    fn cycles(&self) -> u64;
    fn set_cycles(&mut self, v: u64);
    fn max_cycles(&self) -> u64;
    fn set_max_cycles(&mut self, v: u64);
    fn add_cycles(&mut self, v: u64) -> Res<()>;
    fn add_cycles_nc(&mut self, v: u64) -> Res<()>;
    fn set_running(&mut self, v: bool);
    fn reset(&mut self, max: u64) -> Res<()>;
    fn version(&self) -> u32;
    fn isa(&self) -> u8;
    fn load_elf(&mut self, p: &Bytes, update_pc: bool) -> Res<u64>;
    fn load_binary(&mut self, p: &Bytes, m: &ProgramMetadata, update_pc: bool) -> Res<u64>;
    fn init_stack(&mut self, args: &[Bytes], start: u64, size: u64) -> Res<u64>;
    fn mem_size(&self) -> u64;
    fn init_pages(&mut self, addr: u64, size: u64, flags: u8, src: Option<Bytes>, off: u64) -> Res<()>;
    fn flag(&mut self, page: u64) -> Res<u8>;
    fn set_flag(&mut self, page: u64, f: u8) -> Res<()>;
    fn clear_flag(&mut self, page: u64, f: u8) -> Res<()>;
    fn fill(&mut self, addr: u64, size: u64, v: u8) -> Res<()>;
    fn store_bytes(&mut self, addr: u64, v: &[u8]) -> Res<()>;
    fn load_bytes(&mut self, addr: u64, size: u64) -> Res<Bytes>;
    fn fetch16(&mut self, addr: u64) -> Res<u16>;
    fn fetch32(&mut self, addr: u64) -> Res<u32>;
    fn load(&mut self, w: u64, addr: u64) -> Res<u64>;
    fn store(&mut self, w: u64, addr: u64, v: u64) -> Res<()>;
    fn lr(&self) -> u64;
    fn set_lr(&mut self, v: u64);
    fn reset_memory(&mut self) -> Res<()>;
    fn snap1(&mut self) -> Res<Snapshot>;
    fn resume1(&mut self, s: &Snapshot) -> Res<()>;
    fn snap2(&mut self, c: &Ctx2) -> Res<Snapshot2<u32>>;
    fn resume2(&mut self, c: &mut Ctx2, s: &Snapshot2<u32>) -> Res<()>;
    fn s2_store(&mut self, c: &mut Ctx2, addr: u64, id: u32, off: u64, len: u64, size_addr: u64) -> Res<(u64, u64)>;
    fn s2_mark(&mut self, c: &mut Ctx2, m: &ProgramMetadata, id: u32, off: u64) -> Res<()>;
    fn s2_track(&mut self, c: &mut Ctx2, start: u64, len: u64, id: u32, off: u64) -> Res<()>;
    fn s2_untrack(&mut self, c: &mut Ctx2, start: u64, len: u64) -> Res<()>;
}

pub fn mem_load<M: Memory>(m: &mut M, w: u64, addr: u64) -> Res<u64> {
    let a = M::REG::from_u64(addr);
    Ok(match w {
        1 => m.load8(&a)?,
        2 => m.load16(&a)?,
        4 => m.load32(&a)?,
        _ => m.load64(&a)?,
    }
    .to_u64())
}
pub fn mem_store<M: Memory>(m: &mut M, w: u64, addr: u64, v: u64) -> Res<()> {
    let a = M::REG::from_u64(addr);
    let v = M::REG::from_u64(v);
    match w {
        1 => m.store8(&a, &v),
        2 => m.store16(&a, &v),
        4 => m.store32(&a, &v),
        _ => m.store64(&a, &v),
    }
}

impl<T: SupportMachine> SM for T {
    fn regs(&self) -> [u64; 32] {
        let mut r = [0; 32];
        for (i, v) in self.registers().iter().enumerate() {
            r[i] = v.to_u64();
        }
        r
    }
    fn reg(&self, i: usize) -> u64 {
        self.registers()[i].to_u64()
    }
    fn set_reg(&mut self, i: usize, v: u64) {
        self.set_register(i, T::REG::from_u64(v))
    }
    fn pc(&self) -> u64 {
        ckb_vm::CoreMachine::pc(self).to_u64()
    }
    fn set_pc(&mut self, v: u64) {
        self.update_pc(T::REG::from_u64(v));
        self.commit_pc();
    }
    fn cycles(&self) -> u64 {
        SupportMachine::cycles(self)
    }
    fn set_cycles(&mut self, v: u64) {
        SupportMachine::set_cycles(self, v)
    }
    fn max_cycles(&self) -> u64 {
        SupportMachine::max_cycles(self)
    }
    fn set_max_cycles(&mut self, v: u64) {
        SupportMachine::set_max_cycles(self, v)
    }
    fn add_cycles(&mut self, v: u64) -> Res<()> {
        SupportMachine::add_cycles(self, v)
    }
    fn add_cycles_nc(&mut self, v: u64) -> Res<()> {
        SupportMachine::add_cycles_no_checking(self, v)
    }
    fn set_running(&mut self, v: bool) {
        SupportMachine::set_running(self, v)
    }
    fn reset(&mut self, max: u64) -> Res<()> {
        SupportMachine::reset(self, max)
    }
    fn version(&self) -> u32 {
        ckb_vm::CoreMachine::version(self)
    }
    fn isa(&self) -> u8 {
        ckb_vm::CoreMachine::isa(self)
    }
    fn load_elf(&mut self, p: &Bytes, update_pc: bool) -> Res<u64> {
        SupportMachine::load_elf(self, p, update_pc)
    }
    fn load_binary(&mut self, p: &Bytes, m: &ProgramMetadata, update_pc: bool) -> Res<u64> {
        SupportMachine::load_binary(self, p, m, update_pc)
    }
    fn init_stack(&mut self, args: &[Bytes], start: u64, size: u64) -> Res<u64> {
        self.initialize_stack(args, start, size)
    }
    fn mem_size(&self) -> u64 {
        self.memory().memory_size() as u64
    }
    fn init_pages(&mut self, addr: u64, size: u64, flags: u8, src: Option<Bytes>, off: u64) -> Res<()> {
        self.memory_mut().init_pages(addr, size, flags, src, off)
    }
    fn flag(&mut self, page: u64) -> Res<u8> {
        self.memory_mut().fetch_flag(page)
    }
    fn set_flag(&mut self, page: u64, f: u8) -> Res<()> {
        self.memory_mut().set_flag(page, f)
    }
    fn clear_flag(&mut self, page: u64, f: u8) -> Res<()> {
        self.memory_mut().clear_flag(page, f)
    }
    fn fill(&mut self, addr: u64, size: u64, v: u8) -> Res<()> {
        self.memory_mut().store_byte(addr, size, v)
    }
    fn store_bytes(&mut self, addr: u64, v: &[u8]) -> Res<()> {
        self.memory_mut().store_bytes(addr, v)
    }
    fn load_bytes(&mut self, addr: u64, size: u64) -> Res<Bytes> {
        self.memory_mut().load_bytes(addr, size)
    }
    fn fetch16(&mut self, addr: u64) -> Res<u16> {
        self.memory_mut().execute_load16(addr)
    }
    fn fetch32(&mut self, addr: u64) -> Res<u32> {
        self.memory_mut().execute_load32(addr)
    }
    fn load(&mut self, w: u64, addr: u64) -> Res<u64> {
        mem_load(self.memory_mut(), w, addr)
    }
    fn store(&mut self, w: u64, addr: u64, v: u64) -> Res<()> {
        mem_store(self.memory_mut(), w, addr, v)
    }
    fn lr(&self) -> u64 {
        self.memory().lr().to_u64()
    }
    fn set_lr(&mut self, v: u64) {
        self.memory_mut().set_lr(&T::REG::from_u64(v))
    }
    fn reset_memory(&mut self) -> Res<()> {
        self.memory_mut().reset_memory()
    }
    fn snap1(&mut self) -> Res<Snapshot> {
        make_snapshot(self)
    }
    fn resume1(&mut self, s: &Snapshot) -> Res<()> {
        resume(self, s)
    }
    fn snap2(&mut self, c: &Ctx2) -> Res<Snapshot2<u32>> {
        c.make_snapshot(self)
    }
    fn resume2(&mut self, c: &mut Ctx2, s: &Snapshot2<u32>) -> Res<()> {
        c.resume(self, s)
    }
    fn s2_store(&mut self, c: &mut Ctx2, addr: u64, id: u32, off: u64, len: u64, size_addr: u64) -> Res<(u64, u64)> {
        c.store_bytes(self, addr, &id, off, len, size_addr)
    }
    fn s2_mark(&mut self, c: &mut Ctx2, m: &ProgramMetadata, id: u32, off: u64) -> Res<()> {
        c.mark_program(self, m, &id, off)
    }
    fn s2_track(&mut self, c: &mut Ctx2, start: u64, len: u64, id: u32, off: u64) -> Res<()> {
        c.track_pages(self, start, len, &id, off)
    }
    fn s2_untrack(&mut self, c: &mut Ctx2, start: u64, len: u64) -> Res<()> {
        c.untrack_pages(self, start, len)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Engine {
    Naive,
    Trace,
    /// assembly with the default trace decoder
    Asm,
    AsmMemoFixed,
    AsmMemoDyn,
    /// plain interpreter loop over the assembly machine's memory
    AsmNaive,
}
impl Engine {
    pub fn is_asm(self) -> bool {
        !matches!(self, Engine::Naive | Engine::Trace)
    }
    /// may report an undecodable instruction before executing what leads to it
    pub fn decodes_ahead(self) -> bool {
        !matches!(self, Engine::Naive | Engine::AsmNaive)
    }
    #[allow(dead_code)]
    pub fn block_at_a_time(self) -> bool {
        matches!(self, Engine::Asm | Engine::AsmMemoFixed | Engine::AsmMemoDyn)
    }
}
pub const ENGINES64: [Engine; 6] =
    [Engine::Naive, Engine::Trace, Engine::Asm, Engine::AsmMemoFixed, Engine::AsmMemoDyn, Engine::AsmNaive];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Kind {
    pub engine: Engine,
    pub bits: u32,
    pub flat: bool,
}
impl Kind {
    pub fn new(engine: Engine, bits: u32, flat: bool) -> Self {
        Kind { engine, bits, flat }
    }
}
impl std::fmt::Display for Kind {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}/rv{}/{}", self.engine, self.bits, if self.engine.is_asm() { "asm" } else if self.flat { "flat" } else { "sparse" })
    }
}

pub type InitFn = Box<dyn FnMut(&mut dyn SM) -> Res<()> + Send + Sync>;
pub type SysFn = Box<dyn FnMut(&mut dyn SM) -> Res<bool> + Send + Sync>;
pub type BrkFn = Box<dyn FnMut(&mut dyn SM) -> Res<()> + Send + Sync>;

struct SysObj {
    init: Option<InitFn>,
    call: SysFn,
}
impl<Mac: SupportMachine> Syscalls<Mac> for SysObj {
    fn initialize(&mut self, m: &mut Mac) -> Res<()> {
        match &mut self.init {
            Some(f) => f(m),
            None => Ok(()),
        }
    }
    fn ecall(&mut self, m: &mut Mac) -> Res<bool> {
        (self.call)(m)
    }
}
struct DbgObj {
    init: Option<InitFn>,
    brk: BrkFn,
}
impl<Mac: SupportMachine> Debugger<Mac> for DbgObj {
    fn initialize(&mut self, m: &mut Mac) -> Res<()> {
        match &mut self.init {
            Some(f) => f(m),
            None => Ok(()),
        }
    }
    fn ebreak(&mut self, m: &mut Mac) -> Res<()> {
        (self.brk)(m)
    }
}

pub struct VmCfg {
    pub kind: Kind,
    pub isa: u8,
    pub ver: u32,
    pub mem: u64,
    pub max_cycles: u64,
    pub cost: Cost,
    pub syscalls: Vec<(Option<InitFn>, SysFn)>,
    pub debugger: Option<(Option<InitFn>, BrkFn)>,
    pub pause: Option<Pause>,
    pub chaos: Option<u32>,
    /// memory without write-xor-execute protection (interpreters only)
    pub raw: bool,
}
impl VmCfg {
    pub fn new(kind: Kind, isa: u8, ver: u32, mem: u64) -> Self {
        VmCfg {
            kind,
            isa,
            ver,
            mem,
            max_cycles: u64::MAX,
            cost: Cost::Zero,
            syscalls: vec![],
            debugger: None,
            pause: None,
            chaos: None,
            raw: false,
        }
    }
    pub fn cycles(mut self, max: u64, cost: Cost) -> Self {
        self.max_cycles = max;
        self.cost = cost;
        self
    }
}

fn base_name(op: u16) -> &'static str {
    let n = instruction_opcode_name(op);
    n.strip_suffix("_VERSION0").or_else(|| n.strip_suffix("_VERSION1")).unwrap_or(n)
}

pub fn cost_fn(c: Cost) -> Box<dyn Fn(Instruction) -> u64 + Send + Sync> {
    match c {
        Cost::Zero => Box::new(|_| 0),
        Cost::One => Box::new(|_| 1),
        Cost::Published => Box::new(ckb_vm::cost_model::estimate_cycles),
        Cost::Hash(_) | Cost::Huge(_) => {
            let t: Vec<u64> = (0..256u16)
                .map(|op| match c {
                    Cost::Huge(k) => crate::model::huge(k, base_name(op)),
                    Cost::Hash(k) => crate::model::hashed(k, base_name(op)),
                    _ => 0,
                })
                .collect();
            Box::new(move |i| {
                let op = extract_opcode(i);
                t.get(op as usize).copied().unwrap_or(1)
            })
        }
    }
}

pub trait Vm {
    fn sm(&mut self) -> &mut dyn SM;
    fn kind(&self) -> Kind;
    fn load_program(&mut self, p: &Bytes, args: &[Bytes]) -> Res<u64>;
    fn load_with_metadata(&mut self, p: &Bytes, m: &ProgramMetadata, args: &[Bytes]) -> Res<u64>;
    fn run(&mut self) -> Res<i8>;
    /// run with one decoder that lives as long as this handle
    fn run_kept(&mut self) -> Res<i8>;
    fn step(&mut self) -> Res<()>;
    /// make the stepping decoder forget what it has decoded
    fn forget(&mut self) -> Res<()>;
    /// set the cycle limit by the outermost thing that has a way to
    fn limit(&mut self, v: u64) {
        self.sm().set_max_cycles(v)
    }
    fn pause(&self) -> Pause;
    fn set_pause(&mut self, p: Pause);
    fn exit_code(&self) -> i8;
    fn running(&self) -> bool;
}

struct NaiveVm<I: SupportMachine> {
    m: DefaultMachine<I>,
    dec: Decoder,
    kind: Kind,
}
impl<I: SupportMachine> Vm for NaiveVm<I> {
    fn sm(&mut self) -> &mut dyn SM {
        &mut self.m
    }
    fn kind(&self) -> Kind {
        self.kind
    }
    fn load_program(&mut self, p: &Bytes, args: &[Bytes]) -> Res<u64> {
        self.m.load_program(p, args)
    }
    fn load_with_metadata(&mut self, p: &Bytes, m: &ProgramMetadata, args: &[Bytes]) -> Res<u64> {
        self.m.load_program_with_metadata(p, m, args)
    }
    fn run(&mut self) -> Res<i8> {
        self.m.run()
    }
    fn run_kept(&mut self) -> Res<i8> {
        self.m.run_with_decoder(&mut self.dec)
    }
    fn forget(&mut self) -> Res<()> {
        self.dec.reset_instructions_cache()
    }
    fn step(&mut self) -> Res<()> {
        self.m.step(&mut self.dec)
    }
    fn pause(&self) -> Pause {
        self.m.pause()
    }
    fn set_pause(&mut self, p: Pause) {
        self.m.set_pause(p)
    }
    fn exit_code(&self) -> i8 {
        self.m.exit_code()
    }
    fn running(&self) -> bool {
        SupportMachine::running(&self.m)
    }
}

struct TraceVm<I: SupportMachine> {
    m: TraceMachine<I>,
    dec: Decoder,
    kind: Kind,
}
impl<I: SupportMachine> Vm for TraceVm<I> {
    fn limit(&mut self, v: u64) {
        self.m.set_max_cycles(v)
    }
    fn sm(&mut self) -> &mut dyn SM {
        &mut self.m.machine
    }
    fn kind(&self) -> Kind {
        self.kind
    }
    fn load_program(&mut self, p: &Bytes, args: &[Bytes]) -> Res<u64> {
        self.m.load_program(p, args)
    }
    fn load_with_metadata(&mut self, p: &Bytes, m: &ProgramMetadata, args: &[Bytes]) -> Res<u64> {
        self.m.load_program_with_metadata(p, m, args)
    }
    fn run(&mut self) -> Res<i8> {
        self.m.run()
    }
    fn run_kept(&mut self) -> Res<i8> {
        self.m.run_with_decoder(&mut self.dec)
    }
    fn forget(&mut self) -> Res<()> {
        self.dec.reset_instructions_cache()
    }
    fn step(&mut self) -> Res<()> {
        self.m.machine.step(&mut self.dec)
    }
    fn pause(&self) -> Pause {
        self.m.machine.pause()
    }
    fn set_pause(&mut self, p: Pause) {
        self.m.machine.set_pause(p)
    }
    fn exit_code(&self) -> i8 {
        self.m.machine.exit_code()
    }
    fn running(&self) -> bool {
        SupportMachine::running(&self.m.machine)
    }
}

enum AnyDec {
    Simple(SimpleFixedTraceDecoder<Decoder>),
    Fixed(MemoizedFixedTraceDecoder<Decoder>),
    Dyn(MemoizedDynamicTraceDecoder<Decoder>),
}

struct AsmVm {
    m: AsmMachine,
    dec: Decoder,
    kept: Option<AnyDec>,
    /// the kept decoder was only told to forget instructions
    stale: bool,
    kind: Kind,
}
impl AsmVm {
    fn fresh(&self) -> Decoder {
        build_decoder::<u64>(ckb_vm::CoreMachine::isa(&self.m.machine), ckb_vm::CoreMachine::version(&self.m.machine))
    }
    fn any(&self) -> AnyDec {
        let d = self.fresh();
        match self.kind.engine {
            Engine::AsmMemoFixed => AnyDec::Fixed(MemoizedFixedTraceDecoder::new(d)),
            Engine::AsmMemoDyn => AnyDec::Dyn(MemoizedDynamicTraceDecoder::new(d)),
            _ => AnyDec::Simple(SimpleFixedTraceDecoder::new(d)),
        }
    }
    fn run_any(&mut self, d: &mut AnyDec) -> Res<i8> {
        match d {
            AnyDec::Simple(d) => self.m.run_with_decoder(d),
            AnyDec::Fixed(d) => self.m.run_with_decoder(d),
            AnyDec::Dyn(d) => self.m.run_with_decoder(d),
        }
    }
}
impl Vm for AsmVm {
    fn sm(&mut self) -> &mut dyn SM {
        &mut self.m.machine
    }
    fn kind(&self) -> Kind {
        self.kind
    }
    fn load_program(&mut self, p: &Bytes, args: &[Bytes]) -> Res<u64> {
        self.m.load_program(p, args)
    }
    fn load_with_metadata(&mut self, p: &Bytes, m: &ProgramMetadata, args: &[Bytes]) -> Res<u64> {
        self.m.load_program_with_metadata(p, m, args)
    }
    fn run(&mut self) -> Res<i8> {
        if self.kind.engine == Engine::AsmNaive {
            return self.m.machine.run();
        }
        if self.kind.engine == Engine::Asm {
            return self.m.run();
        }
        let mut d = self.any();
        self.run_any(&mut d)
    }
    fn run_kept(&mut self) -> Res<i8> {
        if self.kind.engine == Engine::AsmNaive {
            return self.m.machine.run_with_decoder(&mut self.dec);
        }
        let mut d = self.kept.take().unwrap_or_else(|| self.any());
        if std::mem::take(&mut self.stale) {
            match &mut d {
                AnyDec::Simple(d) => ckb_vm::machine::asm::traces::TraceDecoder::reset(d)?,
                AnyDec::Fixed(d) => ckb_vm::machine::asm::traces::TraceDecoder::reset(d)?,
                AnyDec::Dyn(d) => ckb_vm::machine::asm::traces::TraceDecoder::reset(d)?,
            }
        }
        let r = self.run_any(&mut d);
        self.kept = Some(d);
        r
    }
    fn forget(&mut self) -> Res<()> {
        self.stale = true;
        match &mut self.kept {
            Some(AnyDec::Simple(d)) => d.reset_instructions_cache()?,
            Some(AnyDec::Fixed(d)) => d.reset_instructions_cache()?,
            Some(AnyDec::Dyn(d)) => d.reset_instructions_cache()?,
            None => {}
        }
        self.dec.reset_instructions_cache()
    }
    fn step(&mut self) -> Res<()> {
        if self.kind.engine == Engine::AsmNaive {
            return self.m.machine.step(&mut self.dec);
        }
        // a trace decoder decodes single instructions too
        match &mut self.kept {
            Some(AnyDec::Simple(d)) => self.m.step(d),
            Some(AnyDec::Fixed(d)) => self.m.step(d),
            Some(AnyDec::Dyn(d)) => self.m.step(d),
            None => self.m.step(&mut self.dec),
        }
    }
    fn limit(&mut self, v: u64) {
        self.m.set_max_cycles(v)
    }
    fn pause(&self) -> Pause {
        self.m.machine.pause()
    }
    fn set_pause(&mut self, p: Pause) {
        self.m.machine.set_pause(p)
    }
    fn exit_code(&self) -> i8 {
        self.m.machine.exit_code()
    }
    fn running(&self) -> bool {
        SupportMachine::running(&self.m.machine)
    }
}

fn finish<I: SupportMachine>(core: I, cfg: &mut VmCfg) -> DefaultMachine<I> {
    let mut b = DefaultMachineBuilder::new(core).instruction_cycle_func(cost_fn(cfg.cost));
    for (init, call) in cfg.syscalls.drain(..) {
        b = b.syscall(Box::new(SysObj { init, call }));
    }
    if let Some((init, brk)) = cfg.debugger.take() {
        b = b.debugger(Box::new(DbgObj { init, brk }));
    }
    if let Some(p) = cfg.pause.take() {
        b = b.pause(p);
    }
    b.build()
}

/// Some machines are made with another limit, and given theirs right away.
fn first_limit(cfg: &VmCfg) -> u64 {
    if cfg.max_cycles % 3 == 1 {
        cfg.max_cycles / 2
    } else {
        cfg.max_cycles
    }
}

fn mk<R: Register + 'static, M: Memory<REG = R> + 'static>(mem: M, cfg: VmCfg) -> Box<dyn Vm> {
    let first = first_limit(&cfg);
    if cfg.raw {
        let mut core = DefaultCoreMachine::<R, M>::new_with_memory(cfg.isa, cfg.ver, first, mem);
        if first != cfg.max_cycles {
            core.set_max_cycles(cfg.max_cycles);
        }
        return mk2::<R, _>(core, cfg);
    }
    let mut core = DefaultCoreMachine::<R, WXorXMemory<M>>::new_with_memory(cfg.isa, cfg.ver, first, WXorXMemory::new(mem));
    if first != cfg.max_cycles {
        core.set_max_cycles(cfg.max_cycles);
    }
    mk2::<R, _>(core, cfg)
}

fn mk2<R: Register + 'static, I: SupportMachine<REG = R> + 'static>(core: I, mut cfg: VmCfg) -> Box<dyn Vm> {
    let dec = build_decoder::<R>(cfg.isa, cfg.ver);
    let kind = cfg.kind;
    let m = finish(core, &mut cfg);
    match kind.engine {
        Engine::Trace => Box::new(TraceVm { m: TraceMachine::new(m), dec, kind }),
        _ => Box::new(NaiveVm { m, dec, kind }),
    }
}

pub fn build(mut cfg: VmCfg) -> Box<dyn Vm> {
    let k = cfg.kind;
    if k.engine.is_asm() {
        let mut core = AsmCoreMachine::new_with_memory(cfg.isa, cfg.ver, first_limit(&cfg), cfg.mem as usize);
        if first_limit(&cfg) != cfg.max_cycles {
            AsmCoreMachine::set_max_cycles(&mut core, cfg.max_cycles);
        }
        if let Some(s) = cfg.chaos {
            core.chaos_mode = 1;
            core.chaos_seed = s;
        }
        let dec = build_decoder::<u64>(cfg.isa, cfg.ver);
        let m = AsmMachine::new(finish(core, &mut cfg));
        return Box::new(AsmVm { m, dec, kept: None, stale: false, kind: k });
    }
    let n = cfg.mem as usize;
    match (k.bits, k.flat) {
        (64, true) => mk::<u64, _>(FlatMemory::<u64>::new_with_memory(n), cfg),
        (64, false) => mk::<u64, _>(SparseMemory::<u64>::new_with_memory(n), cfg),
        (_, true) => mk::<u32, _>(FlatMemory::<u32>::new_with_memory(n), cfg),
        (_, false) => mk::<u32, _>(SparseMemory::<u32>::new_with_memory(n), cfg),
    }
}

/// Does the VM's error report the modelled fault?
pub fn err_matches(f: &Fault, e: &Error) -> bool {
    match (f, e) {
        (Fault::Oob(..), Error::MemOutOfBound(..)) => true,
        (Fault::Perm(p), Error::MemWriteOnExecutablePage(q)) => p == q,
        (Fault::Frozen(p), Error::MemWriteOnFreezedPage(q)) => p == q,
        (Fault::Unaligned, Error::MemPageUnalignedAccess(_)) => true,
        (Fault::Invalid { pc, bits }, Error::InvalidInstruction { pc: p, instruction }) => pc == p && bits == instruction,
        (Fault::Ecall(c), Error::InvalidEcall(d)) => c == d,
        (Fault::CyclesExceeded, Error::CyclesExceeded) => true,
        (Fault::CyclesOverflow, Error::CyclesOverflow) => true,
        (Fault::OutOfStack, Error::MemOutOfStack) => true,
        (Fault::External(a), Error::External(b)) => a == b,
        _ => false,
    }
}
