//! C15: data-source snapshots restore the machine exactly, at any point.

use crate::elf;
use crate::exec::*;
use crate::gen::*;
use crate::model::*;
use crate::props::c12::{filler, gen_spec};
use crate::props::c14::{bytes, far, targets, watched_sys};
use crate::runner::*;
use crate::src::Src;
use crate::vm::*;
use ckb_vm::elf::{parse_elf, ProgramMetadata};
use ckb_vm::snapshot2::Snapshot2;
use std::sync::Arc;

pub static PROP: Prop = Prop {
    id: "C15",
    rule: "at least one snapshot resumed after at least 2 accepted loads from a data source or marked programs, with at least one plain write or instruction in between",
    assumptions: &[
        "the reference machine is never interrupted; it gets the same instructions, writes and loads",
        "the data source never changes; the snapshot is resumed on a fresh machine of the same width, extensions, version and memory size",
        "a 32-bit machine is told the low 32 bits of a source's length",
        "dirty marks are not compared (loading from a source clears them by design); marks changed by the host without writing the page are not generated",
    ],
    cases: (40_000, 2_000_000),
    fixed: 0,
    preset: no_preset,
    run,
    probes: &[],
};

const PERM: u8 = F_EXEC | F_FREEZE;

struct St {
    p: PCfg,
    k: Kind,
    vm: Box<dyn Vm>,
    ctx: Ctx2,
    m: Model,
    src: Source,
    log: Vec<String>,
    done: Option<End>,
    hot: Vec<u64>,
    failed: Arc<std::sync::atomic::AtomicU64>,
    stopped: bool,
    /// earlier snapshots, to go back to
    old: Vec<(Snapshot2<u32>, Model, Option<End>)>,
}

impl St {
    fn fail(&self, kind: &str, msg: String) -> Fail {
        f(kind, format!("{}: {msg}\nhistory:\n  {}", self.k, self.log.join("\n  ")))
    }
    fn cfg(&self, k: Kind) -> VmCfg {
        let mut c = vm_cfg(k, &self.p).cycles(self.m.max_cycles, self.m.cost);
        c.syscalls.push(watched_sys(self.failed.clone()));
        c
    }
    fn compare(&mut self, what: &str) -> CaseRes {
        let r = (|| {
            let (m, sm) = (&self.m, self.vm.sm());
            diff_regs(m, sm)?;
            if sm.pc() != m.pc {
                return Err(format!("pc is {:#x}, expected {:#x}", sm.pc(), m.pc));
            }
            if sm.cycles() != m.cycles {
                return Err(format!("cycles are {}, expected {}", sm.cycles(), m.cycles));
            }
            if sm.lr() != if m.xlen == 32 { m.lr & 0xffff_ffff } else { m.lr } {
                return Err(format!("reservation is {:#x}, expected {:#x}", sm.lr(), m.lr));
            }
            if sm.max_cycles() != m.max_cycles {
                return Err(format!("limit is {}, expected {}", sm.max_cycles(), m.max_cycles));
            }
            diff_mem(m, sm)?;
            for pg in 0..m.mem.size / PAGE {
                let x = sm.flag(pg).map_err(|e| format!("flag of page {pg}: {e:?}"))?;
                if (x ^ m.mem.flags[pg as usize]) & PERM != 0 {
                    return Err(format!("marks of page {pg:#x} are {x:#x}, expected {:#x} (dirty aside)", m.mem.flags[pg as usize]));
                }
            }
            Ok(())
        })();
        r.map_err(|e: String| self.fail("state", format!("{what}: {e}")))
    }

    /// addresses of a 32-bit guest have 32 bits
    fn mask(&self, v: u64) -> u64 {
        if self.p.xlen() == 32 {
            v & 0xffff_ffff
        } else {
            v
        }
    }
    fn addr(&self, s: &mut Src) -> u64 {
        let a = match s.weighted(&[6, 3, 2, 1]) {
            0 => *s.pick(&self.hot),
            1 => s.below(self.p.mem / PAGE) * PAGE,
            2 => s.below(self.p.mem),
            _ => self.p.mem.wrapping_sub(s.below(3 * PAGE)),
        };
        let a = match s.below(6) {
            0 | 1 => a,
            2 | 3 => (a / PAGE * PAGE).wrapping_add(PAGE * s.below(4)),
            4 => a.wrapping_add(s.below(2 * PAGE)),
            _ => a.wrapping_add(s.below(16)).wrapping_sub(8),
        };
        let a = if s.chance(1, 60) { s.val() } else { a };
        self.mask(a)
    }

    fn source_load(&mut self, s: &mut Src) -> Result<bool, Fail> {
        let addr = self.addr(s);
        if s.chance(1, 8) {
            // far into a source of many gigabytes
            let id = VIRT + s.below(2) as u32;
            let off = match s.below(5) {
                0 => virt_len(id) - s.below(3 * PAGE),
                1 => (s.range(1, 2) << 32) - PAGE * s.below(3),
                2 => (s.range(1, 2) << 32) + s.below(2 * PAGE),
                3 => s.below(virt_len(id) / PAGE) * PAGE,
                _ => s.below(4) * PAGE,
            };
            let len = if s.bool() { PAGE * s.range(1, 3) } else { s.below(3 * PAGE) };
            let size_addr = self.mask((self.p.mem / 2 + s.below(8 * PAGE)) & !7);
            return self.load_from(addr, id, off, len, size_addr);
        }
        let id = s.weighted(&[3, 6, 2, 1]) as u32;
        let n = self.src.0.get(id as usize).map(|d| d.len() as u64).unwrap_or(0);
        let off = match s.below(6) {
            0 => 0,
            1 | 2 => s.below(7) * PAGE,
            3 => s.below(n + 2),
            4 => n.wrapping_sub(s.below(PAGE)),
            _ => s.below(n / 8 + 1) * 8,
        };
        let off = if s.chance(1, 50) { s.val() } else { off };
        let len = match s.below(6) {
            0 | 1 => PAGE * s.range(1, 4),
            2 => u64::MAX,
            3 => s.below(3 * PAGE),
            4 => s.below(20),
            _ => (PAGE - addr % PAGE) + PAGE * s.below(3),
        };
        let size_addr = match s.below(5) {
            0 => addr.wrapping_add(s.below(len.min(4 * PAGE) + 16)).wrapping_sub(8),
            1 => self.addr(s),
            2 => self.p.mem.wrapping_sub(s.below(10)),
            _ => (self.p.mem / 2 + s.below(8 * PAGE)) & !7,
        };
        let size_addr = self.mask(size_addr);
        self.load_from(addr, id, off, len, size_addr)
    }
    fn load_from(&mut self, addr: u64, id: u32, off: u64, len: u64, size_addr: u64) -> Result<bool, Fail> {
        let (r, data) = {
            use ckb_vm::snapshot2::DataSource;
            match self.src.load_data(&id, off, len) {
                None => (Err(None), Bytes::new()),
                Some((d, full)) => {
                    let told = self.mask(full);
                    let r = self.m.mem.store(size_addr, 8, told).and_then(|_| {
                        // whatever the order of the writes, the data must be where it was asked for
                        self.m.mem.store_bytes(addr, &d)
                    });
                    (r.map(|_| (d.len() as u64, full)).map_err(Some), d)
                }
            }
        };
        self.log.push(format!("load source {id} offset {off:#x} length {len:#x} ({:#x} bytes) at {addr:#x}, length at {size_addr:#x}", data.len()));
        let v = self.vm.sm().s2_store(&mut self.ctx, addr, id, off, len, size_addr);
        match (&r, &v) {
            (Ok(x), Ok(y)) if x == y => {}
            (Err(None), Err(Error::SnapshotDataLoadError)) => {}
            (Err(Some(_)), Err(Error::MemOutOfBound(..) | Error::MemWriteOnExecutablePage(_) | Error::MemWriteOnFreezedPage(_))) => {}
            _ => return Err(self.fail("load", format!("loading from the source gave {v:?}, expected {r:?}"))),
        }
        let ok = v.is_ok();
        if ok {
            self.hot.push(addr);
        }
        self.log.last_mut().unwrap().push_str(if ok { "" } else { ": refused" });
        Ok(ok)
    }

    /// The two operations below loads from a source: stop attributing pages to their source, or
    /// attribute pages that were filled from it by other means.
    fn track(&mut self, s: &mut Src) -> Result<bool, Fail> {
        let addr = self.addr(s);
        if s.bool() {
            let len = match s.below(4) {
                0 => 0,
                1 => s.below(20),
                2 => PAGE * s.range(1, 3),
                _ => s.below(4 * PAGE),
            };
            self.log.push(format!("forget the sources of {len:#x} bytes at {addr:#x}"));
            let fits = len == 0 || addr.checked_add(len).map_or(false, |e| e <= self.p.mem);
            let r = self.vm.sm().s2_untrack(&mut self.ctx, addr, len);
            if r.is_ok() != fits {
                return Err(self.fail("untrack", format!("{r:?}")));
            }
            if len > 0 && fits {
                let ctx = std::mem::take(&mut self.ctx);
                let r = self.vm.sm().snap2(&ctx);
                self.ctx = ctx;
                let snap = r.map_err(|e| self.fail("snapshot", format!("{e:?}")))?;
                for pg in addr / PAGE..=(addr + len - 1) / PAGE {
                    let has = |a: u64, n: u64| pg * PAGE >= a && pg * PAGE < a + n;
                    if let Some(x) = snap.pages_from_source.iter().find(|x| has(x.0, x.4)) {
                        return Err(self.fail("untracked-page-from-source", format!("page {pg:#x} is taken from source {} offset {:#x}", x.2, x.3)));
                    }
                    if !snap.dirty_pages.iter().any(|x| has(x.0, x.2.len() as u64)) {
                        return Err(self.fail("untracked-page-lost", format!("page {pg:#x} is not in the snapshot")));
                    }
                }
            }
            return Ok(false);
        }
        let id = 1;
        let data = self.src.0[1].clone();
        let off = s.below(data.len() as u64 + 1);
        let off = if s.bool() { off / PAGE * PAGE } else { off };
        let len = s.below(4 * PAGE + 1).min(data.len() as u64 - off);
        let part = &data[off as usize..(off + len) as usize];
        self.log.push(format!("write {len:#x} bytes of source {id} offset {off:#x} at {addr:#x}, attributed"));
        let r = self.m.mem.store_bytes(addr, part);
        let v = self.vm.sm().store_bytes(addr, part);
        if r.is_ok() != v.is_ok() {
            return Err(self.fail("write", format!("{v:?}, expected {r:?}")));
        }
        if v.is_err() {
            return Ok(false);
        }
        self.vm.sm().s2_track(&mut self.ctx, addr, len, id, off).map_err(|e| self.fail("track", format!("{e:?}")))?;
        self.hot.push(addr);
        Ok(true)
    }

    fn store_at(&mut self, a: u64) -> u64 {
        let r = self.m.mem.store(a, 4, 0x5a5a_0101);
        let v = self.vm.sm().store(4, a, 0x5a5a_0101);
        (r.is_ok() && v.is_ok()) as u64
    }
    fn plain(&mut self, s: &mut Src) -> Result<bool, Fail> {
        let a = self.addr(s);
        let (r, v) = match s.below(6) {
            0 | 1 => {
                let w = 1 << s.below(4);
                let x = s.u64();
                let x = if self.p.xlen() == 32 { x & 0xffff_ffff } else { x };
                self.log.push(format!("store{w} at {a:#x}"));
                (self.m.mem.store(a, w, x), self.vm.sm().store(w, a, x))
            }
            2 | 3 => {
                let n = if s.bool() { s.below(2 * PAGE) } else { s.below(24) };
                let b = bytes(s, n);
                self.log.push(format!("write {n:#x} bytes at {a:#x}"));
                (self.m.mem.store_bytes(a, &b), self.vm.sm().store_bytes(a, &b))
            }
            4 => {
                let n = s.below(2 * PAGE);
                let x = s.below(256) as u8;
                self.log.push(format!("fill {n:#x} bytes at {a:#x}"));
                (self.m.mem.fill(a, n, x), self.vm.sm().fill(a, n, x))
            }
            _ => {
                let a = a / PAGE * PAGE;
                let n = PAGE * s.range(1, 3);
                if a.checked_add(n).map_or(true, |e| e > self.p.mem) {
                    return Ok(false);
                }
                let pages = (a / PAGE) as usize..((a + n) / PAGE) as usize;
                if self.m.mem.flags[pages].iter().any(|x| x & F_FREEZE != 0) {
                    return Ok(false);
                }
                let fl = *s.pick(&[0u8, F_EXEC, F_EXEC | F_FREEZE, F_FREEZE]);
                let len = s.below(n + 1);
                let b = bytes(s, len);
                self.log.push(format!("map {n:#x} bytes at {a:#x} marks {fl}"));
                (self.m.mem.init_pages(a, n, fl, &b, 0), self.vm.sm().init_pages(a, n, fl, Some(b), 0))
            }
        };
        if r.is_ok() != v.is_ok() {
            return Err(self.fail("write", format!("{v:?}, expected {r:?}")));
        }
        Ok(v.is_ok())
    }

    /// Some guest instructions, the same on both sides. Returns their number.
    fn guest(&mut self, s: &mut Src) -> Result<u64, Fail> {
        if self.done.is_some() {
            return Ok(0);
        }
        let before = self.m.steps;
        if s.bool() {
            let n = s.range(1, 60);
            self.log.push(format!("{n} steps"));
            self.vm.sm().set_running(true);
            for i in 0..n {
                let pc = self.m.pc;
                let e = match model_group(&mut self.m) {
                    Ok(Ev::Ecall(c)) => model_ecall(&mut self.m, c).map(|_| Ev::None),
                    e => e,
                };
                let r = self.vm.step();
                match (e, r) {
                    (Ok(Ev::Exit(c)), Ok(())) => {
                        if self.vm.running() || self.vm.exit_code() != c {
                            return Err(self.fail("exit", format!("step {i} at {pc:#x} should have ended with {c}")));
                        }
                        self.done = Some(End::Exit(c));
                        break;
                    }
                    (Ok(_), Ok(())) => {}
                    (Err(x), Err(_)) => {
                        self.done = Some(End::Fault(x));
                        break;
                    }
                    (e, r) => return Err(self.fail("step", format!("step {i} at {pc:#x}: {r:?}, expected {e:?}"))),
                }
            }
        } else {
            // up to a limit; the reference follows to the same count
            let n = s.range(0, 200);
            self.log.push(format!("run with limit +{n}"));
            let stop = self.m.cycles + n;
            self.vm.limit(stop);
            let r = self.vm.run();
            self.vm.limit(self.m.max_cycles);
            match r {
                Err(Error::CyclesExceeded) => {
                    let c = self.vm.sm().cycles();
                    if self.failed.load(std::sync::atomic::Ordering::SeqCst) != 0 {
                        // a host call was cut short by the limit: not to be continued
                        self.stopped = true;
                        return Ok(0);
                    }
                    while self.m.cycles < c {
                        let pc = self.m.pc;
                        let e = match model_group(&mut self.m) {
                            Ok(Ev::Ecall(c)) => model_ecall(&mut self.m, c).map(|_| Ev::None),
                            e => e,
                        };
                        if !matches!(e, Ok(Ev::None | Ev::Ebreak)) {
                            return Err(self.fail("run", format!("still running at {c} cycles, expected {e:?} at {pc:#x}")));
                        }
                    }
                }
                r => {
                    let e = model_run(&mut self.m, 4000);
                    self.end(&e, &r)?;
                    if matches!(e, End::Fault(_)) {
                        self.sync();
                    }
                    self.done = Some(e);
                }
            }
        }
        Ok(self.m.steps - before)
    }
    fn end(&mut self, e: &End, r: &Res<i8>) -> CaseRes {
        let ok = match (e, r) {
            (End::Exit(c), Ok(d)) => c == d,
            (End::Fault(x), Err(e)) => self.k.engine.decodes_ahead() || err_matches(x, e),
            (End::Limit, _) => true,
            _ => false,
        };
        if !ok {
            return Err(self.fail("end", format!("ended with {r:?}, expected {e:?}")));
        }
        Ok(())
    }
    /// An engine that works a block at a time may have stopped before the faulting instruction
    /// (C26 bounds that); the reference takes over its state.
    fn sync(&mut self) {
        if !self.k.engine.decodes_ahead() {
            return;
        }
        let (m, sm) = (&mut self.m, self.vm.sm());
        m.x = sm.regs();
        m.pc = sm.pc();
        m.cycles = sm.cycles();
        m.lr = sm.lr();
        m.fault_rd = None;
        if let Ok(b) = sm.load_bytes(0, m.mem.size) {
            m.mem.data.copy_from_slice(&b);
        }
    }
    fn snapshot(&mut self, s: &mut Src) -> CaseRes {
        self.compare("before the snapshot")?;
        let ctx = std::mem::take(&mut self.ctx);
        let r = self.vm.sm().snap2(&ctx);
        let mut snap = match r {
            Ok(x) => x,
            Err(e) => return Err(self.fail("snapshot", format!("{e:?}"))),
        };
        self.ctx = ctx;
        if s.bool() {
            let t = serde_json::to_string(&snap).map_err(|e| self.fail("serialise", format!("{e}")))?;
            snap = serde_json::from_str::<Snapshot2<u32>>(&t).map_err(|e| self.fail("deserialise", format!("{e}")))?;
        }
        if self.old.len() < 2 && self.p.mem <= 512 * 1024 && s.chance(1, 3) {
            self.old.push((snap.clone(), self.m.clone(), self.done.clone()));
        }
        if s.chance(1, 5) {
            self.log.push("snapshot, not used".into());
            return self.compare("after taking a snapshot");
        }
        let mut back = false;
        if !self.old.is_empty() && s.chance(1, 4) {
            // back to an earlier one; what was loaded since then is forgotten
            let i = s.usize(self.old.len());
            let (o, m, d) = self.old[i].clone();
            let (max, cost) = (self.m.max_cycles, self.m.cost);
            snap = o;
            self.m = m;
            self.done = d;
            if self.m.max_cycles != max || self.m.cost != cost {
                return Err(self.fail("harness", "limits differ".into()));
            }
            back = true;
        }
        let k = targets(&self.p, s);
        let mut c = self.cfg(k);
        if s.bool() {
            c.max_cycles = s.u64();
        }
        if s.chance(1, 40) {
            let mut c2 = self.cfg(k);
            c2.ver = (self.p.c.ver + 1) % 3;
            let mut v = build(c2);
            let r = v.sm().resume2(&mut Ctx2::new(self.src.clone()), &snap);
            if !matches!(r, Err(Error::InvalidVersion)) {
                return Err(self.fail("version", format!("resuming on another version gave {r:?}")));
            }
        }
        if s.bool() {
            self.ctx = Ctx2::new(self.src.clone());
        }
        self.log.push(format!("snapshot{}, resumed on {k}", if back { ", back to an earlier one" } else { "" }));
        let mut vm = build(c);
        let r = vm.sm().resume2(&mut self.ctx, &snap);
        self.vm = vm;
        self.k = k;
        if let Err(e) = r {
            return Err(self.fail("resume", format!("{e:?}")));
        }
        self.compare("after resuming")
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    if s.chance(1, 500) {
        return far(s, ctx, true);
    }
    let prog = s.chance(3, 5);
    let xlen = if s.chance(1, 5) { 32 } else { 64 };
    let mut p = gen_cfg(s, xlen);
    p.mem = p.mem.min(512 * 1024);
    let (elfb, args) = if prog {
        let g = gen_program(s, p, Opts { size: 20, wild: 5, big: 5, ..Opts::default() });
        (g.bytes, g.args)
    } else {
        p.mem = 256 * 1024;
        let (mut sp, _) = gen_spec(s, xlen, p.mem);
        let mut args = if s.chance(1, 2) { gen_args(s) } else { vec![] };
        if s.chance(2, 5) && !sp.phs.is_empty() && !sp.be {
            // segments that something else is written over: the stack, or another segment with a
            // page that begins like the one below it
            let at = sp.blobs[0].0;
            let k = s.range(1, 3);
            let mut d = filler(s.below(1 << 20), k * PAGE + s.below(PAGE));
            for pg in d.chunks_mut(PAGE as usize) {
                if s.chance(2, 3) {
                    let z = (1 << s.range(3, 11)).min(pg.len());
                    pg[..z].fill(0);
                }
            }
            sp.blobs[0].1 = d;
            // the second half is a copy of the first with a few bytes changed here and there
            let twin = s.bool();
            let short = twin && s.bool();
            if short {
                // pages with a few bytes at their beginning
                for pg in sp.blobs[0].1.chunks_mut(PAGE as usize) {
                    let z = s.below(16) as usize + 1;
                    let n = pg.len();
                    pg[z.min(n)..].fill(0);
                }
            }
            if twin {
                let mut c = sp.blobs[0].1.clone();
                for pg in c.chunks_mut(PAGE as usize) {
                    let n = pg.len() as u64;
                    if s.chance(3, 4) {
                        let o = match s.below(4) {
                            0 => s.below(n.min(8)),
                            1 => n - 1 - s.below(n.min(8)),
                            _ => s.below(n),
                        };
                        pg[o as usize] ^= 1 << s.below(8);
                    }
                }
                sp.blobs[0].1.extend_from_slice(&c);
            }
            let half = sp.blobs[0].1.len() as u64 / 2;
            let last = sp.phs.len() - 1;
            let under = s.bool();
            for (i, h) in sp.phs.iter_mut().enumerate() {
                if i != last && !s.bool() {
                    continue;
                }
                h.typ = 1;
                h.flags = 6;
                h.offset = at + if s.bool() { 0 } else { s.below(64) };
                h.memsz = k * PAGE - s.below(3) / 2;
                h.filesz = h.memsz - if s.bool() { 0 } else { s.below(h.memsz) };
                let top = if under { p.mem } else { p.mem / 2 };
                h.vaddr = top - k * PAGE;
                if twin {
                    h.offset = at + if s.bool() { 0 } else { half };
                    h.memsz = k * PAGE;
                    h.filesz = if short && s.bool() { s.below(16) } else { h.memsz };
                    if short && s.chance(1, 4) {
                        h.vaddr += s.below(k) * PAGE;
                        h.memsz = PAGE;
                        h.filesz = h.filesz.min(PAGE);
                    }
                    continue;
                }
                if s.chance(1, 3) {
                    // from within a page
                    let z = s.below(600);
                    h.vaddr += z;
                    h.memsz -= z.min(h.memsz);
                    h.filesz = h.filesz.min(h.memsz);
                }
            }
            if args.is_empty() {
                args = gen_args(s);
            }
        }
        (sp.bytes(), args)
    };
    let k = targets(&p, s);
    let cost = *s.pick(&[Cost::One, Cost::Published]);
    let prefix = if s.bool() { 0 } else { s.below(2 * PAGE) };
    let mut zero = bytes(s, prefix).to_vec();
    zero.extend_from_slice(&elfb);
    let tail = s.below(3 * PAGE);
    zero.extend_from_slice(&bytes(s, tail));
    // now and then hundreds of pages
    let many = s.chance(1, 300);
    if many && !prog {
        p.mem = 16 * FRAME;
    }
    let many = many && !prog;
    let n1 = if many { s.range(257, 700) } else { s.range(1, 6) } * PAGE + if s.bool() { 0 } else { s.below(PAGE) };
    let n2 = s.below(5000);
    let src = Source(Arc::new(vec![zero, bytes(s, n1).to_vec(), bytes(s, n2).to_vec()]));
    let mut m = new_model(&p);
    m.cost = cost;
    m.max_cycles = *s.pick(&[u64::MAX, 1 << 40]);
    let hot = vec![s.below(p.mem / PAGE) * PAGE, s.below(p.mem / PAGE) * PAGE, 0x20000, p.mem - PAGE];
    let mut c = vm_cfg(k, &p).cycles(m.max_cycles, cost);
    let failed = Arc::new(std::sync::atomic::AtomicU64::new(0));
    c.syscalls.push(watched_sys(failed.clone()));
    let mut st = St { p, k, vm: build(c), ctx: Ctx2::new(src.clone()), m, src, log: vec![format!("{p} {k}")], done: None, hot, failed, stopped: false, old: vec![] };
    let mut loads = 0;
    if prog || s.chance(4, 5) {
        let b = Bytes::from(elfb.clone());
        let meta: Option<ProgramMetadata> = if xlen == 64 { parse_elf::<u64>(&b, p.c.ver) } else { parse_elf::<u32>(&b, p.c.ver) }.ok();
        let exp = elf::load_program(&mut st.m, &elfb, &args);
        let Some(meta) = meta else {
            ensure!(exp.is_err(), "load", "image refused");
            ctx.label("image refused");
            return Ok(());
        };
        let ba: Vec<Bytes> = args.iter().map(|a| Bytes::from(a.clone())).collect();
        let r = st.vm.load_with_metadata(&b, &meta, &ba);
        if exp.is_err() || r.is_err() {
            // C12 and C13 judge loading
            ctx.label("image refused");
            return Ok(());
        }
        for a in &meta.actions {
            st.hot.push(a.addr);
            st.log.push(format!("segment {:#x}+{:#x} marks {} file {:#x}..{:#x} pad {:#x}", a.addr, a.size, a.flags, a.source.start, a.source.end, a.offset_from_addr));
        }
        if s.chance(5, 6) {
            let r = st.vm.sm().s2_mark(&mut st.ctx, &meta, 0, prefix);
            st.log.push(format!("program marked as source 0 offset {prefix:#x}"));
            if let Err(e) = r {
                return Err(st.fail("mark", format!("marking the program failed: {e:?}")));
            }
            loads += 1;
            ctx.label("marked program");
        }
    }
    if !prog {
        st.done = Some(End::Limit);
    }
    let (mut snaps, mut writes, mut nt) = (0, 0, false);
    if many {
        ctx.label("hundreds of pages");
        let n = st.src.0[1].len() as u64 / PAGE;
        let gap = s.range(1, 2);
        let skew = s.below(3);
        if s.bool() {
            // hundreds of pages in a row with marks of their own, attributed to a source or not
            let fl = *s.pick(&[F_EXEC, F_EXEC | F_FREEZE, F_FREEZE]);
            let at = s.below(p.mem / PAGE - n) * PAGE;
            let d = Bytes::from(st.src.0[1][..(n * PAGE) as usize].to_vec());
            let free = st.m.mem.flags[(at / PAGE) as usize..(at / PAGE + n) as usize].iter().all(|x| x & F_FREEZE == 0);
            if free {
                st.log.push(format!("map source 1 ({n:#x} pages) at {at:#x} marks {fl}"));
                let r = st.m.mem.init_pages(at, n * PAGE, fl, &d, 0);
                let v = st.vm.sm().init_pages(at, n * PAGE, fl, Some(d), 0);
                if r.is_err() || v.is_err() {
                    return Err(st.fail("map", format!("{v:?}, expected {r:?}")));
                }
                if s.bool() {
                    st.log.push("attributed".into());
                    st.vm.sm().s2_track(&mut st.ctx, at, n * PAGE, 1, 0).map_err(|e| f("track", format!("{e:?}")))?;
                    loads += 2;
                }
                writes += 1;
                ctx.label("hundreds of marked pages in a row");
            }
        }
        for k in 0..n {
            let (at, o) = (k * gap * PAGE, (k * (1 + skew)) % n * PAGE);
            if at < p.mem {
                loads += st.load_from(at, 1, o, PAGE, at)? as u64;
            }
        }
        writes += (0..s.below(600)).map(|k| st.store_at(k * 2 * PAGE % p.mem)).sum::<u64>();
    }
    let n = s.range(4, 24);
    for i in 0..n {
        ctx.evals += 1;
        if st.stopped {
            ctx.label("host call cut short by the limit");
            return Ok(());
        }
        match s.weighted(&[8, 6, if prog { 4 } else { 0 }, 4, 3]) {
            4 => loads += st.track(s)? as u64,
            0 => loads += st.source_load(s)? as u64,
            1 => writes += st.plain(s)? as u64,
            2 => writes += (st.guest(s)? > 0) as u64,
            _ => {
                if i > 0 || s.bool() {
                    st.snapshot(s)?;
                    snaps += 1;
                    nt |= loads >= 2 && writes >= 1;
                }
            }
        }
    }
    if st.stopped {
        return Ok(());
    }
    st.snapshot(s)?;
    nt |= loads >= 2 && writes >= 1;
    ctx.nt(nt);
    ctx.label_n("snapshots", snaps + 1);
    ctx.label(if prog { "program" } else { "image" });
    ctx.sample(|| st.log.join("; "));
    if st.done.is_none() {
        let e = model_run(&mut st.m, 4000);
        if e == End::Limit {
            return Ok(());
        }
        st.log.push("run to the end".into());
        let r = st.vm.run();
        st.end(&e, &r)?;
        ctx.label(match e {
            End::Exit(_) => "ran to exit",
            _ => "ran to fault",
        });
        if matches!(e, End::Fault(_)) {
            st.sync();
        }
        st.compare("at the end")?;
    }
    Ok(())
}
