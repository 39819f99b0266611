//! C12: ELF images are mapped as their headers say. C13: start-up stack and arguments.

use crate::elf::*;
use crate::exec::*;
use crate::gen::vast_mem;
use crate::model::*;
use crate::runner::*;
use crate::src::Src;
use crate::vm::*;
use ckb_vm::elf::{parse_elf, ProgramMetadata};

pub static C12: Prop = Prop {
    id: "C12",
    rule: "an image with at least one loadable segment of non-zero size that is accepted, or a refused one with at least one loadable segment",
    assumptions: &["independent ELF reader, written from the ELF specification and the documented mapping rules", "big-endian headers are read as such; the machine field and header entry sizes are not examined"],
    cases: (150_000, 6_000_000),
    fixed: 0,
    preset: no_preset,
    run: elf,
    probes: &[],
};
pub static C13: Prop = Prop {
    id: "C13",
    rule: "at least two arguments, or arguments within 64 bytes of the size of the stack",
    assumptions: &["with no arguments, versions from 1 on leave the stack area as it is: the count reads as zero because fresh memory does"],
    cases: (80_000, 3_000_000),
    fixed: 0,
    preset: no_preset,
    run: args,
    probes: &[],
};

/// every backend of a width that can have this much memory
fn backs(bits: u32, size: u64) -> Vec<Kind> {
    let mut v = vec![
        Kind::new(Engine::Naive, bits, true),
        Kind::new(Engine::Naive, bits, false),
        Kind::new(Engine::Trace, bits, true),
        Kind::new(Engine::Trace, bits, false),
    ];
    if bits == 64 && size % FRAME == 0 {
        v.push(Kind::new(Engine::Asm, 64, true));
        v.push(Kind::new(Engine::AsmNaive, 64, true));
    }
    v
}
fn some_backs(s: &mut Src, bits: u32, size: u64) -> Vec<Kind> {
    let mut v = backs(bits, size);
    // the assembly machine always, two of the interpreters
    for _ in 0..2 {
        let i = s.usize(4 - (backs(bits, size).len() - v.len()));
        v.remove(i);
    }
    v
}
fn gen_size(s: &mut Src) -> u64 {
    if s.chance(3, 4) {
        FRAME * *s.pick(&[1, 1, 2])
    } else {
        PAGE * s.range(1, 40)
    }
}
pub fn filler(seed: u64, n: u64) -> Vec<u8> {
    (0..n).map(|i| (crate::src::mix(seed, i / 8) >> (8 * (i % 8))) as u8).collect()
}

pub fn gen_spec(s: &mut Src, bits: u32, size: u64) -> (Spec, bool) {
    let n = if s.chance(1, 250) { s.range(9, 80) } else { s.weighted(&[1, 4, 5, 3, 2, 1]) as u64 };
    let clean = s.chance(1, 2);
    let file = s.range(0, 9000);
    let dataoff = ehsize(bits) + phsize(bits) * n;
    let mut phs: Vec<Ph> = vec![];
    let mut next = s.below(4) * PAGE;
    if size > 1 << 30 {
        next += *s.pick(&[0, 1 << 31, 1 << 32]);
        next -= next.min(PAGE * s.below(8));
        if next >= size {
            next = 1 << 31;
        }
    }
    for _ in 0..n {
        let typ = if s.chance(5, 6) { 1 } else { *s.pick(&[0, 2, 3, 4, 6, 7, 0x6474_e551, 0x7000_0003, 0xffff_ffff, 0x0100_0000]) };
        let mut flags = *s.pick(&[5, 6, 4, 5, 6]);
        if !clean && s.chance(1, 6) {
            flags = s.below(8) as u32;
        }
        if s.chance(1, 8) {
            flags |= *s.pick(&[0x8, 0x10, 0x0010_0000, 0x8000_0000, 0xffff_fff8]);
        }
        let mut vaddr = if clean || s.chance(1, 2) {
            next + if s.chance(1, 2) { s.below(PAGE) } else { 0 }
        } else {
            match s.below(6) {
                0 => s.below(size),
                1 => size.wrapping_sub(PAGE * s.below(3)).wrapping_add(s.below(5)).wrapping_sub(2),
                2 => 0u64.wrapping_sub(s.below(3 * PAGE)),
                3 => match phs.last() {
                    Some(p) => p.vaddr.wrapping_add(s.below(2 * PAGE)).wrapping_sub(s.below(PAGE)),
                    None => 0,
                },
                4 => s.val(),
                _ => s.below(size / PAGE + 1) * PAGE,
            }
        };
        let mut memsz = match s.below(5) {
            0 => s.below(64),
            1 => s.below(PAGE * 2),
            2 => (PAGE * s.range(1, 3)).wrapping_sub(vaddr % PAGE).wrapping_add(s.below(3)).wrapping_sub(1),
            3 => PAGE * s.range(0, 4),
            _ => s.below(PAGE * 6),
        };
        if s.chance(1, 20) {
            memsz = FRAME.wrapping_sub(vaddr % FRAME).wrapping_sub(s.below(3) * (PAGE / 2));
        }
        if !clean && s.chance(1, 8) {
            memsz = *s.pick(&[u64::MAX, size, 0u64.wrapping_sub(vaddr), 0u64.wrapping_sub(PAGE), 1 << 63, size.wrapping_sub(vaddr)]);
            memsz = memsz.wrapping_add(s.below(3)).wrapping_sub(1);
        }
        let mut filesz = match s.below(4) {
            0 => memsz,
            1 => 0,
            2 => memsz / 2,
            _ => s.below(memsz.saturating_add(1).min(20000)),
        };
        let mut offset = dataoff + if s.bool() { s.below(file + 1) } else { 0 };
        if clean {
            offset = dataoff + s.below(200);
            filesz = filesz.min((dataoff + file).saturating_sub(offset)).min(memsz);
        } else if s.chance(1, 8) {
            match s.below(4) {
                0 => filesz = (dataoff + file).wrapping_sub(offset).wrapping_add(s.below(3)).wrapping_sub(1),
                1 => offset = *s.pick(&[u64::MAX, u64::MAX - 10, 1 << 40, dataoff + file]),
                2 => filesz = s.val(),
                _ => {
                    offset = 0;
                    filesz = memsz.wrapping_add(s.below(PAGE));
                }
            }
        } else {
            filesz = filesz.min((dataoff + file).saturating_sub(offset));
        }
        if bits == 32 {
            vaddr &= 0xffff_ffff;
            memsz &= 0xffff_ffff;
            filesz &= 0xffff_ffff;
            offset &= 0xffff_ffff;
        }
        if size > 1 << 30 && memsz > 64 * FRAME && vaddr.checked_add(memsz).map_or(false, |e| e <= size + PAGE) {
            memsz %= 8 * FRAME;
            filesz = filesz.min(memsz);
        }
        next = (vaddr.wrapping_add(memsz).wrapping_add(PAGE - 1) & !(PAGE - 1)).wrapping_add(if s.chance(1, 3) { PAGE * s.below(4) } else { 0 });
        if next >= size {
            next = s.below(size / PAGE) * PAGE;
        }
        phs.push(Ph { typ, flags, offset, vaddr, paddr: if s.bool() { vaddr } else { s.u64() & 0xffff_ffff }, filesz, memsz, align: *s.pick(&[4096, 1, 0, 0x1000, 8]) });
    }
    let entry = match s.below(4) {
        0 => s.val(),
        1 => 0,
        _ => phs.first().map(|p| p.vaddr).unwrap_or(0).wrapping_add(s.below(32)),
    };
    let mut sp = Spec { bits, be: false, entry: if bits == 32 { entry & 0xffff_ffff } else { entry }, phnum: n as u16, phs, phoff: ehsize(bits), blobs: vec![(dataoff, filler(s.below(1 << 20), file))] };
    if !clean && s.chance(1, 6) {
        match s.below(4) {
            0 => sp.be = true,
            1 => sp.phnum = *s.pick(&[0, 1, 2, 7, 0xffff]),
            2 => sp.phoff = *s.pick(&[0, 1, dataoff, dataoff + file, 1 << 20]),
            _ => sp.phoff = dataoff + s.below(file + 1),
        }
    }
    (sp, clean)
}

pub fn mutate(s: &mut Src, b: &mut Vec<u8>) {
    for _ in 0..s.range(1, 4) {
        if b.is_empty() {
            return;
        }
        match s.weighted(&[6, 2, 1, 1]) {
            0 => {
                let hdr = b.len().min(200);
                let i = s.usize(hdr);
                b[i] = match s.below(4) {
                    0 => 0,
                    1 => 0xff,
                    2 => b[i] ^ (1 << s.below(8)),
                    _ => s.below(256) as u8,
                };
            }
            1 => {
                let n = s.usize(b.len() + 1);
                b.truncate(n);
            }
            2 => {
                let n = *s.pick(&[0usize, 4, 16, 52, 63, 64, 65, 120]);
                b.truncate(n);
            }
            _ => {
                let i = s.usize(b.len());
                let j = s.usize(8.min(b.len() - i) + 1);
                for k in 0..j {
                    b[i + k] = s.below(256) as u8;
                }
            }
        }
    }
}

fn state(m: &Model, vm: &mut dyn Vm, what: &str, render: &dyn Fn() -> String) -> CaseRes {
    let k = vm.kind();
    let sm = vm.sm();
    if let Err(e) = diff_mem(m, sm) {
        fail!("content", "{k}: after {what}: {e}\n{}", render());
    }
    for pg in 0..m.mem.size / PAGE {
        let g = match sm.flag(pg) {
            Ok(g) => g,
            Err(e) => fail!("marks", "{k}: marks of page {pg:#x}: {e:?}"),
        };
        let w = m.mem.flags[pg as usize];
        // dirty marks are C11's concern
        ensure!((g ^ w) & !F_DIRTY == 0, "permissions", "{k}: after {what}, page {pg:#x} has marks {g:#x} (1 frozen, 2 executable), expected {w:#x}\n{}", render());
    }
    ensure!(sm.pc() == m.pc, "entry", "{k}: after {what}: pc is {:#x}, expected {:#x}\n{}", sm.pc(), m.pc, render());
    Ok(())
}

fn render(sp: &[Spec], size: u64, ver: u32) -> String {
    let mut o = format!("version {ver}, memory {size:#x}");
    for s in sp {
        o.push_str(&format!("; image {} entry={:#x} phoff={:#x} phnum={}", if s.be { "big-endian" } else { "" }, s.entry, s.phoff, s.phnum));
        for p in &s.phs {
            o.push_str(&format!(" [type={:#x} flags={:#x} off={:#x} filesz={:#x} vaddr={:#x} memsz={:#x}]", p.typ, p.flags, p.offset, p.filesz, p.vaddr, p.memsz));
        }
    }
    o
}

fn elf(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    if s.chance(1, 1000) {
        ctx.label("memory of several gigabytes");
        return roomy(|| elf_in(s, ctx, true));
    }
    elf_in(s, ctx, false)
}
fn elf_in(s: &mut Src, ctx: &mut Ctx, vast: bool) -> CaseRes {
    let bits = *s.pick(&[64, 64, 64, 32]);
    let ver = *s.pick(&[2, 1, 0, 1]);
    let size = if vast { vast_mem(s, bits) } else { gen_size(s) };
    // one image, or a second one loaded over the first
    let n = s.weighted(&[4, 1]) + 1;
    let mut specs = vec![];
    let mut images = vec![];
    for _ in 0..n {
        let ibits = if s.chance(1, 25) { 96 - bits } else { bits };
        let (sp, clean) = gen_spec(s, ibits, size);
        let mut b = sp.bytes();
        let mutated = !clean && s.chance(1, 4);
        if mutated {
            mutate(s, &mut b);
            ctx.label("mutated");
        }
        specs.push(sp);
        images.push((b, s.chance(5, 6)));
    }
    let kinds = some_backs(s, bits, size);
    let rend = || render(&specs, size, ver);
    ctx.sample(&rend);
    let mut vms: Vec<Box<dyn Vm>> = kinds.iter().map(|k| build(VmCfg::new(*k, 0, ver, size))).collect();
    let mut m = Model::new(bits, ver, 0, Mem::new(size, true));
    for (i, (b, up)) in images.iter().enumerate() {
        let pc = m.pc;
        let want = load(&mut m, b);
        if !*up {
            m.pc = pc;
        }
        let p = Bytes::from(b.clone());
        let segs = specs[i].phs.iter().filter(|p| p.typ == 1 && p.memsz > 0).count();
        ctx.nt(segs > 0);
        match &want {
            Ok(_) => ctx.label(if segs > 0 { "accepted" } else { "accepted, empty" }),
            Err(e) => ctx.label(&format!("refused: {}", e.split(['(', '{', ' ']).next().unwrap_or(""))),
        }
        // the parsed form says the same
        let meta = if bits == 64 { parse_elf::<u64>(&p, ver) } else { parse_elf::<u32>(&p, ver) };
        let mine = parse(b, bits, ver);
        match (&mine, &meta) {
            (Ok((a, e)), Ok(x)) => {
                ensure!(x.entry == *e, "entry", "parsed entry point {:#x}, expected {e:#x}\n{}", x.entry, rend());
                ensure!(a.len() == x.actions.len(), "parse", "{} mappings, expected {}\n{}", x.actions.len(), a.len(), rend());
            }
            (Err(_), Err(_)) => {}
            (Ok(_), Err(e)) => fail!("refused", "a well-formed image is refused: {e:?}\n{}", rend()),
            (Err(e), Ok(_)) => fail!("accepted", "a malformed image is accepted ({e})\n{}", rend()),
        }
        for vm in vms.iter_mut() {
            let k = vm.kind();
            let got = match (&meta, s.chance(1, 3)) {
                (Ok(x), true) => vm.sm().load_binary(&p, x, *up),
                _ => vm.sm().load_elf(&p, *up),
            };
            ctx.evals += 1;
            match (&want, got) {
                (Ok(n), Ok(g)) => {
                    ensure!(*n == g, "bytes", "{k}: {g} bytes loaded, the segments hold {n}\n{}", rend());
                    state(&m, &mut **vm, "loading", &rend)?;
                }
                (Err(_), Err(_)) => {}
                (Ok(_), Err(e)) => fail!("refused", "{k}: a valid image is refused: {e:?}\n{}", rend()),
                (Err(e), Ok(_)) => fail!("accepted", "{k}: an image that must be refused is accepted ({e})\n{}", rend()),
            }
        }
        if want.is_err() {
            return Ok(());
        }
    }
    // the permissions are real: stores and fetches agree with the headers
    for _ in 0..12 {
        let near = if s.bool() {
            let sp = s.pick(&specs).clone();
            if sp.phs.is_empty() {
                0
            } else {
                let p = s.pick(&sp.phs).clone();
                if s.bool() {
                    p.vaddr.wrapping_add(s.below(6)).wrapping_sub(5)
                } else {
                    (p.vaddr.wrapping_add(p.memsz).wrapping_add(PAGE - 1) & !(PAGE - 1)).wrapping_add(s.below(4)).wrapping_sub(4)
                }
            }
        } else {
            s.below(size)
        };
        let near = if bits == 32 { near & 0xffff_ffff } else { near };
        let store = s.bool();
        let v = s.below(256);
        let want = if store { m.mem.store(near, 1, v).map(|_| 0) } else { m.mem.fetch(near, 2) };
        for vm in vms.iter_mut() {
            let k = vm.kind();
            let g = if store { vm.sm().store(1, near, v).map(|_| 0) } else { vm.sm().fetch16(near).map(|v| v as u32) };
            ctx.evals += 1;
            let ok = match (&want, &g) {
                (Ok(a), Ok(b)) => a == b,
                (Err(_), Err(_)) => true,
                _ => false,
            };
            ensure!(ok, "permissions", "{k}: after loading, {} {near:#x} gave {g:?}, expected {want:?}\n{}", if store { "storing to" } else { "fetching from" }, rend());
        }
    }
    Ok(())
}

/// What the guest finds: checked from the guest's own view of the stack, not from a layout.
#[allow(clippy::too_many_arguments)]
fn check_stack(vm: &mut dyn Vm, bits: u32, ver: u32, args: &[Vec<u8>], start: u64, size: u64, what: &str, rend: &dyn Fn() -> String) -> CaseRes {
    let k = vm.kind();
    let sm = vm.sm();
    let w = bits as u64 / 8;
    let sp = sm.reg(2);
    let top = start + size;
    ensure!(sp >= start && sp <= top, "area", "{k}: {what}: the stack pointer {sp:#x} is outside the stack [{start:#x}, {top:#x})\n{}", rend());
    if ver >= 1 {
        ensure!(sp % 16 == 0, "alignment", "{k}: {what}: the stack pointer {sp:#x} is not aligned\n{}", rend());
        ensure!(sp + w <= top, "area", "{k}: {what}: no room for the argument count at {sp:#x}\n{}", rend());
    }
    let vw = if ver == 0 { 4 } else { w };
    let rd = |sm: &mut dyn SM, a: u64| sm.load(vw, a).map_err(|e| f("unreadable", format!("{k}: {what}: the stack at {a:#x} is unreadable: {e:?}\n{}", rend())));
    let n = rd(sm, sp)?;
    ensure!(n == args.len() as u64, "count", "{k}: {what}: the argument count is {n}, expected {}\n{}", args.len(), rend());
    if args.is_empty() {
        return Ok(());
    }
    let mut used: Vec<(u64, u64)> = vec![];
    let slots = args.len() as u64 + 1 + (ver >= 1) as u64;
    used.push((sp, sp + slots * w));
    for (i, a) in args.iter().enumerate() {
        let p = rd(sm, sp + w * (1 + i as u64))?;
        let end = p.checked_add(a.len() as u64 + 1).unwrap_or(u64::MAX);
        ensure!(p >= start && end <= top, "area", "{k}: {what}: argument {i} at [{p:#x}, {end:#x}) is outside the stack [{start:#x}, {top:#x})\n{}", rend());
        used.push((p, end));
        let b = sm.load_bytes(p, a.len() as u64 + 1).map_err(|e| f("unreadable", format!("{k}: {what}: argument {i} is unreadable: {e:?}\n{}", rend())))?;
        ensure!(b[..a.len()] == a[..], "content", "{k}: {what}: argument {i} at {p:#x} differs from what was passed\n{}", rend());
        ensure!(b[a.len()] == 0, "terminator", "{k}: {what}: argument {i} is not followed by a zero byte\n{}", rend());
    }
    if ver >= 1 {
        let z = rd(sm, sp + w * (1 + args.len() as u64))?;
        ensure!(z == 0, "null", "{k}: {what}: the argument pointers are followed by {z:#x}, not a null pointer\n{}", rend());
    }
    used.sort();
    for p in used.windows(2) {
        ensure!(p[0].1 <= p[1].0, "overlap", "{k}: {what}: [{:#x}, {:#x}) and [{:#x}, {:#x}) overlap\n{}", p[0].0, p[0].1, p[1].0, p[1].1, rend());
    }
    Ok(())
}

fn args(s: &mut Src, ctx: &mut Ctx) -> CaseRes {
    if s.chance(1, 500) {
        ctx.label("memory of several gigabytes");
        return roomy(|| args_in(s, ctx, true));
    }
    args_in(s, ctx, false)
}
fn args_in(s: &mut Src, ctx: &mut Ctx, vast: bool) -> CaseRes {
    let bits = *s.pick(&[64, 64, 32]);
    let ver = *s.pick(&[2, 1, 0, 1, 2]);
    let mut size = if vast { vast_mem(s, bits) } else { gen_size(s).max(2 * PAGE) };
    if vast && ver == 0 {
        // version 0 writes half of each pointer: arguments beyond 4 GB are out of its reach
        size = size.min((1 << 31) + FRAME * s.range(1, 16));
    }
    let mut direct = s.bool();
    // many small arguments
    let many = match s.below(3000) {
        _ if vast => 0,
        0 => s.range(65_530, 65_545),
        1..=40 => s.range(250, 600),
        _ => 0,
    };
    if many > 60_000 {
        size = 16 * FRAME;
        direct = false;
    } else if many > 0 {
        size = size.max(FRAME);
        direct = false;
    }
    let (start, ssize) = if direct {
        match s.below(4) {
            0 => (size - size / 4, size / 4),
            1 => {
                let z = 16 * s.range(1, 64);
                (16 * s.below((size - z) / 16 + 1), z)
            }
            2 => {
                let z = s.range(8, 700);
                (s.below(size - z), z)
            }
            _ => {
                let z = s.range(16, size);
                (size - z, z)
            }
        }
    } else {
        (size - size / 4, size / 4)
    };
    let n = match s.below(5) {
        0 => 0,
        1 => s.range(1, 3),
        2 => s.range(1, 8),
        3 => s.range(1, 40),
        _ => s.range(1, 3),
    };
    let n = if many > 0 { many } else { n };
    let w = bits as u64 / 8;
    let mut args: Vec<Vec<u8>> = vec![];
    let fit = s.chance(1, 3) && ssize < 1 << 24;
    for i in 0..n {
        if many > 60_000 {
            args.push(if i % 5 == 0 { vec![i as u8; (i / 5 % 5) as usize] } else { vec![] });
            continue;
        }
        let l = match s.below(5) {
            _ if many > 0 => s.below(12),
            0 => 0,
            1 => s.below(4),
            2 => s.below(20),
            3 => s.below(200),
            _ => s.below(ssize.min(6000) + 1),
        };
        let mut l = l;
        if fit && i + 1 == n {
            // the last one decides whether everything fits
            let used: u64 = args.iter().map(|a: &Vec<u8>| a.len() as u64 + 1).sum::<u64>() + w * (n + 2);
            l = ssize.saturating_sub(used).wrapping_add(s.below(48)).saturating_sub(24);
        }
        let seed = s.below(1 << 30);
        let kind = s.below(4);
        args.push(match kind {
            0 => vec![0; l as usize],
            1 => vec![0xff; l as usize],
            _ => filler(seed, l),
        });
    }
    let total: u64 = args.iter().map(|a| a.len() as u64 + 1).sum::<u64>() + w * (n + 2);
    ctx.nt(n >= 2 || (n > 0 && total.abs_diff(ssize) <= 64));
    let rend = || format!("version {ver}, {bits}-bit, memory {size:#x}, stack [{start:#x}, {:#x}), argument lengths {:?}", start + ssize, args.iter().take(40).map(|a| a.len()).collect::<Vec<_>>()) + &if args.len() > 40 { format!(" ({} arguments)", args.len()) } else { String::new() };
    ctx.sample(&rend);
    if many > 0 {
        ctx.label(if many > 60_000 { "more than 65,000 arguments" } else { "hundreds of arguments" });
    }
    // a program whose one page is out of the way
    let img = Image { bits, entry: 0, segs: vec![Seg { vaddr: 0, memsz: 16, data: vec![1, 0, 1, 0], flags: PF_R | PF_X }] }.bytes();
    let mut m = Model::new(bits, ver, 0, Mem::new(size, true));
    let img_n = if direct { 0 } else { load(&mut m, &img).map_err(h)? };
    // for a loaded program, a handler's initialisation is what dirties the stack beforehand
    let dirt = n > 0 && s.chance(1, 3) && ssize < 1 << 24;
    if dirt {
        // a used stack
        m.mem.fill(start, ssize, 0xa5).ok();
    }
    let want = stack(&mut m, &args, start, ssize);
    match &want {
        Ok(_) => ctx.label("fits"),
        Err(e) => ctx.label(&format!("refused: {}", format!("{e:?}").split('(').next().unwrap_or(""))),
    }
    let bargs: Vec<Bytes> = args.iter().map(|a| Bytes::from(a.clone())).collect();
    for k in some_backs(s, bits, size) {
        let mut c = VmCfg::new(k, 0, ver, size);
        if dirt && !direct {
            c.syscalls.push((
                Some(Box::new(move |m: &mut dyn SM| {
                    m.set_reg(2, 0x1234);
                    m.set_reg(10, 77);
                    m.fill(start, ssize, 0xa5)
                })),
                Box::new(|_| Ok(false)),
            ));
        }
        let mut vm = build(c);
        if dirt && direct {
            vm.sm().fill(start, ssize, 0xa5).map_err(|e| f("setup", format!("{e:?}")))?;
        }
        let how = if direct { 0 } else { s.below(3) };
        let got = match how {
            0 if direct => vm.sm().init_stack(&bargs, start, ssize),
            1 => {
                let p = Bytes::from(img.clone());
                let meta: Res<ProgramMetadata> = if bits == 64 { parse_elf::<u64>(&p, ver) } else { parse_elf::<u32>(&p, ver) };
                match meta {
                    Ok(x) => vm.load_with_metadata(&p, &x, &bargs),
                    Err(e) => Err(e),
                }
            }
            _ => vm.load_program(&Bytes::from(img.clone()), &bargs),
        };
        ctx.evals += 1;
        match (&want, got) {
            (Ok(used), Ok(g)) => {
                // version 0 writes half of each slot on 64-bit machines: only meaningful on a fresh stack
                check_stack(&mut *vm, bits, ver, &args, start, ssize, "after loading", &rend)?;
                let sp = vm.sm().reg(2);
                ensure!(g == img_n + start + ssize - sp, "bytes", "{k}: {g} bytes reported, the stack pointer is {:#x} below the top and the image has {img_n} (expected {used} of stack)\n{}", start + ssize - sp, rend());
                if let Err(e) = diff_mem(&m, vm.sm()) {
                    fail!("layout", "{k}: after loading: {e}\n{}", rend());
                }
            }
            (Err(_), Err(_)) => {}
            (Ok(_), Err(e)) => fail!("refused", "{k}: arguments that fit are refused: {e:?}\n{}", rend()),
            (Err(e), Ok(_)) => fail!("accepted", "{k}: arguments that do not fit are accepted ({e:?})\n{}", rend()),
        }
    }
    Ok(())
}
