//! A program to run: an ELF image built by the program generator, or a machine state built on line.

use crate::exec::*;
use crate::gen::*;
use crate::model::*;
use crate::online::*;
use crate::runner::*;
use crate::src::Src;
use crate::vm::*;

#[derive(Clone)]
pub enum What {
    P(Prog),
    S(Setup),
}
impl What {
    pub fn p(&self) -> PCfg {
        match self {
            What::P(g) => g.p,
            What::S(x) => x.p,
        }
    }
    pub fn model(&self, cost: Cost, max: u64) -> Model {
        let mut m = match self {
            What::P(g) => load_model(g).unwrap_or_else(|e| panic!("generated program does not load: {e}")),
            What::S(x) => x.model(),
        };
        m.cost = cost;
        m.max_cycles = max;
        m
    }
    pub fn vm(&self, k: Kind, cost: Cost, max: u64) -> Result<Box<dyn Vm>, Fail> {
        let mut c = vm_cfg(k, &self.p()).cycles(max, cost);
        c.syscalls.push(host_sys());
        self.vm_with(c)
    }
    /// loaded machine with the given configuration
    pub fn vm_with(&self, c: VmCfg) -> Result<Box<dyn Vm>, Fail> {
        let k = c.kind;
        match self {
            What::P(g) => {
                let mut vm = build(c);
                vm.load_program(&Bytes::from(g.bytes.clone()), &bargs(g)).map_err(|e| f("load", format!("{k}: {e:?}")))?;
                Ok(vm)
            }
            What::S(x) => x.vm_with(c).map_err(h),
        }
    }
    pub fn render(&self) -> String {
        match self {
            What::P(g) => g.render(),
            What::S(x) => x.render(),
        }
    }
}

pub struct WOpts {
    /// percent of on-line built sequences
    pub online: u64,
    pub o: Opts,
    pub on: On,
    pub max_mem: u64,
    pub rv32: u64,
}
impl Default for WOpts {
    fn default() -> Self {
        WOpts {
            online: 40,
            o: Opts { size: 20, wild: 5, big: 10, ..Opts::default() },
            on: On { hop: 8, w: [8, 4, 4, 4, 2, 0, 1], wild_mem: 4, fault: 10, ..On::default() },
            max_mem: 512 * 1024,
            rv32: 17,
        }
    }
}
impl What {
    pub fn gen(s: &mut Src, w: &WOpts) -> What {
        let xlen = if s.chance(w.rv32, 100) { 32 } else { 64 };
        let mut p = gen_cfg(s, xlen);
        p.mem = if w.max_mem > 1 << 30 { vast_mem(s, xlen) } else { p.mem.min(w.max_mem) };
        if s.chance(w.online, 100) {
            let mut on = w.on;
            on.steps = s.range(1, w.on.steps);
            if p.mop && on.w[5] == 0 {
                on.w[5] = 3;
            }
            What::S(OnGen::new(s, p, on).generate().0)
        } else {
            What::P(gen_program(s, p, w.o))
        }
    }
}
