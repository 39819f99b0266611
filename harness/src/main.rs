mod alloc;
mod dec;
mod elf;
mod exec;
mod gen;
mod isa;
mod mh;
mod model;
mod online;
mod props;
mod runner;
mod src;
mod vm;
mod what;

use std::path::Path;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    let get = |id: &str| match props::find(id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    };
    let code = match s.as_slice() {
        ["check", id] => runner::check(get(id)),
        ["worker", id, sh, n, dir] => runner::worker(get(id), sh.parse().unwrap(), n.parse().unwrap(), Path::new(dir)),
        ["try", id, f, out] => {
            let (_, ch) = runner::read_replay(Path::new(f)).expect("replay file");
            runner::try_case(get(id), ch, Some(Path::new(out)))
        }
        ["record", id, idx, out] => runner::record(get(id), idx.parse().unwrap(), Path::new(out)),
        ["history", id, idx, n] => runner::history(get(id), idx.parse().unwrap(), n.parse().unwrap()),
        ["shrink", id, f] => runner::shrink_inproc(get(id), Path::new(f)),
        ["replay", f] => {
            let (id, _) = runner::read_replay(Path::new(f)).expect("replay file");
            runner::replay(get(&id), Path::new(f))
        }
        ["list"] => {
            for p in props::ALL {
                println!("{} quick={} thorough={} fixed={}", p.id, p.cases.0, p.cases.1, p.fixed);
            }
            0
        }
        _ => {
            eprintln!("usage: vmcheck check <id> | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
