#![allow(static_mut_refs, dead_code, unsafe_op_in_unsafe_fn, dangerous_implicit_autorefs, unused_imports, function_casts_as_integer, non_camel_case_types, unused_mut, unused_braces, unused_variables)]
mod engine;
mod fam;
mod rt;
mod util;
mod props;

#[global_allocator]
static A: util::CountAlloc = util::CountAlloc;

fn main() {
    let mut a = rt::Args {
        prop: String::new(), seed: 1, thorough: false, scale: 1.0, out: "/dev/null".into(), replay: "/dev/null".into(), jobs: 8, config: "local".into(), only: None,
    };
    let mut it = std::env::args().skip(1);
    let mut rep = None;
    let mut list = false;
    while let Some(x) = it.next() {
        let mut v = || it.next().expect("value");
        match x.as_str() {
            "--prop" => a.prop = v(),
            "--seed" => a.seed = v().parse().unwrap(),
            "--thorough" => a.thorough = true,
            "--scale" => a.scale = v().parse().unwrap(),
            "--out" => a.out = v(),
            "--replay-out" => a.replay = v(),
            "--jobs" => a.jobs = v().parse().unwrap(),
            "--config" => a.config = v(),
            "--only" => a.only = Some(v()),
            "--replay" => rep = Some(v()),
            "--finding" => {
                let k = v();
                std::process::exit(fam::finding::run(&k));
            }
            "--vg" => {
                let k = v();
                std::process::exit(fam::vg::run(&k, false));
            }
            "--vgmem" => {
                let k = v();
                std::process::exit(fam::vg::run(&k, true));
            }
            "--gdb" => {
                let k = v();
                std::process::exit(fam::gdbbt::run(&k));
            }
            "--vgfinding" => std::process::exit(fam::vg::finding()),
            "--list" => list = true,
            _ => panic!("unknown argument {x}"),
        }
    }
    if let Some(p) = rep {
        std::process::exit(rt::replay(&p, props::families));
    }
    if list {
        for f in props::families(&a.prop) {
            println!("{} {} {}", f.name, f.quick, f.thorough);
        }
        return;
    }
    std::process::exit(rt::run(&a, props::families(&a.prop)));
}
