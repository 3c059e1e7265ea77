//! vx: bounded symbolic execution of LLVM IR (compiled from the code under test and its harness), with
//! the resulting proof obligations handed to an SMT solver.
#![allow(dead_code)]
mod bdd;
mod cfg;
mod exec;
mod intrin;
mod ll;
mod mem;
mod report;
mod value;

/// large blocks are aligned for, and advised to use, huge pages
struct Big;
extern "C" {
    fn madvise(p: *mut u8, n: usize, a: i32) -> i32;
}
unsafe impl std::alloc::GlobalAlloc for Big {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() >= 8 << 20 {
            let l2 = std::alloc::Layout::from_size_align_unchecked(l.size(), 2 << 20);
            let p = std::alloc::System.alloc(l2);
            if !p.is_null() {
                madvise(p, l.size(), 14);
            }
            return p;
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() >= 8 << 20 {
            let p = self.alloc(l);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            return p;
        }
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Big = Big;

pub fn fatal(msg: &str) -> ! {
    eprintln!("vx: {msg}");
    std::process::exit(3);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut opt = std::collections::HashMap::new();
    let mut pos = vec![];
    let mut i = 1;
    while i < args.len() {
        if let Some(n) = args[i].strip_prefix("--") {
            opt.insert(n.to_string(), args.get(i + 1).cloned().unwrap_or_default());
            i += 2;
        } else {
            pos.push(args[i].clone());
            i += 1;
        }
    }
    if pos.len() < 2 {
        fatal("usage: vx FILE.ll ENTRY [--slice a/b] [--time S] [--solve S] [--out J] [--smt F] [--samples N] [--seed N] [--z3 BIN]");
    }
    let th = std::thread::Builder::new().stack_size(6 << 30).spawn(move || run(pos, opt)).unwrap();
    match th.join() {
        Ok(c) => std::process::exit(c),
        Err(_) => std::process::exit(3),
    }
}

fn run(pos: Vec<String>, opt: std::collections::HashMap<String, String>) -> i32 {
    let t0 = std::time::Instant::now();
    let src = std::fs::read(&pos[0]).unwrap_or_else(|e| fatal(&format!("{}: {e}", pos[0])));
    let m = ll::Module::load(src);
    let entry = m.find_fn(&pos[1]).unwrap_or_else(|| fatal(&format!("no function {}", pos[1])));
    let mut e = exec::Engine::new(m);
    let num = |k: &str, d: f64| opt.get(k).and_then(|s| s.parse().ok()).unwrap_or(d);
    e.time_limit = num("time", 800.0);
    e.b.node_limit = num("nodes", 120e6) as usize;
    e.loop_limit = num("loop", 4000.0) as u32;
    if let Some(s) = opt.get("slice") {
        let (a, b) = s.split_once('/').unwrap_or_else(|| fatal("slice"));
        e.slice = (a.parse().unwrap(), b.parse().unwrap());
    }
    if let Some(s) = opt.get("pin") {
        e.pin = s.split(',').map(|x| x.parse().unwrap_or(-1)).collect();
    }
    if let Some(s) = opt.get("watch") {
        e.watch = Some((s.split(',').filter_map(|x| x.parse().ok()).collect(), vec![]));
    }
    e.prof_on = opt.contains_key("prof");
    let void = e.m.types.get(ll::Ty::Void);
    e.call(entry, vec![], &[], void);
    let exec_s = t0.elapsed().as_secs_f64();
    if e.prof_on {
        eprintln!("{} collections, {} nodes made, {} ands", e.gcs, e.b.made, e.b.ands);
        let mut v: Vec<_> = e.prof.iter().map(|(k, v)| (*v, *k)).collect();
        v.sort_by(|a, b| b.0 .1.total_cmp(&a.0 .1));
        for ((n, t), k) in v.into_iter().take(40) {
            eprintln!("{t:9.3}s {n:8} calls  {}", exec::short(&e.m.funcs[k as usize].name));
        }
    }
    report::report(&mut e, exec_s, &opt)
}
