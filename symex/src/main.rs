mod exec;
mod expr;
mod ir;
mod solver;

use exec::*;
use std::collections::HashMap;
use std::sync::atomic::AtomicU32;
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

fn main() {
    // deep recursion over terms: run on a large stack
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    match h.join() {
        Ok(c) => std::process::exit(c),
        Err(_) => std::process::exit(3),
    }
}

fn real_main() -> i32 {
    let mut a = std::env::args().skip(1);
    let mut opt: HashMap<String, String> = HashMap::new();
    while let Some(k) = a.next() {
        let v = a.next().unwrap_or_default();
        opt.insert(k.trim_start_matches("--").to_string(), v);
    }
    let get = |k: &str, d: &str| opt.get(k).cloned().unwrap_or_else(|| d.to_string());
    let t0 = Instant::now();
    let mut m = ir::Module::load(&get("ir", ""));
    let mut at = FN_BASE;
    for n in m.fn_order.iter().chain(m.declared.iter()) {
        m.addr.insert(n.clone(), at);
        at += 16;
    }
    assert!(at < GLOBAL_BASE);
    let mut g = GLOBAL_BASE + 64;
    for i in 0..m.globals.len() {
        let d = &m.globals[i];
        g = ir::align_up(g, d.align.max(d.ty.align()).max(1));
        m.addr.insert(d.name.clone(), g);
        g += d.ty.size().max(1) + 16;
    }
    for (n, t) in m.aliases.clone() {
        if let Some(x) = m.addr.get(&t).copied() {
            m.addr.insert(n, x);
        }
    }
    if let Some(pat) = opt.get("list-lines") {
        for (f, l) in m.code_lines(pat) {
            println!("{}:{}", f, l);
        }
        return 0;
    }
    if let Some(fname) = opt.get("parse-all") {
        let _ = fname;
        for n in m.fn_order.clone() {
            m.func(&n);
        }
        println!("parsed {} functions in {:?}", m.fn_order.len(), t0.elapsed());
        return 0;
    }
    let out = get("out", "/tmp/symex-out");
    std::fs::create_dir_all(&out).unwrap();
    let secs: u64 = get("time", "600").parse().unwrap();
    let cfg = Cfg {
        max_steps: get("steps", "50000000").parse().unwrap(),
        start: t0,
        grace_ms: get("grace", "0").parse().unwrap(),
        known: get("known", "").split(',').map(|s| s.to_string()).collect(),
        deadline: t0 + Duration::from_secs(secs),
        workers: get("workers", "8").parse().unwrap(),
        tier: get("tier", "0").parse().unwrap(),
        out: out.clone(),
        max_paths: get("paths", "100000000").parse().unwrap(),
        trace: opt.contains_key("trace"),
    };
    let tmo: u32 = get("solver-ms", "60000").parse().unwrap();
    let mut x = Exec::new(&m, cfg, tmo);
    if let Some(d) = opt.get("dump") {
        std::fs::create_dir_all(d).unwrap();
        x.s.dump = Some(d.clone());
    }
    unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut AtomicU32;
        (*p).store(1, std::sync::atomic::Ordering::SeqCst);
        x.active = p;
    }
    x.start(&get("entry", ""));
    let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.run()));
    if ok.is_err() {
        x.tot.errors += 1;
        x.lines.push(jline(&[("k", js("error")), ("msg", js("engine panicked"))]));
    }
    x.finish();
    eprintln!("symex: z3 {} load+run {:?}", solver::version(), t0.elapsed());
    0
}
