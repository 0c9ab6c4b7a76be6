//! Path-exhaustive symbolic execution of the module.

use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::sync::atomic::AtomicU64;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

pub const PG: u64 = 256;
pub const GLOBAL_BASE: u64 = 0x0100_0000;
pub const HEAP_BASE: u64 = 0x1_0000_0000;
pub const STACK_BASE: u64 = 0x7_0000_0000;
pub const FN_BASE: u64 = 0x10_0000;

#[derive(Clone)]
pub struct Page {
    d: [u8; PG as usize],
    s: Option<Box<[E; PG as usize]>>,
}

#[derive(Clone)]
pub struct Seg {
    base: u64,
    len: u64,
    pages: Vec<Rc<Page>>,
}

impl Seg {
    fn new(base: u64) -> Seg {
        Seg { base, len: 0, pages: vec![] }
    }
    fn grow(&mut self, len: u64, zero: &Rc<Page>) {
        if len > self.len {
            self.len = len;
            while (self.pages.len() as u64) * PG < len {
                self.pages.push(zero.clone());
            }
        }
    }
}

#[derive(Clone)]
pub struct Mem {
    g: Seg,
    h: Seg,
    k: Seg,
}

impl Mem {
    fn seg(&self, a: u64) -> Option<&Seg> {
        let s = if a >= STACK_BASE {
            &self.k
        } else if a >= HEAP_BASE {
            &self.h
        } else {
            &self.g
        };
        if a >= s.base && a - s.base < s.len {
            Some(s)
        } else {
            None
        }
    }
    fn seg_mut(&mut self, a: u64) -> Option<&mut Seg> {
        let s = if a >= STACK_BASE {
            &mut self.k
        } else if a >= HEAP_BASE {
            &mut self.h
        } else {
            &mut self.g
        };
        if a >= s.base && a - s.base < s.len {
            Some(s)
        } else {
            None
        }
    }
    pub fn mapped(&self, a: u64, n: u64) -> bool {
        n == 0 || (self.seg(a).is_some() && self.seg(a.wrapping_add(n - 1)).is_some())
    }
    /// (concrete byte, term or 0)
    pub fn get(&self, a: u64) -> Option<(u8, E)> {
        let s = self.seg(a)?;
        let o = a - s.base;
        let p = &s.pages[(o / PG) as usize];
        let i = (o % PG) as usize;
        Some((p.d[i], p.s.as_ref().map(|x| x[i]).unwrap_or(0)))
    }
    pub fn set(&mut self, a: u64, b: u8, e: E) -> bool {
        let s = match self.seg_mut(a) {
            Some(s) => s,
            None => return false,
        };
        let o = a - s.base;
        let p = Rc::make_mut(&mut s.pages[(o / PG) as usize]);
        let i = (o % PG) as usize;
        p.d[i] = b;
        if e != 0 {
            p.s.get_or_insert_with(|| Box::new([0; PG as usize]))[i] = e;
        } else if let Some(x) = p.s.as_mut() {
            x[i] = 0;
        }
        true
    }
    /// Concrete little-endian read of up to 8 bytes within one page, if entirely concrete.
    fn fast_get(&self, a: u64, n: u64) -> Option<u64> {
        let s = self.seg(a)?;
        let o = a - s.base;
        let i = o % PG;
        if i + n > PG || o + n > s.len {
            return None;
        }
        let p = &s.pages[(o / PG) as usize];
        if let Some(x) = &p.s {
            for j in i..i + n {
                if x[j as usize] != 0 {
                    return None;
                }
            }
        }
        let mut r = 0u64;
        for j in (0..n).rev() {
            r = (r << 8) | p.d[(i + j) as usize] as u64;
        }
        Some(r)
    }
    fn fast_set(&mut self, a: u64, n: u64, v: u64) -> bool {
        let s = match self.seg_mut(a) {
            Some(s) => s,
            None => return false,
        };
        let o = a - s.base;
        let i = o % PG;
        if i + n > PG || o + n > s.len {
            return false;
        }
        let p = Rc::make_mut(&mut s.pages[(o / PG) as usize]);
        for j in 0..n {
            p.d[(i + j) as usize] = (v >> (8 * j)) as u8;
        }
        if let Some(x) = p.s.as_mut() {
            for j in i..i + n {
                x[j as usize] = 0;
            }
        }
        true
    }
}

#[derive(Clone)]
pub struct Frame {
    f: &'static Func,
    regs: Vec<V>,
    block: u32,
    ip: usize,
    sp: u64,
    dst: Option<u32>,
    normal: Option<u32>,
}

#[derive(Clone)]
pub struct Input {
    pub name: Rc<str>,
    pub terms: Rc<Vec<E>>,
    pub bytes: bool,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: Mem,
    sp: u64,
    pc: Vec<E>,
    model: Model,
    inputs: Vec<Input>,
    obs: Vec<(Rc<str>, V)>,
    covers: BTreeSet<Rc<str>>,
    steps: u64,
    forks: u32,
    /// some value on this path is over-approximated
    abs: bool,
}

#[derive(Debug, Clone)]
pub enum End {
    Done,
    Assumed,
    Stopped,
    Panic(String),
    Error(String),
}

pub struct Cfg {
    pub max_steps: u64,
    pub start: Instant,
    pub deadline: Instant,
    /// milliseconds to go on after the first violation that is not in `known`; 0: until the deadline
    pub grace_ms: u64,
    pub known: Vec<String>,
    pub workers: u32,
    pub tier: u32,
    pub out: String,
    pub max_paths: u64,
    pub trace: bool,
}

#[derive(Default)]
pub struct Totals {
    pub paths: u64,
    pub assumed_away: u64,
    pub stopped: u64,
    pub panics: u64,
    pub errors: u64,
    pub steps: u64,
    pub forks: u64,
    pub checks_proved: u64,
    pub checks_failed: u64,
    pub checks_concrete: u64,
    pub unknown: u64,
    pub abandoned: u64,
}

pub struct Exec<'a> {
    pub m: &'a Module,
    pub p: Pool,
    pub s: Solver,
    pub work: Vec<State>,
    pub cfg: Cfg,
    pub tot: Totals,
    base: Mem,
    zero: Rc<Page>,
    fn_at: HashMap<u64, String>,
    callee: HashMap<*const CallI, Target>,
    symcache: HashMap<(String, u32), E>,
    pub dbg_seen: Vec<bool>,
    pub fn_seen: BTreeMap<String, u64>,
    pub lines: Vec<String>,
    viol_count: HashMap<String, u32>,
    sites: HashMap<String, u64>,
    havocs: u64,
    havoc_now: bool,
    checks: BTreeMap<String, (u64, u64, u64)>,
    pub active: *mut std::sync::atomic::AtomicU32,
    children: Vec<i32>,
}

#[derive(Clone)]
enum Target {
    Fn(&'static Func),
    Builtin(String),
}

type R<T> = Result<T, End>;

fn err<T>(s: impl Into<String>) -> R<T> {
    Err(End::Error(s.into()))
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
}

fn panic_entry(n: &str) -> bool {
    n.contains("rust_begin_unwind")
        || n.contains("9panicking9panic_fmt")
        || n.contains("panicking20rust_panic_with_hook")
        || n.contains("panicking19begin_panic_handler")
        || n.contains("begin_panic_handler")
        || n.contains("panic_nounwind")
        || n.contains("12handle_error")
        || n.contains("18handle_alloc_error")
        || n.contains("17capacity_overflow")
}

impl<'a> Exec<'a> {
    pub fn new(m: &'a Module, cfg: Cfg, tmo: u32) -> Exec<'a> {
        let zero = Rc::new(Page { d: [0; PG as usize], s: None });
        let mut base = Mem { g: Seg::new(GLOBAL_BASE), h: Seg::new(HEAP_BASE), k: Seg::new(STACK_BASE) };
        let mut end = 64;
        for g in &m.globals {
            let a = m.addr[&g.name];
            end = end.max(a - GLOBAL_BASE + g.ty.size() + 64);
        }
        base.g.grow(end, &zero);
        let mut fn_at = HashMap::new();
        for (n, a) in &m.addr {
            if *a < GLOBAL_BASE {
                fn_at.insert(*a, n.clone());
            }
        }
        let mut x = Exec {
            m,
            p: Pool::new(),
            s: Solver::new(tmo),
            work: vec![],
            cfg,
            tot: Totals::default(),
            base,
            zero,
            fn_at,
            callee: HashMap::new(),
            symcache: HashMap::new(),
            dbg_seen: vec![],
            fn_seen: BTreeMap::new(),
            lines: vec![],
            viol_count: HashMap::new(),
            sites: HashMap::new(),
            havocs: 0,
            havoc_now: false,
            checks: BTreeMap::new(),
            active: std::ptr::null_mut(),
            children: vec![],
        };
        for g in &m.globals {
            if let Some(c) = &g.init {
                let a = m.addr[&g.name];
                let mut mem = std::mem::replace(&mut x.base, Mem { g: Seg::new(0), h: Seg::new(0), k: Seg::new(0) });
                x.init_global(&mut mem, a, c, &g.ty);
                x.base = mem;
            }
        }
        x
    }

    fn init_global(&mut self, mem: &mut Mem, a: u64, c: &Cst, ty: &Ty) {
        match c {
            Cst::Zero | Cst::Undef => {}
            Cst::Bytes(b) => {
                for (i, x) in b.iter().enumerate() {
                    mem.set(a + i as u64, *x, 0);
                }
            }
            Cst::Agg(v) => {
                for (i, (t, c)) in v.iter().enumerate() {
                    let (o, _) = ty.field_offset(i);
                    self.init_global(mem, a + o, c, t);
                }
            }
            _ => {
                let v = self.m.const_v(c, ty).c().unwrap();
                for i in 0..ty.store_size() {
                    mem.set(a + i, (v >> (8 * i)) as u8, 0);
                }
            }
        }
    }

    pub fn start(&mut self, entry: &str) {
        let f = self.m.func(entry).unwrap_or_else(|| panic!("entry {} not in module", entry));
        let mut st = State {
            frames: vec![],
            mem: self.base.clone(),
            sp: STACK_BASE,
            pc: vec![],
            model: Model::default(),
            inputs: vec![],
            obs: vec![],
            covers: BTreeSet::new(),
            steps: 0,
            forks: 0,
            abs: false,
        };
        let args: Vec<V> = f.params.iter().map(|_| V::C(0)).collect();
        self.push_frame(&mut st, f, args, None, None);
        self.work.push(st);
    }

    fn push_frame(&mut self, st: &mut State, f: &'static Func, args: Vec<V>, dst: Option<u32>, normal: Option<u32>) {
        let mut regs = vec![V::C(0); f.nregs];
        for (i, (r, _)) in f.params.iter().enumerate() {
            regs[*r as usize] = args[i].clone();
        }
        match self.fn_seen.get_mut(&f.name) {
            Some(n) => *n += 1,
            None => {
                self.fn_seen.insert(f.name.clone(), 1);
            }
        }
        st.frames.push(Frame { f, regs, block: 0, ip: 0, sp: st.sp, dst, normal });
    }

    // ------------------------------------------------------------ driver

    pub fn run(&mut self) {
        while let Some(st) = self.work.pop() {
            if self.out_of_time() || self.tot.paths >= self.cfg.max_paths {
                self.tot.abandoned += 1 + self.work.len() as u64;
                self.work.clear();
                break;
            }
            self.share();
            self.run_path(st);
        }
    }

    /// Hands half of the pending states to a forked worker process when one is free.
    fn share(&mut self) {
        if self.active.is_null() || self.work.len() < 2 {
            return;
        }
        let act = unsafe { &*self.active };
        let cur = act.load(std::sync::atomic::Ordering::SeqCst);
        if cur >= self.cfg.workers {
            return;
        }
        if act
            .compare_exchange(cur, cur + 1, std::sync::atomic::Ordering::SeqCst, std::sync::atomic::Ordering::SeqCst)
            .is_err()
        {
            return;
        }
        let pid = unsafe { fork() };
        let mut mine = vec![];
        let mut other = vec![];
        for (i, s) in self.work.drain(..).enumerate() {
            if i % 2 == 0 {
                mine.push(s)
            } else {
                other.push(s)
            }
        }
        if pid == 0 {
            // child
            self.work = other;
            self.children.clear();
            self.lines.clear();
            self.tot = Totals::default();
            self.checks.clear();
            self.s.st = Stats::default();
            self.fn_seen.clear();
            for b in self.dbg_seen.iter_mut() {
                *b = false;
            }
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.run()));
            if ok.is_err() {
                self.tot.errors += 1;
                self.lines.push(jline(&[("k", js("error")), ("msg", js("worker panicked"))]));
            }
            self.finish();
            unsafe { _exit(0) }
        }
        self.work = mine;
        if pid > 0 {
            self.children.push(pid);
        } else {
            self.work.extend(other);
            act.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
        }
    }

    /// Writes this worker's results and waits for the workers it started.
    pub fn finish(&mut self) {
        let mut v: Vec<_> = self.sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (b, n) in v.iter().take(8) {
            eprintln!("forks {}\n{}", n, b);
        }
        if !self.active.is_null() {
            unsafe { (*self.active).fetch_sub(1, std::sync::atomic::Ordering::SeqCst) };
        }
        let t = &self.tot;
        let s = &self.s.st;
        let mut l = vec![];
        for (k, v) in [
            ("paths", t.paths),
            ("assumed_away", t.assumed_away),
            ("stopped", t.stopped),
            ("panics", t.panics),
            ("errors", t.errors),
            ("steps", t.steps),
            ("forks", t.forks),
            ("checks_proved", t.checks_proved),
            ("checks_failed", t.checks_failed),
            ("checks_concrete", t.checks_concrete),
            ("unknown", t.unknown),
            ("abandoned", t.abandoned),
            ("queries", s.queries),
            ("cache_hits", s.cache_hits),
            ("sat", s.sat),
            ("unsat", s.unsat),
            ("solver_us", s.time_us),
        ] {
            l.push((k, v.to_string()));
        }
        l.push(("max_query_us", s.max_us.to_string()));
        let mut f: Vec<(&str, String)> = vec![("k", js("stats"))];
        f.extend(l);
        let line = jline(&f);
        self.lines.push(line);
        for (id, (p, f, c)) in &self.checks {
            self.lines.push(jline(&[
                ("k", js("check")),
                ("id", js(id)),
                ("proved", p.to_string()),
                ("failed", f.to_string()),
                ("concrete", c.to_string()),
            ]));
        }
        // executed source lines
        let mut src: BTreeSet<(String, u32, String)> = BTreeSet::new();
        for (i, b) in self.dbg_seen.iter().enumerate() {
            if *b {
                if let Some((f, l, n)) = self.m.dbg_loc(i as u32) {
                    if f.contains("/openid4vci/src/") {
                        src.insert((f, l, n));
                    }
                }
            }
        }
        for (f, l, n) in src {
            self.lines.push(jline(&[("k", js("src")), ("file", js(&f)), ("line", l.to_string()), ("fn", js(&n))]));
        }
        self.lines.push(jline(&[("k", js("nfuncs")), ("n", self.fn_seen.len().to_string())]));
        let path = format!("{}/w{}.jsonl", self.cfg.out, std::process::id());
        let mut txt = self.lines.join("\n");
        txt.push('\n');
        std::fs::write(&path, txt).expect("write results");
        for c in self.children.drain(..) {
            let mut st = 0;
            unsafe { waitpid(c, &mut st, 0) };
            if st != 0 {
                let _ = std::fs::write(
                    format!("{}/crash{}.jsonl", self.cfg.out, c),
                    jline(&[("k", js("error")), ("msg", js(&format!("worker process ended with status {}", st)))]) + "\n",
                );
            }
        }
    }

    fn run_path(&mut self, mut st: State) {
        let end = loop {
            let res = self.step(&mut st);
            if self.havoc_now {
                self.havoc_now = false;
                st.abs = true;
            }
            match res {
                Ok(()) => {
                    if st.steps > self.cfg.max_steps {
                        break End::Error("step limit".into());
                    }
                    if st.steps & 0xffff == 0 && self.out_of_time() {
                        self.tot.abandoned += 1;
                        self.tot.steps += st.steps;
                        return;
                    }
                }
                Err(e) => break e,
            }
        };
        self.tot.steps += st.steps;
        match end {
            End::Done => {
                self.tot.paths += 1;
                self.path_record(&st, "done", "");
            }
            End::Assumed => self.tot.assumed_away += 1,
            End::Stopped => {
                self.tot.stopped += 1;
            }
            End::Panic(msg) => {
                self.tot.panics += 1;
                self.violation(&st, "panic", &msg, &st.model.clone());
            }
            End::Error(e) => {
                self.tot.errors += 1;
                let bt = self.backtrace(&st);
                if self.tot.errors <= 5 {
                    eprintln!("symex: engine error: {}\n{}", e, bt);
                }
                let inp = self.inputs_json(&st, &st.model);
                self.lines.push(jline(&[("k", js("error")), ("msg", js(&e)), ("bt", js(&bt)), ("inputs", inp)]));
            }
        }
    }

    pub fn backtrace(&self, st: &State) -> String {
        let mut o = String::new();
        for f in st.frames.iter().rev() {
            let b = &f.f.blocks[f.block as usize];
            let i = f.ip.min(b.insts.len().saturating_sub(1));
            let d = b.insts.get(i).map(|x| x.dbg).unwrap_or(0);
            let loc = self.m.dbg_loc(d).map(|(f, l, n)| format!("{}:{} {}", f, l, n)).unwrap_or_default();
            o.push_str(&format!("  {} [{}]\n", short(&f.f.name), loc));
        }
        o
    }

    fn inputs_json(&self, st: &State, model: &Model) -> String {
        let mut memo = HashMap::new();
        let mut v = vec![];
        for i in &st.inputs {
            let mut h = String::new();
            if i.bytes {
                for t in i.terms.iter() {
                    h.push_str(&format!("{:02x}", self.p.eval(*t, model, &mut memo) & 0xff));
                }
                v.push(format!("[{},\"b\",\"{}\"]", js(&i.name), h));
            } else {
                let k = self.p.eval(i.terms[0], model, &mut memo);
                v.push(format!("[{},\"i\",\"{}\"]", js(&i.name), k));
            }
        }
        format!("[{}]", v.join(","))
    }

    fn obs_json(&self, st: &State, model: &Model) -> String {
        let mut memo = HashMap::new();
        let v: Vec<String> = st
            .obs
            .iter()
            .map(|(t, v)| {
                let k = match v {
                    V::C(k) => *k,
                    V::S(e) => self.p.eval(*e, model, &mut memo),
                    _ => 0,
                };
                format!("[{},\"{}\"]", js(t), k as u64)
            })
            .collect();
        format!("[{}]", v.join(","))
    }

    fn path_record(&mut self, st: &State, end: &str, msg: &str) {
        // the path's own model must satisfy its path condition
        let mut memo = HashMap::new();
        for &e in &st.pc {
            assert!(self.p.eval(e, &st.model, &mut memo) == 1, "path model does not satisfy the path condition");
        }
        let l = jline(&[
            ("k", js("path")),
            ("end", js(end)),
            ("msg", js(msg)),
            ("abs", st.abs.to_string()),
            ("inputs", self.inputs_json(st, &st.model)),
            ("obs", self.obs_json(st, &st.model)),
            ("covers", format!("[{}]", st.covers.iter().map(|c| js(c)).collect::<Vec<_>>().join(","))),
            ("pc", st.pc.len().to_string()),
        ]);
        self.lines.push(l);
    }

    /// Past the deadline, or some time after any worker found a violation that is not yet known.
    fn out_of_time(&self) -> bool {
        let now = Instant::now();
        if now > self.cfg.deadline {
            return true;
        }
        if self.cfg.grace_ms == 0 || self.active.is_null() {
            return false;
        }
        let at = unsafe { &*(self.active as *const AtomicU64).add(1) }.load(std::sync::atomic::Ordering::SeqCst);
        at != 0 && now.duration_since(self.cfg.start).as_millis() as u64 > at + self.cfg.grace_ms
    }

    fn violation(&mut self, st: &State, id: &str, msg: &str, model: &Model) {
        let bt = self.backtrace(st);
        let key = if id == "panic" {
            format!("panic {}", bt.lines().find(|l| l.contains("/openid4vci/src/")).unwrap_or(""))
        } else {
            id.to_string()
        };
        if !self.active.is_null() && !self.cfg.known.iter().any(|k| k == id) {
            let first = unsafe { &*(self.active as *const AtomicU64).add(1) };
            let at = self.cfg.start.elapsed().as_millis() as u64 + 1;
            let _ = first.compare_exchange(0, at, std::sync::atomic::Ordering::SeqCst, std::sync::atomic::Ordering::SeqCst);
        }
        let n = self.viol_count.entry(key.clone()).or_insert(0);
        *n += 1;
        if *n > 3 {
            return;
        }
        let l = jline(&[
            ("k", js("viol")),
            ("id", js(id)),
            ("msg", js(msg)),
            ("abs", st.abs.to_string()),
            ("where", js(&bt)),
            ("inputs", self.inputs_json(st, model)),
        ]);
        self.lines.push(l);
    }

    // ------------------------------------------------------------ solver helpers

    fn push_pc(&mut self, st: &mut State, e: E) {
        let n = self.p.node(e);
        if n.op == Op::Const {
            return;
        }
        if n.op == Op::Bin(BinOp::And) && n.w == 1 {
            self.push_pc(st, n.a);
            self.push_pc(st, n.b);
            return;
        }
        if !st.pc.contains(&e) {
            st.pc.push(e);
        }
    }
    fn eval(&self, st: &State, e: E) -> u128 {
        self.p.eval(e, &st.model, &mut HashMap::new())
    }

    /// Model of pc /\ c, or None when unsatisfiable.
    fn feasible(&mut self, st: &State, c: E) -> R<Option<Model>> {
        let n = self.p.node(c);
        if n.op == Op::Const {
            return Ok(if n.k == 1 { Some(st.model.clone()) } else { None });
        }
        if self.eval(st, c) == 1 {
            return Ok(Some(st.model.clone()));
        }
        match self.s.check(&mut self.p, &st.pc, c, &st.model) {
            Answer::Sat(m) => Ok(Some(m)),
            Answer::Unsat => Ok(None),
            Answer::Unknown => {
                self.tot.unknown += 1;
                err("solver gave no answer within its time limit")
            }
        }
    }

    /// Forks on a condition; the current state continues with the returned truth value.
    fn branch(&mut self, st: &mut State, v: &V) -> R<bool> {
        let e = match v {
            V::C(k) => return Ok(*k & 1 == 1),
            V::S(e) => *e,
            _ => return err("branch on aggregate"),
        };
        let cur = self.eval(st, e) == 1;
        let (taken, other) = if cur {
            let n = self.p.not_e(e);
            (e, n)
        } else {
            (self.p.not_e(e), e)
        };
        if let Some(m) = self.feasible(st, other)? {
            let mut o = st.clone();
            o.model = m;
            self.push_pc(&mut o, other);
            o.forks += 1;
            self.tot.forks += 1;
            if self.cfg.trace {
                let b = self.backtrace(st);
                let b: Vec<&str> = b.lines().take(7).collect();
                *self.sites.entry(b.join("\n")).or_insert(0) += 1;
            }
            self.work.push(o);
            self.push_pc(st, taken);
            st.forks += 1;
        }
        Ok(cur)
    }

    /// Case split on the value of a term; the current state continues with the returned value.
    fn concretize(&mut self, st: &mut State, v: &V, w: u32) -> R<u128> {
        let e = match v {
            V::C(k) => return Ok(*k),
            V::S(e) => *e,
            _ => return err("aggregate where a scalar was expected"),
        };
        let k = self.eval(st, e);
        let ke = self.p.ce(k, w);
        let eq = self.p.eq_e(e, ke);
        let ne = self.p.not_e(eq);
        if let Some(m) = self.feasible(st, ne)? {
            let mut o = st.clone();
            o.model = m;
            self.push_pc(&mut o, ne);
            o.forks += 1;
            self.tot.forks += 1;
            if self.cfg.trace {
                let b = self.backtrace(st);
                let b: Vec<&str> = b.lines().take(7).collect();
                *self.sites.entry(b.join("\n")).or_insert(0) += 1;
            }
            self.work.push(o);
            self.push_pc(st, eq);
            st.forks += 1;
        }
        Ok(k)
    }

    // ------------------------------------------------------------ memory

    fn load(&mut self, st: &mut State, a: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Arr(..) | Ty::Struct(..) => {
                let n = match ty {
                    Ty::Arr(n, _) => *n as usize,
                    Ty::Struct(f, _) => f.len(),
                    _ => 0,
                };
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    let (o, t) = ty.field_offset(i);
                    v.push(self.load(st, a + o, &t)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Vec(n, t) => {
                let bits = t.bits();
                if bits % 8 != 0 {
                    let i = Ty::Int((*n * bits as u64) as u32);
                    let x = self.load(st, a, &i)?;
                    let b = self.to_bits(&x, &i);
                    return Ok(self.from_bits(&b, ty));
                }
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    v.push(self.load(st, a + i * (bits as u64 / 8), t)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => {
                let w = ty.bits();
                let n = ty.store_size();
                if n <= 8 {
                    if let Some(k) = st.mem.fast_get(a, n) {
                        return Ok(V::C(k as u128 & mask(w)));
                    }
                }
                let mut bs = Vec::with_capacity(n as usize);
                let mut allc = true;
                for i in 0..n {
                    match st.mem.get(a.wrapping_add(i)) {
                        Some((b, e)) => {
                            allc &= e == 0;
                            bs.push((b, e));
                        }
                        None => return err(format!("load of {} bytes from unmapped address {:#x}", n, a)),
                    }
                }
                if allc {
                    let mut k = 0u128;
                    for (b, _) in bs.iter().rev() {
                        k = (k << 8) | *b as u128;
                    }
                    return Ok(V::C(k & mask(w)));
                }
                let mut r: Option<E> = None;
                for (b, e) in bs.iter() {
                    let x = if *e != 0 { *e } else { self.p.ce(*b as u128, 8) };
                    r = Some(match r {
                        None => x,
                        Some(lo) => self.p.concat_e(x, lo),
                    });
                }
                let r = r.unwrap();
                let r = self.p.extract_e(r, 0, w);
                Ok(self.p.v(r))
            }
        }
    }

    fn store(&mut self, st: &mut State, a: u64, ty: &Ty, v: &V) -> R<()> {
        match ty {
            Ty::Arr(..) | Ty::Struct(..) => {
                if let V::A(f) = v {
                    for (i, x) in f.iter().enumerate() {
                        let (o, t) = ty.field_offset(i);
                        self.store(st, a + o, &t, x)?;
                    }
                    Ok(())
                } else {
                    err("store of non-aggregate")
                }
            }
            Ty::Vec(n, t) => {
                let bits = t.bits();
                if bits % 8 != 0 {
                    let i = Ty::Int((*n * bits as u64) as u32);
                    let b = self.to_bits(v, ty);
                    let x = self.from_bits(&b, &i);
                    return self.store(st, a, &i, &x);
                }
                if let V::A(f) = v {
                    for (i, x) in f.iter().enumerate() {
                        self.store(st, a + i as u64 * (bits as u64 / 8), t, x)?;
                    }
                    Ok(())
                } else {
                    err("store of non-vector")
                }
            }
            _ => {
                let w = ty.bits();
                let n = ty.store_size();
                match v {
                    V::C(k) => {
                        if n <= 8 && st.mem.fast_set(a, n, *k as u64) {
                            return Ok(());
                        }
                        for i in 0..n {
                            if !st.mem.set(a.wrapping_add(i), (*k >> (8 * i)) as u8, 0) {
                                return err(format!("store to unmapped address {:#x}", a));
                            }
                        }
                        Ok(())
                    }
                    V::S(e) => {
                        let full = if w % 8 != 0 { self.p.zext_e(*e, (n * 8) as u32) } else { *e };
                        for i in 0..n {
                            let b = self.p.extract_e(full, (8 * i) as u32, 8);
                            let ok = match self.p.v(b) {
                                V::C(k) => st.mem.set(a.wrapping_add(i), k as u8, 0),
                                V::S(x) => st.mem.set(a.wrapping_add(i), 0, x),
                                _ => unreachable!(),
                            };
                            if !ok {
                                return err(format!("store to unmapped address {:#x}", a));
                            }
                        }
                        Ok(())
                    }
                    V::A(_) => err("store of aggregate as scalar"),
                }
            }
        }
    }

    fn alloc(&mut self, st: &mut State, n: u64, align: u64) -> u64 {
        let s = &mut st.mem.h;
        let cur = s.base + s.len;
        let a = align_up(cur + 16, align.max(16));
        let len = a - s.base + n.max(1);
        s.grow(len, &self.zero);
        a
    }

    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        if !st.mem.mapped(s, n) || !st.mem.mapped(d, n) {
            return err(format!("memcpy of {} bytes {:#x} -> {:#x} touches unmapped memory", n, s, d));
        }
        if n > (1 << 22) {
            return err("memcpy too large");
        }
        let b: Vec<(u8, E)> = (0..n).map(|i| st.mem.get(s + i).unwrap()).collect();
        for (i, (x, e)) in b.into_iter().enumerate() {
            st.mem.set(d + i as u64, x, e);
        }
        Ok(())
    }

    fn byte(&mut self, st: &State, a: u64) -> R<V> {
        match st.mem.get(a) {
            Some((b, 0)) => Ok(V::C(b as u128)),
            Some((_, e)) => Ok(V::S(e)),
            None => err(format!("read of unmapped address {:#x}", a)),
        }
    }

    /// Known-zero low bits of a term.
    fn tz(&self, e: E) -> u32 {
        let n = self.p.node(e);
        match n.op {
            Op::Const => {
                if n.k == 0 {
                    n.w
                } else {
                    n.k.trailing_zeros()
                }
            }
            Op::Concat => {
                let b = self.tz(n.b);
                let wb = self.p.width(n.b);
                if b >= wb {
                    wb + self.tz(n.a)
                } else {
                    b
                }
            }
            Op::ZExt | Op::SExt => {
                let t = self.tz(n.a);
                if t >= self.p.width(n.a) {
                    n.w
                } else {
                    t
                }
            }
            Op::Bin(BinOp::Mul) => (self.tz(n.a) + self.tz(n.b)).min(n.w),
            Op::Bin(BinOp::Add) | Op::Bin(BinOp::Sub) | Op::Bin(BinOp::Or) => self.tz(n.a).min(self.tz(n.b)),
            Op::Ite => self.tz(n.b).min(self.tz(n.c)),
            _ => 0,
        }
    }

    /// Load through a symbolic address: table lookup when the address range is small, otherwise
    /// a case split on the address.
    fn load_sym(&mut self, st: &mut State, e: E, ty: &Ty) -> R<V> {
        if !ty.is_agg() && !matches!(ty, Ty::Vec(..)) {
            let w = ty.bits();
            let n = self.p.node(e);
            // pointer chosen among constants
            if n.op == Op::Ite {
                let mut leaves = BTreeSet::new();
                if self.leaves(e, &mut leaves, 0, &mut BTreeSet::new()) && leaves.len() <= 300 {
                    let mut map = HashMap::new();
                    let mut ok = true;
                    for k in leaves {
                        if !st.mem.mapped(k as u64, ty.store_size()) {
                            ok = false;
                            break;
                        }
                        let v = self.load(st, k as u64, ty)?;
                        let x = self.p.e(&v, w);
                        map.insert(k, x);
                    }
                    if ok {
                        let r = self.subst_leaves(e, &map, &mut HashMap::new());
                        return Ok(self.p.v(r));
                    }
                }
            }
            let (x, base) = if n.op == Op::Bin(BinOp::Add) && self.p.node(n.b).op == Op::Const {
                (n.a, self.p.node(n.b).k as u64)
            } else {
                (e, 0)
            };
            let (lo, hi) = self.p.interval(x);
            let tz = self.tz(x);
            if hi - lo <= 1 << 14 && hi < (1 << 62) && ((hi - lo) >> tz) <= 1024 {
                // base + x, x in [lo, hi], x multiple of 2^tz
                let top = 128 - hi.leading_zeros();
                let nb = top.saturating_sub(tz);
                if nb == 0 {
                    return self.load(st, base.wrapping_add(lo as u64), ty);
                }
                // restrict to mapped entries; the others are unreachable in memory-safe code
                if nb <= 14 {
                    let y = self.p.extract_e(x, tz, nb);
                    let r = self.table(st, base, tz, y, nb, 0, lo, hi, ty, w)?;
                    return Ok(self.p.v(r));
                }
            }
        }
        let a = self.concretize(st, &V::S(e), 64)?;
        self.load(st, a as u64, ty)
    }
    fn leaves(&self, e: E, out: &mut BTreeSet<u128>, d: u32, seen: &mut BTreeSet<E>) -> bool {
        if !seen.insert(e) {
            return true;
        }
        if d > 400 {
            return false;
        }
        let n = self.p.node(e);
        match n.op {
            Op::Const => {
                out.insert(n.k);
                true
            }
            Op::Ite => self.leaves(n.b, out, d + 1, seen) && self.leaves(n.c, out, d + 1, seen),
            _ => false,
        }
    }
    fn subst_leaves(&mut self, e: E, map: &HashMap<u128, E>, memo: &mut HashMap<E, E>) -> E {
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let n = self.p.node(e);
        let r = match n.op {
            Op::Const => map[&n.k],
            _ => {
                let b = self.subst_leaves(n.b, map, memo);
                let c = self.subst_leaves(n.c, map, memo);
                self.p.ite_e(n.a, b, c)
            }
        };
        memo.insert(e, r);
        r
    }
    #[allow(clippy::too_many_arguments)]
    fn table(&mut self, st: &mut State, base: u64, tz: u32, y: E, nb: u32, pre: u64, lo: u128, hi: u128, ty: &Ty, w: u32) -> R<E> {
        if nb == 0 {
            let off = pre << tz;
            let a = base.wrapping_add(off);
            if (off as u128) < lo || off as u128 > hi || !st.mem.mapped(a, ty.store_size()) {
                return Ok(self.p.ce(0, w));
            }
            let v = self.load(st, a, ty)?;
            return Ok(self.p.e(&v, w));
        }
        let first = (pre << nb) << tz;
        let last = (((pre + 1) << nb) - 1) << tz;
        if first as u128 > hi || (last as u128) < lo {
            return Ok(self.p.ce(0, w));
        }
        let h = self.table(st, base, tz, y, nb - 1, (pre << 1) | 1, lo, hi, ty, w)?;
        let l = self.table(st, base, tz, y, nb - 1, pre << 1, lo, hi, ty, w)?;
        // sides that lie entirely outside the range cannot occur
        let hfirst = (((pre << 1) | 1) << (nb - 1)) << tz;
        let llast = (((((pre << 1) + 1) << (nb - 1)) - 1)) << tz;
        if hfirst as u128 > hi {
            return Ok(l);
        }
        if (llast as u128) < lo {
            return Ok(h);
        }
        let b = self.p.extract_e(y, nb - 1, 1);
        Ok(self.p.ite_e(b, h, l))
    }

    // ------------------------------------------------------------ values

    fn opd(&self, st: &State, o: &Opd) -> V {
        match o {
            Opd::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }
    fn to_bits(&mut self, v: &V, ty: &Ty) -> V {
        match (v, ty) {
            (V::A(l), Ty::Vec(_, t)) => {
                let w = t.bits();
                let mut r: Option<V> = None;
                let mut tw = 0;
                for x in l.iter() {
                    r = Some(match r {
                        None => x.clone(),
                        Some(lo) => {
                            if let (V::C(a), V::C(b)) = (x, &lo) {
                                V::C((a << tw) | b)
                            } else {
                                let (a, b) = (self.p.e(x, w), self.p.e(&lo, tw));
                                let c = self.p.concat_e(a, b);
                                self.p.v(c)
                            }
                        }
                    });
                    tw += w;
                }
                r.unwrap()
            }
            _ => v.clone(),
        }
    }
    fn from_bits(&mut self, v: &V, ty: &Ty) -> V {
        match ty {
            Ty::Vec(n, t) => {
                let w = t.bits();
                let tot = *n as u32 * w;
                V::A(Rc::new((0..*n as u32).map(|i| self.p.extract(v, tot, i * w, w)).collect()))
            }
            _ => v.clone(),
        }
    }
    fn lane2(&mut self, ty: &Ty, a: &V, b: &V, f: &mut dyn FnMut(&mut Pool, u32, &V, &V) -> V) -> R<V> {
        match ty {
            Ty::Vec(_, t) => match (a, b) {
                (V::A(x), V::A(y)) => {
                    let w = t.bits();
                    Ok(V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| f(&mut self.p, w, p, q)).collect())))
                }
                _ => err("vector operand"),
            },
            _ => {
                let w = ty.bits();
                Ok(f(&mut self.p, w, a, b))
            }
        }
    }
    fn icmp(p: &mut Pool, pr: Pred, w: u32, a: &V, b: &V) -> V {
        match pr {
            Pred::Eq => p.eq(w, a, b),
            Pred::Ne => {
                let x = p.eq(w, a, b);
                p.not(&x)
            }
            Pred::Ult => p.ult(w, a, b),
            Pred::Ugt => p.ult(w, b, a),
            Pred::Uge => {
                let x = p.ult(w, a, b);
                p.not(&x)
            }
            Pred::Ule => {
                let x = p.ult(w, b, a);
                p.not(&x)
            }
            Pred::Slt => p.slt(w, a, b),
            Pred::Sgt => p.slt(w, b, a),
            Pred::Sge => {
                let x = p.slt(w, a, b);
                p.not(&x)
            }
            Pred::Sle => {
                let x = p.slt(w, b, a);
                p.not(&x)
            }
        }
    }
    fn select(&mut self, c: &V, ty: &Ty, a: &V, b: &V) -> R<V> {
        if let V::C(k) = c {
            return Ok(if k & 1 == 1 { a.clone() } else { b.clone() });
        }
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => match (a, b) {
                (V::A(x), V::A(y)) => {
                    let mut r = vec![];
                    for i in 0..x.len() {
                        let (_, t) = ty.field_offset(i);
                        r.push(self.select(c, &t, &x[i], &y[i])?);
                    }
                    Ok(V::A(Rc::new(r)))
                }
                _ => err("select operands"),
            },
            _ => Ok(self.p.ite(c, ty.bits(), a, b)),
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let f = fr.f;
        let from = fr.block;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals: Vec<(u32, V)> = Vec::with_capacity(b.phis.len());
            for (d, _, inc) in &b.phis {
                let mut found = None;
                for (bb, o) in inc {
                    if *bb == from {
                        found = Some(match o {
                            Opd::Reg(r) => fr.regs[*r as usize].clone(),
                            Opd::K(v) => v.clone(),
                        });
                        break;
                    }
                }
                vals.push((*d, found.expect("phi without incoming edge")));
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.block = to;
        fr.ip = 0;
    }

    fn set(&mut self, st: &mut State, d: Option<u32>, v: V) {
        if let Some(d) = d {
            st.frames.last_mut().unwrap().regs[d as usize] = v;
        }
    }

    // ------------------------------------------------------------ one instruction

    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        let fr = st.frames.last().unwrap();
        let f: &'static Func = fr.f;
        let inst: &'static Inst = match f.blocks[fr.block as usize].insts.get(fr.ip) {
            Some(i) => i,
            None => return err(format!("fell off block in {}", f.name)),
        };
        if inst.dbg != 0 {
            let d = inst.dbg as usize;
            if d >= self.dbg_seen.len() {
                self.dbg_seen.resize(d + 1024, false);
            }
            self.dbg_seen[d] = true;
        }
        let val = match &inst.ins {
            Ins::Bin(op, ty, a, b) => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let op = *op;
                if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
                    if let V::C(0) = y {
                        return err("division by zero");
                    }
                }
                self.lane2(ty, &x, &y, &mut |p, w, a, b| p.bin(op, w, a, b))?
            }
            Ins::ICmp(pr, ty, a, b) => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let pr = *pr;
                self.lane2(ty, &x, &y, &mut |p, w, a, b| Exec::icmp(p, pr, w, a, b))?
            }
            Ins::Cast(c, t1, a, t2) => {
                let x = self.opd(st, a);
                self.cast(*c, t1, &x, t2)?
            }
            Ins::FBin(op, ty, a, b) => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                match (x, y, ty) {
                    (V::C(x), V::C(y), Ty::Double) => {
                        let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                        let r = match op {
                            FOp::Add => x + y,
                            FOp::Sub => x - y,
                            FOp::Mul => x * y,
                            FOp::Div => x / y,
                            FOp::Rem => x % y,
                        };
                        V::C(r.to_bits() as u128)
                    }
                    (V::C(x), V::C(y), Ty::Float) => {
                        let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        let r = match op {
                            FOp::Add => x + y,
                            FOp::Sub => x - y,
                            FOp::Mul => x * y,
                            FOp::Div => x / y,
                            FOp::Rem => x % y,
                        };
                        V::C(r.to_bits() as u128)
                    }
                    _ => self.havoc(ty.bits()),
                }
            }
            Ins::FNeg(ty, a) => {
                let x = self.opd(st, a);
                let w = ty.bits();
                self.p.bin(BinOp::Xor, w, &x, &V::C(1u128 << (w - 1)))
            }
            Ins::FCmp(pr, ty, a, b) => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                match (x, y) {
                    (V::C(x), V::C(y)) => {
                        let (x, y) = match ty {
                            Ty::Double => (f64::from_bits(x as u64), f64::from_bits(y as u64)),
                            _ => (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64),
                        };
                        let un = x.is_nan() || y.is_nan();
                        let r = match pr.as_str() {
                            "oeq" => !un && x == y,
                            "ogt" => !un && x > y,
                            "oge" => !un && x >= y,
                            "olt" => !un && x < y,
                            "ole" => !un && x <= y,
                            "one" => !un && x != y,
                            "ord" => !un,
                            "ueq" => un || x == y,
                            "ugt" => un || x > y,
                            "uge" => un || x >= y,
                            "ult" => un || x < y,
                            "ule" => un || x <= y,
                            "une" => un || x != y,
                            "uno" => un,
                            "true" => true,
                            _ => false,
                        };
                        V::C(r as u128)
                    }
                    _ => self.havoc(1),
                }
            }
            Ins::Load(ty, p) => {
                let a = self.opd(st, p);
                match a {
                    V::C(a) => self.load(st, a as u64, ty)?,
                    V::S(e) => self.load_sym(st, e, ty)?,
                    _ => return err("load address"),
                }
            }
            Ins::Store(ty, v, p) => {
                let a = self.opd(st, p);
                let a = self.concretize(st, &a, 64)? as u64;
                let v = self.opd(st, v);
                self.store(st, a, ty, &v)?;
                V::C(0)
            }
            Ins::Gep(b, off, dy) => {
                let mut r = self.opd(st, b);
                if *off != 0 {
                    r = self.p.bin(BinOp::Add, 64, &r, &V::C(*off as u64 as u128));
                }
                for (t, o, sz) in dy {
                    let x = self.opd(st, o);
                    let w = t.bits();
                    let x = if w < 64 {
                        self.p.sext(&x, w, 64)
                    } else if w > 64 {
                        self.p.extract(&x, w, 0, 64)
                    } else {
                        x
                    };
                    let x = self.p.bin(BinOp::Mul, 64, &x, &V::C(*sz as u128));
                    r = self.p.bin(BinOp::Add, 64, &r, &x);
                }
                r
            }
            Ins::Alloca(sz, al, _, cnt) => {
                let n = match cnt {
                    None => 1,
                    Some(o) => {
                        let v = self.opd(st, o);
                        self.concretize(st, &v, 64)? as u64
                    }
                };
                let a = align_up(st.sp, (*al).max(16));
                st.sp = a + sz * n + 16;
                if st.sp - STACK_BASE > (64 << 20) {
                    return err("stack overflow");
                }
                let len = st.sp - STACK_BASE;
                let z = self.zero.clone();
                st.mem.k.grow(len, &z);
                V::C(a as u128)
            }
            Ins::Select(ct, ty, c, a, b) => {
                let c = self.opd(st, c);
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                if let (Ty::Vec(..), V::A(cs)) = (ct, &c) {
                    if let (V::A(x), V::A(y), Ty::Vec(_, t)) = (&x, &y, ty) {
                        let mut r = vec![];
                        for i in 0..cs.len() {
                            r.push(self.select(&cs[i], t, &x[i], &y[i])?);
                        }
                        V::A(Rc::new(r))
                    } else {
                        return err("vector select");
                    }
                } else {
                    self.select(&c, ty, &x, &y)?
                }
            }
            Ins::ExtractValue(a, idx) => {
                let mut v = self.opd(st, a);
                for i in idx {
                    v = match v {
                        V::A(f) => f[*i as usize].clone(),
                        _ => return err("extractvalue of scalar"),
                    };
                }
                v
            }
            Ins::InsertValue(_, a, x, idx) => {
                let v = self.opd(st, a);
                let x = self.opd(st, x);
                fn ins(v: &V, x: V, idx: &[u32]) -> V {
                    if idx.is_empty() {
                        return x;
                    }
                    match v {
                        V::A(f) => {
                            let mut g = (**f).clone();
                            g[idx[0] as usize] = ins(&f[idx[0] as usize], x, &idx[1..]);
                            V::A(Rc::new(g))
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                ins(&v, x, idx)
            }
            Ins::ExtractElem(a, i) => {
                let v = self.opd(st, a);
                let i = self.opd(st, i);
                let k = self.concretize(st, &i, 64)? as usize;
                match v {
                    V::A(f) => f[k].clone(),
                    _ => return err("extractelement"),
                }
            }
            Ins::InsertElem(_, a, x, i) => {
                let v = self.opd(st, a);
                let x = self.opd(st, x);
                let i = self.opd(st, i);
                let k = self.concretize(st, &i, 64)? as usize;
                match v {
                    V::A(f) => {
                        let mut g = (*f).clone();
                        g[k] = x;
                        V::A(Rc::new(g))
                    }
                    _ => return err("insertelement"),
                }
            }
            Ins::Shuffle(n, a, b, mask) => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                match (x, y) {
                    (V::A(x), V::A(y)) => V::A(Rc::new(
                        mask.iter()
                            .map(|m| match m {
                                None => V::C(0),
                                Some(i) => {
                                    if (*i as u64) < *n {
                                        x[*i as usize].clone()
                                    } else {
                                        y[(*i as u64 - n) as usize].clone()
                                    }
                                }
                            })
                            .collect(),
                    )),
                    _ => return err("shufflevector"),
                }
            }
            Ins::Freeze(a) => self.opd(st, a),
            Ins::Nop => V::C(0),
            Ins::Br(l) => {
                self.jump(st, *l);
                return Ok(());
            }
            Ins::CondBr(c, a, b) => {
                let v = self.opd(st, c);
                let t = if let V::C(k) = v {
                    k & 1 == 1
                } else {
                    self.branch(st, &v)?
                };
                self.jump(st, if t { *a } else { *b });
                return Ok(());
            }
            Ins::Switch(w, v, d, cases) => {
                let v = self.opd(st, v);
                let to = match v {
                    V::C(k) => cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d),
                    V::S(e) => {
                        // group cases by target, decide one target at a time
                        let cur = self.eval(st, e);
                        let target = cases.iter().find(|c| c.0 == cur).map(|c| c.1).unwrap_or(*d);
                        let mut cond = self.p.ce(0, 1);
                        if target == *d {
                            let mut any = self.p.ce(0, 1);
                            for (k, l) in cases {
                                if *l != *d {
                                    let kk = self.p.ce(*k, *w);
                                    let q = self.p.eq_e(e, kk);
                                    any = self.p.bin_e(BinOp::Or, any, q);
                                }
                            }
                            cond = self.p.not_e(any);
                        } else {
                            for (k, l) in cases {
                                if *l == target {
                                    let kk = self.p.ce(*k, *w);
                                    let q = self.p.eq_e(e, kk);
                                    cond = self.p.bin_e(BinOp::Or, cond, q);
                                }
                            }
                        }
                        let n = self.p.not_e(cond);
                        if let Some(m) = self.feasible(st, n)? {
                            let mut o = st.clone();
                            o.model = m;
                            self.push_pc(&mut o, n);
                            o.forks += 1;
                            self.tot.forks += 1;
                            self.work.push(o);
                            self.push_pc(st, cond);
                            st.forks += 1;
                        }
                        target
                    }
                    _ => return err("switch operand"),
                };
                self.jump(st, to);
                return Ok(());
            }
            Ins::Ret(o) => {
                let v = o.as_ref().map(|o| self.opd(st, o));
                let fr = st.frames.pop().unwrap();
                st.sp = fr.sp;
                if st.frames.is_empty() {
                    return Err(End::Done);
                }
                if let (Some(d), Some(v)) = (fr.dst, v) {
                    st.frames.last_mut().unwrap().regs[d as usize] = v;
                }
                if let Some(n) = fr.normal {
                    self.jump(st, n);
                } else {
                    st.frames.last_mut().unwrap().ip += 1;
                }
                return Ok(());
            }
            Ins::Unreachable => return err("reached 'unreachable'"),
            Ins::LandingPad | Ins::Resume => return err("unwinding is not modelled"),
            Ins::Rmw(op, ty, p, v) => {
                let a = self.opd(st, p);
                let a = self.concretize(st, &a, 64)? as u64;
                let x = self.opd(st, v);
                let old = self.load(st, a, ty)?;
                let w = ty.bits();
                let n = match op.as_str() {
                    "xchg" => x,
                    "add" => self.p.bin(BinOp::Add, w, &old, &x),
                    "sub" => self.p.bin(BinOp::Sub, w, &old, &x),
                    "and" => self.p.bin(BinOp::And, w, &old, &x),
                    "or" => self.p.bin(BinOp::Or, w, &old, &x),
                    "xor" => self.p.bin(BinOp::Xor, w, &old, &x),
                    "umax" => {
                        let c = self.p.ult(w, &old, &x);
                        self.p.ite(&c, w, &x, &old)
                    }
                    "umin" => {
                        let c = self.p.ult(w, &old, &x);
                        self.p.ite(&c, w, &old, &x)
                    }
                    _ => return err(format!("atomicrmw {}", op)),
                };
                self.store(st, a, ty, &n)?;
                old
            }
            Ins::CmpXchg(ty, p, c, n) => {
                let a = self.opd(st, p);
                let a = self.concretize(st, &a, 64)? as u64;
                let old = self.load(st, a, ty)?;
                let (c, n) = (self.opd(st, c), self.opd(st, n));
                let eq = self.p.eq(ty.bits(), &old, &c);
                let ok = self.branch(st, &eq)?;
                if ok {
                    self.store(st, a, ty, &n)?;
                }
                V::A(Rc::new(vec![old, V::C(ok as u128)]))
            }
            Ins::Call(c) => return self.call(st, c, inst.dst),
        };
        self.set(st, inst.dst, val);
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }

    /// Floating point over symbolic operands is over-approximated by an unconstrained value.
    fn havoc(&mut self, w: u32) -> V {
        self.havocs += 1;
        self.havoc_now = true;
        let e = self.sym(&format!("havoc#{}.{}", std::process::id(), self.havocs), 0, w);
        self.p.v(e)
    }

    fn cast(&mut self, c: Cast, t1: &Ty, x: &V, t2: &Ty) -> R<V> {
        if let (Ty::Vec(_, e1), Ty::Vec(_, e2)) = (t1, t2) {
            if c != Cast::Bit {
                if let V::A(l) = x {
                    let mut r = vec![];
                    for y in l.iter() {
                        r.push(self.cast(c, e1, y, e2)?);
                    }
                    return Ok(V::A(Rc::new(r)));
                }
            }
        }
        Ok(match c {
            Cast::Trunc => self.p.extract(x, t1.bits(), 0, t2.bits()),
            Cast::ZExt => self.p.zext(x, t1.bits(), t2.bits()),
            Cast::SExt => self.p.sext(x, t1.bits(), t2.bits()),
            Cast::Bit => {
                let b = self.to_bits(x, t1);
                self.from_bits(&b, t2)
            }
            _ => {
                let k = match x {
                    V::C(k) => *k,
                    _ => return Ok(self.havoc(t2.bits())),
                };
                let fl = |k: u128, t: &Ty| match t {
                    Ty::Float => f32::from_bits(k as u32) as f64,
                    _ => f64::from_bits(k as u64),
                };
                let mkf = |d: f64, t: &Ty| match t {
                    Ty::Float => (d as f32).to_bits() as u128,
                    _ => d.to_bits() as u128,
                };
                V::C(match c {
                    Cast::FpExt | Cast::FpTrunc => mkf(fl(k, t1), t2),
                    Cast::UiToFp => match t2 {
                        Ty::Float => (k as f32).to_bits() as u128,
                        _ => (k as f64).to_bits() as u128,
                    },
                    Cast::SiToFp => {
                        let s = sx(k, t1.bits());
                        match t2 {
                            Ty::Float => (s as f32).to_bits() as u128,
                            _ => (s as f64).to_bits() as u128,
                        }
                    }
                    Cast::FpToUi => fl(k, t1) as u128 & mask(t2.bits()),
                    Cast::FpToSi => (fl(k, t1) as i128) as u128 & mask(t2.bits()),
                    _ => unreachable!(),
                })
            }
        })
    }

    // ------------------------------------------------------------ calls

    fn call(&mut self, st: &mut State, c: &'static Rc<CallI>, dst: Option<u32>) -> R<()> {
        let key = &**c as *const CallI;
        let name: String = match &c.callee {
            Callee::Direct(n) => {
                if let Some(t) = self.callee.get(&key) {
                    return self.invoke(st, t.clone(), c, dst);
                }
                n.clone()
            }
            Callee::Ind(o) => {
                let v = self.opd(st, o);
                let a = self.concretize(st, &v, 64)? as u64;
                match self.fn_at.get(&a) {
                    Some(n) => n.clone(),
                    None => return err(format!("call of non-function address {:#x}", a)),
                }
            }
            Callee::Asm(s) => {
                // only empty templates (compiler barriers, black_box)
                if s.starts_with('|') {
                    let v = if c.ret == Ty::Void {
                        V::C(0)
                    } else if let Some((_, o)) = c.args.first() {
                        self.opd(st, o)
                    } else {
                        Module::zero_v(&c.ret)
                    };
                    return self.finish_builtin(st, c, dst, v);
                }
                if s.contains("cpuid") {
                    return self.finish_builtin(st, c, dst, Module::zero_v(&c.ret));
                }
                return err(format!("inline assembly: {}", s));
            }
        };
        let t = if panic_entry(&name) || self.is_builtin(&name) || !self.m.has_func(&name) {
            Target::Builtin(name)
        } else {
            Target::Fn(self.m.func(&name).unwrap())
        };
        if let Callee::Direct(_) = c.callee {
            self.callee.insert(key, t.clone());
        }
        self.invoke(st, t, c, dst)
    }

    fn is_builtin(&self, n: &str) -> bool {
        matches!(n, "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "strlen" | "memchr")
    }

    fn invoke(&mut self, st: &mut State, t: Target, c: &CallI, dst: Option<u32>) -> R<()> {
        match t {
            Target::Fn(f) => {
                let mut args = Vec::with_capacity(c.args.len());
                for (i, (_, o)) in c.args.iter().enumerate() {
                    let mut v = self.opd(st, o);
                    if let Some(t) = &c.byval[i] {
                        let s = self.concretize(st, &v, 64)? as u64;
                        let a = align_up(st.sp, 16);
                        st.sp = a + t.size() + 16;
                        let len = st.sp - STACK_BASE;
                        let z = self.zero.clone();
                        st.mem.k.grow(len, &z);
                        self.copy(st, a, s, t.size())?;
                        v = V::C(a as u128);
                    }
                    args.push(v);
                }
                if args.len() < f.params.len() {
                    return err(format!("too few arguments for {}", f.name));
                }
                // cut: the decimal text of a symbolic float (only ever part of an error message here)
                if f.name.contains("float_to_decimal_common") && matches!(args.get(1), Some(V::S(_))) {
                    args[1] = V::C(0.5f64.to_bits() as u128);
                    self.havoc_now = true;
                }
                if st.frames.len() > 2000 {
                    return err("call depth");
                }
                self.push_frame(st, f, args, dst, c.normal);
                Ok(())
            }
            Target::Builtin(n) => {
                let args: Vec<V> = c.args.iter().map(|(_, o)| self.opd(st, o)).collect();
                let v = self.builtin(st, &n, &args, c)?;
                self.finish_builtin(st, c, dst, v)
            }
        }
    }

    fn finish_builtin(&mut self, st: &mut State, c: &CallI, dst: Option<u32>, v: V) -> R<()> {
        self.set(st, dst, v);
        if let Some(n) = c.normal {
            self.jump(st, n);
        } else {
            st.frames.last_mut().unwrap().ip += 1;
        }
        Ok(())
    }

    fn cstr(&mut self, st: &mut State, p: &V, n: &V) -> R<Rc<str>> {
        let (p, n) = (self.concretize(st, p, 64)? as u64, self.concretize(st, n, 64)? as u64);
        let mut s = vec![];
        for i in 0..n {
            match self.byte(st, p + i)? {
                V::C(b) => s.push(b as u8),
                _ => return err("symbolic name"),
            }
        }
        Ok(Rc::from(String::from_utf8_lossy(&s).as_ref()))
    }

    fn sym(&mut self, name: &str, pos: usize, w: u32) -> E {
        let k = (format!("{}/{}", name, pos), w);
        if let Some(e) = self.symcache.get(&k) {
            return *e;
        }
        let e = self.p.new_sym(&k.0.clone(), w);
        self.symcache.insert(k, e);
        e
    }

    fn memcmp(&mut self, st: &mut State, args: &[V], only_eq: bool) -> R<V> {
        let n = self.concretize(st, &args[2], 64)? as u64;
        let a = self.concretize(st, &args[0], 64)? as u64;
        let b = self.concretize(st, &args[1], 64)? as u64;
        let mut xs = vec![];
        let mut symbolic = false;
        for i in 0..n {
            let (x, y) = (self.byte(st, a + i)?, self.byte(st, b + i)?);
            if let (V::C(p), V::C(q)) = (&x, &y) {
                if p != q {
                    if !symbolic {
                        return Ok(V::C(if p < q { 0xffff_ffff } else { 1 }));
                    }
                    xs.push((x, y));
                    break;
                }
                continue;
            }
            symbolic = true;
            xs.push((x, y));
        }
        if xs.is_empty() {
            return Ok(V::C(0));
        }
        if only_eq {
            let mut r = V::C(1);
            for (x, y) in &xs {
                let q = self.p.eq(8, x, y);
                r = self.p.and(&r, &q);
            }
            let ne = self.p.not(&r);
            return Ok(self.p.zext(&ne, 1, 32));
        }
        let mut r = V::C(0);
        for (x, y) in xs.iter().rev() {
            let lt = self.p.ult(8, x, y);
            let q = self.p.eq(8, x, y);
            let o = self.p.ite(&lt, 32, &V::C(0xffff_ffff), &V::C(1));
            r = self.p.ite(&q, 32, &r, &o);
        }
        Ok(r)
    }

    fn builtin(&mut self, st: &mut State, n: &str, args: &[V], c: &CallI) -> R<V> {
        if let Some(r) = n.strip_prefix("llvm.") {
            return self.intrinsic(st, r, args, c);
        }
        if n.starts_with("sx_") {
            return self.harness_call(st, n, args);
        }
        if panic_entry(n) {
            return Err(End::Panic(short(n)));
        }
        match n {
            "malloc" => {
                let k = self.concretize(st, &args[0], 64)? as u64;
                if k > (1 << 26) {
                    return err("allocation too large");
                }
                Ok(V::C(self.alloc(st, k, 16) as u128))
            }
            "calloc" => {
                let a = self.concretize(st, &args[0], 64)? as u64;
                let b = self.concretize(st, &args[1], 64)? as u64;
                Ok(V::C(self.alloc(st, a * b, 16) as u128))
            }
            "realloc" => {
                // heap objects carry no size header: copy what is mapped of the old object
                let p = self.concretize(st, &args[0], 64)? as u64;
                let k = self.concretize(st, &args[1], 64)? as u64;
                let limit = st.mem.h.base + st.mem.h.len;
                let a = self.alloc(st, k, 16);
                if p != 0 {
                    let m = k.min(limit.saturating_sub(p));
                    self.copy(st, a, p, m)?;
                }
                Ok(V::C(a as u128))
            }
            "posix_memalign" => {
                let p = self.concretize(st, &args[0], 64)? as u64;
                let al = self.concretize(st, &args[1], 64)? as u64;
                let k = self.concretize(st, &args[2], 64)? as u64;
                let a = self.alloc(st, k, al);
                self.store(st, p, &Ty::Ptr, &V::C(a as u128))?;
                Ok(V::C(0))
            }
            "free" => Ok(V::C(0)),
            "memcpy" | "memmove" => {
                let k = self.concretize(st, &args[2], 64)? as u64;
                let d = self.concretize(st, &args[0], 64)? as u64;
                let s = self.concretize(st, &args[1], 64)? as u64;
                self.copy(st, d, s, k)?;
                Ok(V::C(d as u128))
            }
            "memset" => {
                let k = self.concretize(st, &args[2], 64)? as u64;
                let d = self.concretize(st, &args[0], 64)? as u64;
                let b = self.p.extract(&args[1], 32, 0, 8);
                for i in 0..k {
                    self.store(st, d + i, &Ty::Int(8), &b)?;
                }
                Ok(V::C(d as u128))
            }
            "memcmp" => self.memcmp(st, args, false),
            "bcmp" => self.memcmp(st, args, true),
            "strlen" => {
                let a = self.concretize(st, &args[0], 64)? as u64;
                let mut i = 0;
                loop {
                    let b = self.byte(st, a + i)?;
                    let z = self.p.eq(8, &b, &V::C(0));
                    if self.branch_now(st, &z)? {
                        return Ok(V::C(i as u128));
                    }
                    i += 1;
                }
            }
            "write" | "writev" => Ok(args[2].clone()),
            "getrandom" => {
                let k = self.concretize(st, &args[1], 64)? as u64;
                let d = self.concretize(st, &args[0], 64)? as u64;
                for i in 0..k {
                    self.store(st, d + i, &Ty::Int(8), &V::C(0))?;
                }
                Ok(V::C(k as u128))
            }
            "syscall" => {
                let nr = self.concretize(st, &args[0], 64)?;
                if nr == 318 {
                    let k = self.concretize(st, &args[2], 64)? as u64;
                    let d = self.concretize(st, &args[1], 64)? as u64;
                    for i in 0..k {
                        self.store(st, d + i, &Ty::Int(8), &V::C(0))?;
                    }
                    return Ok(V::C(k as u128));
                }
                err(format!("system call {}", nr))
            }
            "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" => Ok(V::C(0)),
            "getenv" => Ok(V::C(0)),
            "__errno_location" => {
                let a = self.alloc(st, 8, 8);
                Ok(V::C(a as u128))
            }
            "abort" | "exit" | "_exit" => Err(End::Panic(n.to_string())),
            _ => err(format!("no model for external function {}", n)),
        }
    }

    /// A branch that must not fork (used inside multi-step models).
    fn branch_now(&mut self, _st: &mut State, v: &V) -> R<bool> {
        match v {
            V::C(k) => Ok(*k == 1),
            _ => err("symbolic C string"),
        }
    }

    fn intrinsic(&mut self, st: &mut State, r: &str, args: &[V], c: &CallI) -> R<V> {
        let base = r.split('.').next().unwrap();
        let w = || -> u32 { c.args[0].0.bits() };
        Ok(match base {
            "lifetime" | "assume" | "experimental" | "dbg" | "prefetch" | "donothing" | "va_start" | "va_end" => V::C(0),
            "threadlocal" | "expect" | "launder" | "strip" => args[0].clone(),
            "is" if r.starts_with("is.constant") => V::C(0),
            "memcpy" | "memmove" => {
                let k = self.concretize(st, &args[2], 64)? as u64;
                let d = self.concretize(st, &args[0], 64)? as u64;
                let s = self.concretize(st, &args[1], 64)? as u64;
                self.copy(st, d, s, k)?;
                V::C(0)
            }
            "memset" => {
                let k = self.concretize(st, &args[2], 64)? as u64;
                let d = self.concretize(st, &args[0], 64)? as u64;
                for i in 0..k {
                    self.store(st, d + i, &Ty::Int(8), &args[1])?;
                }
                V::C(0)
            }
            "trap" | "ubsantrap" | "debugtrap" => return Err(End::Panic("trap".into())),
            "umax" | "umin" | "smax" | "smin" => {
                let ty = c.ret.clone();
                let b = base.to_string();
                self.lane2(&ty, &args[0], &args[1], &mut |p, w, x, y| {
                    let lt = if b.starts_with('u') { p.ult(w, x, y) } else { p.slt(w, x, y) };
                    if b.ends_with("max") {
                        p.ite(&lt, w, y, x)
                    } else {
                        p.ite(&lt, w, x, y)
                    }
                })?
            }
            "abs" => {
                let w = w();
                let neg = self.p.slt(w, &args[0], &V::C(0));
                let m = self.p.bin(BinOp::Sub, w, &V::C(0), &args[0]);
                self.p.ite(&neg, w, &m, &args[0])
            }
            "ucmp" | "scmp" => {
                let w = w();
                let rw = c.ret.bits();
                let lt = if base == "ucmp" { self.p.ult(w, &args[0], &args[1]) } else { self.p.slt(w, &args[0], &args[1]) };
                let eq = self.p.eq(w, &args[0], &args[1]);
                let x = self.p.ite(&eq, rw, &V::C(0), &V::C(1));
                self.p.ite(&lt, rw, &V::C(mask(rw)), &x)
            }
            "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" if r.contains("with.overflow") => {
                let w = w();
                let (x, y) = (&args[0], &args[1]);
                let signed = base.starts_with('s');
                let op = match &base[1..] {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let res = self.p.bin(op, w, x, y);
                let ov = if let (V::C(a), V::C(b)) = (x, y) {
                    let o = if signed {
                        let (a, b) = (sx(*a, w), sx(*b, w));
                        let r = match op {
                            BinOp::Add => a.checked_add(b),
                            BinOp::Sub => a.checked_sub(b),
                            _ => a.checked_mul(b),
                        };
                        match r {
                            None => true,
                            Some(r) => sx(r as u128 & mask(w), w) != r,
                        }
                    } else {
                        let r = match op {
                            BinOp::Add => a.checked_add(*b),
                            BinOp::Sub => a.checked_sub(*b),
                            _ => a.checked_mul(*b),
                        };
                        match r {
                            None => true,
                            Some(r) => r > mask(w),
                        }
                    };
                    V::C(o as u128)
                } else {
                    match (signed, op) {
                        (false, BinOp::Add) => {
                            let (_, h1) = self.p.vinterval(x);
                            let (_, h2) = self.p.vinterval(y);
                            if h1.checked_add(h2).map_or(false, |s| s <= mask(w)) {
                                V::C(0)
                            } else {
                                self.p.ult(w, &res, x)
                            }
                        }
                        (false, BinOp::Sub) => self.p.ult(w, x, y),
                        (false, _) => {
                            let (_, h1) = self.p.vinterval(x);
                            let (_, h2) = self.p.vinterval(y);
                            if h1.checked_mul(h2).map_or(false, |s| s <= mask(w)) {
                                V::C(0)
                            } else if let (V::S(_), V::C(k)) = (x, y) {
                                if *k == 0 {
                                    V::C(0)
                                } else {
                                    self.p.ult(w, &V::C(mask(w) / k), x)
                                }
                            } else if w <= 64 {
                                let a = self.p.zext(x, w, 2 * w);
                                let b = self.p.zext(y, w, 2 * w);
                                let m = self.p.bin(BinOp::Mul, 2 * w, &a, &b);
                                self.p.ult(2 * w, &V::C(mask(w)), &m)
                            } else {
                                return err("wide symbolic multiplication overflow");
                            }
                        }
                        (true, o) => {
                            let ww = if o == BinOp::Mul { 2 * w } else { w + 1 };
                            if ww > 128 {
                                return err("wide symbolic signed overflow");
                            }
                            let a = self.p.sext(x, w, ww);
                            let b = self.p.sext(y, w, ww);
                            let m = self.p.bin(o, ww, &a, &b);
                            let back = self.p.sext(&res, w, ww);
                            let e = self.p.eq(ww, &m, &back);
                            self.p.not(&e)
                        }
                    }
                };
                V::A(Rc::new(vec![res, ov]))
            }
            "uadd" | "usub" | "sadd" | "ssub" if r.contains("sat") => {
                let ty = c.ret.clone();
                let b = base.to_string();
                self.lane2(&ty, &args[0], &args[1], &mut |p, w, x, y| match b.as_str() {
                    "uadd" => {
                        let s = p.bin(BinOp::Add, w, x, y);
                        let o = p.ult(w, &s, x);
                        p.ite(&o, w, &V::C(mask(w)), &s)
                    }
                    "usub" => {
                        let s = p.bin(BinOp::Sub, w, x, y);
                        let o = p.ult(w, x, y);
                        p.ite(&o, w, &V::C(0), &s)
                    }
                    _ => {
                        let op = if b == "sadd" { BinOp::Add } else { BinOp::Sub };
                        let ww = w + 1;
                        let (a, c) = (p.sext(x, w, ww), p.sext(y, w, ww));
                        let m = p.bin(op, ww, &a, &c);
                        let s = p.extract(&m, ww, 0, w);
                        let maxv = mask(w - 1);
                        let minv = 1u128 << (w - 1);
                        let hi = p.slt(ww, &V::C(maxv), &m);
                        let mn = V::C((sx(minv, w) as u128) & mask(ww));
                        let lo = p.slt(ww, &m, &mn);
                        let t = p.ite(&hi, w, &V::C(maxv), &s);
                        p.ite(&lo, w, &V::C(minv), &t)
                    }
                })?
            }
            "bswap" => {
                let w = w();
                let n = w / 8;
                let mut r: Option<V> = None;
                let mut tw = 0;
                for i in (0..n).rev() {
                    // byte i of the input becomes byte n-1-i: build from low to high
                    let b = self.p.extract(&args[0], w, i * 8, 8);
                    r = Some(match r {
                        None => b,
                        Some(lo) => {
                            if let (V::C(h), V::C(l)) = (&b, &lo) {
                                V::C((h << tw) | l)
                            } else {
                                let (h, l) = (self.p.e(&b, 8), self.p.e(&lo, tw));
                                let x = self.p.concat_e(h, l);
                                self.p.v(x)
                            }
                        }
                    });
                    tw += 8;
                }
                r.unwrap()
            }
            "bitreverse" => {
                let w = w();
                match &args[0] {
                    V::C(k) => V::C(k.reverse_bits() >> (128 - w)),
                    _ => return err("symbolic bitreverse"),
                }
            }
            "ctpop" => {
                let w = w();
                match &args[0] {
                    V::C(k) => V::C(k.count_ones() as u128),
                    x => {
                        let x = x.clone();
                        let mut r = V::C(0);
                        for i in 0..w {
                            let b = self.p.extract(&x, w, i, 1);
                            let b = self.p.zext(&b, 1, w);
                            r = self.p.bin(BinOp::Add, w, &r, &b);
                        }
                        r
                    }
                }
            }
            "cttz" | "ctlz" => {
                let w = w();
                match &args[0] {
                    V::C(k) => {
                        if *k == 0 {
                            V::C(w as u128)
                        } else if base == "cttz" {
                            V::C(k.trailing_zeros() as u128)
                        } else {
                            V::C((k.leading_zeros() - (128 - w)) as u128)
                        }
                    }
                    x => {
                        let x = x.clone();
                        let mut r = V::C(w as u128);
                        for j in 0..w {
                            // from least significant for ctlz, most significant for cttz, so that the
                            // innermost decision wins last
                            let (bit, val) = if base == "cttz" { (w - 1 - j, w - 1 - j) } else { (j, w - 1 - j) };
                            let b = self.p.extract(&x, w, bit, 1);
                            r = self.p.ite(&b, w, &V::C(val as u128), &r);
                        }
                        r
                    }
                }
            }
            "fshl" | "fshr" => {
                let w = w();
                let s = self.p.bin(BinOp::URem, w, &args[2], &V::C(w as u128));
                let k = self.concretize(st, &s, w)? as u32;
                if k == 0 {
                    return Ok(if base == "fshl" { args[0].clone() } else { args[1].clone() });
                }
                let (l, rr) = if base == "fshl" { (k, w - k) } else { (w - k, k) };
                let a = self.p.bin(BinOp::Shl, w, &args[0], &V::C(l as u128));
                let b = self.p.bin(BinOp::LShr, w, &args[1], &V::C(rr as u128));
                self.p.bin(BinOp::Or, w, &a, &b)
            }
            "fabs" => {
                let w = w();
                self.p.bin(BinOp::And, w, &args[0], &V::C(mask(w - 1)))
            }
            "is" if r.starts_with("is.fpclass") => {
                let (k, t) = match (&args[0], &args[1]) {
                    (V::C(k), V::C(t)) => (*k, *t),
                    _ => return err("symbolic fpclass"),
                };
                let d = match c.args[0].0 {
                    Ty::Float => f32::from_bits(k as u32) as f64,
                    _ => f64::from_bits(k as u64),
                };
                use std::num::FpCategory::*;
                let neg = d.is_sign_negative();
                let bit = match d.classify() {
                    Nan => 0b11,
                    Infinite => if neg { 1 << 2 } else { 1 << 9 },
                    Normal => if neg { 1 << 3 } else { 1 << 8 },
                    Subnormal => if neg { 1 << 4 } else { 1 << 7 },
                    Zero => if neg { 1 << 5 } else { 1 << 6 },
                };
                V::C((t & bit != 0) as u128)
            }
            "vector" if r.starts_with("vector.reduce.") => {
                let op = r.split('.').nth(2).unwrap().to_string();
                let (w, l) = match (&c.args[0].0, &args[0]) {
                    (Ty::Vec(_, t), V::A(l)) => (t.bits(), l.clone()),
                    _ => return err("vector.reduce operand"),
                };
                let mut it = l.iter();
                let mut acc = it.next().unwrap().clone();
                for x in it {
                    acc = match op.as_str() {
                        "or" => self.p.bin(BinOp::Or, w, &acc, x),
                        "and" => self.p.bin(BinOp::And, w, &acc, x),
                        "add" => self.p.bin(BinOp::Add, w, &acc, x),
                        "xor" => self.p.bin(BinOp::Xor, w, &acc, x),
                        "umax" => {
                            let lt = self.p.ult(w, &acc, x);
                            self.p.ite(&lt, w, x, &acc)
                        }
                        "umin" => {
                            let lt = self.p.ult(w, x, &acc);
                            self.p.ite(&lt, w, x, &acc)
                        }
                        _ => return err(format!("intrinsic llvm.{}", r)),
                    };
                }
                acc
            }
            "x86" if r == "x86.sse2.pause" => V::C(0),
            "x86" if r == "x86.sse2.pmovmskb.128" => {
                if let V::A(l) = &args[0] {
                    let l = l.clone();
                    let mut r = V::C(0);
                    for (i, x) in l.iter().enumerate() {
                        let b = self.p.extract(x, 8, 7, 1);
                        let b = self.p.zext(&b, 1, 32);
                        let b = self.p.bin(BinOp::Shl, 32, &b, &V::C(i as u128));
                        r = self.p.bin(BinOp::Or, 32, &r, &b);
                    }
                    r
                } else {
                    return err("pmovmskb");
                }
            }
            _ => return err(format!("no model for intrinsic llvm.{}", r)),
        })
    }

    // ------------------------------------------------------------ harness interface

    fn harness_call(&mut self, st: &mut State, n: &str, args: &[V]) -> R<V> {
        match n {
            "sx_bytes" => {
                let name = self.cstr(st, &args[0], &args[1])?;
                let p = self.concretize(st, &args[2], 64)? as u64;
                let k = self.concretize(st, &args[3], 64)? as u64;
                let ev = format!("{}#{}", name, st.inputs.len());
                let mut t = vec![];
                for i in 0..k {
                    let e = self.sym(&ev, i as usize, 8);
                    t.push(e);
                    if !st.mem.set(p + i, 0, e) {
                        return err("sx_bytes target");
                    }
                }
                st.inputs.push(Input { name, terms: Rc::new(t), bytes: true });
                Ok(V::C(0))
            }
            "sx_int" => {
                let name = self.cstr(st, &args[0], &args[1])?;
                let bits = self.concretize(st, &args[2], 32)? as u32;
                let ev = format!("{}#{}", name, st.inputs.len());
                let e = self.sym(&ev, 0, bits);
                st.inputs.push(Input { name, terms: Rc::new(vec![e]), bytes: false });
                let z = self.p.zext_e(e, 64);
                Ok(self.p.v(z))
            }
            "sx_split" => {
                let k = self.concretize(st, &args[0], 64)?;
                Ok(V::C(k))
            }
            "sx_assume" => {
                let z = self.p.eq(32, &args[0], &V::C(0));
                let c = self.p.not(&z);
                match c {
                    V::C(1) => Ok(V::C(0)),
                    V::C(_) => Err(End::Assumed),
                    V::S(e) => match self.feasible(st, e)? {
                        None => Err(End::Assumed),
                        Some(m) => {
                            st.model = m;
                            self.push_pc(st, e);
                            Ok(V::C(0))
                        }
                    },
                    _ => err("assume"),
                }
            }
            "sx_check" => {
                let id = self.cstr(st, &args[1], &args[2])?;
                let z = self.p.eq(32, &args[0], &V::C(0));
                let ent = self.checks.entry(id.to_string()).or_default();
                match z {
                    V::C(0) => {
                        ent.2 += 1;
                        self.tot.checks_concrete += 1;
                        Ok(V::C(0))
                    }
                    V::C(_) => {
                        ent.1 += 1;
                        self.tot.checks_failed += 1;
                        let m = st.model.clone();
                        self.violation(st, &id, "fails on the whole path", &m);
                        Err(End::Stopped)
                    }
                    V::S(e) => match self.feasible(st, e)? {
                        None => {
                            self.checks.get_mut(&*id).unwrap().0 += 1;
                            self.tot.checks_proved += 1;
                            Ok(V::C(0))
                        }
                        Some(m) => {
                            self.checks.get_mut(&*id).unwrap().1 += 1;
                            self.tot.checks_failed += 1;
                            self.violation(st, &id, "fails for some inputs of the path", &m);
                            let ok = self.p.not_e(e);
                            match self.feasible(st, ok)? {
                                None => Err(End::Stopped),
                                Some(m) => {
                                    st.model = m;
                                    self.push_pc(st, ok);
                                    Ok(V::C(0))
                                }
                            }
                        }
                    },
                    _ => err("check"),
                }
            }
            "sx_reach" => {
                let id = self.cstr(st, &args[0], &args[1])?;
                st.covers.insert(id);
                Ok(V::C(0))
            }
            "sx_observe" => {
                let id = self.cstr(st, &args[0], &args[1])?;
                st.obs.push((id, args[2].clone()));
                Ok(V::C(0))
            }
            "sx_tier" => Ok(V::C(self.cfg.tier as u128)),
            "sx_debug" => {
                let id = self.cstr(st, &args[0], &args[1])?;
                if self.cfg.trace {
                    let s = match &args[2] {
                        V::C(k) => format!("{}", k),
                        V::S(e) => self.p.show(*e, 8),
                        _ => "agg".into(),
                    };
                    eprintln!("debug {} = {}", id, s);
                }
                Ok(V::C(0))
            }
            _ => err(format!("unknown harness call {}", n)),
        }
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn jline(f: &[(&str, String)]) -> String {
    format!("{{{}}}", f.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","))
}

/// Readable part of a v0-mangled name: its identifiers, joined.
pub fn short(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let k: usize = n[st..i].parse().unwrap_or(0);
            let mut j = i;
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if k > 0 && k < 80 && j + k <= b.len() && (b[j].is_ascii_alphabetic() || b[j] == b'_') {
                out.push(n[j..j + k].to_string());
                i = j + k;
            }
        } else if b[i] == b's' || b[i] == b'C' {
            // skip disambiguators "s<base62>_"
            if b[i] == b's' {
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric()) {
                    j += 1;
                }
                if j < b.len() && b[j] == b'_' {
                    i = j + 1;
                    continue;
                }
            }
            i += 1;
        } else {
            i += 1;
        }
    }
    out.join("::")
}
