//! Interface between the harness and the symbolic executor.
//!
//! Under the executor the `sx_*` functions are interpreted: inputs become solver variables, checks
//! become solver queries.  In the native program the same functions read one concrete assignment,
//! so that every counterexample (and every explored path) can be replayed on compiled code.

use std::arch::global_asm;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::Write;

// The forwarders are opaque to LLVM, so nothing about the native bodies is assumed in the IR.
global_asm!(
    ".globl sx_bytes", "sx_bytes: jmp sxn_bytes",
    ".globl sx_int", "sx_int: jmp sxn_int",
    ".globl sx_split", "sx_split: jmp sxn_split",
    ".globl sx_assume", "sx_assume: jmp sxn_assume",
    ".globl sx_check", "sx_check: jmp sxn_check",
    ".globl sx_reach", "sx_reach: jmp sxn_reach",
    ".globl sx_observe", "sx_observe: jmp sxn_observe",
    ".globl sx_tier", "sx_tier: jmp sxn_tier",
    ".globl sx_debug", "sx_debug: jmp sxn_debug",
);

extern "C" {
    fn sx_bytes(name: *const u8, nlen: usize, buf: *mut u8, n: usize);
    fn sx_int(name: *const u8, nlen: usize, bits: u32) -> u64;
    fn sx_split(v: u64) -> u64;
    fn sx_assume(c: u32);
    fn sx_check(c: u32, id: *const u8, ilen: usize);
    fn sx_reach(id: *const u8, ilen: usize);
    fn sx_observe(id: *const u8, ilen: usize, v: u64);
    fn sx_tier() -> u32;
    fn sx_debug(id: *const u8, ilen: usize, v: u64);
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
}

pub fn bytes(name: &str, buf: &mut [u8]) {
    unsafe { sx_bytes(name.as_ptr(), name.len(), buf.as_mut_ptr(), buf.len()) }
}
pub fn int(name: &str, bits: u32) -> u64 {
    unsafe { sx_int(name.as_ptr(), name.len(), bits) }
}
/// Case split: after the call the value is concrete on every path.
pub fn split(v: u64) -> u64 {
    unsafe { sx_split(v) }
}
pub fn assume(c: bool) {
    unsafe { sx_assume(c as u32) }
}
pub fn check(c: bool, id: &str) {
    unsafe { sx_check(c as u32, id.as_ptr(), id.len()) }
}
pub fn reach(id: &str) {
    unsafe { sx_reach(id.as_ptr(), id.len()) }
}
pub fn observe(id: &str, v: u64) {
    unsafe { sx_observe(id.as_ptr(), id.len(), v) }
}
pub fn thorough() -> bool {
    unsafe { sx_tier() != 0 }
}
#[allow(dead_code)]
pub fn debug(id: &str, v: u64) {
    unsafe { sx_debug(id.as_ptr(), id.len(), v) }
}

// ---------------------------------------------------------------- derived inputs

/// Unconstrained boolean (one solver bit, not split).
pub fn boolean(name: &str) -> bool {
    int(name, 1) != 0
}
/// Case split over 0..n.
pub fn choose(name: &str, n: u64) -> u64 {
    let v = int(name, 8);
    assume(v < n);
    split(v)
}
pub fn flag(name: &str) -> bool {
    choose(name, 2) == 1
}
pub fn opt_u64(name: &str, bits: u32) -> Option<u64> {
    if flag(name) {
        Some(int(name, bits))
    } else {
        None
    }
}
/// Byte set for generated text.
#[derive(Clone, Copy, PartialEq)]
pub enum Set {
    /// every ASCII byte
    Ascii,
    /// printable ASCII except '"' and '\\': needs no escaping inside a JSON string
    Plain,
    /// lower-case letters, digits, ':' and '#'
    Lower,
    /// what may occur in the compact form: base64url digits
    Url,
    /// decimal digits
    Digit,
    /// ASCII letters
    Letter,
}
pub fn in_set(b: u8, s: Set) -> bool {
    match s {
        Set::Ascii => b < 128,
        Set::Plain => (b >= 0x20) & (b < 0x7f) & (b != b'"') & (b != b'\\'),
        Set::Url => ((b >= b'a') & (b <= b'z')) | ((b >= b'A') & (b <= b'Z')) | ((b >= b'0') & (b <= b'9')) | (b == b'-') | (b == b'_'),
        Set::Digit => (b >= b'0') & (b <= b'9'),
        Set::Letter => ((b >= b'a') & (b <= b'z')) | ((b >= b'A') & (b <= b'Z')),
        Set::Lower => ((b >= b'a') & (b <= b'z')) | ((b >= b'0') & (b <= b'9')) | (b == b':') | (b == b'#'),
    }
}
/// A string of exactly n bytes from the set.
pub fn text(name: &str, n: usize, s: Set) -> String {
    let mut v = vec![0u8; n];
    bytes(name, &mut v);
    let mut ok = true;
    for b in &v {
        ok &= in_set(*b, s);
    }
    assume(ok);
    // all bytes are ASCII here
    unsafe { String::from_utf8_unchecked(v) }
}
/// A string of min..=max bytes (the length is case split).
pub fn text_upto(name: &str, min: usize, max: usize, s: Set) -> String {
    let n = min as u64 + choose(name, (max - min + 1) as u64);
    text(name, n as usize, s)
}
/// A string of exactly n two-byte characters (U+0080 to U+07FF).
pub fn wide(name: &str, n: usize) -> String {
    let mut v = vec![0u8; 2 * n];
    bytes(name, &mut v);
    let mut ok = true;
    for c in v.chunks(2) {
        ok &= (c[0] >= 0xc2) & (c[0] <= 0xdf) & (c[1] >= 0x80) & (c[1] <= 0xbf);
    }
    assume(ok);
    unsafe { String::from_utf8_unchecked(v) }
}
/// Two independent texts: short ones of equal and different length, long ones, and non-ASCII ones.
pub fn pair(name: &str, s: Set) -> (String, String) {
    const L: [(usize, usize); 31] = [
        (1, 1), (2, 2), (3, 3), (0, 0), (0, 1), (1, 0), (1, 2), (2, 1), (3, 2), (2, 3), (24, 24), (24, 25), (25, 24),
        (2, 4), (4, 2), (2, 6), (6, 2), (2, 9), (9, 2), (2, 10), (10, 2), (0, 3), (3, 0),
        (4, 4), (5, 5), (5, 4), (8, 8), (12, 12), (3, 12), (72, 72), (72, 73),
    ];
    let n = if thorough() { L.len() } else { 23 };
    let k = choose(name, n as u64 + 6) as usize;
    match k.checked_sub(n) {
        None => (text(name, L[k].0, s), text(name, L[k].1, s)),
        Some(0) => (wide(name, 2), wide(name, 2)),
        Some(1) => (wide(name, 1), text(name, 2, s)),
        Some(2) => (long(name, 300, s), long(name, 300, s)),
        Some(3) => (long(name, 300, s), long(name, 301, s)),
        Some(4) => (long_wide(name, 300), long_wide(name, 300)),
        _ => (wide(name, 1) + &text(name, 1, s), text(name, 1, s) + &wide(name, 1)),
    }
}
/// n bytes: one symbolic character, a fixed middle, two symbolic characters.
pub fn long(name: &str, n: usize, s: Set) -> String {
    let mut t = text(name, 1, s);
    let digits = matches!(s, Set::Digit);
    while t.len() < n - 2 {
        t.push(if digits { '7' } else { (b'a' + (t.len() % 26) as u8) as char });
    }
    t.push_str(&text(name, 2, s));
    t
}
/// Longer than n bytes: zero or one ASCII character, then two-byte characters, the last one symbolic.
pub fn long_wide(name: &str, n: usize) -> String {
    let mut t = String::with_capacity(n + 4);
    if flag(name) {
        t.push('x');
    }
    while t.len() < n {
        t.push('\u{e9}');
    }
    t.push_str(&wide(name, 1));
    t
}
/// Styles of text: 0 short ones, 1 two non-ASCII characters, 2 long, 3 long and not ASCII.
pub const STYLES: u64 = 4;
pub fn styled(name: &str, style: u64, s: Set) -> String {
    match style {
        0 => text_upto(name, 0, 3, s),
        1 => wide(name, 2),
        2 => long(name, 300, s),
        _ => long_wide(name, 300),
    }
}
static mut STYLE: u64 = u64::MAX;
/// The style of every text of this run: split at the first use.
pub fn style() -> u64 {
    unsafe {
        if STYLE == u64::MAX {
            STYLE = choose("style", STYLES);
        }
        STYLE
    }
}
/// One text: empty, short, long or non-ASCII.
pub fn any(name: &str, s: Set) -> String {
    match choose(name, 6) {
        0 => String::new(),
        1 => text(name, 3, s),
        2 => wide(name, 2),
        3 => text(name, 24, s),
        4 => long(name, 300, s),
        _ => long_wide(name, 300),
    }
}
pub fn opt_any(name: &str, s: Set) -> Option<String> {
    if flag(name) {
        Some(any(name, s))
    } else {
        None
    }
}
pub fn same_opt(a: &Option<String>, b: &Option<String>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => same(a, b),
        _ => false,
    }
}
pub fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for (x, y) in a.iter().zip(b) {
        d |= x ^ y;
    }
    d == 0
}
/// Seconds and nanoseconds: the day is case split, the time of the day is symbolic.
pub fn moment(name: &str, days: &[i64]) -> (i64, u32) {
    let d = days[choose(name, days.len() as u64) as usize];
    let s = int(name, 17) as i64;
    let n = int(name, 30) as u32;
    assume((s < 86400) & (n < 1_000_000_000));
    (d * 86400 + s, n)
}
/// a < b for (seconds, nanoseconds)
pub fn before(a: (i64, u32), b: (i64, u32)) -> bool {
    (a.0 < b.0) | ((a.0 == b.0) & (a.1 < b.1))
}

/// Name, body and the points that have to be reached for a meaningful run.
pub type Entry = (&'static str, extern "C" fn(), &'static [&'static str]);

#[macro_export]
macro_rules! entries {
    ($($(#[$m:meta])* fn $f:ident($($c:literal),* $(,)?) $b:block)*) => {
        $($(#[$m])* #[no_mangle] #[inline(never)] pub extern "C" fn $f() $b)*
        pub static TABLE: &[$crate::sx::Entry] = &[$((stringify!($f), $f, &[$($c),*])),*];
    };
}

/// A fingerprint of a string for comparing the symbolic run with the native one.
pub fn observe_str(id: &str, s: &str) {
    observe(id, s.len() as u64);
    for c in s.as_bytes().chunks(8) {
        let mut k = 0u64;
        for (i, b) in c.iter().enumerate() {
            k |= (*b as u64) << (8 * i);
        }
        observe(id, k);
    }
}
/// Byte equality without early exit, so that one solver term decides it.
pub fn same(a: &str, b: &str) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for (x, y) in a.bytes().zip(b.bytes()) {
        d |= x ^ y;
    }
    d == 0
}

// ---------------------------------------------------------------- clock

static mut NOW: (i64, i64) = (1_684_000_000, 0);

/// Sets the system clock seen by the code under test.
pub fn set_now(secs: i64, nanos: u32) {
    unsafe { NOW = (secs, nanos as i64) }
}
/// Replaces libc's clock in this program, for the executor and natively alike.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_clk: i32, ts: *mut i64) -> i32 {
    *ts = NOW.0;
    *ts.add(1) = NOW.1;
    0
}

// ---------------------------------------------------------------- native side

thread_local! {
    static INPUTS: RefCell<VecDeque<(char, String, String)>> = const { RefCell::new(VecDeque::new()) };
    static TIER: RefCell<u32> = const { RefCell::new(0) };
}

fn out(s: String) {
    let mut o = std::io::stdout().lock();
    let _ = o.write_all(s.as_bytes());
    let _ = o.flush();
}

fn next_input(kind: char, name: &str) -> String {
    INPUTS.with(|i| match i.borrow_mut().pop_front() {
        Some((k, n, v)) if k == kind && n == name => v,
        x => {
            out(format!("mismatch wanted {} {} have {:?}\n", kind, name, x));
            unsafe { _exit(44) }
        }
    })
}

unsafe fn st<'a>(p: *const u8, n: usize) -> &'a str {
    std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n))
}

#[no_mangle]
unsafe extern "C" fn sxn_bytes(name: *const u8, nlen: usize, buf: *mut u8, n: usize) {
    let v = next_input('b', st(name, nlen));
    for i in 0..n {
        *buf.add(i) = u8::from_str_radix(&v[2 * i..2 * i + 2], 16).unwrap();
    }
}
#[no_mangle]
unsafe extern "C" fn sxn_int(name: *const u8, nlen: usize, _bits: u32) -> u64 {
    next_input('i', st(name, nlen)).parse().unwrap()
}
#[no_mangle]
unsafe extern "C" fn sxn_split(v: u64) -> u64 {
    v
}
#[no_mangle]
unsafe extern "C" fn sxn_assume(c: u32) {
    if c == 0 {
        out("assume-false\n".into());
        _exit(43)
    }
}
#[no_mangle]
unsafe extern "C" fn sxn_check(c: u32, id: *const u8, ilen: usize) {
    if c == 0 {
        out(format!("fail {}\n", st(id, ilen)));
        _exit(42)
    }
}
#[no_mangle]
unsafe extern "C" fn sxn_reach(id: *const u8, ilen: usize) {
    out(format!("reach {}\n", st(id, ilen)));
}
#[no_mangle]
unsafe extern "C" fn sxn_observe(id: *const u8, ilen: usize, v: u64) {
    out(format!("obs {} {}\n", st(id, ilen), v));
}
#[no_mangle]
unsafe extern "C" fn sxn_tier() -> u32 {
    TIER.with(|t| *t.borrow())
}
#[no_mangle]
unsafe extern "C" fn sxn_debug(id: *const u8, ilen: usize, v: u64) {
    eprintln!("debug {} = {}", st(id, ilen), v);
}

#[used]
static K1: unsafe extern "C" fn(*const u8, usize, *mut u8, usize) = sxn_bytes;
#[used]
static K2: unsafe extern "C" fn(*const u8, usize, u32) -> u64 = sxn_int;
#[used]
static K3: unsafe extern "C" fn(u64) -> u64 = sxn_split;
#[used]
static K4: unsafe extern "C" fn(u32) = sxn_assume;
#[used]
static K5: unsafe extern "C" fn(u32, *const u8, usize) = sxn_check;
#[used]
static K6: unsafe extern "C" fn(*const u8, usize) = sxn_reach;
#[used]
static K7: unsafe extern "C" fn(*const u8, usize, u64) = sxn_observe;
#[used]
static K8: unsafe extern "C" fn() -> u32 = sxn_tier;
#[used]
static K9: unsafe extern "C" fn(*const u8, usize, u64) = sxn_debug;

/// Replays assignments: the file has one block per run ("b|i name value" lines, then "end").
pub fn replay(f: extern "C" fn(), file: &str, tier: u32) {
    let txt = std::fs::read_to_string(file).expect("replay file");
    let mut cur = VecDeque::new();
    let mut n = 0;
    TIER.with(|t| *t.borrow_mut() = tier);
    for l in txt.lines() {
        if l == "end" {
            out(format!("case {}\n", n));
            let ins = std::mem::take(&mut cur);
            let pid = unsafe { fork() };
            if pid == 0 {
                INPUTS.with(|i| *i.borrow_mut() = ins);
                f();
                out("done\n".into());
                unsafe { _exit(0) }
            }
            let mut s = 0;
            unsafe { waitpid(pid, &mut s, 0) };
            out(format!("exit {} {}\n", (s >> 8) & 0xff, s & 0x7f));
            n += 1;
        } else {
            let mut p = l.splitn(3, '\t');
            let k = p.next().unwrap().chars().next().unwrap();
            let name = p.next().unwrap().to_string();
            let v = p.next().unwrap_or("").to_string();
            cur.push_back((k, name, v));
        }
    }
}
