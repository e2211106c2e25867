//! Receives the comparisons of code built with LLVM's comparison tracing and
//! keeps, per place in the code, what was compared. This crate itself is built
//! without the instrumentation.

use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

pub const SLOTS: usize = 1 << 13;
const KEEP: usize = 8;

/// Outcomes of a comparison: equal, less, greater (unsigned), less, greater (signed).
pub const EQ: u8 = 1;
pub const LT: u8 = 2;
pub const GT: u8 = 4;
pub const SLT: u8 = 8;
pub const SGT: u8 = 16;

/// One place in the code, as seen during one run.
#[derive(Clone, Copy)]
pub struct Site {
    pub pc: u64,
    pub hits: u64,
    /// fingerprint of all operands in order
    pub print: u64,
    pub outcomes: u8,
    pub size: u8,
    /// the closest pair of operands that were not equal
    pub gap: u64,
    pub near: (u64, u64),
    /// smallest and largest signed difference
    pub low: i64,
    pub high: i64,
    /// fewest bits in which the operands differed without being equal
    pub bits: u32,
    /// some of the operands
    pub pairs: [(u64, u64); KEEP],
}

const EMPTY: Site = Site { pc: 0, hits: 0, print: 0, outcomes: 0, size: 0, gap: u64::MAX, near: (0, 0), low: i64::MAX, high: i64::MIN, bits: u32::MAX, pairs: [(0, 0); KEEP] };

static ON: AtomicBool = AtomicBool::new(false);
static mut TABLE: [Site; SLOTS] = [EMPTY; SLOTS];
/// Places whose operands need no further attention.
static mut MUTED: [bool; SLOTS] = [false; SLOTS];
static mut LOST: u64 = 0;

/// The slot of a place; fixed for the life of the process.
#[inline]
fn slot(pc: u64) -> usize {
    let mut i = (pc.wrapping_mul(0x9e3779b97f4a7c15) >> 51) as usize;
    unsafe {
        for _ in 0..64 {
            let p = TABLE[i].pc;
            if p == pc {
                return i;
            }
            if p == 0 {
                TABLE[i].pc = pc;
                return i;
            }
            i = (i + 1) & (SLOTS - 1);
        }
        LOST += 1;
    }
    usize::MAX
}

#[no_mangle]
extern "C" fn tracer_compare(a: u64, b: u64, pc: u64, size: u32) {
    if !ON.load(Relaxed) {
        return;
    }
    let i = slot(pc);
    if i == usize::MAX {
        return;
    }
    unsafe {
        if MUTED[i] {
            return;
        }
        let s = &mut *std::ptr::addr_of_mut!(TABLE[i]);
        let shift = 64 - 8 * size;
        let (sa, sb) = (((a << shift) as i64) >> shift, ((b << shift) as i64) >> shift);
        let (a, b) = ((a << shift) >> shift, (b << shift) >> shift);
        if (s.hits as usize) < KEEP {
            s.pairs[s.hits as usize] = (a, b);
        }
        s.hits += 1;
        s.size = size as u8;
        s.print = (s.print ^ a ^ b.rotate_left(32)).wrapping_mul(0x100000001b3).rotate_left(23);
        s.outcomes |= if a == b { EQ } else if a < b { LT } else { GT };
        s.outcomes |= if sa == sb { 0 } else if sa < sb { SLT } else { SGT };
        let d = sa.wrapping_sub(sb);
        s.low = s.low.min(d);
        s.high = s.high.max(d);
        if a != b {
            s.bits = s.bits.min((a ^ b).count_ones());
            let g = d.unsigned_abs();
            if g < s.gap {
                s.gap = g;
                s.near = (a, b);
            }
        }
    }
}

#[no_mangle]
extern "C" fn tracer_switch(v: u64, cases: *const u64, pc: u64) {
    if !ON.load(Relaxed) {
        return;
    }
    unsafe {
        let n = *cases as usize;
        let bits = *cases.add(1) as u32;
        for k in 0..n.min(16) {
            tracer_compare(v, *cases.add(2 + k), pc + ((k as u64 + 1) << 48), (bits / 8).max(1));
        }
    }
}

macro_rules! entry {
    ($($name:literal, $size:literal, $swap:literal;)*) => {
        $(std::arch::global_asm!(
            concat!(".globl ", $name), concat!($name, ":"), $swap,
            "mov rdx, [rsp]", concat!("mov ecx, ", $size), "jmp {f}",
            f = sym tracer_compare);)*
    };
}
entry! {
    "__sanitizer_cov_trace_cmp1", "1", "";
    "__sanitizer_cov_trace_cmp2", "2", "";
    "__sanitizer_cov_trace_cmp4", "4", "";
    "__sanitizer_cov_trace_cmp8", "8", "";
    // the constant comes first: keep the data in front
    "__sanitizer_cov_trace_const_cmp1", "1", "xchg rdi, rsi";
    "__sanitizer_cov_trace_const_cmp2", "2", "xchg rdi, rsi";
    "__sanitizer_cov_trace_const_cmp4", "4", "xchg rdi, rsi";
    "__sanitizer_cov_trace_const_cmp8", "8", "xchg rdi, rsi";
}
std::arch::global_asm!(
    ".globl __sanitizer_cov_trace_switch", "__sanitizer_cov_trace_switch:",
    "mov rdx, [rsp]", "jmp {f}", f = sym tracer_switch);

/// A comparison of byte strings.
#[derive(Clone, Copy)]
pub struct Strings {
    pub pc: u64,
    pub len: usize,
    pub a: [u8; LONGEST],
    pub b: [u8; LONGEST],
}
pub const LONGEST: usize = 64;
const MANY: usize = 64;
static mut STRINGS: [Strings; MANY] = [Strings { pc: 0, len: 0, a: [0; LONGEST], b: [0; LONGEST] }; MANY];
static mut STRINGS_USED: usize = 0;

#[no_mangle]
unsafe extern "C" fn tracer_memcmp(a: *const u8, b: *const u8, n: usize, pc: u64) -> i32 {
    let mut r = 0;
    let mut differing = 0u64;
    for i in 0..n {
        let (x, y) = (a.add(i).read_volatile(), b.add(i).read_volatile());
        if x != y {
            differing += 1;
            if r == 0 {
                r = x as i32 - y as i32;
            }
        }
    }
    if ON.load(Relaxed) {
        tracer_compare(differing, 0, pc, 8);
        if STRINGS_USED < MANY && n <= LONGEST && differing > 0 {
            let s = &mut *std::ptr::addr_of_mut!(STRINGS[STRINGS_USED]);
            s.pc = pc;
            s.len = n;
            for i in 0..n {
                s.a[i] = a.add(i).read_volatile();
                s.b[i] = b.add(i).read_volatile();
            }
            STRINGS_USED += 1;
        }
    }
    r
}
std::arch::global_asm!(
    ".globl memcmp", "memcmp:", ".globl bcmp", "bcmp:",
    "mov rcx, [rsp]", "jmp {f}", f = sym tracer_memcmp);

/// The comparisons of unequal byte strings since `start`.
pub fn strings() -> Vec<Strings> {
    unsafe { (&*std::ptr::addr_of!(STRINGS))[..STRINGS_USED].to_vec() }
}

/// Forget the last run and record the next.
pub fn start() {
    tick();
    edges();
    unsafe {
        STRINGS_USED = 0;
        for s in (*std::ptr::addr_of_mut!(TABLE)).iter_mut() {
            if s.hits != 0 {
                *s = Site { pc: s.pc, ..EMPTY };
            }
        }
    }
    ON.store(true, Relaxed);
}

pub fn pause() {
    ON.store(false, Relaxed);
}

/// Everything seen since `start`, in the order of the code.
pub fn sites() -> Vec<(usize, Site)> {
    let mut r: Vec<(usize, Site)> =
        unsafe { (*std::ptr::addr_of!(TABLE)).iter().enumerate().filter(|s| s.1.hits > 0).map(|s| (s.0, *s.1)).collect() };
    r.sort_by_key(|s| s.1.pc);
    r
}

/// One place, if it was met since `start`.
pub fn site(i: usize) -> Option<Site> {
    let s = unsafe { TABLE[i] };
    if s.hits > 0 {
        Some(s)
    } else {
        None
    }
}

pub fn mute(i: usize) {
    unsafe { MUTED[i] = true };
}

pub fn lost() -> u64 {
    unsafe { LOST }
}

static mut EDGES: Vec<(usize, usize)> = Vec::new();

#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(a: usize, b: usize) {
    let e = &mut *std::ptr::addr_of_mut!(EDGES);
    if a < b && !e.contains(&(a, b)) {
        e.push((a, b));
    }
}

/// Blocks of the code that ran since the last call.
pub fn edges() -> Vec<usize> {
    let mut r = vec![];
    let mut base = 0;
    unsafe {
        for (a, b) in (*std::ptr::addr_of!(EDGES)).iter() {
            let s = std::slice::from_raw_parts_mut(*a as *mut u8, b - a);
            for (i, c) in s.iter_mut().enumerate() {
                if *c != 0 {
                    r.push(base + i);
                    *c = 0;
                }
            }
            base += s.len();
        }
    }
    r
}

pub fn unmute() {
    unsafe { MUTED = [false; SLOTS] };
}

#[repr(C)]
struct Timer {
    interval: [i64; 2],
    value: [i64; 2],
}

extern "C" {
    fn setitimer(which: i32, new: *const Timer, old: *mut Timer) -> i32;
    fn signal(sig: i32, f: usize) -> usize;
    fn open(path: *const i8, flags: i32, ...) -> i32;
    fn _exit(code: i32) -> !;
}

static mut HANG: [u8; 4096] = [0; 4096];

extern "C" fn stalled(_: i32) {
    unsafe {
        // O_CREAT | O_WRONLY
        open(std::ptr::addr_of!(HANG) as *const i8, 0o101, 0o644u32);
        _exit(70);
    }
}

/// From here on more than 120 s of CPU time between two ticks leave a file
/// FILE.hang and end the process.
pub fn guard(file: &str) {
    let name = format!("{}.hang", file);
    if file.is_empty() || name.len() >= 4096 {
        return;
    }
    unsafe {
        let h = &mut *std::ptr::addr_of_mut!(HANG);
        h[..name.len()].copy_from_slice(name.as_bytes());
        signal(27, stalled as *const () as usize); // SIGPROF
    }
    tick();
}

pub fn tick() {
    unsafe {
        if HANG[0] != 0 {
            let t = Timer { interval: [0, 0], value: [120, 0] };
            setitimer(2, &t, std::ptr::null_mut()); // ITIMER_PROF
        }
    }
}
