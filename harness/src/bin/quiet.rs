//! C19: do the operations only compute? A worker thread that may ask the kernel
//! for nothing but memory runs them; an accounting allocator and a painted
//! stack show what they take and whether they give it back.
//!   quiet --seed S --start A --count N --out FILE [--corpus FILE]

use monitors::corpus::{self, Item};
use monitors::imp::{FailMode, Script};
use monitors::prng::Prng;
use monitors::report::{self, Report};
use monitors::{craft, fnv, gen, params, Params};
use ntrust_native::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};

// ------------------------------------------------------------ heap

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

struct Accounting;

fn book(n: i64) {
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + n);
        let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
    });
}

unsafe impl GlobalAlloc for Accounting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            book(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        book(-(l.size() as i64));
        System.dealloc(p, l)
    }
}

#[global_allocator]
static ALLOC: Accounting = Accounting;

// ------------------------------------------------------------ system calls

/// System call seen during an operation, by number, first one first.
static SEEN: AtomicI64 = AtomicI64::new(-1);
static TIMES: AtomicU64 = AtomicU64::new(0);
static OUTSIDE: AtomicU64 = AtomicU64::new(0);
static INSIDE: AtomicBool = AtomicBool::new(false);

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
#[repr(C)]
struct Insn {
    code: u16,
    jt: u8,
    jf: u8,
    k: u32,
}
#[repr(C)]
struct Prog {
    len: u16,
    insns: *const Insn,
}
extern "C" {
    fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
    fn prctl(op: i32, ...) -> i32;
}

extern "C" fn on_sys(_: i32, info: *const u8, context: *mut u8) {
    unsafe {
        let nr = (info.add(24) as *const i32).read_unaligned() as i64;
        if INSIDE.load(SeqCst) {
            let _ = SEEN.compare_exchange(-1, nr, SeqCst, SeqCst);
            TIMES.fetch_add(1, SeqCst);
        } else {
            OUTSIDE.fetch_add(1, SeqCst);
        }
        // the call fails with ENOSYS
        (context.add(40 + 13 * 8) as *mut i64).write_unaligned(-38);
    }
}

/// Memory, locking and leaving the thread; everything else raises SIGSYS.
const ALLOWED: [u32; 16] = [9, 10, 11, 12, 14, 15, 24, 25, 28, 60, 131, 186, 202, 231, 234, 13];

fn confine() -> bool {
    let mut p = vec![
        Insn { code: 0x20, jt: 0, jf: 0, k: 4 }, // architecture
        Insn { code: 0x15, jt: 1, jf: 0, k: 0xc000003e },
        Insn { code: 0x06, jt: 0, jf: 0, k: 0x00030000 },
        Insn { code: 0x20, jt: 0, jf: 0, k: 0 }, // number
    ];
    for (i, nr) in ALLOWED.iter().enumerate() {
        p.push(Insn { code: 0x15, jt: (ALLOWED.len() - i) as u8, jf: 0, k: *nr });
    }
    p.push(Insn { code: 0x06, jt: 0, jf: 0, k: 0x00030000 }); // trap
    p.push(Insn { code: 0x06, jt: 0, jf: 0, k: 0x7fff0000 }); // allow
    let act = SigAction { handler: on_sys as usize, mask: [0; 16], flags: 0x4 | 0x0800_0000 | 0x4000_0000, restorer: 0 };
    let prog = Prog { len: p.len() as u16, insns: p.as_ptr() };
    unsafe {
        sigaction(31, &act, std::ptr::null_mut()) == 0
            && prctl(38, 1usize, 0usize, 0usize, 0usize) == 0
            && prctl(22, 2usize, &prog as *const Prog, 0usize, 0usize) == 0
    }
}

// Answered in user space, without a system call the filter could see.

fn mark(nr: i64) {
    if INSIDE.load(SeqCst) {
        let _ = SEEN.compare_exchange(-1, nr, SeqCst, SeqCst);
        TIMES.fetch_add(1, SeqCst);
    }
}

extern "C" {
    fn syscall(nr: i64, ...) -> i64;
}

/// The programs of this harness need nothing from the environment after start.
#[no_mangle]
pub extern "C" fn getenv(_: *const u8) -> *const u8 {
    mark(-2);
    std::ptr::null()
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, at: *mut [i64; 2]) -> i32 {
    if INSIDE.load(SeqCst) {
        mark(228);
        *at = [1, 0];
        return 0;
    }
    syscall(228, clock as i64, at) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(at: *mut u8, n: usize, flags: u32) -> isize {
    if INSIDE.load(SeqCst) {
        mark(318);
        std::ptr::write_bytes(at, 7, n);
        return n as isize;
    }
    syscall(318, at, n, flags as i64) as isize
}

fn name(nr: i64) -> String {
    let known = [
        (-2, "getenv"), (0, "read"), (1, "write"), (2, "open"), (3, "close"), (16, "ioctl"), (20, "writev"), (22, "pipe"), (35, "nanosleep"), (39, "getpid"),
        (41, "socket"), (56, "clone"), (57, "fork"), (59, "execve"), (87, "unlink"), (96, "gettimeofday"), (228, "clock_gettime"),
        (230, "clock_nanosleep"), (257, "openat"), (318, "getrandom"), (435, "clone3"),
    ];
    known.iter().find(|k| k.0 == nr).map(|k| k.1.to_string()).unwrap_or(format!("number {}", nr))
}

// ------------------------------------------------------------ stack

const STACK: usize = 2 << 20;
/// What one operation may use of it, in builds without and with optimisation.
pub const LIMIT: usize = 256 << 10;
const PAINT: u64 = 0x5ca1ab1e0ddba11;

#[inline(never)]
fn here() -> usize {
    let x = 0u8;
    std::hint::black_box(&x as *const u8 as usize)
}

/// Fill the unused stack below the caller, page after page downwards.
#[inline(never)]
fn paint(from: usize, len: usize) {
    let mut a = (from - 1024) & !7;
    while a > from - len {
        unsafe { (a as *mut u64).write_volatile(PAINT) };
        a -= 8;
    }
}

#[inline(never)]
fn used(from: usize, len: usize) -> usize {
    let mut a = (from - len + 64) & !7;
    while a < from - 1024 {
        if unsafe { (a as *const u64).read_volatile() } != PAINT {
            return from - a;
        }
        a += 8;
    }
    0
}

// ------------------------------------------------------------ operations

enum Task {
    Key(Vec<u8>),
    Enc(Box<[u8; CRYPTO_PUBLICKEYBYTES]>, Vec<u8>),
    Dec(Box<[u8; CRYPTO_CIPHERTEXTBYTES]>, Box<[u8; CRYPTO_SECRETKEYBYTES]>),
    Failing(usize, FailMode, Vec<u8>),
    Rng(AesState, usize),
    Exchange(AesState),
}

fn task(p: &Params, seed: u64, idx: u64) -> (Task, String) {
    let mut rng = Prng::new(seed, "C19", idx);
    let sub = idx / 8;
    match idx % 8 {
        0 => {
            let (mut s, w) = if sub % 2 == 0 { (rng.bytes(p.fg_bytes()), "uniform".into()) } else { gen::fg_seed(&mut rng, p, sub / 2) };
            s.extend(gen::prf(&mut rng));
            (Task::Key(s), format!("key generation, {}", w))
        }
        1 if sub % 4 == 3 => {
            let at = (sub / 4 % 2) as usize;
            (Task::Failing(at, *rng.pick(&[FailMode::Untouched, FailMode::Partial, FailMode::Full]), rng.bytes(p.fg_bytes() + 32)), "key generation, failing source".into())
        }
        1 | 2 => {
            let (pk, w) = gen::odd_pk(&mut rng, p, sub);
            let (rm, _) = gen::rm_seed(&mut rng, p, sub);
            (Task::Enc(Box::new(pk.try_into().unwrap()), rm), format!("encapsulation, {}", w))
        }
        3 => {
            let mut s = AesState::new();
            s.randombytes_init(rng.arr::<48>());
            (Task::Exchange(s), "whole exchange".into())
        }
        4 | 5 | 6 => {
            let mut g = Prng::new(seed, "C19-keys", idx / 64);
            let fg = g.bytes(p.fg_bytes());
            let k = p.keypair(&fg, &g.arr::<32>()).expect("quiet: key");
            let ct = p.encaps(&k.pk, &rng.bytes(p.rm_bytes())).0;
            let (ct, sk, w) = match idx % 8 {
                4 => (ct, k.sk, "genuine"),
                5 => (craft::mutate_ct(&mut rng, p, &ct, sub).0, k.sk, "damaged ciphertext"),
                _ => (ct, craft::mutate_sk(&mut rng, p, &k.sk, sub).0, "damaged key"),
            };
            (Task::Dec(Box::new(ct.try_into().unwrap()), Box::new(sk.try_into().unwrap())), format!("decapsulation, {}", w))
        }
        _ => {
            let s = corpus::state(rng.arr::<32>(), rng.arr::<16>(), rng.u32() as i32);
            let n = *rng.pick(&[0, 1, 16, 33, 1000, 70000]);
            (Task::Rng(s, n), "generator".into())
        }
    }
}

/// Inputs found by the search.
fn found(item: &Item) -> Vec<(Task, String)> {
    let w = format!("{}, found by search", item.name());
    match item {
        Item::Key(s) => vec![(Task::Key(s.clone()), w)],
        Item::Enc(pk, rm) => vec![(Task::Enc(Box::new(pk.as_slice().try_into().unwrap()), rm.clone()), w)],
        Item::Dec(ct, sk) => vec![(Task::Dec(Box::new(ct.as_slice().try_into().unwrap()), Box::new(sk.as_slice().try_into().unwrap())), w)],
        Item::Rng(s, l, _) => l.iter().map(|n| (Task::Rng(corpus::state_of(s).0, (*n).min(70000)), w.clone())).collect(),
    }
}

fn print(t: &Task) -> u64 {
    match t {
        Task::Key(s) => fnv(&[s]),
        Task::Enc(p, r) => fnv(&[&p[..], r]),
        Task::Dec(c, s) => fnv(&[&c[..], &s[..]]),
        Task::Failing(_, _, s) => fnv(&[s, &[1]]),
        Task::Rng(s, n) => fnv(&[&s.key, &s.v, &n.to_le_bytes()]),
        Task::Exchange(s) => fnv(&[&s.key, &s.v]),
    }
}

/// All buffers an operation needs, so that only its own allocations count.
struct Buffers {
    pk: Box<[u8; CRYPTO_PUBLICKEYBYTES]>,
    sk: Box<[u8; CRYPTO_SECRETKEYBYTES]>,
    ct: Box<[u8; CRYPTO_CIPHERTEXTBYTES]>,
    k: Box<[u8; CRYPTO_BYTES]>,
    bytes: Vec<u8>,
}

/// Runs it; returns the change of live heap bytes and the peak above the start.
fn operate(t: &Task, b: &mut Buffers) -> (i64, i64) {
    let mut script = match t {
        Task::Key(s) => Some(Script::new(s)),
        Task::Enc(_, r) => Some(Script::new(r)),
        Task::Failing(at, mode, s) => {
            let mut x = Script::new(s);
            x.fail_at = Some((*at, *mode, 1));
            Some(x)
        }
        _ => None,
    };
    if let Some(s) = &mut script {
        s.draws.reserve(8);
    }
    let mut st = match t {
        Task::Rng(s, _) | Task::Exchange(s) => s.clone(),
        _ => AesState::new(),
    };
    let n = if let Task::Rng(_, n) = t { *n } else { 0 };
    report::enter();
    let before = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(before));
    INSIDE.store(true, SeqCst);
    let r = catch_unwind(AssertUnwindSafe(|| match t {
        Task::Key(_) | Task::Failing(..) => drop(crypto_kem_keypair(&mut b.pk, &mut b.sk, script.as_mut().unwrap())),
        Task::Enc(pk, _) => drop(crypto_kem_enc(&mut b.ct, &mut b.k, pk, script.as_mut().unwrap())),
        Task::Dec(c, s) => drop(crypto_kem_dec(&mut b.k, c, s)),
        Task::Rng(..) => drop(st.randombytes(&mut b.bytes[..n])),
        Task::Exchange(_) => {
            drop(crypto_kem_keypair(&mut b.pk, &mut b.sk, &mut st));
            drop(crypto_kem_enc(&mut b.ct, &mut b.k, &b.pk, &mut st));
            drop(crypto_kem_dec(&mut b.k, &b.ct, &b.sk));
        }
    }));
    drop(r);
    INSIDE.store(false, SeqCst);
    let after = LIVE.with(|l| l.get());
    let peak = PEAK.with(|p| p.get());
    report::leave();
    (after - before, peak - before)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (mut seed, mut start, mut count, mut out) = (1u64, 0u64, 1u64, String::new());
    let mut items = vec![];
    let mut i = 1;
    while i + 1 < args.len() {
        match args[i].as_str() {
            "--seed" => seed = args[i + 1].parse().expect("seed"),
            "--start" => start = args[i + 1].parse().expect("start"),
            "--count" => count = args[i + 1].parse().expect("count"),
            "--out" => out = args[i + 1].clone(),
            "--corpus" => items = corpus::read(&args[i + 1]),
            _ => {}
        }
        i += 2;
    }
    std::panic::set_hook(Box::new(|info| {
        if !report::in_call() {
            eprintln!("{}", info);
        }
    }));
    let p = params();
    if !monitors::sizes_fit(&p) {
        eprintln!("quiet: array lengths do not fit the parameter set");
        std::process::exit(3);
    }
    let mut rep = Report::new(&out);
    rep.case = start;
    let tasks: Vec<(Task, String)> = if items.is_empty() {
        (start..start + count).map(|i| task(&p, seed, i)).collect()
    } else {
        items[start as usize..(start + count) as usize].iter().flat_map(found).collect()
    };
    let tasks = &tasks;

    struct Seen {
        confined: bool,
        control: (i64, u64),
        syscall: Vec<(usize, i64)>,
        grown: Vec<i64>,
        repeated: Vec<(usize, i64)>,
        stack: Vec<(usize, usize)>,
        peak: i64,
        ops: u64,
    }
    let seen = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, move || {
                let mut b = Buffers {
                    pk: Box::new([1; CRYPTO_PUBLICKEYBYTES]),
                    sk: Box::new([2; CRYPTO_SECRETKEYBYTES]),
                    ct: Box::new([3; CRYPTO_CIPHERTEXTBYTES]),
                    k: Box::new([4; CRYPTO_BYTES]),
                    bytes: vec![5; 70000],
                };
                let mut r = Seen { confined: false, control: (0, 0), syscall: vec![], grown: vec![], repeated: vec![], stack: vec![], peak: 0, ops: 0 };
                r.syscall.reserve(64);
                r.stack.reserve(tasks.len());
                r.confined = confine();
                // control: the monitor must see a forbidden call and a deep stack
                INSIDE.store(true, SeqCst);
                let _ = std::fs::metadata("/");
                INSIDE.store(false, SeqCst);
                r.control = (SEEN.swap(-1, SeqCst), TIMES.swap(0, SeqCst));
                INSIDE.store(true, SeqCst);
                for k in 0..3 {
                    match k {
                        0 => drop(std::hint::black_box(std::time::Instant::now())),
                        1 => drop(std::hint::black_box(std::env::var("HOME"))),
                        _ => drop(std::hint::black_box(std::collections::hash_map::RandomState::new())),
                    }
                    r.control.1 = if SEEN.swap(-1, SeqCst) == -1 { 0 } else { r.control.1 };
                }
                INSIDE.store(false, SeqCst);
                TIMES.store(0, SeqCst);
                let base = here();
                let room = STACK - (192 << 10);
                // first pass: one-time initialisation happens here; stack and system calls are watched
                for (i, (t, _)) in tasks.iter().enumerate() {
                    paint(base, room);
                    let (_, peak) = operate(t, &mut b);
                    r.ops += 1;
                    r.stack.push((i, used(base, room)));
                    r.peak = r.peak.max(peak);
                    let nr = SEEN.swap(-1, SeqCst);
                    if nr != -1 && r.syscall.len() < 64 {
                        r.syscall.push((i, nr));
                    }
                    if OUTSIDE.swap(0, SeqCst) > 0 {
                        r.confined = false;
                    }
                }
                // second pass in eight parts: memory must not grow any more
                for part in 0..8 {
                    let mut g = 0;
                    for (i, (t, _)) in tasks.iter().enumerate() {
                        if i * 8 / tasks.len() == part {
                            g += operate(t, &mut b).0;
                            r.ops += 1;
                        }
                    }
                    r.grown.push(g);
                }
                // and not with repetitions of one call
                for (i, (t, _)) in tasks.iter().enumerate().take(16) {
                    let mut n = 0;
                    let mut g = 0;
                    for _ in 0..12 {
                        let d = operate(t, &mut b).0;
                        r.ops += 1;
                        n += (d > 0) as u32;
                        g += d;
                    }
                    if n >= 8 {
                        r.repeated.push((i, g));
                    }
                }
                r
            })
            .expect("quiet: thread")
            .join()
            .expect("quiet: worker")
    });

    if !seen.confined || seen.control.0 < 0 || seen.control.1 == 0 {
        eprintln!("quiet: cannot confine the worker thread ({} {:?})", seen.confined, seen.control);
        std::process::exit(3);
    }
    for (t, w) in tasks {
        rep.class(w);
        rep.eval(print(t), true);
    }
    rep.evaluations += seen.ops - tasks.len() as u64;
    let deepest = seen.stack.iter().max_by_key(|x| x.1).copied().unwrap_or((0, 0));
    if deepest.1 == 0 {
        eprintln!("quiet: no stack use seen");
        std::process::exit(3);
    }
    rep.add("forbidden calls seen in the control", seen.control.1 + 3);
    rep.sample(|| {
        format!(
            "{} operations, no system call but for memory; live heap change per part {:?}, heap peak {} bytes, deepest stack {} bytes ({})",
            seen.ops, seen.grown, seen.peak, deepest.1, tasks[deepest.0].1
        )
    });
    for (i, nr) in &seen.syscall {
        rep.violation(format!("{} asks the operating system: {}", tasks[*i].1.split(',').next().unwrap(), name(*nr)), vec![("task", tasks[*i].1.clone())]);
    }
    if deepest.1 > LIMIT {
        rep.violation(format!("{} uses {} bytes of stack", tasks[deepest.0].1, deepest.1), vec![]);
    }
    for (i, g) in &seen.repeated {
        rep.violation(format!("{} keeps memory: {} bytes after 12 repetitions", tasks[*i].1.split(',').next().unwrap(), g), vec![]);
    }
    if tasks.len() >= 64 && seen.grown.iter().filter(|g| **g > 0).count() >= 6 {
        rep.violation(format!("memory grows with the number of calls: {:?} bytes in eight parts of the run", seen.grown), vec![]);
    }
    rep.finish();
    std::process::exit(if rep.violations.is_empty() { 0 } else { 1 });
}
