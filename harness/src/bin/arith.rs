//! C20: do divisions, remainders and square roots have secret operands? Every
//! such instruction of this program is replaced by a breakpoint while an
//! operation runs; the operands seen must be the same for every secret.
//!   arith --seed S --start A --count N --out FILE [--corpus FILE]

use monitors::corpus::{self, Item};
use monitors::imp::Script;
use monitors::prng::Prng;
use monitors::report::{self, Report};
use monitors::{craft, fnv, gen, params, Params};
use ntrust_native::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::Command;
use std::ptr::addr_of_mut;

// ------------------------------------------------------------ breakpoints

#[derive(Clone, Copy)]
struct Site {
    at: usize,
    /// what stood there
    byte: u8,
    /// operand size in bytes; 0 for floating point
    size: u8,
    /// general or vector register, or none
    reg: u8,
    /// where the other operand is
    other: Operand,
}

#[derive(Clone, Copy)]
enum Operand {
    Reg(u8),
    /// base register, index register, scale, displacement
    Mem(u8, u8, u8, i64),
    Fixed(usize),
}

const NONE: u8 = 255;
const MOST: usize = 1 << 20;
/// One instruction is looked at so many times per operation.
const EACH: u32 = 60_000;

// Only the one thread of this program and its signal handler use these.
static mut SITES: Vec<Site> = Vec::new();
static mut PLACES: Vec<String> = Vec::new();
static mut EVENTS: Vec<(u32, u64)> = Vec::new();
static mut TIMES: Vec<u32> = Vec::new();
static mut TOTAL: u64 = 0;
static mut HASH: u64 = 0;
static mut STEPPING: usize = usize::MAX;

fn mix(h: u64, x: u64) -> u64 {
    let h = (h ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    h ^ (h >> 29)
}

/// Decode the operands of one instruction; None if it is not of the kind.
unsafe fn decode(at: usize) -> Option<Site> {
    let p = at as *const u8;
    let mut i = 0;
    let (mut half, mut rex, mut sse) = (false, 0u8, 0u8);
    loop {
        match *p.add(i) {
            0x66 => half = true,
            b @ (0xf2 | 0xf3) => sse = b,
            b @ 0x40..=0x4f => rex = b,
            _ => break,
        }
        i += 1;
    }
    let op = *p.add(i);
    let (size, float) = match op {
        0xf6 => (1, false),
        0xf7 => (if rex & 8 != 0 { 8 } else if half { 2 } else { 4 }, false),
        0x0f if *p.add(i + 1) == 0x5e || *p.add(i + 1) == 0x51 => {
            i += 1;
            (0, true)
        }
        _ => return None,
    };
    let _ = sse;
    let m = *p.add(i + 1);
    let (md, reg, rm) = (m >> 6, (m >> 3) & 7, m & 7);
    if !float && reg < 6 {
        return None;
    }
    let reg = if float { reg | (rex & 4) << 1 } else { NONE };
    let mut end = i + 2;
    let other = if md == 3 {
        Operand::Reg(rm | (rex & 1) << 3)
    } else {
        let (mut base, mut index, mut scale) = (rm | (rex & 1) << 3, NONE, 0);
        if rm == 4 {
            let s = *p.add(end);
            end += 1;
            scale = s >> 6;
            index = ((s >> 3) & 7) | (rex & 2) << 2;
            if index == 4 {
                index = NONE;
            }
            base = (s & 7) | (rex & 1) << 3;
        }
        let long = md == 2 || md == 0 && base & 7 == 5;
        let disp = if md == 1 {
            end += 1;
            *p.add(end - 1) as i8 as i64
        } else if long {
            end += 4;
            (p.add(end - 4) as *const i32).read_unaligned() as i64
        } else {
            0
        };
        if md == 0 && rm == 5 {
            Operand::Fixed((at + end).wrapping_add(disp as usize))
        } else {
            Operand::Mem(if md == 0 && base & 7 == 5 { NONE } else { base }, index, scale, disp)
        }
    };
    Some(Site { at, byte: *p, size, reg, other })
}

/// Where the kernel saved general register r.
const SAVED: [usize; 16] = [13, 14, 12, 11, 15, 10, 9, 8, 0, 1, 2, 3, 4, 5, 6, 7];

unsafe fn operands(s: &Site, regs: *const u64, vectors: *const u8) -> u64 {
    let get = |r: u8| if r == NONE { 0 } else { *regs.add(SAVED[r as usize]) };
    let bytes = if s.size == 0 { 8 } else { s.size };
    let mask = if bytes == 8 { u64::MAX } else { (1u64 << (8 * bytes)) - 1 };
    let xmm = |r: u8| (vectors.add(160 + 16 * r as usize) as *const u64).read_unaligned();
    let mut other = match s.other {
        Operand::Reg(r) if s.size == 0 => xmm(r),
        // without a REX prefix numbers 4 to 7 mean the second bytes of the first four
        Operand::Reg(r) if s.size == 1 && (4..8).contains(&r) && s.byte & 0xf0 != 0x40 => get(r - 4) >> 8,
        Operand::Reg(r) => get(r),
        Operand::Mem(b, i, sc, d) => {
            let mut a = get(b).wrapping_add(get(i) << sc).wrapping_add(d as u64) as *const u8;
            let mut v = 0u64;
            for k in 0..bytes {
                v |= (*a as u64) << (8 * k);
                a = a.add(1);
            }
            v
        }
        Operand::Fixed(a) => {
            let mut a = a as *const u8;
            let mut v = 0u64;
            for k in 0..bytes {
                v |= (*a as u64) << (8 * k);
                a = a.add(1);
            }
            v
        }
    };
    other &= mask;
    let (low, high) = match s.size {
        0 => (xmm(s.reg), 0),
        1 => (get(0) & 0xffff, 0),
        _ => (get(0) & mask, get(2) & mask),
    };
    mix(mix(mix(1, low), high), other)
}

/// A breakpoint: note the operands and execute the instruction alone.
unsafe extern "C" fn on_trap(_: i32, info: *const u8, context: *mut u8) {
    let regs = context.add(40) as *mut u64;
    let sites = &*addr_of_mut!(SITES);
    let code = (info.add(8) as *const i32).read_unaligned();
    if code == 2 {
        // the instruction is done
        let s = sites.as_ptr().add(STEPPING);
        *((*s).at as *mut u8) = 0xcc;
        *regs.add(17) &= !0x100;
        return;
    }
    let at = *regs.add(16) as usize - 1;
    let (mut a, mut b) = (0, sites.len());
    while b - a > 1 {
        let m = (a + b) >> 1;
        if (*sites.as_ptr().add(m)).at <= at {
            a = m;
        } else {
            b = m;
        }
    }
    let s = &*sites.as_ptr().add(a);
    let h = operands(s, regs, *(context.add(224) as *const *const u8));
    let events = &mut *addr_of_mut!(EVENTS);
    TOTAL += 1;
    HASH = mix(mix(HASH, a as u64), h);
    if events.len() < MOST {
        events.push((a as u32, h));
    }
    *(s.at as *mut u8) = s.byte;
    *regs.add(16) = at as u64;
    let times = (*addr_of_mut!(TIMES)).as_mut_ptr().add(a);
    *times += 1;
    if *times >= EACH {
        return;
    }
    STEPPING = a;
    *regs.add(17) |= 0x100;
}

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
    fn mprotect(a: usize, n: usize, prot: i32) -> i32;
}

/// Find the instructions with the system's disassembler.
fn prepare() -> Result<usize, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let maps = std::fs::read_to_string("/proc/self/maps").map_err(|e| e.to_string())?;
    let mine: Vec<&str> = maps.lines().filter(|l| l.ends_with(exe.to_str().unwrap_or("?"))).collect();
    let range = |l: &str| {
        let mut r = l.split([' ', '-']).map(|x| usize::from_str_radix(x, 16).unwrap_or(0));
        (r.next().unwrap_or(0), r.next().unwrap_or(0))
    };
    let base = range(mine.first().ok_or("no map of the program")?).0;
    let text: Vec<(usize, usize)> = mine.iter().filter(|l| l.contains("r-xp")).map(|l| range(l)).collect();
    let o = Command::new("objdump").args(["-d", "-C", "--no-show-raw-insn"]).arg(&exe).output().map_err(|e| format!("objdump: {}", e))?;
    if !o.status.success() {
        return Err("objdump failed".into());
    }
    let list = String::from_utf8_lossy(&o.stdout);
    let mut name = "";
    let (sites, places) = unsafe { (&mut *addr_of_mut!(SITES), &mut *addr_of_mut!(PLACES)) };
    for l in list.lines() {
        if let Some((_, n)) = l.strip_suffix(">:").and_then(|l| l.split_once('<')) {
            name = n;
            continue;
        }
        let Some((addr, ins)) = l.trim().split_once(":\t") else { continue };
        let op = ins.split_whitespace().find(|w| !["rep", "repz", "data16", "lock"].contains(w)).unwrap_or("");
        let op = op.strip_prefix('v').unwrap_or(op);
        let stem = op.trim_start_matches('i');
        if !(["div", "divb", "divw", "divl", "divq"].contains(&stem) || ["divss", "divsd", "divps", "divpd", "sqrtss", "sqrtsd", "sqrtps", "sqrtpd"].contains(&op)) {
            continue;
        }
        // the trap itself and what it calls
        if name.contains("arith::operands") || name.contains("arith::on_trap") {
            return Err("the handler divides".into());
        }
        let at = base + usize::from_str_radix(addr, 16).map_err(|e| e.to_string())?;
        if !text.iter().any(|t| t.0 <= at && at < t.1) {
            return Err("address outside the text".into());
        }
        if let Some(s) = unsafe { decode(at) } {
            sites.push(s);
            places.push(name.to_string());
        }
    }
    let mut order: Vec<usize> = (0..sites.len()).collect();
    order.sort_by_key(|i| sites[*i].at);
    *places = order.iter().map(|i| places[*i].clone()).collect();
    *sites = order.iter().map(|i| sites[*i]).collect();
    if sites.is_empty() {
        return Err("no division found".into());
    }
    unsafe {
        *addr_of_mut!(TIMES) = vec![0; sites.len()];
        *addr_of_mut!(EVENTS) = Vec::with_capacity(MOST + 1);
        let act = SigAction { handler: on_trap as *const () as usize, mask: [0; 16], flags: 0x4, restorer: 0 };
        if sigaction(5, &act, std::ptr::null_mut()) != 0 || text.iter().any(|t| mprotect(t.0, t.1 - t.0, 7) != 0) {
            return Err("breakpoints are not possible here".into());
        }
    }
    Ok(sites.len())
}

struct Trace {
    events: Vec<(u32, u64)>,
    total: u64,
    hash: u64,
    ok: bool,
}

/// Run it with all breakpoints set.
fn trace(f: impl FnOnce() -> bool) -> Trace {
    unsafe {
        (*addr_of_mut!(EVENTS)).clear();
        (*addr_of_mut!(TIMES)).fill(0);
        TOTAL = 0;
        HASH = 1;
        report::enter();
        let sites = &*addr_of_mut!(SITES);
        for s in sites {
            *(s.at as *mut u8) = 0xcc;
        }
        let ok = catch_unwind(AssertUnwindSafe(f));
        for s in sites {
            *(s.at as *mut u8) = s.byte;
        }
        report::leave();
        Trace { events: (*addr_of_mut!(EVENTS)).clone(), total: TOTAL, hash: HASH, ok: ok.unwrap_or(false) }
    }
}

// ------------------------------------------------------------ operations

/// The secret of the operation; what is public stays the same.
#[derive(Clone)]
enum Op {
    Key(Vec<u8>),
    Enc(Vec<u8>, Vec<u8>),
    Dec(Vec<u8>, Vec<u8>),
    Request(AesState, usize),
    Seed(AesState, [u8; 48]),
}

struct Buffers {
    pk: Box<[u8; CRYPTO_PUBLICKEYBYTES]>,
    sk: Box<[u8; CRYPTO_SECRETKEYBYTES]>,
    ct: Box<[u8; CRYPTO_CIPHERTEXTBYTES]>,
    k: Box<[u8; CRYPTO_BYTES]>,
}

impl Op {
    fn name(&self) -> &'static str {
        match self {
            Op::Key(_) => "key generation",
            Op::Enc(..) => "encapsulation",
            Op::Dec(..) => "decapsulation",
            Op::Request(..) => "generator request",
            Op::Seed(..) => "generator seeding",
        }
    }
    fn print(&self) -> u64 {
        match self {
            Op::Key(a) => fnv(&[a]),
            Op::Enc(a, b) | Op::Dec(a, b) => fnv(&[a, b]),
            Op::Request(s, n) => fnv(&[&s.key, &s.v, &n.to_le_bytes()]),
            Op::Seed(s, e) => fnv(&[&s.key, &s.v, e]),
        }
    }
    fn run(&self, b: &mut Buffers) -> Trace {
        match self {
            Op::Key(s) => {
                let mut r = Script::new(s);
                trace(|| crypto_kem_keypair(&mut b.pk, &mut b.sk, &mut r).is_ok())
            }
            Op::Enc(pk, rm) => {
                b.pk.copy_from_slice(pk);
                let mut r = Script::new(rm);
                trace(|| crypto_kem_enc(&mut b.ct, &mut b.k, &b.pk, &mut r).is_ok())
            }
            Op::Dec(ct, sk) => {
                b.ct.copy_from_slice(ct);
                b.sk.copy_from_slice(sk);
                trace(|| crypto_kem_dec(&mut b.k, &b.ct, &b.sk).is_ok())
            }
            Op::Request(s, n) => {
                let (mut s, mut x) = (s.clone(), vec![0u8; *n]);
                trace(|| s.randombytes(&mut x).is_ok())
            }
            Op::Seed(s, e) => {
                let mut s = s.clone();
                trace(|| {
                    s.randombytes_init(*e);
                    true
                })
            }
        }
    }
}

/// Several secrets for one public input.
fn group(p: &Params, seed: u64, idx: u64) -> Vec<(Op, String)> {
    let mut rng = Prng::new(seed, "C20", idx);
    let sub = idx / 5;
    let mut r = vec![];
    match idx % 5 {
        0 => {
            for t in 0..3 {
                let (mut s, w) = if t == 0 { (rng.bytes(p.fg_bytes()), "uniform".to_string()) } else { gen::fg_seed(&mut rng, p, 2 * sub + t) };
                s.extend(gen::prf(&mut rng));
                r.push((Op::Key(s), w));
            }
        }
        1 | 2 => {
            let (pk, _) = gen::odd_pk(&mut rng, p, sub);
            for t in 0..4 {
                let (rm, w) = if t == 0 { (rng.bytes(p.rm_bytes()), "uniform".to_string()) } else { gen::rm_seed(&mut rng, p, 3 * sub + t) };
                r.push((Op::Enc(pk.clone(), rm), w));
            }
        }
        3 => {
            let k = p.keypair(&rng.bytes(p.fg_bytes()), &rng.arr::<32>()).expect("arith: key");
            let other = p.keypair(&rng.bytes(p.fg_bytes()), &rng.arr::<32>()).expect("arith: key");
            let ct = p.encaps(&k.pk, &rng.bytes(p.rm_bytes())).0;
            let ct = if sub % 2 == 0 { ct } else { craft::mutate_ct(&mut rng, p, &ct, sub).0 };
            for t in 0..2 {
                let (sk, w) = craft::mutate_sk(&mut rng, p, &k.sk, 2 * sub + t);
                r.push((Op::Dec(ct.clone(), sk), w.to_string()));
            }
            r.push((Op::Dec(ct.clone(), k.sk), "own key".into()));
            r.push((Op::Dec(ct.clone(), other.sk), "another key".into()));
            r.push((Op::Dec(ct, rng.bytes(p.sk_bytes())), "arbitrary key".into()));
        }
        _ => {
            let n = *rng.pick(&[0usize, 1, 16, 33, 100, 1000]);
            for t in 0..4 {
                let mut v = rng.arr::<16>();
                if t > 0 {
                    let j = rng.below(17);
                    v.iter_mut().skip(16 - j).for_each(|x| *x = 0xff);
                }
                let s = corpus::state(rng.arr::<32>(), v, 1);
                r.push((Op::Request(s, n), "secret state".into()));
            }
            for _ in 0..3 {
                r.push((Op::Seed(corpus::state(rng.arr::<32>(), rng.arr::<16>(), 1), rng.arr::<48>()), "secret seed".into()));
            }
        }
    }
    r
}

/// An input found by the search, and the same public part with another secret.
fn found(p: &Params, seed: u64, idx: u64, item: &Item) -> Vec<(Op, String)> {
    let mut rng = Prng::new(seed, "C20-found", idx);
    let (w, u) = ("found by search".to_string(), "uniform".to_string());
    match item {
        Item::Key(s) => vec![(Op::Key(s.clone()), w), (Op::Key(rng.bytes(s.len())), u)],
        Item::Enc(pk, rm) => vec![(Op::Enc(pk.clone(), rm.clone()), w), (Op::Enc(pk.clone(), rng.bytes(rm.len())), u)],
        Item::Dec(ct, sk) => {
            let k = p.keypair(&rng.bytes(p.fg_bytes()), &rng.arr::<32>()).expect("arith: key");
            vec![(Op::Dec(ct.clone(), sk.clone()), w), (Op::Dec(ct.clone(), k.sk), u)]
        }
        Item::Rng(s, l, e) => {
            let st = corpus::state_of(s).0;
            let mut r = vec![];
            for n in l {
                let o = corpus::state(rng.arr::<32>(), rng.arr::<16>(), st.reseed_counter);
                r.push((Op::Request(st.clone(), (*n).min(5000)), w.clone()));
                r.push((Op::Request(o, (*n).min(5000)), u.clone()));
            }
            r.push((Op::Seed(st.clone(), *e), w));
            r.push((Op::Seed(st, rng.arr::<48>()), u));
            r
        }
    }
}

#[inline(never)]
fn control(a: u16, b: u32, c: f64) -> u64 {
    let a = std::hint::black_box(a);
    let b = std::hint::black_box(b);
    (a % 3) as u64 + (77777 / b) as u64 + std::hint::black_box(c / 3.0) as u64
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let num = |k: &str| get(k).map(|x| x.parse::<u64>().expect("arith: number")).unwrap_or(0);
    let (seed, start, count) = (num("--seed"), num("--start"), num("--count"));
    std::panic::set_hook(Box::new(|info| {
        if !report::in_call() {
            eprintln!("{}", info);
        }
    }));
    let p = params();
    if !monitors::sizes_fit(&p) {
        eprintln!("arith: array lengths do not fit the parameter set");
        std::process::exit(3);
    }
    let sites = match prepare() {
        Ok(n) => n,
        Err(e) => {
            eprintln!("arith: {}", e);
            std::process::exit(3);
        }
    };
    // the breakpoints themselves must work here: each operand shows, results do not change
    let t = |a, b, c| trace(|| std::hint::black_box(control(a, b, c)) == (a % 3) as u64 + (77777 / b) as u64 + (c / 3.0) as u64);
    let base = t(1000, 5, 2.5);
    let all = [t(1000, 5, 2.5), t(1001, 5, 2.5), t(1000, 6, 2.5), t(1000, 5, 2.25)];
    if !base.ok || all.iter().any(|x| !x.ok || x.total < 3) || base.hash != all[0].hash || all[1..].iter().any(|x| x.hash == base.hash) {
        eprintln!("arith: breakpoints do not show operands");
        std::process::exit(3);
    }
    let mut rep = Report::new(&get("--out").unwrap_or_default());
    let mut b = Buffers {
        pk: Box::new([0; CRYPTO_PUBLICKEYBYTES]),
        sk: Box::new([0; CRYPTO_SECRETKEYBYTES]),
        ct: Box::new([0; CRYPTO_CIPHERTEXTBYTES]),
        k: Box::new([0; CRYPTO_BYTES]),
    };
    let places = unsafe { &*addr_of_mut!(PLACES) };
    let items = get("--corpus").map(|f| corpus::read(&f)).unwrap_or_default();
    for idx in start..start + count {
        rep.begin(idx);
        let ops = if items.is_empty() { group(&p, seed, idx) } else { found(&p, seed, idx, &items[idx as usize]) };
        let mut first: Vec<(&'static str, usize, Trace)> = vec![];
        for (op, w) in &ops {
            let t = op.run(&mut b);
            rep.eval(op.print(), true);
            rep.class(&format!("{} ({})", op.name(), w));
            rep.add(&format!("divisions executed in {}", op.name()), t.total);
            if !t.ok {
                // a panic is another property's business
                rep.class("operation failed");
                continue;
            }
            // different lengths are public
            let n = if let Op::Request(_, n) = op { *n } else { 0 };
            let Some((_, _, f)) = first.iter().find(|x| x.0 == op.name() && x.1 == n) else {
                first.push((op.name(), n, t));
                continue;
            };
            if f.hash != t.hash || f.total != t.total {
                let i = f.events.iter().zip(&t.events).position(|(a, b)| a != b).unwrap_or(f.events.len().min(t.events.len()));
                let at = t.events.get(i).or(f.events.get(i)).map(|e| places[e.0 as usize].as_str()).unwrap_or("?");
                rep.violation(format!("{} divides with operands that depend on a secret", op.name()), vec![("in", at.to_string()), ("case", w.clone()), ("divisions", format!("{} and {}", f.total, t.total))]);
            } else {
                rep.sample(|| format!("{} ({}): {} divisions executed at {} known places, same operands as with another secret", op.name(), w, t.total, sites));
            }
        }
        if !rep.violations.is_empty() {
            break;
        }
    }
    rep.finish();
    std::process::exit(if rep.violations.is_empty() { 0 } else { 1 });
}
