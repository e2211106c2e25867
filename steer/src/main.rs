//! Comparison-guided search for inputs that take an unusual path.
//!   steer PROP --seed S --start CASE --count N --out FILE [--extra PERCENT]
//!
//! The library is built with every comparison traced. Inputs of all kinds are
//! run first; a comparison whose operands change with the input decides
//! something about the data. For each such comparison the outcomes not seen yet
//! are aimed at, by writing the wanted operand where the actual one is found in
//! the input and by hill climbing on the distance. Every input that reaches
//! something new, and some of its neighbours, is judged by the property's oracle.

use monitors::corpus;
use monitors::craft::{self, Spread};
use monitors::imp::{self, Script};
use monitors::judge::*;
use monitors::prng::Prng;
use monitors::report::{self, Report};
use monitors::{diff, fnv, gen, hex, params};
use ntrust_native::{AesState, RNGState};
use refntru::drbg::Drbg;
use refntru::{Keys, Params, Sk};
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};
use tracer::{EQ, GT, LT, SGT, SLT};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// sampling bytes, rejection key
    Key,
    /// public key, sampling bytes
    Enc,
    /// sampling bytes, for an honest public key
    EncHonest,
    /// ciphertext, secret key
    Dec,
    /// sampling bytes of the sender, rejection key; honest key otherwise
    DecGenuine,
    /// message, blinding polynomial, rejection key; honest key otherwise
    DecChosen,
    /// generator state, request lengths, seed
    Rng,
    /// all three operations: bytes of key generation, rejection key, bytes of the sender
    Exchange,
    /// encapsulation and decapsulation with a fixed key pair: bytes of the sender
    Talk,
}
use Op::*;

type Fields = Vec<Vec<u8>>;

/// (operations, share of the budget)
fn plan(prop: &str) -> Vec<Op> {
    match prop {
        "C01" => vec![Talk, Exchange],
        "C02" | "C06" => vec![Key],
        "C03" => vec![Enc],
        "C04" | "C05" => vec![DecGenuine, Dec, DecChosen],
        "C07" => vec![EncHonest, Key],
        "C08" => vec![Rng],
        "C09" => vec![Enc, Key],
        "C10" => vec![Enc, Dec, Rng],
        "C11" => vec![Enc, Dec, DecGenuine, DecChosen, Rng, Key],
        "C17" => vec![Enc, Key],
        "C18" => vec![EncHonest, Dec, DecChosen],
        // inputs for other instruments
        "corpus" => vec![Enc, Dec, DecGenuine, DecChosen, Rng, Key],
        _ => vec![],
    }
}

/// Inputs tried before the search, runs of the search, per operation.
fn budget(op: Op) -> (u64, u64) {
    match op {
        Key => (28, 500),
        Exchange => (14, 150),
        Enc | EncHonest => (70, 6000),
        Dec | DecGenuine => (80, 3000),
        DecChosen => (60, 3000),
        Talk => (60, 1500),
        Rng => (80, 9000),
    }
}

/// What is known about one comparison in the code.
struct Stat {
    runs: u64,
    print: u64,
    varies: bool,
    pointer: bool,
    outcomes: u8,
    gap: (u64, usize),
    bits: (u32, usize),
    low: (i64, usize),
    high: (i64, usize),
    given_up: u8,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Goal {
    Equal,
    EqualBits,
    Less,
    Greater,
}

struct Lab {
    p: Params,
    prop: String,
    op: Op,
    rng: Prng,
    rep: Report,
    keys: Keys,
    own: (Vec<u8>, Vec<u8>),
    pool: Vec<Fields>,
    stats: BTreeMap<usize, Stat>,
    edges: HashSet<usize>,
    runs: u64,
    watched: u64,
    limit: u64,
    settled: bool,
    judged: HashSet<u64>,
    /// parts of the input that matter for the present goal
    focus: Vec<(usize, usize, usize)>,
    /// the inputs tried before the search
    starts: Vec<Fields>,
    until: Option<Instant>,
    kept: Vec<String>,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut prop = String::new();
    let (mut seed, mut start, mut count, mut out, mut factor) = (1u64, 0u64, 1u64, String::new(), 100u64);
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--seed" => seed = args[i + 1].parse().expect("seed"),
            "--start" => start = args[i + 1].parse().expect("start"),
            "--count" => count = args[i + 1].parse().expect("count"),
            "--out" => out = args[i + 1].clone(),
            "--extra" => factor = args[i + 1].parse().expect("factor"),
            other => {
                prop = other.to_string();
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    std::panic::set_hook(Box::new(|info| {
        if !report::in_call() {
            eprintln!("{}", info);
        }
    }));
    let p = params();
    if let Err(e) = refntru::selftest::all(&p) {
        eprintln!("steer: {}", e);
        std::process::exit(3);
    }
    if !monitors::sizes_fit(&p) {
        eprintln!("steer: array lengths do not fit the parameter set");
        std::process::exit(3);
    }
    let mut rep = Report::new(&out);
    tracer::guard(&out);
    let mut kept = vec![];
    for case in start..start + count {
        rep.begin(case);
        for op in plan(&prop) {
            let mut rng = Prng::new(seed, &format!("steer-{}-{:?}", prop, op), case);
            let keys = loop {
                let u = gen::plain_fg(&mut rng, &p);
                // with a sum of zero, messages of any weight come through
                let sum: i32 = p.sample_fg(&u).0.iter().map(|c| gen::centred(*c)).sum();
                if op == DecChosen && p.is_hps() && sum != 0 {
                    continue;
                }
                if let Some(k) = p.keypair(&u, &rng.arr::<32>()) {
                    break k;
                }
            };
            let mut lab = Lab {
                p,
                prop: prop.clone(),
                op,
                rng,
                rep,
                own: (keys.pk.clone(), keys.sk.clone()),
                keys,
                pool: vec![],
                stats: BTreeMap::new(),
                edges: HashSet::new(),
                runs: 0,
                watched: 0,
                limit: 0,
                settled: false,
                judged: HashSet::new(),
                focus: vec![],
                starts: vec![],
                until: None,
                kept: vec![],
            };
            lab.go(factor);
            rep = lab.rep;
            kept.extend(lab.kept);
            tracer::unmute();
            if !rep.violations.is_empty() {
                break;
            }
        }
        if !rep.violations.is_empty() {
            break;
        }
    }
    if prop == "corpus" && !out.is_empty() {
        std::fs::write(format!("{}.corpus", out), kept.join("\n")).expect("steer: corpus");
    }
    rep.finish();
    std::process::exit(if rep.violations.is_empty() { 0 } else { 1 });
}

fn state_of(f: &Fields) -> (AesState, Drbg) {
    corpus::state_of(&f[0])
}

fn lengths(f: &Fields) -> Vec<usize> {
    corpus::lengths(&f[1])
}

impl Lab {
    /// An input of the given kind.
    fn make(&mut self, sel: u64) -> Fields {
        let p = self.p;
        let rng = &mut self.rng;
        match self.op {
            Key => vec![gen::fg_seed(rng, &p, sel).0, gen::prf(rng)],
            Exchange => vec![gen::fg_seed(rng, &p, sel).0, gen::prf(rng), gen::rm_seed(rng, &p, sel / 2).0],
            Enc => {
                let pk = if sel % 3 == 0 { self.keys.pk.clone() } else { gen::odd_pk(rng, &p, sel).0 };
                vec![pk, gen::rm_seed(rng, &p, sel).0]
            }
            EncHonest | Talk => vec![gen::rm_seed(rng, &p, sel).0],
            DecGenuine => vec![gen::rm_seed(rng, &p, sel).0, gen::prf(rng)],
            DecChosen => {
                let (a, b) = craft::weights(rng, &p, sel);
                let m = if sel % 5 == 4 { gen::trits(rng, p.n - 1, sel / 5).0 } else { craft::message(rng, &p, a, b) };
                let r = if sel % 6 == 0 { craft::blinding(rng, &p, sel / 6).0 } else { p.z3_to_zq(&gen::trits(rng, p.n - 1, sel / 2).0) };
                let m = gen::bytes_of(rng, &m[..p.n - 1]);
                let r = r[..p.n - 1].iter().map(|c| blind_byte(&p, *c)).collect();
                vec![m, r, gen::prf(rng)]
            }
            Dec => {
                let rm = gen::rm_seed(rng, &p, sel).0;
                let ct = p.encaps(&self.keys.pk, &rm).0;
                match sel % 6 {
                    0 => vec![ct, self.keys.sk.clone()],
                    1 => vec![craft::mutate_ct(rng, &p, &ct, sel / 6).0, self.keys.sk.clone()],
                    2 => vec![ct, craft::mutate_sk(rng, &p, &self.keys.sk, sel / 6).0],
                    3 => {
                        let r = craft::blinding(rng, &p, sel / 6).0;
                        let (a, b) = craft::weights(rng, &p, sel / 6);
                        let mut m = craft::message(rng, &p, a, b);
                        m.push(0);
                        vec![p.enc_raw(&self.keys.h, &r, &m), self.keys.sk.clone()]
                    }
                    4 => {
                        let m = craft::message(rng, &p, p.weight() / 2, p.weight() / 2);
                        let r = craft::blinding(rng, &p, sel / 6).0;
                        let prf = gen::prf(rng);
                        match craft::bench(rng, &p, &m, if sel % 4 == 0 { Spread::Edge } else { Spread::Full }) {
                            Some(b) => vec![b.ct.clone(), b.key(&r, &prf)],
                            None => vec![ct, self.keys.sk.clone()],
                        }
                    }
                    _ => {
                        // a key under which the coefficients of the ciphertext show directly
                        let one = craft::monomial(&p, 0, false);
                        let hinv = if sel % 12 == 5 { one.clone() } else { vec![0; p.n] };
                        let s = Sk { f: one.clone(), f3: one, hinv, prf: rng.arr::<32>() };
                        let c: Vec<u32> = (0..p.n).map(|_| rng.below(3) as u32 * (p.q() - 1) % p.q()).collect();
                        vec![p.pack_sq(&c), p.build_sk(&s)]
                    }
                }
            }
            Rng => {
                let mut s = rng.bytes(52);
                match sel % 4 {
                    0 => s = vec![0; 52],
                    1 => {
                        for x in s.iter_mut().skip(32 + (sel / 4) as usize % 16).take(16) {
                            *x = 0xff;
                        }
                    }
                    2 => s[48..].copy_from_slice(&[1, 0, 0, 0]),
                    _ => {}
                }
                let mut l = vec![];
                for _ in 0..3 {
                    let n = match rng.below(5) {
                        0 => 16 * rng.below(8),
                        1 => rng.below(4) * 4096,
                        2 => 0,
                        _ => rng.below(700),
                    } as u32;
                    l.extend_from_slice(&n.to_le_bytes());
                }
                let init = if sel % 3 == 0 { vec![0; 48] } else { rng.bytes(48) };
                vec![s, l, init]
            }
        }
    }

    /// The traced run.
    fn run(&mut self, f: &Fields) {
        // same places every time: code looks at addresses, too
        let turn = imp::restart(0);
        self.run_placed(f);
        imp::restart(turn);
    }

    fn run_placed(&mut self, f: &Fields) {
        self.runs += 1;
        self.rep.add("steered runs", 1);
        match self.op {
            Key => {
                let mut d = f[0].clone();
                d.extend_from_slice(&f[1]);
                tracer::start();
                let _ = imp::keypair_rng(&mut Script::new(&d), 0);
            }
            Enc => {
                tracer::start();
                let _ = imp::enc(&f[0], &f[1], 0);
            }
            EncHonest => {
                let pk = self.keys.pk.clone();
                tracer::start();
                let _ = imp::enc(&pk, &f[0], 0);
            }
            Dec => {
                tracer::start();
                let _ = imp::dec(&f[0], &f[1], 0);
            }
            DecGenuine | DecChosen => {
                let (ct, sk) = self.opened(f);
                tracer::start();
                let _ = imp::dec(&ct, &sk, 0);
            }
            Talk => {
                tracer::start();
                if let Ok((ct, _)) = imp::enc(&self.own.0, &f[0], 0) {
                    let _ = imp::dec(&ct, &self.own.1, 0);
                }
            }
            Exchange => {
                tracer::start();
                if let Ok((pk, sk)) = imp::keypair(&f[0], &f[1], 0) {
                    if let Ok((ct, _)) = imp::enc(&pk, &f[2], 0) {
                        let _ = imp::dec(&ct, &sk, 0);
                    }
                }
            }
            Rng => {
                let (mut a, _) = state_of(f);
                let l = lengths(f);
                let seed: [u8; 48] = f[2][..].try_into().unwrap();
                let mut bufs: Vec<Vec<u8>> = l.iter().map(|n| vec![0; *n]).collect();
                tracer::start();
                for b in bufs.iter_mut() {
                    let _ = imp::guard(|| a.randombytes(b));
                }
                let _ = imp::guard(|| Ok(a.randombytes_init(seed)));
            }
        }
        tracer::pause();
    }

    /// Ciphertext and secret key of a decapsulation.
    fn opened(&self, f: &Fields) -> (Vec<u8>, Vec<u8>) {
        let p = &self.p;
        let mut sk = self.keys.sk.clone();
        let at = sk.len() - 32;
        match self.op {
            DecGenuine => {
                sk[at..].copy_from_slice(&f[1]);
                (p.encaps(&self.keys.pk, &f[0]).0, sk)
            }
            DecChosen => {
                let mut m: Vec<u32> = f[0].iter().map(|b| *b as u32 % 3).collect();
                let mut r: Vec<u32> = f[1].iter().map(|b| blind_value(p, *b)).collect();
                m.push(0);
                r.push(0);
                sk[at..].copy_from_slice(&f[2]);
                (craft::any_weight(p, &self.keys.h, &r, &m), sk)
            }
            _ => (f[0].clone(), f[1].clone()),
        }
    }

    /// Run, remember what was compared, judge if something new was reached.
    fn observe(&mut self, f: &Fields) -> bool {
        self.run(f);
        self.watched += 1;
        let seen = tracer::sites();
        let mut news = 0u64;
        let mut keep = None;
        for e in tracer::edges() {
            if self.edges.insert(e) {
                news += 1;
            }
        }
        for (slot, s) in &seen {
            let at = self.pool.len();
            let watched = self.watched;
            let st = self.stats.entry(*slot).or_insert_with(|| Stat {
                runs: 0,
                print: s.print,
                // first met in a later run: the way there depends on the input
                varies: watched > 1,
                pointer: false,
                outcomes: 0,
                gap: (u64::MAX, 0),
                bits: (u32::MAX, 0),
                low: (i64::MAX, 0),
                high: (i64::MIN, 0),
                given_up: 0,
            });
            st.runs += 1;
            st.varies |= s.print != st.print;
            st.pointer |= s.size == 8 && s.pairs[..(s.hits as usize).min(s.pairs.len())].iter().any(|x| is_pointer(x.0) || is_pointer(x.1));
            let fresh = s.outcomes & !st.outcomes;
            st.outcomes |= s.outcomes;
            if fresh != 0 && !st.pointer {
                news += 1;
                keep = Some(at);
            }
            if st.pointer {
                continue;
            }
            if s.gap < st.gap.0 {
                st.gap = (s.gap, at);
                keep = Some(at);
            }
            if s.bits < st.bits.0 {
                st.bits = (s.bits, at);
                keep = Some(at);
            }
            if s.low < st.low.0 {
                st.low = (s.low, at);
                keep = Some(at);
            }
            if s.high > st.high.0 {
                st.high = (s.high, at);
                keep = Some(at);
            }
        }
        if keep.is_some() {
            self.pool.push(f.clone());
        }
        if self.settled && news > 0 {
            self.rep.add("inputs reaching something new by search", 1);
            self.judge(f);
            for _ in 0..4 {
                let g = self.mutate(f);
                self.judge(&g);
            }
            if self.op == DecChosen {
                // the same message where nothing else is wrong
                let mut g = f.clone();
                g[1].iter_mut().for_each(|b| *b %= 3);
                self.judge(&g);
            }
        }
        news > 0
    }

    /// For other instruments.
    fn keep(&mut self, f: &Fields) {
        let line = match self.op {
            Key => format!("key {}{}", hex(&f[0]), hex(&f[1])),
            Enc => format!("enc {} {}", hex(&f[0]), hex(&f[1])),
            Dec | DecGenuine | DecChosen => {
                let (ct, sk) = self.opened(f);
                format!("dec {} {}", hex(&ct), hex(&sk))
            }
            Rng => format!("rng {} {} {}", hex(&f[0]), hex(&f[1]), hex(&f[2])),
            _ => return,
        };
        self.kept.push(line);
    }

    fn go(&mut self, factor: u64) {
        let (first, search) = budget(self.op);
        if self.op == Talk {
            if let Ok(x) = imp::keypair(&self.rng.bytes(self.p.fg_bytes()), &self.rng.bytes(32), 0) {
                self.own = x;
            }
        }
        let off = self.rng.below(1 << 20) as u64;
        for i in 0..first {
            let f = self.make(if i % 2 == 0 { i / 2 } else { off + i });
            if self.observe(&f) && self.prop == "corpus" {
                self.keep(&f);
            }
            self.starts.push(f.clone());
            self.judge(&f);
            if !self.rep.violations.is_empty() {
                return;
            }
        }
        if self.prop == "C10" {
            self.repeat();
        }
        // comparisons the data has no part in need no further attention
        let n = self.watched;
        for (slot, st) in self.stats.iter_mut() {
            st.varies |= st.runs != n;
            if !st.varies || st.pointer {
                tracer::mute(*slot);
            }
        }
        self.settled = true;
        let op = format!("{:?}", self.op);
        self.rep.add(&format!("{}: places where something is compared", op), self.stats.len() as u64);
        let varying = self.stats.values().filter(|s| s.varies && !s.pointer).count() as u64;
        self.rep.add(&format!("{}: of these decided by the input", op), varying);
        self.limit = self.runs + search * factor / 100;
        self.until = Some(Instant::now() + Duration::from_millis(450 * factor));
        while self.goes_on() {
            let Some((slot, goal)) = self.next_goal() else { break };
            let done = self.aim(slot, goal);
            let st = self.stats.get_mut(&slot).unwrap();
            st.given_up |= 1 << goal as u8;
            self.focus.clear();
            self.rep.class(if done { "outcome reached by search" } else { "outcome not reached" });
        }
        if tracer::lost() > 0 {
            self.rep.add("comparisons that found no place in the table", tracer::lost());
        }
    }

    /// The same input again and again: does a comparison notice?
    fn repeat(&mut self) {
        let f = self.make(0);
        tracer::tick();
        let first = self.result(&f);
        let mut prints: BTreeMap<usize, (u64, bool)> = BTreeMap::new();
        let mut suspicious = false;
        let mut left = 24;
        let mut done = 0;
        while left > 0 {
            left -= 1;
            done += 1;
            self.run(&f);
            for (slot, s) in tracer::sites() {
                if s.pairs[..(s.hits as usize).min(s.pairs.len())].iter().any(|x| s.size == 8 && (is_pointer(x.0) || is_pointer(x.1))) {
                    continue;
                }
                let e = prints.entry(slot).or_insert((s.print, false));
                if e.0 != s.print && !suspicious && done > 2 {
                    suspicious = true;
                    left += if self.op == Dec { 1500 } else { 4200 };
                    self.rep.class("a comparison depends on the history");
                }
            }
            let r = self.result(&f);
            if r != first {
                self.rep.violation(
                    format!("{:?}: repetition {} of the same call gave a different result", self.op, done),
                    vec![("input", f.iter().map(|x| hex(x)).collect::<Vec<_>>().join(" "))],
                );
                return;
            }
            self.rep.eval(fnv(&[&first, &[done as u8]]), true);
        }
    }

    fn next_goal(&self) -> Option<(usize, Goal)> {
        // places met in the fewest runs first
        let mut best: Option<(u64, usize, Goal)> = None;
        for (slot, s) in &self.stats {
            if !s.varies || s.pointer {
                continue;
            }
            let goals = [
                (Goal::Equal, s.outcomes & EQ == 0),
                (Goal::Less, s.outcomes & (LT | SLT) == 0),
                (Goal::Greater, s.outcomes & (GT | SGT) == 0),
                (Goal::EqualBits, s.outcomes & EQ == 0),
            ];
            for (g, open) in goals {
                if open && s.given_up & (1 << g as u8) == 0 {
                    let rank = (g as u64) << 32 | s.runs;
                    if best.map(|b| rank < b.0).unwrap_or(true) {
                        best = Some((rank, *slot, g));
                    }
                }
            }
        }
        best.map(|b| (b.1, b.2))
    }

    fn reached(&self, slot: usize, goal: Goal) -> bool {
        let o = self.stats[&slot].outcomes;
        match goal {
            Goal::Equal | Goal::EqualBits => o & EQ != 0,
            Goal::Less => o & (LT | SLT) != 0,
            Goal::Greater => o & (GT | SGT) != 0,
        }
    }

    /// Distance of the best input so far, and that input.
    fn best(&self, slot: usize, goal: Goal) -> (i128, usize) {
        let s = &self.stats[&slot];
        match goal {
            Goal::Equal => (s.gap.0 as i128, s.gap.1),
            Goal::EqualBits => (s.bits.0 as i128, s.bits.1),
            Goal::Less => (s.low.0 as i128, s.low.1),
            Goal::Greater => (-(s.high.0 as i128), s.high.1),
        }
    }

    /// The clock only ends the search, it decides nothing.
    fn goes_on(&self) -> bool {
        self.runs < self.limit && self.rep.violations.is_empty() && self.until.map_or(true, |t| Instant::now() < t)
    }

    /// Distance of the last run from the goal.
    fn distance(&self, slot: usize, goal: Goal) -> i128 {
        match tracer::site(slot) {
            None => i128::MAX,
            Some(s) => match goal {
                Goal::Equal => s.gap as i128,
                Goal::EqualBits => s.bits as i128,
                Goal::Less => s.low as i128,
                Goal::Greater => -(s.high as i128),
            },
        }
    }

    /// Which parts of the input have a say in the comparison?
    fn find_focus(&mut self, slot: usize, base: &Fields) {
        self.focus.clear();
        self.observe(base);
        let print = tracer::site(slot).map(|s| s.print);
        let mut focus = vec![];
        for (k, lo, hi) in self.sections(base) {
            for _ in 0..2 {
                let mut g = base.clone();
                self.rng.fill(&mut g[k][lo..hi]);
                self.observe(&g);
                if tracer::site(slot).map(|s| s.print) != print {
                    focus.push((k, lo, hi));
                    break;
                }
            }
        }
        self.focus = focus;
    }

    fn aim(&mut self, slot: usize, goal: Goal) -> bool {
        let (patience, local) = match self.op {
            Key | Exchange => (150, 40),
            Rng => (250, 50),
            _ => (600, 70),
        };
        let mut idle = 0;
        let mut spent = 0;
        let at = self.best(slot, goal).1;
        if at >= self.pool.len() {
            return false;
        }
        let mut base = self.pool[at].clone();
        self.find_focus(slot, &base);
        self.observe(&base);
        let mut d = self.distance(slot, goal);
        let mut fresh = true;
        while self.goes_on() && spent < patience {
            if self.reached(slot, goal) {
                return true;
            }
            if fresh {
                fresh = false;
                for g in self.placements(slot, &base, goal) {
                    if !self.goes_on() {
                        return false;
                    }
                    self.observe(&g);
                    if self.reached(slot, goal) {
                        return true;
                    }
                    let e = self.distance(slot, goal);
                    if e < d {
                        d = e;
                        base = g;
                        fresh = true;
                        idle = 0;
                    }
                }
                if fresh {
                    spent += 10;
                    continue;
                }
            }
            let g = if goal == Goal::Equal && idle % 4 == 1 {
                self.observe(&base);
                let near = tracer::site(slot).map(|s| s.near.1.wrapping_sub(s.near.0)).unwrap_or(0);
                self.shift(&base, near as i64)
            } else if goal == Goal::Equal && idle % 4 == 3 {
                self.observe(&base);
                let near = tracer::site(slot).map(|s| s.near.1.abs_diff(s.near.0)).unwrap_or(0);
                self.recount(&base, near)
            } else if idle % 8 == 6 {
                let o = self.pool[self.rng.below(self.pool.len())].clone();
                self.cross(&base, &o)
            } else {
                self.mutate(&base)
            };
            self.observe(&g);
            let e = self.distance(slot, goal);
            if e < d {
                idle = 0;
                fresh = goal == Goal::Equal && e < 1 << 16 && self.rng.chance(4);
            } else {
                idle += 1;
                spent += 1;
            }
            if e <= d {
                d = e;
                base = g;
            }
            if idle > local {
                // elsewhere
                idle = 0;
                base = self.starts[self.rng.below(self.starts.len())].clone();
                self.observe(&base);
                d = self.distance(slot, goal);
                if d == i128::MAX {
                    // few inputs get as far as this comparison
                    base = self.pool[self.best(slot, goal).1].clone();
                    self.observe(&base);
                    d = self.distance(slot, goal);
                }
                fresh = self.rng.chance(2);
            }
        }
        self.reached(slot, goal)
    }

    /// Variants of the input with the wanted operand in the place of the actual one.
    fn placements(&mut self, slot: usize, base: &Fields, goal: Goal) -> Vec<Fields> {
        self.run(base);
        let mut out: Vec<Fields> = vec![];
        let Some(s) = tracer::site(slot) else { return out };
        for t in tracer::strings().iter().filter(|t| t.pc == s.pc) {
            for (a, b) in [(&t.a[..t.len], &t.b[..t.len]), (&t.b[..t.len], &t.a[..t.len])] {
                for (k, field) in base.iter().enumerate() {
                    for i in 0..field.len().saturating_sub(a.len() - 1) {
                        if field[i..i + a.len()] == *a {
                            let mut g = base.clone();
                            g[k][i..i + a.len()].copy_from_slice(b);
                            out.push(g);
                        }
                    }
                }
            }
        }
        let mut pairs = vec![s.near];
        pairs.extend_from_slice(&s.pairs[..(s.hits as usize).min(s.pairs.len())]);
        pairs.dedup();
        pairs.truncate(4);
        let mask = if s.size == 8 { u64::MAX } else { (1u64 << (8 * s.size)) - 1 };
        for (x, y) in pairs {
            for (from, to) in [(x, y), (y, x)] {
                let wanted = match goal {
                    Goal::Equal | Goal::EqualBits => to,
                    _ if from == x => if goal == Goal::Less { to.wrapping_sub(1) } else { to.wrapping_add(1) },
                    _ => if goal == Goal::Less { to.wrapping_add(1) } else { to.wrapping_sub(1) },
                } & mask;
                self.place(base, from & mask, wanted, s.size as usize, &mut out);
                if s.size > 1 {
                    for d in [1u64, 2, 3, 4, !0, !1, !2] {
                        let (a, b) = (from.wrapping_sub(d) & mask, wanted.wrapping_sub(d) & mask);
                        if a > 255 || b > 255 {
                            self.place(base, a, b, s.size as usize, &mut out);
                        }
                    }
                }
            }
        }
        let most = match self.op {
            Key | Exchange => 30,
            _ => 160,
        };
        if out.len() > most {
            // keep the first, thin out the rest
            let mut rest = out.split_off(most / 4);
            self.rng.shuffle(&mut rest);
            rest.truncate(most - most / 4);
            out.extend(rest);
        }
        out
    }

    fn place(&mut self, base: &Fields, from: u64, to: u64, size: usize, out: &mut Vec<Fields>) {
        let logq = self.p.logq;
        for k in 0..base.len() {
            // as whole bytes
            for w in [size, 4, 2, 1] {
                if w > size || (w < 8 && (from >> (8 * w) != 0 || to >> (8 * w) != 0)) {
                    continue;
                }
                for big in [false, true] {
                    if big && w == 1 {
                        continue;
                    }
                    let enc = |x: u64| -> Vec<u8> {
                        if big {
                            x.to_be_bytes()[8 - w..].to_vec()
                        } else {
                            x.to_le_bytes()[..w].to_vec()
                        }
                    };
                    let (a, b) = (enc(from), enc(to));
                    let hits: Vec<usize> = (0..base[k].len().saturating_sub(w - 1)).filter(|i| base[k][*i..*i + w] == a[..]).collect();
                    if hits.is_empty() {
                        continue;
                    }
                    let mut all = base.clone();
                    for i in &hits {
                        all[k][*i..*i + w].copy_from_slice(&b);
                    }
                    out.push(all);
                    if hits.len() > 1 {
                        for i in hits.iter().take(24) {
                            let mut g = base.clone();
                            g[k][*i..*i + w].copy_from_slice(&b);
                            out.push(g);
                        }
                    }
                }
            }
            // as packed numbers
            for (w, shift) in [(logq, 0), (30, 0), (30, 2)] {
                let (a, b) = (from >> shift, to >> shift);
                if a >> w != 0 || b >> w != 0 || base[k].len() * 8 < w {
                    continue;
                }
                for start in [0, if base[k].len() == self.p.sk_bytes() { 16 * self.p.s3_bytes() } else { 0 }, if base[k].len() == self.p.fg_bytes() { 8 * self.p.iid_bytes() } else { 0 }] {
                    let n = (base[k].len() * 8 - start) / w;
                    let hits: Vec<usize> = (0..n).filter(|i| bits(&base[k], start + i * w, w) == a).collect();
                    for i in hits.iter().take(12) {
                        let mut g = base.clone();
                        set_bits(&mut g[k], start + i * w, w, b);
                        out.push(g);
                    }
                }
            }
        }
    }

    /// Change some bytes by as much as the operands are apart, in either direction.
    fn shift(&mut self, f: &Fields, by: i64) -> Fields {
        let mut g = f.clone();
        let (k, lo, hi) = self.section(f);
        let mut left = if self.rng.chance(4) { by.wrapping_neg() } else { by }.clamp(-100_000, 100_000);
        for _ in 0..2 * (hi - lo) {
            if left == 0 {
                break;
            }
            let i = lo + self.rng.below(hi - lo);
            let old = g[k][i] as i64;
            let new = (old + left).clamp(0, 255);
            g[k][i] = new as u8;
            left -= new - old;
        }
        g
    }

    /// Turn as many digits from one value to another as the operands are apart.
    fn recount(&mut self, f: &Fields, by: u64) -> Fields {
        let mut g = f.clone();
        let (k, lo, hi) = self.section(f);
        let from = self.rng.below(3) as u8;
        let to = (from + 1 + self.rng.below(2) as u8) % 3;
        let mut at: Vec<usize> = (lo..hi).filter(|i| g[k][*i] % 3 == from).collect();
        self.rng.shuffle(&mut at);
        let by = if self.rng.chance(3) { by / 2 } else { by };
        for i in at.into_iter().take(by.clamp(1, 2000) as usize) {
            g[k][i] = to;
        }
        g
    }

    /// The parts of the input that the operations treat as one.
    fn sections(&self, f: &Fields) -> Vec<(usize, usize, usize)> {
        let p = &self.p;
        let mut r = vec![];
        for (k, x) in f.iter().enumerate() {
            let len = x.len();
            let cuts = if k == 1 && self.op == Dec {
                vec![0, p.s3_bytes(), 2 * p.s3_bytes(), 2 * p.s3_bytes() + p.sq_bytes(), len]
            } else if k == 0 && self.op == Rng {
                vec![0, 32, 48, 52]
            } else if len == p.fg_bytes() || len == p.rm_bytes() {
                vec![0, p.iid_bytes(), len]
            } else {
                vec![0, len]
            };
            r.extend(cuts.windows(2).map(|c| (k, c[0], c[1])));
        }
        r
    }

    fn section(&mut self, f: &Fields) -> (usize, usize, usize) {
        if !self.focus.is_empty() && !self.rng.chance(12) {
            return *self.rng.pick(&self.focus);
        }
        let all = self.sections(f);
        *self.rng.pick(&all)
    }

    fn cross(&mut self, a: &Fields, b: &Fields) -> Fields {
        let mut g = a.clone();
        let (k, lo, hi) = self.section(a);
        if g[k].len() == b[k].len() {
            let n = hi - lo;
            let (mut i, mut j) = (lo + self.rng.below(n + 1), lo + self.rng.below(n + 1));
            if i > j {
                std::mem::swap(&mut i, &mut j);
            }
            g[k][i..j].copy_from_slice(&b[k][i..j]);
        }
        g
    }

    fn mutate(&mut self, f: &Fields) -> Fields {
        let p = self.p;
        let mut g = f.clone();
        let (k, lo, hi) = self.section(f);
        let rng = &mut self.rng;
        let times = match rng.below(8) {
            0 => 8,
            1 => 1 + rng.below(40),
            2 | 3 => 2,
            _ => 1,
        };
        let x = &mut g[k][lo..hi];
        let n = x.len();
        for _ in 0..times {
            let i = rng.below(n);
            let longest = *rng.pick(&[4, 24, n]);
            let len = (1 + rng.below(longest)).min(n - i);
            match rng.below(15) {
                0 => x[i] ^= 1 << rng.below(8),
                1 => x[i] = rng.u8(),
                2 => x[i] = *rng.pick(&gen::EDGE),
                3 => x[i] = x[i].wrapping_add(*rng.pick(&[1, 2, 255, 254])),
                4 | 12 | 13 => {
                    let b = if rng.chance(2) { *rng.pick(&gen::EDGE) } else { x[rng.below(n)] };
                    x[i..i + len].fill(b);
                }
                5 => rng.fill(&mut x[i..i + len]),
                6 | 14 => {
                    let s = rng.below(n - len + 1);
                    x.copy_within(s..s + len, i);
                }
                7 => {
                    let by = 1 + rng.below(n.max(2) - 1);
                    x.rotate_left(by % n);
                }
                8 => {
                    let j = rng.below(n);
                    x.swap(i, j);
                }
                9 | 10 => {
                    // a packed coefficient
                    let w = p.logq;
                    if n * 8 >= w {
                        let q = p.q() as u64;
                        let at = rng.below(n * 8 / w);
                        let v = *rng.pick(&[0, 1, 2, q - 1, q - 2, q / 2, q / 2 - 1, q / 2 + 1, rng.clone().u64() % q]);
                        set_bits(x, at * w, w, v);
                    }
                }
                _ => {
                    // a small step of a word
                    let w = *rng.pick(&[2usize, 4, 8]);
                    if i + w <= n {
                        let mut b = [0u8; 8];
                        b[..w].copy_from_slice(&x[i..i + w]);
                        let v = u64::from_le_bytes(b).wrapping_add(rng.range(-16, 16) as u64);
                        x[i..i + w].copy_from_slice(&v.to_le_bytes()[..w]);
                    }
                }
            }
        }
        g
    }

    /// All output bytes of one untraced call.
    fn result(&mut self, f: &Fields) -> Vec<u8> {
        let r = match self.op {
            Key => imp::keypair(&f[0], &f[1], 0).map(|x| [x.0, x.1].concat()),
            Enc => imp::enc(&f[0], &f[1], 0).map(|x| [x.0, x.1].concat()),
            EncHonest => imp::enc(&self.keys.pk, &f[0], 0).map(|x| [x.0, x.1].concat()),
            Dec | DecGenuine | DecChosen => {
                let (ct, sk) = self.opened(f);
                imp::dec(&ct, &sk, 0)
            }
            Rng => {
                let (mut a, _) = state_of(f);
                let mut out = vec![];
                for n in lengths(f) {
                    let mut b = vec![0; n];
                    if let Err(e) = imp::guard(|| a.randombytes(&mut b)) {
                        out.extend(e.to_string().into_bytes());
                    }
                    out.extend(b);
                }
                Ok(out)
            }
            Talk | Exchange => Ok(vec![]),
        };
        r.unwrap_or_else(|e| e.to_string().into_bytes())
    }

    fn judge(&mut self, f: &Fields) {
        let id = fnv(&f.iter().map(|x| &x[..]).collect::<Vec<_>>());
        if !self.judged.insert(id) || !self.rep.violations.is_empty() {
            return;
        }
        tracer::tick();
        let r = self.verdict(f);
        let name = format!("{:?}: inputs judged", self.op);
        match r {
            Ok(counted) => {
                if counted {
                    self.rep.class(&name);
                    self.rep.eval(id, true);
                }
            }
            Err(e) => {
                self.rep.class(&name);
                self.rep.eval(id, true);
                let what = format!("{} (input found by following the comparisons of the code)", e);
                let names: &[&str] = match self.op {
                    Key => &["randomness", "rejection key"],
                    Enc => &["pk", "randomness"],
                    EncHonest | Talk => &["randomness"],
                    Dec => &["ct", "sk"],
                    DecGenuine => &["randomness of the sender", "rejection key"],
                    DecChosen => &["message", "blinding polynomial", "rejection key"],
                    Exchange => &["key randomness", "rejection key", "encapsulation randomness"],
                    Rng => &["state", "request lengths", "seed"],
                };
                let mut det: Vec<(&str, String)> = names.iter().zip(f).map(|(n, x)| (*n, hex(x))).collect();
                if matches!(self.op, EncHonest | DecGenuine | DecChosen) {
                    det.push(("honest sk", hex(&self.keys.sk)));
                    det.push(("honest pk", hex(&self.keys.pk)));
                }
                if self.op == Talk {
                    det.push(("sk", hex(&self.own.1)));
                    det.push(("pk", hex(&self.own.0)));
                }
                self.rep.violation(what, det);
            }
        }
    }

    /// Ok(false): the property says nothing about this input.
    fn verdict(&mut self, f: &Fields) -> Result<bool, String> {
        let p = self.p;
        let prop = self.prop.clone();
        let fail = |op: &'static str| move |e: imp::Fail| format!("{} {}", op, e);
        if prop == "C10" {
            return self.stable(f);
        }
        if prop == "corpus" {
            if self.settled {
                self.keep(f);
            }
            return Ok(true);
        }
        match self.op {
            Key => {
                let (ff, g) = p.sample_fg(&f[0]);
                let degenerate = is_zero(&ff) || is_zero(&g);
                let mut d = f[0].clone();
                d.extend_from_slice(&f[1]);
                let mut s = Script::new(&d);
                let (pk, sk) = imp::keypair_rng(&mut s, 0xa5).map_err(fail("key generation"))?;
                match prop.as_str() {
                    "C02" if degenerate => return Ok(false),
                    "C02" => {
                        if let Some(w) = keys_wrong(&p, &f[0], &f[1], &pk, &sk) {
                            return Err(w);
                        }
                    }
                    "C06" if degenerate => return Ok(false),
                    "C06" => {
                        let w = relations_wrong(&p, &pk, &sk);
                        if !w.is_empty() {
                            return Err(w.join("; "));
                        }
                    }
                    "C07" => {
                        let fb = p.pack_s3(&ff);
                        if sk[..fb.len()] != fb[..] {
                            return Err("secret polynomial is not the specified sample".into());
                        }
                        if degenerate {
                            return Ok(true);
                        }
                        if short_poly(&p, &p.unpack_rq0(&pk), &ff)? != g {
                            return Err("generator polynomial is not the specified sample".into());
                        }
                    }
                    "C09" => {
                        if s.draws != [p.fg_bytes(), 32] || s.inits != 0 {
                            return Err(format!("key generation requested {:?} bytes", s.draws));
                        }
                    }
                    "C17" => {
                        if let Some(w) = keys_uncanonical(&p, &pk, &sk) {
                            return Err(w);
                        }
                    }
                    _ => {}
                }
            }
            Enc | EncHonest => {
                let (pk, rm) = if self.op == Enc { (f[0].clone(), &f[1]) } else { (self.keys.pk.clone(), &f[0]) };
                let mut s = Script::new(rm);
                let (ct, k) = imp::enc_rng(&pk, &mut s, 0x5a).map_err(fail("encapsulation"))?;
                match prop.as_str() {
                    "C03" => {
                        let (ect, ek) = p.encaps(&pk, rm);
                        if ct != ect {
                            return Err(format!("ciphertext differs from the specification: {}", diff(&ct, &ect)));
                        }
                        if k[..] != ek[..] {
                            return Err("shared key differs from the specification".into());
                        }
                    }
                    "C07" => {
                        let (r, m) = p.sample_rm(rm);
                        let e = p.decaps(&self.keys.sk, &ct);
                        if !e.r_ok || !e.m_ok {
                            return Err("sampled pair lies outside the sample space".into());
                        }
                        if e.r != r || e.m != m {
                            return Err("the encrypted pair is not the specified sample".into());
                        }
                        if k[..] != p.shared(&r, &m)[..] {
                            return Err("the shared key is not derived from the sampled pair".into());
                        }
                    }
                    "C09" => {
                        if s.draws != [p.rm_bytes()] || s.inits != 0 {
                            return Err(format!("encapsulation requested {:?} bytes", s.draws));
                        }
                    }
                    "C17" => {
                        if let Some(w) = q_field(&p, &ct, "ciphertext") {
                            return Err(w);
                        }
                    }
                    "C18" => {
                        let pair = p.sample_rm(rm);
                        for _ in 0..3 {
                            let other = self.mutate(&vec![rm.clone()]).remove(0);
                            if p.sample_rm(&other) == pair {
                                continue;
                            }
                            let (ct2, k2) = imp::enc(&pk, &other, 0).map_err(fail("encapsulation"))?;
                            if ct == ct2 || k == k2 {
                                return Err(format!("two different pairs have the same {} (other randomness {})", if k == k2 { "shared key" } else { "ciphertext" }, hex(&other)));
                            }
                        }
                    }
                    _ => {}
                }
            }
            Dec | DecGenuine | DecChosen => {
                let (ct, sk) = self.opened(f);
                let k = imp::dec(&ct, &sk, 0x5a).map_err(fail("decapsulation"))?;
                match prop.as_str() {
                    "C04" | "C05" => {
                        let e = p.decaps(&sk, &ct);
                        if k[..] != e.key[..] {
                            return Err(format!("derived key differs from the specification (must be {}): got {}", if e.accepted { "accepted" } else { "rejected" }, hex(&k)));
                        }
                    }
                    "C18" => {
                        if p.decaps(&sk, &ct).accepted {
                            return Ok(false);
                        }
                        for t in 0..5 {
                            let (mut c, mut s) = (ct.clone(), sk.clone());
                            let same = match t {
                                0 | 1 | 2 => {
                                    let b = self.rng.below(8 * c.len());
                                    c[b / 8] ^= 1 << (b % 8);
                                    false
                                }
                                3 => {
                                    let b = 8 * (s.len() - 32) + self.rng.below(256);
                                    s[b / 8] ^= 1 << (b % 8);
                                    false
                                }
                                _ => {
                                    let i = self.rng.below(s.len() - 32);
                                    s[i] = self.rng.below(243) as u8;
                                    true
                                }
                            };
                            if p.decaps(&s, &c).accepted {
                                continue;
                            }
                            let k2 = imp::dec(&c, &s, 0).map_err(fail("decapsulation"))?;
                            if !same && k2 == k {
                                return Err("two rejected inputs share a derived key".into());
                            }
                            if same && k2 != k {
                                return Err("a rejection key depends on more than ciphertext and rejection secret".into());
                            }
                        }
                    }
                    _ => {}
                }
            }
            Talk => {
                let (ct, k1) = imp::enc(&self.own.0, &f[0], 0).map_err(fail("encapsulation"))?;
                let k2 = imp::dec(&ct, &self.own.1, 0).map_err(fail("decapsulation"))?;
                if k1 != k2 {
                    return Err("the two parties disagree".into());
                }
            }
            Exchange => {
                let (a, b) = p.sample_fg(&f[0]);
                if is_zero(&a) || is_zero(&b) {
                    return Ok(false);
                }
                let (pk, sk) = imp::keypair(&f[0], &f[1], 0).map_err(fail("key generation"))?;
                let (ct, k1) = imp::enc(&pk, &f[2], 0).map_err(fail("encapsulation"))?;
                let k2 = imp::dec(&ct, &sk, 0).map_err(fail("decapsulation"))?;
                if k1 != k2 {
                    return Err("the two parties disagree".into());
                }
            }
            Rng => {
                let (mut a, mut m) = state_of(f);
                let exact = prop == "C08";
                for n in lengths(f) {
                    let mut x = vec![0x77u8; n];
                    imp::guard(|| a.randombytes(&mut x)).map_err(fail("request"))?;
                    if exact {
                        let want = m.bytes(n);
                        if x != want {
                            return Err(format!("output of a {}-byte request differs from AES-256 CTR_DRBG: {}", n, diff(&x, &want)));
                        }
                        if let Some(w) = same_state(&a, &m) {
                            return Err(format!("state after the request differs from AES-256 CTR_DRBG: {}", w));
                        }
                    }
                }
                let seed: [u8; 48] = f[2][..].try_into().unwrap();
                imp::guard(|| Ok(a.randombytes_init(seed))).map_err(fail("seeding"))?;
                m.reseed(&seed);
                if exact {
                    if let Some(w) = same_state(&a, &m) {
                        return Err(format!("state after seeding differs from AES-256 CTR_DRBG: {}", w));
                    }
                }
            }
        }
        Ok(true)
    }

    /// The result of a call between other calls.
    fn stable(&mut self, f: &Fields) -> Result<bool, String> {
        let a = self.result(f);
        let near = self.mutate(f);
        let n1 = self.result(&near);
        if self.result(f) != a {
            return Err("the same call gave a different result after a similar one".into());
        }
        let far = self.make(1);
        self.result(&far);
        if self.result(&near) != n1 {
            return Err("the same call gave a different result after another history".into());
        }
        Ok(true)
    }
}

/// Coefficients of a blinding polynomial as bytes: mostly small ones.
fn blind_value(p: &Params, b: u8) -> u32 {
    let q = p.q();
    match b {
        252.. => [2, q - 2, 3, q - 3][b as usize - 252],
        _ => [0, 1, q - 1][b as usize % 3],
    }
}

fn blind_byte(p: &Params, c: u32) -> u8 {
    (0..=255).find(|b| blind_value(p, *b) == c).unwrap_or(252)
}

fn is_pointer(x: u64) -> bool {
    (0x5000_0000_0000..0x8000_0000_0000).contains(&x)
}

fn bits(b: &[u8], at: usize, w: usize) -> u64 {
    (0..w).map(|k| ((b[(at + k) / 8] >> ((at + k) % 8)) as u64 & 1) << k).sum()
}

fn set_bits(b: &mut [u8], at: usize, w: usize, v: u64) {
    for k in 0..w {
        let (i, s) = ((at + k) / 8, (at + k) % 8);
        b[i] = (b[i] & !(1 << s)) | ((((v >> k) & 1) as u8) << s);
    }
}
