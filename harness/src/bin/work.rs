//! C22: does every call cost about the same? Runs under callgrind, which counts
//! the instructions executed by each call.
//!   valgrind --tool=callgrind --instr-atstart=no --callgrind-out-file=FILE.cg
//!     work --seed S --start A --count N --out FILE [--corpus FILE]

use monitors::corpus::{self, Item};
use monitors::prng::Prng;
use monitors::report::Report;
use monitors::{craft, gen, hex, params, vg, Params};
use std::collections::BTreeMap;

const DUMP: usize = 0x43540000;
const ZERO: usize = 0x43540001;
const START: usize = 0x43540004;

/// Instructions that may be spent on every request besides those per byte.
const SLACK: u64 = 2000;

struct Counter {
    out: String,
    dumps: u64,
}

impl Counter {
    /// Instructions executed by the call.
    fn one(&mut self, item: &Item, rng: &mut Prng) -> u64 {
        monitors::imp::restart(0);
        vg::request(ZERO, 0, 0);
        item.run(rng);
        vg::request(DUMP, 0, 0);
        self.dumps += 1;
        let name = format!("{}.cg.{}", self.out, self.dumps);
        let text = std::fs::read_to_string(&name).unwrap_or_default();
        let _ = std::fs::remove_file(&name);
        let n = text.lines().filter_map(|l| l.strip_prefix("totals: ").or(l.strip_prefix("summary: "))).last().and_then(|x| x.trim().parse().ok());
        n.unwrap_or_else(|| {
            eprintln!("work: no count in {}", name);
            std::process::exit(3);
        })
    }
    /// The smaller of two counts: preparation done once does not matter.
    fn cost(&mut self, item: &Item, rng: &mut Prng) -> u64 {
        let a = self.one(item, rng);
        a.min(self.one(item, rng))
    }
}

struct Judge {
    c: Counter,
    /// cost of ordinary calls
    usual: BTreeMap<&'static str, u64>,
    widest: BTreeMap<&'static str, (u64, u64)>,
    dearest: BTreeMap<&'static str, (u64, Item)>,
}

impl Judge {
    fn judge(&mut self, item: Item, w: &str, rep: &mut Report, rng: &mut Prng) {
        let n = self.c.cost(&item, rng);
        let most = match &item {
            Item::Rng(_, l, _) => {
                let like = Item::Rng(state(rng), l.clone(), rng.arr::<48>());
                self.c.cost(&like, rng) + SLACK
            }
            _ => self.usual[item.name()],
        };
        rep.class(w);
        rep.eval(item.print(), true);
        if n > most + most / 4 {
            let mut det = vec![("instructions", n.to_string()), ("ordinary call", most.to_string())];
            match &item {
                Item::Key(s) => det.push(("randomness", hex(s))),
                Item::Enc(a, b) => det.extend([("pk", hex(a)), ("randomness", hex(b))]),
                Item::Dec(a, b) => det.extend([("ct", hex(a)), ("sk", hex(b))]),
                Item::Rng(s, l, _) => det.extend([("state", hex(s)), ("request lengths", format!("{:?}", l))]),
            }
            rep.violation(format!("{} executes {} instructions, an ordinary call {}", w, n, most), det);
        }
        if matches!(item, Item::Rng(..)) {
            return;
        }
        let name = item.name();
        let e = self.widest.entry(name).or_insert((u64::MAX, 0));
        *e = (e.0.min(n), e.1.max(n));
        if self.dearest.get(name).map_or(true, |d| d.0 < n) {
            self.dearest.insert(name, (n, item));
        }
    }
}

fn state(rng: &mut Prng) -> Vec<u8> {
    rng.bytes(52)
}

fn genuine(p: &Params, rng: &mut Prng, op: u64) -> Item {
    let mut s = rng.bytes(p.fg_bytes());
    s.extend(rng.bytes(32));
    if op == 0 {
        return Item::Key(s);
    }
    let (seed, prf) = s.split_at(p.fg_bytes());
    let k = p.keypair(seed, prf.try_into().unwrap()).expect("work: key");
    let rm = rng.bytes(p.rm_bytes());
    if op == 1 {
        return Item::Enc(k.pk, rm);
    }
    let ct = p.encaps(&k.pk, &rm).0;
    Item::Dec(ct, k.sk)
}

/// A variation of the input.
fn vary(item: &Item, rng: &mut Prng) -> Item {
    let mut go = |a: &Vec<u8>| {
        let mut x = a.clone();
        let n = 1 + rng.below(x.len());
        let n = if rng.chance(2) { n } else { n.min(8) };
        let at = rng.below(x.len() - n + 1);
        match rng.below(6) {
            0 => x[at..at + n].fill(*rng.pick(&[0, 1, 2, 127, 128, 255])),
            1 => rng.fill(&mut x[at..at + n]),
            2 => x[at..at + n].reverse(),
            3 => x[at..at + n].sort(),
            4 => x.rotate_left(at),
            _ => x[at] ^= 1 << rng.below(8),
        }
        x
    };
    match item {
        Item::Key(a) => Item::Key(go(a)),
        Item::Enc(a, b) => Item::Enc(go(a), go(b)),
        Item::Dec(a, b) => {
            let c = go(a);
            // often keep the key, so that the ciphertext still means something
            let k = if c[0] & 3 == 0 { go(b) } else { b.clone() };
            Item::Dec(c, k)
        }
        Item::Rng(..) => unreachable!(),
    }
}

fn task(p: &Params, seed: u64, idx: u64) -> (Item, String) {
    let mut rng = Prng::new(seed, "C22", idx);
    let sub = idx / 10;
    match idx % 10 {
        0 => {
            let (mut s, w) = gen::fg_seed(&mut rng, p, sub);
            s.extend(gen::prf(&mut rng));
            (Item::Key(s), format!("key generation, {}", w))
        }
        1 | 2 | 3 => {
            let sub = 3 * sub + idx % 10;
            let (pk, w) = gen::odd_pk(&mut rng, p, sub);
            let (rm, _) = gen::rm_seed(&mut rng, p, sub);
            (Item::Enc(pk, rm), format!("encapsulation, {}", w))
        }
        4 | 5 => {
            if let Item::Dec(ct, sk) = genuine(p, &mut rng, 2) {
                let sub = 2 * sub + idx % 10;
                return if idx % 2 == 0 {
                    let (ct, w) = craft::mutate_ct(&mut rng, p, &ct, sub);
                    (Item::Dec(ct, sk), format!("decapsulation, {}", w))
                } else {
                    let (sk, w) = craft::mutate_sk(&mut rng, p, &sk, sub);
                    (Item::Dec(ct, sk), format!("decapsulation, {}", w))
                };
            }
            unreachable!()
        }
        6 => {
            // accepted by a made-up key or nearly so
            let (ps, ms) = craft::weights(&mut rng, p, sub);
            let m = craft::message(&mut rng, p, ps, ms);
            match craft::bench(&mut rng, p, &m, craft::Spread::Full) {
                Some(b) => {
                    let (r, w) = craft::blinding(&mut rng, p, sub);
                    let sk = b.key(&r, &gen::prf(&mut rng));
                    (Item::Dec(b.ct, sk), format!("decapsulation, crafted, {}", w))
                }
                None => (genuine(p, &mut rng, 2), "decapsulation, genuine".into()),
            }
        }
        7 => (Item::Dec(gen::iid_bytes(&mut rng, p.ct_bytes(), sub).0, gen::iid_bytes(&mut rng, p.sk_bytes(), sub / 3).0), "decapsulation, patterns".into()),
        8 => (genuine(p, &mut rng, 1 + sub % 2), "genuine".into()),
        _ => {
            let mut s = state(&mut rng);
            match sub % 4 {
                0 => s[32..48].fill(255),
                1 => s.fill(0),
                2 => s[48..].copy_from_slice(&i32::MAX.to_le_bytes()),
                _ => {}
            }
            let l = (0..1 + rng.below(3)).map(|_| *rng.pick(&[0, 1, 15, 16, 17, 48, 1000, 4096, 20000])).collect();
            (Item::Rng(s, l, rng.arr::<48>()), "generator".into())
        }
    }
}

fn found(i: Item) -> (Item, String) {
    let w = format!("{}, found by search", i.name());
    (i, w)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (mut seed, mut start, mut count, mut out) = (1u64, 0u64, 1u64, String::new());
    let mut items = vec![];
    let mut i = 1;
    while i + 1 < args.len() {
        match args[i].as_str() {
            "--seed" => seed = args[i + 1].parse().expect("seed"),
            "--start" => start = args[i + 1].parse().expect("start"),
            "--count" => count = args[i + 1].parse().expect("count"),
            "--out" => out = args[i + 1].clone(),
            "--corpus" => items = corpus::read(&args[i + 1]),
            _ => {}
        }
        i += 2;
    }
    std::panic::set_hook(Box::new(|info| {
        if !monitors::report::in_call() {
            eprintln!("{}", info);
        }
    }));
    let p = params();
    if !monitors::sizes_fit(&p) || !vg::running_on_valgrind() || out.is_empty() {
        eprintln!("work: array lengths do not fit the parameter set, or nothing counts");
        std::process::exit(3);
    }
    let mut rep = Report::new(&out);
    rep.case = start;
    // everything is made before counting begins
    let mut rng = Prng::new(seed, "C22-ordinary", 0);
    let ordinary: Vec<Item> = (0..15).map(|i| genuine(&p, &mut rng, i % 3)).collect();
    let tasks: Vec<(Item, String)> = if items.is_empty() {
        (start..start + count).map(|i| task(&p, seed, i)).collect()
    } else {
        items.into_iter().skip(start as usize).take(count as usize).map(found).collect()
    };
    vg::request(START, 0, 0);
    let mut c = Counter { out: out.clone(), dumps: 0 };
    let mut usual: BTreeMap<&str, Vec<u64>> = BTreeMap::new();
    for i in &ordinary {
        usual.entry(i.name()).or_default().push(c.cost(i, &mut rng));
    }
    let usual: BTreeMap<&str, u64> = usual
        .into_iter()
        .map(|(k, mut v)| {
            v.sort();
            (k, v[v.len() / 2])
        })
        .collect();
    if usual.values().any(|n| *n < 10_000) {
        eprintln!("work: the calls are not counted: {:?}", usual);
        std::process::exit(3);
    }
    let mut j = Judge { c, usual, widest: BTreeMap::new(), dearest: BTreeMap::new() };
    for (k, (item, w)) in tasks.into_iter().enumerate() {
        rep.begin(start + k as u64);
        j.judge(item, &w, &mut rep, &mut rng);
        if rep.full() {
            break;
        }
    }
    // variations of the most expensive inputs so far
    for turn in 0..count / 2 {
        let name = ["decapsulation", "encapsulation", "decapsulation", "encapsulation", "key generation"][turn as usize % 5];
        if let Some((_, item)) = j.dearest.get(name) {
            let next = vary(item, &mut rng);
            j.judge(next, &format!("{}, variation of the most expensive", name), &mut rep, &mut rng);
        }
        if rep.full() {
            break;
        }
    }
    rep.sample(|| format!("instructions of an ordinary call {:?}; fewest and most over all inputs {:?}", j.usual, j.widest));
    rep.finish();
    std::process::exit(if rep.violations.is_empty() { 0 } else { 1 });
}
