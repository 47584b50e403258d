//! Bounded search over the real crate.  This is the stand-in for functions no contract reaches, and
//! the source of concrete failing inputs when a proof obligation fails.
//!
//! A *case* is a function from a tape of choices to Ok/Err.  Tapes are generated (recorded from a
//! seeded generator), enumerated (a family's `fixed` list) or replayed.
pub mod guard;
pub mod tree;

use std::collections::HashSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

/// choices made so far, visible to the parent process if this one dies
struct Shared { base: *mut u64, cap: usize }
impl Shared {
    fn new(path: Option<&str>) -> Shared {
        let cap = 1 << 20;
        match path {
            None => Shared { base: std::ptr::null_mut(), cap: 0 },
            Some(p) => Shared { base: guard::map_file(p, cap * 8) as *mut u64, cap },
        }
    }
    fn set(&self, i: usize, v: u64) {
        if i < self.cap { unsafe { self.base.add(i).write_volatile(v) } }
    }
}

pub struct Tape<'a> {
    pub data: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    shared: Option<&'a Shared>,
    want_log: bool,
    pub log: String,
    nontrivial: bool,
    skipped: bool,
}
impl<'a> Tape<'a> {
    pub fn raw(&mut self) -> u64 {
        let v = if self.pos < self.data.len() { self.data[self.pos] } else {
            let v = match &mut self.rng { Some(r) => r.next(), None => 0 };
            self.data.push(v);
            v
        };
        if let Some(s) = self.shared { s.set(self.pos + 2, v); s.set(1, self.pos as u64 + 1); }
        self.pos += 1;
        v
    }
    /// 0..n; the choice is stored reduced, so replays and shrinking see small numbers
    pub fn pick(&mut self, n: u64) -> u64 {
        let at = self.pos;
        let v = self.raw();
        let r = if n == 0 { 0 } else { v % n };
        self.data[at] = r;
        if let Some(s) = self.shared { s.set(at + 2, r); }
        r
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.pick(hi - lo + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.pick(den) >= den - num }
    pub fn of<T: Copy>(&mut self, xs: &[T]) -> T { xs[self.pick(xs.len() as u64) as usize] }
    pub fn note(&mut self, s: impl FnOnce() -> String) {
        if self.want_log && self.log.len() < 6000 { self.log.push_str(&s()); self.log.push('\n'); }
    }
    pub fn nontrivial(&mut self) { self.nontrivial = true; }
    /// the case turned out to lie outside the property's premises
    pub fn skip(&mut self) { self.skipped = true; }
}

pub type Res = Result<(), String>;
pub struct Family {
    pub name: &'static str,
    pub props: &'static [&'static str],
    pub rule: &'static str,
    pub run: fn(&mut Tape) -> Res,
    pub fixed: fn(bool) -> Vec<Vec<u64>>,
    /// share of random cases (0: enumeration only)
    pub weight: u32,
}
pub fn no_fixed(_: bool) -> Vec<Vec<u64>> { vec![] }

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($f:tt)*) => { if !$c { return Err(format!($($f)*)); } };
}

/// The provided methods of an iterator agree with stepping through it: an implementation may override them.
pub fn adaptors<I: Iterator, T: PartialEq + std::fmt::Debug>(mk: impl Fn() -> I, key: impl Fn(I::Item) -> T) -> Res {
    let mut all: Vec<T> = vec![];
    let mut it = mk();
    while let Some(x) = it.next() { all.push(key(x)); if all.len() > 5000 { return Ok(()); } }
    let n = all.len();
    ensure!(mk().count() == n, "count() of an iterator over {n} is {}", mk().count());
    ensure!(mk().last().map(&key).as_ref() == all.last(), "last() of an iterator is not its last item");
    let mut folded = vec![];
    mk().for_each(|x| folded.push(key(x)));
    ensure!(folded == all, "for_each of an iterator over {n} yields other items");
    for k in [0, 1, 2, n / 2, n.wrapping_sub(1), n, n + 1, usize::MAX] {
        for skip in [0, 1, 2] {
            let mut it = mk();
            for _ in 0..skip { it.next(); }
            let x = it.nth(k).map(&key);
            let at = k.saturating_add(skip);
            ensure!(x.as_ref() == all.get(at), "nth({k}) after {skip} of {n} items is {x:?} instead of {:?}", all.get(at));
            let left = n.saturating_sub(at.saturating_add(1));
            ensure!(it.size_hint() == (left, Some(left)), "size hint {:?} after nth({k}) with {left} items left", it.size_hint());
            let rest: Vec<T> = it.map(&key).collect();
            ensure!(rest == all[n - left..], "{} other items after nth({k}) of {n}", rest.len());
        }
    }
    Ok(())
}

struct Outcome { res: Res, data: Vec<u64>, log: String, nontrivial: bool, skipped: bool }

fn run_case(f: &Family, data: Vec<u64>, rng: Option<Rng>, shared: Option<&Shared>, want_log: bool) -> Outcome {
    let mut t = Tape { data, pos: 0, rng, shared, want_log, log: String::new(), nontrivial: false, skipped: false };
    if let Some(s) = shared { s.set(1, 0); }
    let r = catch_unwind(AssertUnwindSafe(|| (f.run)(&mut t)));
    let res = match r {
        Ok(r) => r,
        Err(e) => Err(format!("panicked: {}", e.downcast_ref::<String>().cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    };
    let n = t.pos.min(t.data.len());
    t.data.truncate(n);
    Outcome { res, data: t.data, log: t.log, nontrivial: t.nontrivial, skipped: t.skipped }
}

fn shrink(f: &Family, mut best: Vec<u64>, limit: Duration) -> Vec<u64> {
    let start = Instant::now();
    let fails = |d: &Vec<u64>| run_case(f, d.clone(), None, None, false).res.is_err();
    let mut progress = true;
    while progress && start.elapsed() < limit {
        progress = false;
        let mut chunk = (best.len() / 2).max(1);
        while chunk >= 1 && start.elapsed() < limit {
            let mut i = 0;
            while i + chunk <= best.len() && start.elapsed() < limit {
                let mut c = best.clone();
                c.drain(i..i + chunk);
                if fails(&c) { best = c; progress = true; } else { i += chunk; }
            }
            if chunk == 1 { break; }
            chunk /= 2;
        }
        for i in 0..best.len() {
            if start.elapsed() > limit { break; }
            for cand in [0, best[i] / 2, best[i].wrapping_sub(1)] {
                if cand < best[i] {
                    let mut c = best.clone();
                    c[i] = cand;
                    if fails(&c) { best = c; progress = true; break; }
                }
            }
        }
    }
    best
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn tape_str(d: &[u64]) -> String { d.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ") }
fn hash(d: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for v in d { h ^= *v; h = h.wrapping_mul(0x100_0000_01b3); h ^= h >> 29; }
    h
}

/// Worker protocol: `BIN run PROP SEED WORKER WORKERS SECONDS CASES THOROUGH SHARED` writes one JSON line.
/// `BIN replay FAMILY TAPE...` runs one case.  `BIN families` lists them.
pub fn main(families: &[Family]) {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(String::as_str) {
        Some("families") => for f in families { println!("{}\t{}\t{}", f.name, f.props.join(","), f.rule) },
        Some("replay") => {
            let f = families.iter().find(|f| f.name == a[2]).expect("family");
            let data: Vec<u64> = a[3].split_whitespace().map(|v| v.parse().unwrap()).collect();
            let o = run_case(f, data, None, None, true);
            print!("{}", o.log);
            match o.res {
                Ok(()) => { println!("PASS"); }
                Err(e) => { println!("FAIL: {e}"); std::process::exit(1); }
            }
        }
        Some("shrink") => {
            let f = families.iter().find(|f| f.name == a[2]).expect("family");
            let data: Vec<u64> = a[3].split_whitespace().map(|v| v.parse().unwrap()).collect();
            let d = shrink(f, data, Duration::from_secs(a[4].parse().unwrap()));
            println!("{}", tape_str(&d));
        }
        Some("run") => run(families, &a[2..]),
        _ => { eprintln!("usage"); std::process::exit(2); }
    }
}

fn run(families: &[Family], a: &[String]) {
    let prop = a[0].as_str();
    let seed: u64 = a[1].parse().unwrap();
    let worker: u64 = a[2].parse().unwrap();
    let workers: u64 = a[3].parse().unwrap();
    let limit = Duration::from_secs_f64(a[4].parse().unwrap());
    let max_cases: u64 = a[5].parse().unwrap();
    let thorough = a[6] == "1";
    let shared = Shared::new(Some(&a[7]));
    let fams: Vec<(usize, &Family)> = families.iter().enumerate().filter(|(_, f)| f.props.contains(&prop)).collect();
    let start = Instant::now();
    let mut seen: HashSet<u64> = HashSet::new();
    let (mut evals, mut distinct, mut skipped) = (0u64, 0u64, 0u64);
    let mut samples: Vec<String> = vec![];
    let mut fail: Option<(usize, Vec<u64>, String, String)> = None;
    let mut fixed_total = 0u64;
    let mut fixed_done = true;
    let mut per: Vec<u64> = vec![0; families.len()];
    let mut one = |fi: usize, f: &Family, data: Vec<u64>, rng: Option<Rng>,
                   fail: &mut Option<(usize, Vec<u64>, String, String)>, per: &mut Vec<u64>| -> bool {
        shared.set(0, fi as u64 + 1);
        let o = run_case(f, data, rng, Some(&shared), samples.len() < 2 && evals % 7 == 0);
        evals += 1;
        per[fi] += 1;
        if o.skipped { skipped += 1; }
        if let Err(e) = o.res {
            *fail = Some((fi, o.data, e, o.log));
            return false;
        }
        if o.nontrivial && seen.len() < 4_000_000 && seen.insert(hash(&o.data) ^ (fi as u64).wrapping_mul(0x1234_5678_9ABC_DEF1)) {
            distinct += 1;
            if samples.len() < 2 && !o.log.is_empty() {
                samples.push(format!("{}: {}", f.name, o.log.chars().take(400).collect::<String>()));
            }
        }
        true
    };
    'outer: for (fi, f) in &fams {
        for (i, d) in (f.fixed)(thorough).into_iter().enumerate() {
            fixed_total += 1;
            if i as u64 % workers != worker { continue; }
            if start.elapsed() > limit.mul_f64(if thorough { 0.8 } else { 1.5 }) { fixed_done = false; break; }
            if !one(*fi, f, d, None, &mut fail, &mut per) { break 'outer; }
        }
    }
    let total: u64 = fams.iter().map(|(_, f)| f.weight as u64).sum();
    if fail.is_none() && total > 0 {
        let mut pick = Rng::new(seed ^ worker.wrapping_mul(0xABCD_EF01) ^ 0x5151);
        let mut n = 0;
        while n < max_cases && start.elapsed() < limit {
            let mut w = pick.next() % total;
            let (fi, f) = fams.iter().find(|(_, f)| { if w < f.weight as u64 { true } else { w -= f.weight as u64; false } }).unwrap();
            let s = seed.wrapping_mul(1_000_003).wrapping_add(worker).wrapping_mul(1_000_000_007).wrapping_add(n);
            n += 1;
            if !one(*fi, f, vec![], Some(Rng::new(s)), &mut fail, &mut per) { break; }
        }
    }
    drop(one);
    shared.set(0, 0);
    let mut out = format!("{{\"evaluations\":{evals},\"distinct\":{distinct},\"skipped\":{skipped},\"fixed_total\":{fixed_total},\"fixed_done\":{fixed_done},\"wall\":{:.2},\"per_family\":{{{}}},\"samples\":[{}]",
        start.elapsed().as_secs_f64(),
        fams.iter().map(|(i, f)| format!("\"{}\":{}", f.name, per[*i])).collect::<Vec<_>>().join(","),
        samples.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","));
    if let Some((fi, data, msg, _)) = fail {
        let f = &families[fi];
        let small = shrink(f, data.clone(), Duration::from_secs(5));
        let o = run_case(f, small.clone(), None, None, true);
        let (small, msg, log) = match o.res { Err(e) => (small, e, o.log), Ok(()) => {
            let o = run_case(f, data.clone(), None, None, true);
            (data, msg, o.log) } };
        out += &format!(",\"fail\":{{\"family\":\"{}\",\"tape\":\"{}\",\"message\":\"{}\",\"log\":\"{}\"}}", f.name, tape_str(&small), esc(&msg), esc(&log));
    }
    out += "}";
    println!("{out}");
    std::io::stdout().flush().unwrap();
}
