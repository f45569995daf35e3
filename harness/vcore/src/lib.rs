//! Choice-sequence property runner: deterministic, shrinking, no dependencies.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};

// ---------------------------------------------------------------- random source
#[inline]
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}
pub fn hash_u64s(v: &[u64]) -> u64 {
    let mut h = 0x1234567u64;
    for x in v {
        h = mix(h ^ x.wrapping_mul(0x9E3779B97F4A7C15));
    }
    h
}

enum Mode {
    Random(u64),
    Replay(Vec<u64>, usize),
}
/// Source of every random decision of a case.
pub struct Src {
    mode: Mode,
    pub rec: Vec<u64>,
}
impl Src {
    pub fn random(seed: u64) -> Self {
        Src { mode: Mode::Random(seed), rec: Vec::new() }
    }
    pub fn replay(c: Vec<u64>) -> Self {
        Src { mode: Mode::Replay(c, 0), rec: Vec::new() }
    }
    /// Uniform value in 0..n (n >= 1); 0 is "simplest".
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &mut self.mode {
            Mode::Random(s) => {
                *s = s.wrapping_add(0x9E3779B97F4A7C15);
                let z = mix(*s);
                if n == 0 { z } else { ((z as u128 * n as u128) >> 64) as u64 }
            }
            Mode::Replay(c, p) => {
                let v = c.get(*p).copied().unwrap_or(0);
                *p += 1;
                if v >= n { v % n } else { v }
            }
        };
        self.rec.push(v);
        v
    }
    pub fn u(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.u(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den; false is simplest
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'x, T>(&mut self, v: &'x [T]) -> &'x T {
        &v[self.u(v.len())]
    }
    /// index by weight
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x as u64 {
                return i;
            }
            v -= *x as u64;
        }
        w.len() - 1
    }
    pub fn full64(&mut self) -> u64 {
        let hi = self.below(1 << 32);
        let lo = self.below(1 << 32);
        (hi << 32) | lo
    }
}

// ---------------------------------------------------------------- step counter
thread_local! {
    static TICKS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
/// Called by the harness wrappers for every pattern / element evaluation.
#[inline]
pub fn tick() {
    TICKS.with(|t| {
        let v = t.get() + 1;
        t.set(v);
        if v > LIMIT.with(|l| l.get()) {
            panic!("STEP LIMIT exceeded: evaluation does not terminate within its bound ({v} steps)");
        }
    });
}
pub fn ticks_reset(limit: u64) {
    TICKS.with(|t| t.set(0));
    LIMIT.with(|l| l.set(limit));
}
pub fn ticks() -> u64 {
    TICKS.with(|t| t.get())
}

// ---------------------------------------------------------------- cases
pub struct Case {
    pub src: Src,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub comparisons: u64,
    pub verbose: bool,
    pub text: String,
}
impl Case {
    pub fn new(src: Src, verbose: bool) -> Self {
        Case { src, labels: Vec::new(), nontrivial: false, comparisons: 0, verbose, text: String::new() }
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
    pub fn dump(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            if !self.text.is_empty() {
                self.text.push_str("; ");
            }
            self.text.push_str(&s);
        }
    }
}
pub type Res = Result<(), String>;
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($fmt:tt)+) => { if !($c) { return Err(format!($($fmt)+)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($fmt:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($fmt)+), a, b)); }
    }};
}

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    /// thorough multiplier
    pub thorough: u64,
    pub f: Box<dyn Fn(&mut Case) -> Res + Send + Sync>,
}
pub fn sub(name: &'static str, quick: u64, thorough: u64, f: impl Fn(&mut Case) -> Res + Send + Sync + 'static) -> Sub {
    Sub { name, quick, thorough, f: Box::new(f) }
}
pub struct Check {
    pub id: &'static str,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub subs: Vec<Sub>,
}

fn run_case(f: &(dyn Fn(&mut Case) -> Res + Send + Sync), src: Src, verbose: bool) -> (Case, Res) {
    let mut case = Case::new(src, verbose);
    ticks_reset(u64::MAX);
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
    ticks_reset(u64::MAX);
    let r = match r {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(format!("panic: {m}"))
        }
    };
    (case, r)
}

fn shrink(f: &(dyn Fn(&mut Case) -> Res + Send + Sync), start: Vec<u64>) -> Vec<u64> {
    let mut best = start;
    let mut budget = 6000i64;
    let t0 = std::time::Instant::now();
    let fails = |c: &Vec<u64>, budget: &mut i64| -> Option<Vec<u64>> {
        *budget -= 1;
        if t0.elapsed().as_secs() > 60 {
            *budget = 0;
        }
        let (case, r) = run_case(f, Src::replay(c.clone()), false);
        if r.is_err() { Some(case.src.rec) } else { None }
    };
    let smaller = |a: &Vec<u64>, b: &Vec<u64>| (a.len(), a) < (b.len(), b);
    loop {
        let before = best.clone();
        let mut sz = (best.len() / 2).max(1);
        while sz >= 1 && budget > 0 {
            let mut i = 0;
            while i + sz <= best.len() && budget > 0 {
                let mut c = best.clone();
                c.drain(i..i + sz);
                if let Some(r) = fails(&c, &mut budget) {
                    if smaller(&r, &best) {
                        best = r;
                        continue;
                    }
                }
                i += sz.max(1);
            }
            sz /= 2;
        }
        let mut i = 0;
        while i < best.len() && budget > 0 {
            let v = best[i];
            if v > 0 {
                for nv in [0, v / 2, v - 1] {
                    if nv >= best[i] {
                        continue;
                    }
                    let mut c = best.clone();
                    c[i] = nv;
                    if let Some(r) = fails(&c, &mut budget) {
                        if smaller(&r, &best) {
                            best = r;
                            break;
                        }
                    }
                    if i >= best.len() {
                        break;
                    }
                }
            }
            i += 1;
        }
        if best == before || budget <= 0 {
            return best;
        }
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Agg {
    cases: u64,
    comparisons: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    sample_idx: Vec<u64>,
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg}{loc}")));
    }));
}

pub struct Opts {
    pub tier: String,
    pub seed: u64,
    pub evidence: Option<String>,
    pub replay_dir: String,
    pub threads: usize,
    pub scale: f64,
    pub only: Option<String>,
    pub stats: bool,
    /// run one case of `only` and nothing else
    pub case: Option<u64>,
    /// where workers note what they are running
    pub journal: Option<String>,
}

pub fn run_check(check: &Check, o: &Opts) -> i32 {
    let t0 = std::time::Instant::now();
    install_hook();
    let mut total = Agg::default();
    let mut per_sub: Vec<(String, u64, u64, BTreeMap<&'static str, u64>)> = vec![];
    let mut samples: Vec<String> = vec![];
    let mut violations = 0;
    let journal = o.journal.as_ref().and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok());
    // which case a thread is at
    let note = |slot: u64, si: u64, i: u64| {
        if let Some(j) = &journal {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&si.to_le_bytes());
            b[8..].copy_from_slice(&i.to_le_bytes());
            let _ = std::os::unix::fs::FileExt::write_all_at(j, &b, slot);
        }
    };
    for (si, s) in check.subs.iter().enumerate() {
        if o.only.as_ref().is_some_and(|n| n != s.name) {
            continue;
        }
        let mut n = s.quick;
        if o.tier == "thorough" {
            n *= s.thorough;
        }
        let n = ((n as f64 * o.scale) as u64).max(1);
        let base = mix(hash_str(check.id) ^ hash_str(s.name).rotate_left(17) ^ mix(o.seed));
        if let Some(i) = o.case {
            let r = on_big_stack(|| run_case(&*s.f, Src::random(mix(base ^ mix(i))), false).1);
            return if r.is_err() { 1 } else { 0 };
        }
        let next = AtomicU64::new(0);
        let worker = AtomicU64::new(0);
        let min_fail = AtomicU64::new(u64::MAX);
        let agg = Mutex::new(Agg::default());
        let chunk = (n / 256).clamp(1, 256);
        std::thread::scope(|sc| {
            for _ in 0..o.threads {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, || {
                        let mut a = Agg::default();
                        let slot = 16 * worker.fetch_add(1, Ordering::SeqCst);
                        'outer: loop {
                            let b = next.fetch_add(chunk, Ordering::SeqCst);
                            if b >= n {
                                break;
                            }
                            for i in b..(b + chunk).min(n) {
                                if min_fail.load(Ordering::SeqCst) < b {
                                    break 'outer;
                                }
                                note(slot, si as u64 + 1, i);
                                let (case, r) = run_case(&*s.f, Src::random(mix(base ^ mix(i))), false);
                                a.cases += 1;
                                a.comparisons += case.comparisons;
                                for l in &case.labels {
                                    *a.labels.entry(l).or_default() += 1;
                                }
                                if case.nontrivial {
                                    a.nontrivial += 1;
                                    if a.sample_idx.len() < 2 {
                                        a.sample_idx.push(i);
                                    }
                                    if a.distinct.len() < 4_000_000 {
                                        a.distinct.insert(hash_u64s(&case.src.rec));
                                    }
                                }
                                if r.is_err() {
                                    min_fail.fetch_min(i, Ordering::SeqCst);
                                    break;
                                }
                            }
                        }
                        note(slot, 0, 0);
                        let mut g = agg.lock().unwrap();
                        g.cases += a.cases;
                        g.comparisons += a.comparisons;
                        g.nontrivial += a.nontrivial;
                        for (k, v) in a.labels {
                            *g.labels.entry(k).or_default() += v;
                        }
                        g.sample_idx.extend(a.sample_idx);
                        g.distinct.extend(a.distinct);
                    })
                    .unwrap();
            }
        });
        let mut a = agg.into_inner().unwrap();
        a.sample_idx.sort();
        for i in a.sample_idx.iter().take(2) {
            let i = *i;
            let t = on_big_stack(|| run_case(&*s.f, Src::random(mix(base ^ mix(i))), true).0.text);
            samples.push(format!("{}#{}: {}", s.name, i, t.chars().take(700).collect::<String>()));
        }
        let mf = min_fail.load(Ordering::SeqCst);
        if mf != u64::MAX {
            violations += 1;
            note(0, si as u64 + 1 + FAILED, mf);
            let path = on_big_stack(|| {
                let (case, _) = run_case(&*s.f, Src::random(mix(base ^ mix(mf))), false);
                let best = shrink(&*s.f, case.src.rec);
                let (case, r) = run_case(&*s.f, Src::replay(best.clone()), true);
                let msg = r.err().unwrap_or_else(|| "not reproduced after shrinking".into());
                let _ = std::fs::create_dir_all(&o.replay_dir);
                let path = format!("{}/{}-{}.replay", o.replay_dir, check.id, s.name);
                let body = format!(
                    "property={}\nsub={}\nchoices={}\nseed={} index={}\n# case: {}\n# failure: {}\n",
                    check.id,
                    s.name,
                    best.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
                    o.seed,
                    mf,
                    case.text.replace('\n', "\\n"),
                    msg.replace('\n', "\\n")
                );
                let _ = std::fs::write(&path, &body);
                println!("  {}: {}\n  case: {}", s.name, msg, case.text);
                path
            });
            println!("VIOLATION property={} replay={}", check.id, path);
            note(0, 0, 0);
        }
        if o.stats {
            println!("[{}] cases={} nontrivial={} distinct={} {:?}", s.name, a.cases, a.nontrivial, a.distinct.len(), a.labels);
        }
        per_sub.push((s.name.to_string(), a.cases, a.distinct.len() as u64, a.labels.clone()));
        total.cases += a.cases;
        total.comparisons += a.comparisons;
        total.nontrivial += a.nontrivial;
        for (k, v) in a.labels {
            *total.labels.entry(k).or_default() += v;
        }
        let tag = hash_str(s.name);
        total.distinct.extend(a.distinct.into_iter().map(|h| h ^ tag));
    }
    let wall = t0.elapsed().as_secs_f64();
    if let Some(ev) = &o.evidence {
        let subs = per_sub
            .iter()
            .map(|(n, c, d, l)| {
                format!(
                    "{{\"name\":{},\"cases\":{},\"distinct_nontrivial\":{},\"classes\":{{{}}}}}",
                    json_str(n),
                    c,
                    d,
                    l.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(",")
                )
            })
            .collect::<Vec<_>>()
            .join(",\n   ");
        let body = format!(
            "{{\n \"property\":{},\n \"tier\":{},\n \"seed\":{},\n \"level\":\"exploration\",\n \"coverage\":{{\n  \"evaluations\":{},\n  \"distinct_nontrivial\":{},\n  \"nontrivial_cases\":{},\n  \"oracle_comparisons\":{},\n  \"rule\":{},\n  \"sub_checks\":[\n   {}\n  ],\n  \"samples\":[\n   {}\n  ]\n }},\n \"assumptions\":[{}],\n \"wall_s\":{:.2},\n \"violations\":{}\n}}\n",
            json_str(check.id),
            json_str(&o.tier),
            o.seed,
            total.cases,
            total.distinct.len(),
            total.nontrivial,
            total.comparisons,
            json_str(&check.rule),
            subs,
            samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",\n   "),
            check.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","),
            wall,
            violations
        );
        if let Some(p) = std::path::Path::new(ev).parent() {
            let _ = std::fs::create_dir_all(p);
        }
        if let Err(e) = std::fs::write(ev, body) {
            eprintln!("cannot write evidence {ev}: {e}");
            return 2;
        }
    }
    println!(
        "{} tier={} seed={} cases={} distinct_nontrivial={} comparisons={} violations={} wall={:.1}s",
        check.id,
        o.tier,
        o.seed,
        total.cases,
        total.distinct.len(),
        total.comparisons,
        violations,
        wall
    );
    if violations > 0 { 1 } else { 0 }
}

pub fn on_big_stack<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, f).unwrap().join().unwrap())
}

fn replay(checks: &[Check], path: &str) -> i32 {
    install_hook();
    let body = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| body.lines().find_map(|l| l.strip_prefix(&format!("{k}=")).map(|s| s.to_string()));
    let (id, sname) = (get("property").unwrap(), get("sub").unwrap());
    let choices: Vec<u64> =
        get("choices").unwrap().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    let c = checks.iter().find(|c| c.id == id).expect("unknown property");
    let s = c.subs.iter().find(|s| s.name == sname).expect("unknown sub check");
    let (text, r) = on_big_stack(|| {
        let (case, r) = run_case(&*s.f, Src::replay(choices), true);
        (case.text, r)
    });
    println!("case: {text}");
    match r {
        Ok(()) => {
            println!("replay passes");
            0
        }
        Err(e) => {
            println!("failure: {e}");
            println!("VIOLATION property={id} replay={path}");
            1
        }
    }
}

/// `BIN <ID> [--tier T] [--seed N] [--evidence F] [--replay-dir D] [--scale X] [--only SUB] [--stats]` or `BIN replay FILE`
pub fn main(checks: Vec<Check>) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.len() >= 2 && args[0] == "replay" {
        std::process::exit(replay(&checks, &args[1]));
    }
    let mut o = Opts {
        tier: "quick".into(),
        seed: 1,
        evidence: None,
        replay_dir: "/tmp/verif-replays".into(),
        threads: 8,
        scale: 1.0,
        only: None,
        stats: false,
        case: None,
        journal: None,
    };
    let raw = args.clone();
    let mut id = None;
    let mut it = args.into_iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--tier" => o.tier = it.next().unwrap(),
            "--seed" => o.seed = it.next().unwrap().parse().unwrap_or(1),
            "--evidence" => o.evidence = it.next(),
            "--replay-dir" => o.replay_dir = it.next().unwrap(),
            "--scale" => o.scale = it.next().unwrap().parse().unwrap(),
            "--only" => o.only = it.next(),
            "--threads" => o.threads = it.next().unwrap().parse().unwrap(),
            "--stats" => o.stats = true,
            "--case" => o.case = it.next().unwrap().parse().ok(),
            "--journal" => o.journal = it.next(),
            x => id = Some(x.to_string()),
        }
    }
    let id = id.expect("property id");
    let c = checks.iter().find(|c| c.id == id).unwrap_or_else(|| panic!("unknown property {id}"));
    if o.case.is_some() || o.journal.is_some() {
        std::process::exit(run_check(c, &o));
    }
    std::process::exit(supervise(c, &o, raw));
}
/// marks a case that failed and is being shrunk
const FAILED: u64 = 1 << 32;
/// a case takes milliseconds, the longest a few seconds: one that takes this long does not end
const STUCK: std::time::Duration = std::time::Duration::from_secs(150);
/// Runs the check in a child: a case may overflow the stack, exhaust the memory or never end; the parent finds out which one.
fn supervise(c: &Check, o: &Opts, raw: Vec<String>) -> i32 {
    use std::process::Command;
    use std::time::Instant;
    let exe = std::env::current_exe().expect("own path");
    let j = std::env::temp_dir().join(format!("verif-journal-{}-{}", c.id, std::process::id()));
    std::fs::write(&j, vec![0u8; 16 * o.threads]).expect("journal");
    let read = |slot: &[u8]| {
        let n = |b: &[u8]| u64::from_le_bytes(b.try_into().unwrap());
        (n(&slot[..8]), n(&slot[8..]))
    };
    let log = || std::fs::read(&j).unwrap_or_default().chunks_exact(16).map(read).collect::<Vec<_>>();
    let violation = |si: u64, i: u64, what: &str| -> i32 {
        let s = &c.subs[(si & (FAILED - 1)) as usize - 1];
        let _ = std::fs::create_dir_all(&o.replay_dir);
        let path = format!("{}/{}-{}.replay", o.replay_dir, c.id, s.name);
        let cmd = format!("{} {} --tier {} --seed {} --only {} --case {i}", exe.display(), c.id, o.tier, o.seed, s.name);
        let body = format!("property={}\nsub={}\n# failure: {what}, run: {cmd}\n", c.id, s.name);
        let _ = std::fs::write(&path, body);
        println!("  {}: case {i} {what}", s.name);
        println!("VIOLATION property={} replay={path}", c.id);
        1
    };
    let mut child = Command::new(&exe).args(&raw).arg("--journal").arg(&j).spawn().expect("child");
    let mut seen: Vec<((u64, u64), Instant)> = vec![];
    let mut polls = 0u64;
    let st = loop {
        if let Some(st) = child.try_wait().expect("child") {
            break Some(st);
        }
        std::thread::sleep(std::time::Duration::from_millis(if polls < 100 { 20 } else { 250 }));
        polls += 1;
        for (k, x) in log().into_iter().enumerate() {
            match seen.get_mut(k) {
                None => seen.push((x, Instant::now())),
                Some(s) if s.0 != x => *s = (x, Instant::now()),
                _ => {}
            }
        }
        if seen.iter().any(|(x, t)| x.0 != 0 && t.elapsed() > STUCK) {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
    };
    let at = log();
    let _ = std::fs::remove_file(&j);
    if let Some(code) = st.and_then(|s| s.code()) {
        return code;
    }
    // a failure was found before
    if let Some((si, i)) = at.iter().find(|x| x.0 >= FAILED) {
        return violation(*si, *i, "fails");
    }
    let Some(st) = st else {
        let (x, _) = seen.iter().find(|(x, t)| x.0 != 0 && t.elapsed() > STUCK).expect("stuck case");
        return violation(x.0, x.1, "does not end");
    };
    println!("the check's process ended with {st}");
    for (si, i) in at {
        if si == 0 {
            continue;
        }
        let s = &c.subs[si as usize - 1];
        let out = Command::new(&exe)
            .args(&raw)
            .args(["--only", s.name, "--case", &i.to_string()])
            .output()
            .expect("child");
        let err = String::from_utf8_lossy(&out.stderr);
        if out.status.code().is_none() && err.contains("overflowed its stack") {
            return violation(si, i, "overflows the stack");
        }
        if out.status.code().is_none() && err.contains("memory allocation of") {
            return violation(si, i, "exhausts the memory");
        }
    }
    2
}
