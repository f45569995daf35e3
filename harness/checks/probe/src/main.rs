//! C22: the same patterns on the same inputs in every build configuration.
//! Built once per configuration; the default build drives the others, which run with --worker and answer requests
//! (scene number, choices) with the text of what they observed.
mod scene;
#[cfg(any(feature = "log", feature = "tracing"))]
mod sink;
use scene::{HAVE, Needs, SCENES};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::process::{Child, Command, Stdio};
use std::sync::OnceLock;
use std::sync::atomic::{AtomicU64, Ordering};
use vcore::{Case, Check, Res, Src, ensure, sub};

/// everything observed by scene `k`, panics included
fn observe(k: usize, case: &mut Case) -> scene::Out {
    vcore::ticks_reset(u64::MAX);
    scene::NEEDS.set(Needs::Nothing);
    let r = catch_unwind(AssertUnwindSafe(|| SCENES[k].1(case)));
    vcore::ticks_reset(u64::MAX);
    r.unwrap_or_else(|e| {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
        // (which step limit is hit first says nothing)
        let m = m.unwrap_or_default();
        let m = if m.contains("STEP LIMIT") { "does not end".to_string() } else { m };
        scene::Out { needs: scene::NEEDS.get(), text: format!("panic: {m}"), gain: false }
    })
}
fn read_words(r: &mut impl Read) -> Option<(usize, Vec<u64>)> {
    let mut h = [0u8; 16];
    r.read_exact(&mut h).ok()?;
    let k = u64::from_le_bytes(h[..8].try_into().unwrap()) as usize;
    let n = u64::from_le_bytes(h[8..].try_into().unwrap()) as usize;
    let mut b = vec![0u8; 8 * n];
    r.read_exact(&mut b).ok()?;
    Some((k, b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()))
}
fn worker() {
    #[cfg(any(feature = "log", feature = "tracing"))]
    sink::install();
    std::panic::set_hook(Box::new(|_| {}));
    static STARTED: AtomicU64 = AtomicU64::new(0);
    let zero = std::time::Instant::now();
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let s = STARTED.load(Ordering::SeqCst);
            if s > 0 && zero.elapsed().as_secs() + 1 > s + 20 {
                eprintln!("probe worker: no end after 20 s");
                std::process::abort();
            }
        }
    });
    let mut r = std::io::stdin().lock();
    let mut w = std::io::stdout().lock();
    while let Some((k, words)) = read_words(&mut r) {
        STARTED.store(zero.elapsed().as_secs() + 1, Ordering::SeqCst);
        let mut case = Case::new(Src::replay(words), false);
        let o = observe(k, &mut case);
        STARTED.store(0, Ordering::SeqCst);
        let b = o.text.as_bytes();
        let mut m = (b.len() as u64).to_le_bytes().to_vec();
        m.extend(b);
        if w.write_all(&m).and_then(|_| w.flush()).is_err() {
            return;
        }
    }
}
struct Worker(Child);
impl Worker {
    fn start(path: &str) -> Worker {
        let c = Command::new(path).arg("--worker").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn();
        Worker(c.unwrap_or_else(|e| panic!("cannot start {path}: {e}")))
    }
    fn ask(&mut self, k: usize, words: &[u64]) -> Option<String> {
        let mut m = (k as u64).to_le_bytes().to_vec();
        m.extend((words.len() as u64).to_le_bytes());
        for w in words {
            m.extend(w.to_le_bytes());
        }
        let i = self.0.stdin.as_mut()?;
        i.write_all(&m).and_then(|_| i.flush()).ok()?;
        let o = self.0.stdout.as_mut()?;
        let mut h = [0u8; 8];
        o.read_exact(&mut h).ok()?;
        let mut b = vec![0u8; u64::from_le_bytes(h) as usize];
        o.read_exact(&mut b).ok()?;
        String::from_utf8(b).ok()
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
/// the other configurations: name, what it offers, executable
static OTHERS: OnceLock<Vec<(String, Needs, String)>> = OnceLock::new();
thread_local! {
    static WORKERS: RefCell<BTreeMap<usize, Worker>> = const { RefCell::new(BTreeMap::new()) };
}
fn ask(i: usize, k: usize, words: &[u64]) -> String {
    WORKERS.with(|w| {
        let mut w = w.borrow_mut();
        let r = w.entry(i).or_insert_with(|| Worker::start(&OTHERS.get().unwrap()[i].2)).ask(k, words);
        r.unwrap_or_else(|| {
            w.remove(&i);
            "the process ended (crash, stack overflow or endless loop)".into()
        })
    })
}
fn scene(k: usize) -> impl Fn(&mut Case) -> Res {
    move |c: &mut Case| {
        let mine = observe(k, c);
        // (a different failing handler can make the same pattern far more expensive; only the text counts)
        for (i, (name, have, _)) in OTHERS.get().unwrap().iter().enumerate() {
            if *have < mine.needs {
                continue;
            }
            let theirs = ask(i, k, &c.src.rec);
            if theirs != mine.text {
                let p = mine.text.bytes().zip(theirs.bytes()).take_while(|(a, b)| a == b).count();
                let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[p.saturating_sub(60)..s.len().min(p + 120)]).into_owned();
                ensure!(false, "configuration {name} differs from the default: default ..{}.. {name} ..{}..", cut(&mine.text), cut(&theirs));
            }
            c.comparisons += 1;
        }
        c.label(match mine.needs {
            Needs::Nothing => "every configuration",
            Needs::Alloc => "configurations with alloc",
            Needs::Std => "configurations with std",
        });
        c.label_if(mine.text.starts_with("panic"), "panics everywhere");
        c.nontrivial = mine.gain;
        Ok(())
    }
}
fn main() {
    if std::env::args().nth(1).as_deref() == Some("--worker") {
        return vcore::on_big_stack(worker);
    }
    assert!(HAVE == Needs::Std);
    let spec = std::env::var("PROBE_WORKERS").expect("PROBE_WORKERS=name:level=path,..");
    let v = spec
        .split(',')
        .map(|s| {
            let (n, path) = s.split_once('=').unwrap();
            let (name, level) = n.split_once(':').unwrap();
            let have = [Needs::Nothing, Needs::Alloc, Needs::Std][level.parse::<usize>().unwrap()];
            (name.to_string(), have, path.to_string())
        })
        .collect();
    OTHERS.set(v).unwrap();
    vcore::main(vec![Check {
        id: "C22",
        rule: "some operation matched a non-empty span, or produced a value".into(),
        assumptions: vec![
            "configurations compared: default (std), no default features, alloc, no-default with log, std with log, std with tracing; a logger / subscriber that formats every record is installed".into(),
            "messages of panics count as observations, positions in the source do not".into(),
        ],
        subs: SCENES.iter().enumerate().map(|(k, (n, _))| sub(n, [60_000, 20_000, 10_000, 10_000, 20_000][k], 10, scene(k))).collect(),
    }]);
}
