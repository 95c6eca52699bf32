//! Running work, counting what was covered, reporting violations and writing evidence.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Default, Clone)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub samples: Vec<String>,
    pub extra: BTreeMap<String, u64>,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        for (k, v) in o.extra { *self.extra.entry(k).or_default() += v; }
        self.samples.extend(o.samples);
    }
}

pub struct Fail { pub sig: String, pub text: String }

/// The worker's view of one unit of work (usually one key type).
pub struct W<'a> {
    pub name: String,
    pub stats: Stats,
    pub thorough: bool,
    fails: Vec<Fail>,
    progress: &'a AtomicU64,
    journal: Option<&'a str>,
}
impl W<'_> {
    /// Reports a violation: `sig` identifies the failing input, `text` describes it.
    pub fn fail(&mut self, sig: String, text: String) {
        if self.fails.len() < 20 { self.fails.push(Fail { sig: format!("{}: {sig}", self.name), text }); }
    }
    pub fn failed(&self) -> bool { !self.fails.is_empty() }
    /// Must be called once per executed trace.
    #[inline]
    pub fn begin(&mut self, what: impl FnOnce() -> String) {
        self.progress.fetch_add(1, Ordering::Relaxed);
        if let Some(j) = self.journal { let _ = std::fs::write(j, format!("{}: {}\n", self.name, what())); }
    }
    pub fn extra(&mut self, k: &str, n: u64) { *self.stats.extra.entry(k.to_string()).or_default() += n; }
    pub fn sample(&mut self, s: impl FnOnce() -> String) { if self.stats.samples.len() < 2 { let s = s(); self.stats.samples.push(s); } }
}

type Job = Box<dyn FnOnce(&mut W) + Send>;

pub struct Ctx {
    pub prop: &'static str,
    pub level: &'static str,
    pub thorough: bool,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub exhaustive: bool,
    jobs: Vec<(String, Job)>,
    seed: u64,
    start: Instant,
}

pub fn msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { (*s).to_string() }
    else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
    else { "a panic".to_string() }
}

/// Runs `f`, turning a panic into an error.
pub fn guard<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => Err(format!("panicked: {}", msg(e))),
    }
}

fn root() -> String { std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()) }

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Ctx {
    pub fn new(prop: &'static str, level: &'static str) -> Ctx {
        let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
        if std::env::var_os("VERIF_DEBUG").is_none() { std::panic::set_hook(Box::new(|_| {})); }
        Ctx { prop, level, thorough, rule: String::new(), assumptions: Vec::new(), exhaustive: true, jobs: Vec::new(), seed, start: Instant::now() }
    }
    pub fn job(&mut self, name: impl Into<String>, f: impl FnOnce(&mut W) + Send + 'static) {
        let name = name.into();
        if let Ok(only) = std::env::var("VERIF_ONLY") { if name != only { return; } }
        self.jobs.push((name, Box::new(f)));
    }
    /// Runs all jobs, writes the evidence, prints violations and exits.
    pub fn finish(self) -> ! { self.finish_with(|| ()) }
    /// As `finish`, with a last step after all work is done.
    pub fn finish_with(self, last: impl FnOnce()) -> ! {
        let njobs = self.jobs.len();
        let journal: Option<String> = std::env::var("VERIF_JOURNAL").ok();
        let journal: Option<&'static str> = journal.map(|s| &*Box::leak(s.into_boxed_str()));
        let workers = if journal.is_some() { 1 } else { std::thread::available_parallelism().map_or(4, |n| n.get()).min(16) };
        let queue: Mutex<Vec<Option<(String, Job)>>> = Mutex::new(self.jobs.into_iter().map(Some).collect());
        let next = AtomicUsize::new(0);
        let progress: Arc<Vec<AtomicU64>> = Arc::new((0..workers).map(|_| AtomicU64::new(0)).collect());
        let tids: Arc<Vec<AtomicU64>> = Arc::new((0..workers).map(|_| AtomicU64::new(0)).collect());
        let running: Arc<Vec<Mutex<Option<String>>>> = Arc::new((0..workers).map(|_| Mutex::new(None)).collect());
        let total = Mutex::new((Stats::default(), Vec::<Fail>::new()));
        let prop = self.prop;
        let thorough = self.thorough;
        // A call into the code under test that never returns is reported, not waited for: after 100 s of which
        // it computed for 60 (a machine may be busy with other things), or after 600 s.
        {
            let tids = tids.clone();
            let progress = progress.clone();
            let running = running.clone();
            std::thread::spawn(move || {
                let mut last: Vec<(u64, Instant, u64)> = vec![(u64::MAX, Instant::now(), 0); progress.len()];
                loop {
                    std::thread::sleep(Duration::from_millis(500));
                    for i in 0..progress.len() {
                        let p = progress[i].load(Ordering::Relaxed);
                        if p != last[i].0 || running[i].lock().map_or(true, |r| r.is_none()) { last[i] = (p, Instant::now(), cpu(tids[i].load(Ordering::Relaxed))); continue; }
                        let wall = last[i].1.elapsed().as_secs();
                        if wall >= 600 || wall >= 100 && cpu(tids[i].load(Ordering::Relaxed)) >= last[i].2 + 60_000_000_000 {
                            let what = running[i].lock().ok().and_then(|r| r.clone()).unwrap_or_default();
                            let path = write_replay(prop, 0, &format!("{what}: an operation did not return within {wall} s"));
                            println!("{what}: an operation did not return within {wall} s");
                            println!("VIOLATION property={prop} replay={path}");
                            std::process::exit(1);
                        }
                    }
                }
            });
        }
        let order: Vec<usize> = (0..njobs).collect();
        std::thread::scope(|s| {
            for t in 0..workers {
                let (queue, next, order, total) = (&queue, &next, &order, &total);
                let (progress, running, tids) = (progress.clone(), running.clone(), tids.clone());
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || { tids[t].store(tid(), Ordering::Relaxed); loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= order.len() { break; }
                    let Some((name, job)) = queue.lock().unwrap()[order[i]].take() else { continue };
                    *running[t].lock().unwrap() = Some(name.clone());
                    progress[t].fetch_add(1, Ordering::Relaxed);
                    let t0 = Instant::now();
                    let mut w = W { name: name.clone(), stats: Stats::default(), thorough, fails: Vec::new(), progress: &progress[t], journal };
                    if let Err(e) = catch_unwind(AssertUnwindSafe(|| job(&mut w))) {
                        let m = msg(e);
                        w.fail("panic".into(), format!("panicked outside a guarded trace: {m}"));
                    }
                    *running[t].lock().unwrap() = None;
                    if std::env::var_os("VERIF_TIMES").is_some() { eprintln!("{:8.2}s {name} states={} transitions={} traces={}", t0.elapsed().as_secs_f64(), w.stats.states, w.stats.transitions, w.stats.traces); }
                    let mut g = total.lock().unwrap();
                    let W { stats, fails, .. } = w;
                    g.0.merge(stats);
                    g.1.extend(fails);
                } }).unwrap();
            }
        });
        last();
        let (mut stats, mut fails) = total.into_inner().unwrap();
        stats.samples.sort();
        let keep = stats.samples.len().min(12);
        let step = (stats.samples.len() / keep.max(1)).max(1);
        stats.samples = stats.samples.iter().step_by(step).take(keep).cloned().collect();
        fails.sort_by(|a, b| a.sig.cmp(&b.sig));
        // Known findings (committed, never written here).
        let known = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default();
        let known: Vec<&str> = known.lines().filter_map(|l| l.strip_prefix(&format!("known: property={prop} "))).collect();
        let mut viol = Vec::new();
        for f in fails {
            if known.iter().any(|k| *k == f.sig) { println!("KNOWN-FINDING: property={prop} {}", f.sig); } else { viol.push(f); }
        }
        let wall = self.start.elapsed().as_secs_f64();
        let mut cov = String::new();
        if self.level == "model_checking" {
            cov += &format!("\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, ", stats.states, stats.transitions, stats.traces);
        } else {
            cov += &format!("\"evaluations\": {}, \"distinct_nontrivial\": {}, ", stats.traces, stats.states);
        }
        cov += &format!("\"rule\": {}, \"exhaustive\": {}, \"units\": {njobs}, ", json_str(&self.rule), self.exhaustive && viol.is_empty());
        for (k, v) in &stats.extra { cov += &format!("{}: {v}, ", json_str(k)); }
        cov += &format!("\"samples\": [{}]", stats.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
        let ev = format!(
            "{{\n  \"property\": \"{prop}\",\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"{}\",\n  \"coverage\": {{{cov}}},\n  \"assumptions\": [{}],\n  \"wall_s\": {wall:.3},\n  \"violations\": {}\n}}\n",
            if self.thorough { "thorough" } else { "quick" }, self.seed, self.level,
            self.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "), viol.len());
        let evp = std::env::var("VERIF_EVIDENCE").unwrap_or_else(|_| format!("{}/evidence/{prop}.json", root()));
        if let Some(d) = std::path::Path::new(&evp).parent() { let _ = std::fs::create_dir_all(d); }
        if let Err(e) = std::fs::write(&evp, ev) { eprintln!("cannot write {evp}: {e}"); std::process::exit(3); }
        println!("{prop}: units={njobs} states={} transitions={} traces={} wall={wall:.1}s", stats.states, stats.transitions, stats.traces);
        for (k, v) in &stats.extra { println!("  {k} = {v}"); }
        if njobs == 0 { eprintln!("nothing to explore"); std::process::exit(3); }
        if viol.is_empty() { std::process::exit(0); }
        for (i, f) in viol.iter().take(std::env::var("VERIF_ALL").map_or(5, |_| 999)).enumerate() {
            let path = write_replay(prop, i, &format!("{}\n{}\nrerun only this unit: VERIF_ONLY='{}' /verif/run.sh {prop}", f.sig, f.text, f.sig.split(": ").next().unwrap_or("")));
            println!("{}\n  {}", f.sig, f.text);
            println!("VIOLATION property={prop} replay={path}");
        }
        std::process::exit(1);
    }
}

/// The calling thread, as the system knows it.
fn tid() -> u64 { std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name()?.to_str()?.parse().ok()).unwrap_or(0) }
/// Nanoseconds a thread has computed for; without that knowledge, forever.
fn cpu(tid: u64) -> u64 { std::fs::read_to_string(format!("/proc/self/task/{tid}/schedstat")).ok().and_then(|s| s.split(' ').next()?.parse().ok()).unwrap_or(u64::MAX / 2) }

fn write_replay(prop: &str, i: usize, text: &str) -> String {
    let dir = format!("{}/evidence/replay", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{i}.txt");
    let _ = std::fs::write(&path, format!("property {prop}\n{text}\n"));
    path
}
