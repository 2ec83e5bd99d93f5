//! The exploration engine: exhaustive enumeration of choice sequences (stateless) and of
//! operation sequences with state deduplication (explicit state), plus reporting.
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    // DefaultHasher::new() uses fixed keys: deterministic.
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(Default)]
struct Inner {
    violations: BTreeMap<String, String>, // key -> replay path
    known_hit: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    sample_hashes: HashSet<u64>,
    assumptions: Vec<String>,
    bounds: BTreeMap<String, serde_json::Value>,
}

/// One run of one check.
pub struct Ctx {
    pub prop: String,
    pub tier: String,
    pub thorough: bool,
    pub seed: u64,
    pub threads: usize,
    pub verif: PathBuf,
    max_viol: usize,
    pub level: String,
    start: Instant,
    deadline: Instant,
    inner: Mutex<Inner>,
    /// States and outcomes, spread over several locks.
    seen: Vec<Mutex<(HashSet<u64>, HashMap<String, u64>)>>,
    pub executions: AtomicU64,
    pub transitions: AtomicU64,
    pub nontrivial: AtomicU64,
    pub validated: AtomicU64,
    pub capped: AtomicBool,
    nviol: AtomicUsize,
    known: Vec<(String, String)>, // (key, description)
}

const MAX_VIOLATIONS: usize = 25;

impl Ctx {
    pub fn new(prop: &str, tier: &str, level: &str, verif: PathBuf) -> Ctx {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut known = vec![];
        if let Ok(text) = std::fs::read_to_string(verif.join("known_findings.txt")) {
            for line in text.lines() {
                // "finding: property=<id> key=<key> :: <what fails>"
                let Some(rest) = line.strip_prefix("finding: property=") else { continue };
                let Some((id, rest)) = rest.split_once(" key=") else { continue };
                let Some((key, what)) = rest.split_once(" :: ") else { continue };
                if id == prop {
                    known.push((key.to_string(), what.to_string()));
                }
            }
        }
        let thorough = tier == "thorough";
        let cap = std::env::var("BMC_CAP_S").ok().and_then(|s| s.parse().ok())
            .unwrap_or(if thorough { 3000 } else { 420 });
        Ctx {
            prop: prop.into(), tier: tier.into(), thorough, seed,
            threads: std::env::var("BMC_THREADS").ok().and_then(|s| s.parse().ok())
                .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16)),
            max_viol: std::env::var("BMC_MAX").ok().and_then(|s| s.parse().ok()).unwrap_or(MAX_VIOLATIONS),
            verif, level: level.into(), start: Instant::now(),
            deadline: Instant::now() + Duration::from_secs(cap),
            inner: Mutex::default(),
            seen: (0..64).map(|_| Mutex::default()).collect(),
            executions: 0.into(), transitions: 0.into(), nontrivial: 0.into(), validated: 0.into(),
            capped: false.into(), nviol: 0.into(), known,
        }
    }
    fn lock(&self) -> std::sync::MutexGuard<'_, Inner> {
        self.inner.lock().unwrap_or_else(|e| e.into_inner())
    }
    /// Report a violation. `key` identifies the specific failing input, call site or history.
    pub fn violation(&self, key: &str, detail: impl std::fmt::Display) {
        let key: String = key.split_whitespace().collect::<Vec<_>>().join(" ");
        if self.known.iter().any(|(k, _)| *k == key) {
            *self.lock().known_hit.entry(key).or_default() += 1;
            return;
        }
        let mut g = self.lock();
        if g.violations.contains_key(&key) {
            return;
        }
        let n = self.nviol.fetch_add(1, SeqCst);
        if n >= self.max_viol {
            return;
        }
        let dir = self.verif.join("build/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{:016x}.txt", self.prop, hash64(&key)));
        let _ = std::fs::write(&path, format!("property: {}\nkey: {}\n\n{}\n", self.prop, key, detail));
        let cut = |s: &str, n: usize| s.chars().take(n).collect::<String>().split_whitespace().collect::<Vec<_>>().join(" ");
        let n = std::env::var("BMC_LEN").ok().and_then(|s| s.parse().ok()).unwrap_or(300);
        eprintln!("violation key={}\n   {}", cut(&key, n), cut(&detail.to_string(), n));
        g.violations.insert(key, path.display().to_string());
    }
    pub fn n_violations(&self) -> usize {
        self.nviol.load(SeqCst)
    }
    pub fn too_many(&self) -> bool {
        self.nviol.load(Relaxed) >= self.max_viol
    }
    pub fn out_of_time(&self) -> bool {
        if Instant::now() > self.deadline {
            self.capped.store(true, SeqCst);
            return true;
        }
        false
    }
    pub fn stop(&self) -> bool {
        self.too_many() || self.out_of_time()
    }
    pub fn exec(&self) {
        self.executions.fetch_add(1, Relaxed);
    }
    pub fn trans(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    pub fn nontriv(&self) {
        self.nontrivial.fetch_add(1, Relaxed);
    }
    pub fn valid(&self) {
        self.validated.fetch_add(1, Relaxed);
    }
    /// Record a state; true if it is new.
    pub fn state(&self, h: u64) -> bool {
        self.seen[(h >> 32) as usize % 64].lock().unwrap_or_else(|e| e.into_inner()).0.insert(h)
    }
    pub fn outcome(&self, s: impl Into<String>) {
        let me = hash64(&std::thread::current().id());
        *self.seen[me as usize % 64].lock().unwrap_or_else(|e| e.into_inner()).1.entry(s.into()).or_default() += 1;
    }
    pub fn sample(&self, v: impl Into<serde_json::Value>) {
        let v = v.into();
        let mut g = self.lock();
        if g.samples.len() < 8 && g.sample_hashes.insert(hash64(&v.to_string())) {
            g.samples.push(v);
        }
    }
    pub fn assume(&self, s: &str) {
        self.lock().assumptions.push(s.into());
    }
    pub fn bound(&self, k: &str, v: impl Into<serde_json::Value>) {
        self.lock().bounds.insert(k.into(), v.into());
    }
    /// Write evidence, print verdict lines, return the exit code.
    pub fn finish(&self) -> i32 {
        let mut states = 0;
        let mut outcomes: HashMap<String, u64> = HashMap::new();
        for m in &self.seen {
            let m = m.lock().unwrap_or_else(|e| e.into_inner());
            states += m.0.len();
            m.1.iter().for_each(|(k, n)| *outcomes.entry(k.clone()).or_default() += n);
        }
        let g = self.lock();
        let wall = self.start.elapsed().as_secs_f64();
        let mut cov = serde_json::Map::new();
        let ex = self.executions.load(SeqCst);
        let tr = self.transitions.load(SeqCst);
        let exhaustive = !self.capped.load(SeqCst) && g.violations.is_empty();
        let evaluations = ex;
        if self.level == "model_checking" {
            cov.insert("states".into(), (states as u64).into());
            cov.insert("transitions".into(), tr.into());
            cov.insert("traces_validated_against_impl".into(), self.validated.load(SeqCst).into());
            cov.insert("executions".into(), evaluations.into());
        } else {
            cov.insert("evaluations".into(), evaluations.into());
            cov.insert("distinct_nontrivial".into(), self.nontrivial.load(SeqCst).into());
            cov.insert("distinct_states".into(), (states as u64).into());
            cov.insert("transitions".into(), tr.into());
        }
        let mut outs: Vec<_> = outcomes.iter().collect();
        outs.sort_by(|a, b| b.1.cmp(a.1).then(a.0.cmp(b.0)));
        cov.insert("distinct_outcomes".into(), (outs.len() as u64).into());
        cov.insert("outcomes".into(), outs.iter().take(24)
            .map(|(k, v)| serde_json::json!([k.chars().take(160).collect::<String>(), v])).collect::<Vec<_>>().into());
        cov.insert("samples".into(), g.samples.clone().into());
        cov.insert("bounds".into(), serde_json::to_value(&g.bounds).unwrap());
        cov.insert("rule".into(), rule_of(&self.prop).into());
        cov.insert("exhaustive".into(), exhaustive.into());
        if self.capped.load(SeqCst) {
            cov.insert("cap_hit".into(), "time cap reached: the space was not completed in this run".into());
        }
        let ev = serde_json::json!({
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": cov, "assumptions": g.assumptions, "wall_s": wall,
            "violations": g.violations.len(),
        });
        let _ = std::fs::create_dir_all(self.verif.join("evidence"));
        let p = self.verif.join(format!("evidence/{}.json", self.prop));
        std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("write evidence");
        for (k, what) in &self.known {
            if g.known_hit.contains_key(k) {
                println!("KNOWN-FINDING: property={} {}", self.prop, what);
            }
        }
        println!("{}: executions={} states={} transitions={} violations={} exhaustive={} wall={:.1}s",
            self.prop, ex, states, tr, g.violations.len(), exhaustive, wall);
        for path in g.violations.values() {
            println!("VIOLATION property={} replay={}", self.prop, path);
        }
        if !g.violations.is_empty() {
            1
        } else if ex == 0 {
            eprintln!("nothing was explored");
            3
        } else {
            0
        }
    }
}

fn rule_of(p: &str) -> String {
    crate::checks().iter().find(|c| c.id == p).map(|c| c.rule.to_string()).unwrap_or_default()
}

/// A source of choices for one execution.
pub struct Chooser {
    prefix: Vec<u32>,
    pub taken: Vec<(u32, u32)>, // (choice, arity)
    pub budget: Option<usize>,  // remaining deviations (for choose_dev)
    pub diverged: bool,
}
impl Chooser {
    pub fn new(prefix: Vec<u32>) -> Self {
        Chooser { prefix, taken: vec![], budget: None, diverged: false }
    }
    /// Choose one of `n` alternatives.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0);
        let i = self.taken.len();
        let c = self.prefix.get(i).copied().unwrap_or(0);
        if c as usize >= n {
            self.diverged = true;
            panic!("ENGINE: replay diverged at point {i}: choice {c} of {n}");
        }
        self.taken.push((c, n as u32));
        c as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.choose(xs.len());
        &xs[i]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn choices(&self) -> Vec<u32> {
        self.taken.iter().map(|c| c.0).collect()
    }
}

struct Work {
    queue: Vec<Vec<u32>>,
    active: usize,
}

/// Enumerate every choice sequence of `f` (stateless DFS), in parallel. `init` makes per-thread state.
pub fn dfs<W, I, F>(ctx: &Ctx, init: I, f: F)
where
    I: Fn(usize) -> W + Sync,
    F: Fn(&mut W, &mut Chooser) + Sync,
{
    let work = Mutex::new(Work { queue: vec![vec![]], active: 0 });
    let cv = Condvar::new();
    std::thread::scope(|s| {
        for t in 0..ctx.threads {
            let (work, cv, init, f) = (&work, &cv, &init, &f);
            s.spawn(move || {
                let mut w: Option<W> = None;
                let mut local: Vec<Vec<u32>> = vec![];
                loop {
                    let prefix = match local.pop() {
                        Some(p) => p,
                        None => {
                            let mut g = work.lock().unwrap();
                            loop {
                                if let Some(p) = g.queue.pop() {
                                    g.active += 1;
                                    break p;
                                }
                                if g.active == 0 {
                                    cv.notify_all();
                                    return;
                                }
                                g = cv.wait(g).unwrap();
                            }
                        }
                    };
                    if !ctx.stop() {
                        let st = w.get_or_insert_with(|| init(t));
                        let n = prefix.len();
                        let mut ch = Chooser::new(prefix);
                        f(st, &mut ch);
                        ctx.exec();
                        // alternatives beyond the prefix, deepest first
                        for i in n..ch.taken.len() {
                            for alt in 1..ch.taken[i].1 {
                                let mut p: Vec<u32> = ch.taken[..i].iter().map(|c| c.0).collect();
                                p.push(alt);
                                local.push(p);
                            }
                        }
                    } else {
                        local.clear();
                    }
                    let mut g = work.lock().unwrap();
                    if g.queue.len() < 4 * ctx.threads && local.len() > 1 {
                        // share the shallowest half
                        let k = local.len() / 2;
                        g.queue.extend(local.drain(..k));
                        cv.notify_all();
                    }
                    if local.is_empty() {
                        g.active -= 1;
                        if g.active == 0 && g.queue.is_empty() {
                            cv.notify_all();
                        }
                    }
                }
            });
        }
    });
}

/// Run `f` on every item of an index range, in parallel (a flat, complete enumeration).
pub fn par<W, I, F>(ctx: &Ctx, n: usize, init: I, f: F)
where
    I: Fn(usize) -> W + Sync,
    F: Fn(&mut W, usize) + Sync,
{
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for t in 0..ctx.threads.min(n.max(1)) {
            let (next, init, f) = (&next, &init, &f);
            s.spawn(move || {
                let mut w = None;
                loop {
                    let i = next.fetch_add(1, Relaxed);
                    if i >= n || ctx.stop() {
                        break;
                    }
                    f(w.get_or_insert_with(|| init(t)), i);
                    ctx.exec();
                }
            });
        }
    });
}

/// Explicit-state breadth-first search over operation histories.  `run` executes a whole history from
/// the initial state (checking the oracle at every step) and returns the canonical key of the state it
/// ends in, or None when the history is not to be extended (not enabled, or a violation was reported).
pub fn bfs<W, O, I, F>(ctx: &Ctx, tag: &str, ops: &[O], depth: usize, init: I, run: F) -> usize
where
    O: Clone + Sync + std::fmt::Debug,
    W: Send,
    I: Fn(usize) -> W + Sync,
    F: Fn(&mut W, &[usize]) -> Option<u64> + Sync,
{
    let seen: Mutex<HashSet<u64>> = Mutex::default();
    let mut frontier: Vec<Vec<u16>> = vec![vec![]];
    let pool: Vec<Mutex<Option<W>>> = (0..ctx.threads).map(|_| Mutex::new(None)).collect();
    {
        let mut g = pool[0].lock().unwrap();
        let st = g.get_or_insert_with(|| init(0));
        if let Some(k) = run(st, &[]) {
            seen.lock().unwrap().insert(k);
            ctx.state(hash64(&(tag, k)));
        }
        ctx.exec();
    }
    let mut done = 0;
    for d in 0..depth {
        let next: Mutex<Vec<(u64, Vec<u16>)>> = Mutex::default();
        let idx = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for t in 0..ctx.threads {
                let (idx, frontier, next, seen, pool, init, run) = (&idx, &frontier, &next, &seen, &pool, &init, &run);
                s.spawn(move || {
                    let mut g = pool[t].lock().unwrap();
                    let total = frontier.len() * ops.len();
                    loop {
                        let i = idx.fetch_add(1, Relaxed);
                        if i >= total || ctx.stop() {
                            break;
                        }
                        let st = g.get_or_insert_with(|| init(t));
                        let mut h: Vec<usize> = frontier[i / ops.len()].iter().map(|x| *x as usize).collect();
                        h.push(i % ops.len());
                        ctx.exec();
                        ctx.trans(1);
                        if let Some(k) = run(st, &h) {
                            ctx.valid();
                            if seen.lock().unwrap().insert(k) {
                                ctx.state(hash64(&(tag, k)));
                                next.lock().unwrap().push((k, h.iter().map(|x| *x as u16).collect()));
                            }
                        }
                    }
                });
            }
        });
        if ctx.stop() {
            break;
        }
        done = d + 1;
        let mut n = next.into_inner().unwrap();
        n.sort_by(|a, b| a.1.cmp(&b.1));
        if let Some(x) = n.last() {
            let names: Vec<String> = x.1.iter().map(|o| format!("{:?}", ops[*o as usize])).collect();
            ctx.sample(serde_json::json!({"space": tag, "depth": d + 1, "history": names}));
        }
        frontier = n.into_iter().map(|x| x.1).collect();
        if frontier.is_empty() {
            break;
        }
    }
    ctx.bound(&format!("depth[{tag}]"), done as u64);
    done
}

/// Run `f`, turning a panic into Err(message). Engine panics are propagated.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
                else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
                else { "panic".into() };
            if m.starts_with("ENGINE") {
                std::panic::resume_unwind(Box::new(m));
            }
            Err(m)
        }
    }
}
