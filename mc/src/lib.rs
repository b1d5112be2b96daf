//! Bounded exhaustive explorer shared by every property check.
//!
//! Two kinds of space are explored, both completely, both on the real code of /repo:
//!
//! * `space`: every point of a finite product of small alphabets (an index range). Each point is one
//!   execution: the harness closure decodes it, drives the real API and compares every observation
//!   with a reference model.
//! * `bfs`: breadth-first search over every operation sequence up to a depth. A node is a pair (real
//!   object, reference model); each edge applies one operation to both and compares them. Nodes are
//!   merged only when the caller supplies a key that contains the *whole* state of the real object
//!   (its Debug form) and of the model, so merged nodes have the same futures.
//!
//! Every execution runs under `catch_unwind` (a panic is a violation) and under a watchdog (a call that
//! does not return is a violation).

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::{Relaxed, SeqCst}};
use std::time::{Duration, Instant};

pub mod kin;
pub mod la;
pub mod num;
pub mod robot;
pub mod xmlref;
pub mod refmodel;

pub type Res = Result<u64, String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

struct Violation {
    space: String,
    case: String,
    path: Vec<u64>,
    msg: String,
}

struct SpaceStat {
    kind: &'static str,
    states: u64,
    transitions: u64,
    traces: u64,
    depth: u64,
    outcomes: u64,
    wall: f64,
}

struct Slot {
    start_ms: AtomicU64,
    label: Mutex<(String, Vec<u64>, String)>,
}

pub struct Ck {
    pub prop: &'static str,
    pub tier: Tier,
    seed: i64,
    t0: Instant,
    replay: Option<(String, Vec<u64>)>,
    replay_hit: AtomicBool,
    stats: Mutex<BTreeMap<String, SpaceStat>>,
    samples: Mutex<Vec<String>>,
    viol: Mutex<Vec<Violation>>,
    viol_count: AtomicU64,
    known: Vec<(String, String)>,
    known_hit: Mutex<BTreeMap<(String, String), String>>,
    assumptions: Mutex<Vec<String>>,
    slots: &'static [Slot],
    only: Option<String>,

}

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

/// Number of worker threads.
pub const WORKERS: usize = 8;

impl Ck {
    pub fn new(prop: &'static str) -> Ck {
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let args: Vec<String> = std::env::args().collect();
        let mut replay = None;
        let mut only = None;
        if let Some(i) = args.iter().position(|a| a == "--replay") {
            let text = std::fs::read_to_string(&args[i + 1]).unwrap_or_else(|e| {
                eprintln!("cannot read replay file: {e}");
                std::process::exit(2)
            });
            let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
            let path = get("path:").split_whitespace().filter_map(|x| x.parse().ok()).collect();
            replay = Some((get("space:"), path));
        }
        if let Some(i) = args.iter().position(|a| a == "--only") {
            only = args.get(i + 1).cloned();
        }
        let known = std::fs::read_to_string(format!("{}/known_findings.txt", root()))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                // known: property=C01 space=<space> case=<case text to end of line, before " :: ">
                let l = l.strip_prefix("known: property=")?;
                let (p, rest) = l.split_once(' ')?;
                if p != prop {
                    return None;
                }
                let rest = rest.strip_prefix("space=")?;
                let (s, rest) = rest.split_once(' ')?;
                let c = rest.strip_prefix("case=")?;
                let c = c.split(" :: ").next().unwrap_or(c);
                Some((s.to_string(), c.trim().to_string()))
            })
            .collect();
        let slots: Vec<Slot> = (0..WORKERS + 1)
            .map(|_| Slot { start_ms: AtomicU64::new(0), label: Mutex::new(Default::default()) })
            .collect();
        let slots: &'static [Slot] = Box::leak(slots.into_boxed_slice());
        if std::env::var("MC_BACKTRACE").is_err() {
            std::panic::set_hook(Box::new(|_| {}));
        }
        let hang_s = std::env::var("MC_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(45);
        let ck = Ck {
            prop,
            tier,
            seed,
            t0: Instant::now(),
            replay,
            replay_hit: AtomicBool::new(false),
            stats: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(vec![]),
            viol: Mutex::new(vec![]),
            viol_count: AtomicU64::new(0),
            known,
            known_hit: Mutex::new(BTreeMap::new()),
            assumptions: Mutex::new(vec![]),
            slots,
            only,

        };
        let t0 = ck.t0;
        std::thread::spawn(move || watchdog(prop, slots, t0, hang_s));
        ck
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// quick value or thorough value
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }

    fn skip(&self, name: &str) -> bool {
        if let Some((s, _)) = &self.replay {
            return s != name;
        }
        if let Some(o) = &self.only {
            return !name.contains(o.as_str());
        }
        false
    }

    fn report(&self, space: &str, case: String, path: Vec<u64>, msg: String) {
        let key = (space.to_string(), case.clone());
        if self.known.iter().any(|k| *k == key) {
            self.known_hit.lock().unwrap().entry(key).or_insert(msg);
            return;
        }
        self.viol_count.fetch_add(1, Relaxed);
        let mut v = self.viol.lock().unwrap();
        // keep the smallest example of each space
        if let Some(old) = v.iter_mut().find(|o| o.space == space) {
            if (path.len(), &path) < (old.path.len(), &old.path) {
                *old = Violation { space: space.into(), case, path, msg };
            }
        } else {
            v.push(Violation { space: space.into(), case, path, msg });
        }
    }

    fn enter(&self, w: usize, space: &str, path: &[u64], case: impl FnOnce() -> String) {
        let s = &self.slots[w];
        WORKER.with(|c| c.set(w));
        {
            let mut l = s.label.lock().unwrap();
            l.0.clear();
            l.0.push_str(space);
            l.1.clear();
            l.1.extend_from_slice(path);
            l.2 = case();
        }
        s.start_ms.store(self.t0.elapsed().as_millis() as u64 + 1, Relaxed);
    }
    fn leave(&self, w: usize) {
        self.slots[w].start_ms.store(0, Relaxed);
    }

    /// Explores every index `0..n`. `show` names the case, `f` executes it on the real code and
    /// returns a hash of what was observed (to measure how many distinct outcomes occurred).
    pub fn space(
        &self,
        name: &str,
        n: u64,
        show: impl Fn(u64) -> String + Sync,
        f: impl Fn(u64) -> Res + Sync,
    ) {
        if self.skip(name) {
            return;
        }
        let t = Instant::now();
        if let Some((_, path)) = &self.replay {
            let i = path.first().copied().unwrap_or(0);
            self.replay_hit.store(true, Relaxed);
            if i >= n {
                eprintln!("replay index outside the space");
                std::process::exit(2);
            }
            let r = guarded(|| f(i));
            println!("replay {} case {} -> {:?}", name, show(i), r);
            if let Err(m) = r {
                self.report(name, show(i), vec![i], m);
            }
            return;
        }
        let next = AtomicU64::new(0);
        let ops = AtomicU64::new(0);
        let outcomes: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
        let chunk = (n / (WORKERS as u64 * 64)).clamp(1, 4096);
        std::thread::scope(|sc| {
            for w in 0..WORKERS {
                let (next, outcomes, f, show, ops) = (&next, &outcomes, &f, &show, &ops);
                sc.spawn(move || {
                    let mut local: HashSet<u64> = HashSet::new();
                    let ops0 = take_ops();
                    let _ = ops0;
                    loop {
                        let a = next.fetch_add(chunk, Relaxed);
                        if a >= n {
                            break;
                        }
                        for i in a..(a + chunk).min(n) {
                            self.enter(w, name, &[i], String::new);
                            match guarded(|| f(i)) {
                                Ok(h) => {
                                    if local.len() < 200_000 {
                                        local.insert(h);
                                    }
                                }
                                Err(m) => self.report(name, show(i), vec![i], m),
                            }
                            self.leave(w);
                        }
                    }
                    ops.fetch_add(take_ops(), Relaxed);
                    outcomes.lock().unwrap().extend(local);
                });
            }
        });
        {
            let mut s = self.samples.lock().unwrap();
            for i in [0, n / 2, n.saturating_sub(1)] {
                if i < n && s.len() < 400 {
                    s.push(format!("{name}: {}", show(i)));
                }
            }
        }
        let o = outcomes.into_inner().unwrap().len() as u64;
        let tr = ops.load(Relaxed).max(n);
        self.stat(name, SpaceStat { kind: "space", states: n, transitions: tr, traces: n, depth: 1, outcomes: o, wall: t.elapsed().as_secs_f64() });
    }

    fn stat(&self, name: &str, s: SpaceStat) {
        println!(
            "{} {:<44} {} states={} transitions={} depth={} distinct_outcomes={} {:.2}s",
            self.prop, name, s.kind, s.states, s.transitions, s.depth, s.outcomes, s.wall
        );
        let mut m = self.stats.lock().unwrap();
        if m.insert(name.to_string(), s).is_some() {
            eprintln!("two spaces named {name}");
            std::process::exit(2);
        }
    }

    /// Breadth-first search over all operation sequences up to `depth`.
    ///
    /// `S` holds the real object and its reference model. `step(state, action)` applies the action to
    /// both and compares. `key` returns the canonical full state for merging (None: never merge).
    pub fn bfs<S: Clone + Send + Sync>(
        &self,
        name: &str,
        depth: usize,
        init: &(dyn Fn() -> Result<S, String> + Sync),
        actions: u64,
        show: &(dyn Fn(u64) -> String + Sync),
        step: &(dyn Fn(&mut S, u64) -> Res + Sync),
        key: &(dyn Fn(&S) -> Option<u128> + Sync),
    ) {
        if self.skip(name) {
            return;
        }
        let t = Instant::now();
        let start = match guarded_t(init) {
            Ok(s) => s,
            Err(m) => {
                self.report(name, "initial state".into(), vec![], m);
                return;
            }
        };
        let show_path = |p: &[u64]| p.iter().map(|a| show(*a)).collect::<Vec<_>>().join("; ");
        if let Some((_, path)) = &self.replay {
            self.replay_hit.store(true, Relaxed);
            let mut s = start;
            for (k, a) in path.iter().enumerate() {
                let r = guarded(|| step(&mut s, *a));
                println!("replay {} step {} {} -> {:?}", name, k, show(*a), r);
                if let Err(m) = r {
                    self.report(name, show_path(&path[..=k]), path[..=k].to_vec(), m);
                    break;
                }
            }
            return;
        }
        let seen: Mutex<HashSet<u128>> = Mutex::new(HashSet::new());
        if let Some(k) = key(&start) {
            seen.lock().unwrap().insert(k);
        }
        let outcomes: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
        let trans = AtomicU64::new(0);
        let mut states = 1u64;
        let mut frontier: Vec<(S, Vec<u8>)> = vec![(start, vec![])];
        let mut reached = 0;
        let mut traces = 0u64;
        assert!(actions <= 256);
        for d in 0..depth {
            let next: Mutex<Vec<(S, Vec<u8>)>> = Mutex::new(vec![]);
            let cur = AtomicU64::new(0);
            let chunk = (frontier.len() / (WORKERS * 16)).clamp(1, 512);
            let last = d + 1 == depth;
            let fr = &frontier;
            let made = AtomicU64::new(0);
            std::thread::scope(|sc| {
                for w in 0..WORKERS {
                    let (next, cur, outcomes, trans, seen, made) = (&next, &cur, &outcomes, &trans, &seen, &made);
                    sc.spawn(move || {
                        let mut out = vec![];
                        let mut loc: HashSet<u64> = HashSet::new();
                        loop {
                            let a = cur.fetch_add(chunk as u64, Relaxed) as usize;
                            if a >= fr.len() {
                                break;
                            }
                            for (s, path) in &fr[a..(a + chunk).min(fr.len())] {
                                for act in 0..actions {
                                    let mut p: Vec<u64> = path.iter().map(|x| *x as u64).collect();
                                    p.push(act);
                                    self.enter(w, name, &p, String::new);
                                    let mut s2 = s.clone();
                                    let r = guarded(|| step(&mut s2, act));
                                    self.leave(w);
                                    trans.fetch_add(1, Relaxed);
                                    match r {
                                        // u64::MAX: the action is not enabled here
                                        Ok(u64::MAX) => {}
                                        Ok(h) => {
                                            if loc.len() < 200_000 {
                                                loc.insert(h);
                                            }
                                            let fresh = match key(&s2) {
                                                Some(k) => seen.lock().unwrap().insert(k),
                                                None => true,
                                            };
                                            if fresh {
                                                made.fetch_add(1, Relaxed);
                                                if !last {
                                                    let mut np = path.clone();
                                                    np.push(act as u8);
                                                    out.push((s2, np));
                                                }
                                            }
                                        }
                                        Err(m) => self.report(name, p.iter().map(|a| show(*a)).collect::<Vec<_>>().join("; "), p, m),
                                    }
                                }
                            }
                        }
                        next.lock().unwrap().extend(out);
                        outcomes.lock().unwrap().extend(loc);
                    });
                }
            });
            states += made.load(Relaxed);
            traces += made.load(Relaxed);
            reached = d + 1;
            let mut nf = next.into_inner().unwrap();
            nf.sort_by(|a, b| a.1.cmp(&b.1));
            if !nf.is_empty() {
                let mut s = self.samples.lock().unwrap();
                let p: Vec<u64> = nf[nf.len() / 2].1.iter().map(|x| *x as u64).collect();
                if s.len() < 400 && d + 2 >= depth {
                    s.push(format!("{name}: {}", show_path(&p)));
                }
            }
            frontier = nf;
            if frontier.is_empty() || self.viol_count.load(Relaxed) > 200 {
                break;
            }
        }
        let o = outcomes.into_inner().unwrap().len() as u64;
        self.stat(
            name,
            SpaceStat { kind: "bfs", states, transitions: trans.load(Relaxed), traces, depth: reached as u64, outcomes: o, wall: t.elapsed().as_secs_f64() },
        );
    }

    pub fn finish(self) -> ! {
        if self.replay.is_some() && !self.replay_hit.load(Relaxed) {
            eprintln!("the replay's space was not found");
            std::process::exit(2);
        }
        for ((s, c), m) in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {} [{}] {}", self.prop, s, c, m);
        }
        let viol = self.viol.lock().unwrap();
        let n = self.viol_count.load(Relaxed);
        if self.replay.is_none() && self.only.is_none() {
            self.evidence(n);
        }
        if n == 0 {
            println!("{}: held on everything explored, {:.1}s", self.prop, self.t0.elapsed().as_secs_f64());
            std::process::exit(0)
        }
        for v in viol.iter() {
            println!("  violated in {}: case [{}]: {}", v.space, v.case, v.msg);
            let path = write_replay(self.prop, &v.space, &v.case, &v.path, &v.msg);
            println!("VIOLATION property={} replay={}", self.prop, path);
        }
        println!("{}: {} violating executions", self.prop, n);
        std::process::exit(1)
    }

    fn evidence(&self, violations: u64) {
        let st = self.stats.lock().unwrap();
        let (mut states, mut trans, mut traces, mut outs) = (0, 0, 0, 0);
        let mut spaces = String::new();
        for (k, s) in st.iter() {
            states += s.states;
            trans += s.transitions;
            traces += s.traces;
            outs += s.outcomes;
            let _ = write!(
                spaces,
                "{}\n    {{\"name\":{},\"kind\":\"{}\",\"states\":{},\"transitions\":{},\"depth\":{},\"distinct_outcomes\":{},\"wall_s\":{:.3}}}",
                if spaces.is_empty() { "" } else { "," },
                js(k), s.kind, s.states, s.transitions, s.depth, s.outcomes, s.wall
            );
        }
        let samples = self.samples.lock().unwrap();
        let stepn = (samples.len() / 24).max(1);
        let sm: Vec<String> = samples.iter().step_by(stepn).take(40).map(|s| js(&s.chars().take(400).collect::<String>())).collect();
        let assume: Vec<String> = self.assumptions.lock().unwrap().iter().map(|s| js(s)).collect();
        let j = format!(
            "{{\n \"property\":\"{}\",\n \"tier\":\"{}\",\n \"seed\":{},\n \"level\":\"model_checking\",\n \"coverage\":{{\n  \"states\":{},\n  \"transitions\":{},\n  \"traces_validated_against_impl\":{},\n  \"distinct_outcomes\":{},\n  \"exhaustive\":true,\n  \"rule\":\"every point of each listed finite space (space) and every operation sequence up to the listed depth (bfs) is executed on the real code built from /repo and compared with a reference model; nothing is sampled\",\n  \"samples\":[{}],\n  \"spaces\":[{}\n  ]\n }},\n \"assumptions\":[{}],\n \"wall_s\":{:.2},\n \"violations\":{}\n}}\n",
            self.prop,
            if self.thorough() { "thorough" } else { "quick" },
            self.seed,
            states, trans, traces, outs,
            sm.join(","),
            spaces,
            assume.join(","),
            self.t0.elapsed().as_secs_f64(),
            violations
        );
        let dir = format!("{}/evidence", root());
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(format!("{dir}/{}.json", self.prop), j) {
            eprintln!("cannot write evidence: {e}");
            std::process::exit(2);
        }
    }
}

fn write_replay(prop: &str, space: &str, case: &str, path: &[u64], msg: &str) -> String {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let safe: String = space.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect();
    let p = format!("{dir}/{prop}-{safe}.txt");
    let text = format!(
        "property: {prop}\nspace: {space}\npath: {}\ncase: {case}\nmessage: {msg}\nreplay with: bash /verif/run.sh {prop} --replay {p}\n",
        path.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
    );
    let _ = std::fs::write(&p, text);
    p
}

thread_local!(static WORKER: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) });
/// the worker whose call brought the process down, plus one
static CRASHED: AtomicU64 = AtomicU64::new(0);
unsafe extern "C" {
    fn signal(sig: i32, handler: extern "C" fn(i32)) -> usize;
    fn pause() -> i32;
}
/// An abort (a stack overflow, a panic while panicking) stops the thread here; the watchdog reports it.
extern "C" fn crashed(_sig: i32) {
    let w = WORKER.try_with(|c| c.get()).unwrap_or(usize::MAX);
    CRASHED.store(if w == usize::MAX { u64::MAX } else { w as u64 + 1 }, SeqCst);
    loop {
        unsafe { pause() };
    }
}
/// bytes of memory held
fn resident() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split_whitespace().nth(1).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0) * 4096
}

fn watchdog(prop: &'static str, slots: &'static [Slot], t0: Instant, hang_s: u64) {
    for sig in [4, 6, 7, 8] {
        unsafe { signal(sig, crashed) };
    }
    let give_up = |s: &Slot, what: &str, msg: &str| -> ! {
        let l = s.label.lock().unwrap();
        let p = write_replay(prop, &l.0, &l.2, &l.1, what);
        println!("  {} path {:?}: {msg}", l.0, l.1);
        println!("VIOLATION property={prop} replay={p}");
        std::process::exit(1);
    };
    loop {
        std::thread::sleep(Duration::from_millis(100));
        let now = t0.elapsed().as_millis() as u64;
        match CRASHED.load(SeqCst) {
            0 => {}
            u64::MAX => std::process::exit(3),
            w => give_up(&slots[w as usize - 1], "the call aborted", "a call brought the process down"),
        }
        // memory that grows without end while one call goes on
        let limit = if resident() > 12 << 30 { 3 } else { hang_s };
        for s in slots {
            let st = s.start_ms.load(Relaxed);
            if st != 0 && now > st + limit * 1000 {
                let l = s.label.lock().unwrap();
                if s.start_ms.load(Relaxed) != st {
                    continue;
                }
                drop(l);
                give_up(s, "the call did not return", &format!("a call did not return within {limit} s"));
            }
        }
    }
}

fn guarded(f: impl FnOnce() -> Res) -> Res {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => Err(format!("panicked: {}", panic_text(&e))),
    }
}
fn guarded_t<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => Err(format!("panicked: {}", panic_text(&e))),
    }
}
fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// Escapes a string as JSON.
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

thread_local! { static OPS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
/// Counts comparisons of a real call with the model, for the transition count.
pub fn op(n: u64) {
    OPS.with(|o| o.set(o.get() + n));
}
fn take_ops() -> u64 {
    OPS.with(|o| o.replace(0))
}

/// Mixed-radix decoder: takes digits off an index.
pub struct Dig(pub u64);
impl Dig {
    pub fn n(&mut self, radix: usize) -> usize {
        let r = (self.0 % radix as u64) as usize;
        self.0 /= radix as u64;
        r
    }
    pub fn of<'a, T>(&mut self, a: &'a [T]) -> &'a T {
        &a[self.n(a.len())]
    }
    pub fn pick<T: Copy>(&mut self, a: &[T]) -> T {
        a[self.n(a.len())]
    }
    /// `n` digits from one alphabet
    pub fn arr<const N: usize, T: Copy>(&mut self, a: &[T]) -> [T; N] {
        std::array::from_fn(|_| self.pick(a))
    }
}

/// FNV style hash of any Debug value: the full state, since Debug prints floats exactly.
pub fn hkey(d: &impl std::fmt::Debug) -> u128 {
    struct W(u128);
    impl std::fmt::Write for W {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for b in s.bytes() {
                self.0 ^= b as u128;
                self.0 = self.0.wrapping_mul(0x0000000001000000000000000000013B);
            }
            Ok(())
        }
    }
    let mut w = W(0x6c62272e07bb014262b821756295c58d);
    let _ = write!(w, "{:?}", d);
    w.0
}
pub fn h64(d: &impl std::fmt::Debug) -> u64 {
    let k = hkey(d);
    ((k >> 64) as u64 ^ k as u64) & (u64::MAX >> 1)
}
/// Cheap hash of floats.
pub fn hf(xs: &[f64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in xs {
        h ^= x.to_bits();
        h = h.wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h & (u64::MAX >> 1)
}

/// `|a-b| <= atol + rtol*max(|a|,|b|)`; NaN equals NaN, infinities equal themselves.
pub fn close(a: f64, b: f64, rtol: f64, atol: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a == b {
        return true;
    }
    if a.is_infinite() || b.is_infinite() {
        return false;
    }
    (a - b).abs() <= atol + rtol * a.abs().max(b.abs())
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! ensure_close {
    ($a:expr, $b:expr, $r:expr, $t:expr, $($m:tt)*) => {{
        let (a, b) = (($a) as f64, ($b) as f64);
        $crate::op(1);
        if !$crate::close(a, b, ($r) as f64, ($t) as f64) {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b));
        }
    }};
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        $crate::op(1);
        if *a != *b {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b));
        }
    }};
}
